package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "C29", title: "block fields are read from the block's own fork",
		explain: "every getter of FullBlock is interpreted on a block of every fork with unknown contents (the other forks' members nil): the result must be the field of that fork's own message, in one common byte order for the base fee; Altair and empty blocks must stop where the property demands it. SetConsensusBlock is interpreted with matching and mismatching slot and proposer.",
		run:     runC29, minOblig: 45})
	register(&Rule{id: "C31", title: "the vanilla reward is the exact proposer tip",
		explain: "GetProposerTip is interpreted on blocks with zero to three transactions of each known type, each side of the saturation of the gas price, with unknown amounts: the result must be the polynomial of the statement. With a missing header or receipts, other counts or hashes, undecodable transactions or unknown types it must be a definite error.",
		run:     runC31, minOblig: 60})
	register(&Rule{id: "C32", title: "withdrawal credentials are classified by their exact prefix",
		explain: "the classification functions are interpreted on credentials with known prefix bytes and unknown rest, one class per prefix byte value of interest, per position of a non-zero padding byte, and per length; the address must be the last twenty bytes.",
		run:     runC32, minOblig: 100})
	register(&Rule{id: "C30", title: "rewards are classified MEV or vanilla, never counted twice",
		explain: "MevRewardInWei, GetSentRewardAndType, isAddressRewarded, GetDonations and SummarizedBlock are interpreted over the product of: last transaction (absent, creation, to the pool, to another), its sender (fee recipient, whitelisted builder, other), fee recipient (pool, other), ether-received events (none, of that value, of another, two of that value), proposer (subscribed or not), chain; amounts and the remaining contents are unknown.",
		run:     runC30, minOblig: 300})
}

// block scenario: an oracle.FullBlock around a beacon block of the given fork
func (c *Ctx) blockScn(name, fork string) (*Scn, *node) {
	s := c.scn(name)
	s.freshGlobals()
	n := s.node()
	n.slot = s.I.Range("slot", 12000000, big.NewInt(1<<60))
	n.block = s.I.Range("N", 1, maxU64)
	n.fork = fork
	n.pslot = n.slot
	s.u64("p")
	s.I.Uniq("pool", "builder", "outsider", "b:pool", "b:builder", "b:outsider")
	n.fee = addrBytes("builder")
	s.I.Range("basefee", 0, nil)
	return s, n
}

func (s *Scn) nodeBlock(n *node, f map[string]Val) *Ptr {
	c := s.c
	m := map[string]Val{
		".ConsensusDuty": s.mkT(c.named(v1pkg, "ProposerDuty"), "duty", map[string]Val{".Slot": n.slot, ".ValidatorIndex": numAtom("p"), ".PubKey": keyBytes("k:p")}),
		".Validator":     n.validator(s.st, numAtom("p"), "head"),
		".Events":        s.mk("oracle", "Events", nil),
		".ChainId":       numI(560048),
	}
	if n.fork != "" {
		m[".ConsensusBlock"] = n.beaconBlock(s.st, s.I.decS(n.slot).key())
	}
	for k, v := range f {
		m[k] = v
	}
	return s.mk("oracle", "FullBlock", m)
}

func basefeeBytes(le bool) *Str {
	r := &Str{}
	for i := 0; i < 32; i++ {
		j := i
		if le {
			j = 31 - i
		}
		r.parts = append(r.parts, SPart{atom: fmt.Sprintf("basefeeBE.%d", j), n: 1})
	}
	return r
}

func runC29(c *Ctx) {
	const rule, stop = "field of the block's own fork", "a block without the field stops"
	type getter struct {
		name   string
		altair bool
		want   func(s *Scn, n *node) Val
	}
	getters := []getter{
		{"GetSlot", true, func(s *Scn, n *node) Val { return n.slot }},
		{"GetSlotUint64", true, func(s *Scn, n *node) Val { return n.slot }},
		{"GetProposerIndex", true, func(s *Scn, n *node) Val { return numAtom("p") }},
		{"GetProposerIndexUint64", true, func(s *Scn, n *node) Val { return numAtom("p") }},
		{"GetBlockNumber", false, func(s *Scn, n *node) Val { return n.block }},
		{"GetBlockNumberBigInt", false, func(s *Scn, n *node) Val { return n.block }},
		{"GetFeeRecipient", false, func(s *Scn, n *node) Val { return addrStr("builder", "any") }},
		{"GetBlockTransactions", false, nil},
		{"GetGasUsed", false, func(s *Scn, n *node) Val { return s.I.Range("gasused", 0, nil) }},
		{"GetBaseFeePerGas", false, nil},
	}
	for _, g := range getters {
		fn := c.anchor("oracle", "*FullBlock", g.name)
		for _, fork := range append([]string{"Altair", "empty"}, forks...) {
			s, n := c.blockScn(fork+" block", fork)
			if fork == "empty" {
				n.fork = ""
			}
			for i := 0; i < 2; i++ {
				n.addTx(fmt.Sprintf("t%d", i), 2, addrBytes("outsider"), addrBytes("outsider"))
			}
			f := map[string]Val{}
			if fork == "empty" {
				f[".ConsensusBlock"] = s.mkT(c.named(clPkg+"/spec", "VersionedSignedBeaconBlock"), "empty block", map[string]Val{".Version": numI(5)})
			}
			fb := s.nodeBlock(n, f)
			ret := s.call(fn, fb)
			if fork == "empty" || fork == "Altair" && !g.altair {
				s.stops(stop)
				continue
			}
			switch g.name {
			case "GetBlockTransactions":
				if !s.clean(rule) {
					continue
				}
				es, ok := s.I.elems(s.st, ret, c.named(clPkg+"/spec/bellatrix", "Transaction"))
				var ks []string
				for _, e := range es {
					ks = append(ks, txName(e.key()))
				}
				c.Check(ok && strings.Join(ks, " ") == "t0 t1", rule, s.name+" "+g.name, s.pos(), "gives %v instead of the block's transactions", ks)
			case "GetBaseFeePerGas":
				if !s.clean(rule) {
					continue
				}
				x, _ := toStr(s.I.res(s.st, ret))
				c.Check(x != nil && x.key() == basefeeBytes(true).key(), rule, s.name+" "+g.name, s.pos(), "gives %s instead of the base fee in little-endian bytes", trunc(ret.key(), 200))
			case "GetBlockNumberBigInt":
				if s.clean(rule) {
					k := s.I.bigOf(s.st, ret, "-").key()
					c.Check(k == "N", rule, s.name+" "+g.name, s.pos(), "gives %s", k)
				}
			case "GetFeeRecipient":
				if s.clean(rule) {
					x, _ := toStr(s.I.res(s.st, ret))
					ok := x != nil && lowerS(x).key() == lowerS(addrStr("builder", "x")).key()
					c.Check(ok, rule, s.name+" "+g.name, s.pos(), "gives %s", trunc(ret.key(), 200))
				}
			default:
				s.expectRet(rule, g.want(s, n))
			}
		}
	}
	set := c.anchor("oracle", "*FullBlock", "SetConsensusBlock")
	for _, fork := range append([]string{"Altair", "empty"}, forks...) {
		for _, k := range []string{"matching", "proposer of another index", "block of another slot"} {
			s, n := c.blockScn(fork+" block, "+k, fork)
			if fork == "empty" {
				n.fork = ""
			}
			fb := s.nodeBlock(n, map[string]Val{".ConsensusBlock": VNil{}})
			var b Val
			switch k {
			case "matching":
				b = n.beaconBlock(s.st, s.I.decS(n.slot).key())
			case "proposer of another index":
				n.prop = s.u64("q")
				s.sign(nSub(numAtom("q"), numAtom("p")), mPos)
				b = n.beaconBlock(s.st, s.I.decS(n.slot).key())
			default:
				b = n.beaconBlock(s.st, "\"7\"")
				s.sign(nSub(numAtom("slot of \"7\""), n.slot), mPos)
				s.sign(nSub(numAtom("proposer of \"7\""), numAtom("p")), mZero)
			}
			if fork == "empty" {
				b = s.mkT(c.named(clPkg+"/spec", "VersionedSignedBeaconBlock"), "empty block", map[string]Val{".Version": numI(5)})
			}
			s.call(set, fb, b)
			if k != "matching" || fork == "empty" {
				s.stops("a block of another slot or proposer stops")
				continue
			}
			if s.clean("the matching block is taken") {
				v, err := s.I.Get(s.st, fb, types.NewPointer(c.named("oracle", "FullBlock")), ".ConsensusBlock")
				c.Check(err == nil && v.key() == b.key(), "the matching block is taken", s.name, s.pos(), "the block holds %v", v)
			}
		}
	}
	c.Min(rule, 44)
	c.Min(stop, 16)
}

func (s *Scn) receipts(n *node, txs []string, swap bool) Val {
	var rs []Val
	rt := s.c.named(gethPkg+"/core/types", "Receipt")
	for i := range txs {
		h := txs[i]
		if swap {
			h = txs[len(txs)-1-i]
		}
		s.I.Uniq("hash("+h+")", "b:hash("+h+")")
		rs = append(rs, s.mkT(rt, "receipt", map[string]Val{
			".TxHash":      &Str{parts: []SPart{{atom: "b:hash(" + h + ")", n: 32}}},
			".GasUsed":     s.I.Range("gas("+h+")", 1, big.NewInt(1<<60)),
			".BlockNumber": n.block,
			".Status":      numI(1),
		}))
	}
	return s.I.mkSlice(s.st, types.NewPointer(rt), rs, "receipts")
}

func (s *Scn) header(n *node) Val {
	t := s.c.named(gethPkg+"/core/types", "Header")
	return s.mkT(t, "header", map[string]Val{".Number": n.block, ".BaseFee": s.I.Range("basefee", 0, nil)})
}

// tip of one transaction as the property demands it; sat: sign of tip+base-cap
func (s *Scn) xTip(nm string, d *txd) *Num {
	gas := s.I.Range("gas("+nm+")", 1, big.NewInt(1<<60))
	if d.typ <= 1 {
		return nMul(d.price, gas)
	}
	sum := nAdd(d.t, numAtom("basefee"))
	switch s.I.mask(s.st, nSub(sum, d.cap_).p) {
	case mPos:
		return nMul(d.cap_, gas)
	}
	return nMul(sum, gas)
}

var satNames = map[int]string{mNeg: "below", mZero: "at", mPos: "above"}

func runC31(c *Ctx) {
	fn := c.anchor("oracle", "*FullBlock", "GetProposerTip")
	const rule, bad = "exact tip", "an unusable block gives an error"
	type txc struct {
		typ int64
		sat int
	}
	var single []txc
	for t := int64(0); t <= 1; t++ {
		single = append(single, txc{t, 0})
	}
	for t := int64(2); t <= 4; t++ {
		for _, m := range []int{mNeg, mZero, mPos} {
			single = append(single, txc{t, m})
		}
	}
	blocks := [][]txc{{}}
	for _, a := range single {
		blocks = append(blocks, []txc{a})
		for _, b := range single {
			if c.tier == "thorough" || a.typ != b.typ {
				blocks = append(blocks, []txc{a, b})
			}
		}
	}
	for _, m := range []int{mNeg, mPos} {
		blocks = append(blocks, []txc{{2, m}, {0, 0}, {3, mPos}}, []txc{{4, mPos}, {2, m}, {1, 0}}, []txc{{0, 0}, {0, 0}, {2, m}, {2, mPos}})
	}
	build := func(fork string, b []txc) (*Scn, *node, string) {
		var ds []string
		for _, x := range b {
			d := fmt.Sprintf("type %d", x.typ)
			if x.sat != 0 {
				d += " with tip plus base fee " + satNames[x.sat] + " the cap"
			}
			ds = append(ds, d)
		}
		s, n := c.blockScn(fmt.Sprintf("%s block with [%s]", fork, strings.Join(ds, ", ")), fork)
		s.I.Range("gasused", 0, big.NewInt(1<<60))
		for i, x := range b {
			nm := fmt.Sprintf("t%d", i)
			d := n.addTx(nm, x.typ, addrBytes("outsider"), addrBytes("outsider"))
			for _, a := range []*Num{d.price, d.t, d.cap_} {
				s.sign(a, mPos|mZero)
			}
			if x.sat == mZero {
				d.cap_ = nAdd(d.t, numAtom("basefee"))
			} else if x.sat != 0 {
				s.sign(nSub(nAdd(d.t, numAtom("basefee")), d.cap_), x.sat)
			}
		}
		return s, n, strings.Join(ds, ",")
	}
	run := func(s *Scn, fb Val) (Val, bool) {
		s.call(fn, fb)
		if !s.clean(rule) {
			return nil, false
		}
		_, isNil := s.lastErr()
		if !isNil {
			s.fail(rule, "error %s", s.ret.key())
			return nil, false
		}
		return s.retAt(0), true
	}
	for _, fork := range forks {
		for _, b := range blocks {
			if len(b) > 1 && fork != "Electra" && !(fork == "Bellatrix" && len(b) == 3) {
				continue
			}
			s, n, _ := build(fork, b)
			fb := s.nodeBlock(n, map[string]Val{".ExecutionHeader": s.header(n), ".ExecutionReceipts": s.receipts(n, n.txs, false)})
			want := numI(0)
			for _, nm := range n.txs {
				want = nAdd(want, s.xTip(nm, n.tx[nm]))
			}
			want = nSub(want, nMul(numAtom("basefee"), numAtom("gasused")))
			v, ok := run(s, fb)
			if !ok {
				continue
			}
			g := s.I.bigOf(s.st, v, "-")
			gn, isN := g.(*Num)
			c.Check(isN && (gn.key() == want.key() || s.I.mask(s.st, nSub(gn, want).p) == mZero), rule, s.name, s.pos(), "the tip is %s, the property demands %s", trunc(g.key(), 300), want.key())
		}
	}
	// unusable blocks
	for _, fork := range []string{"Bellatrix", "Electra", "Fulu"} {
		for _, k := range []string{"no receipts", "no header", "neither", "one receipt too few", "one receipt too many", "no receipt at all", "receipts swapped", "last receipt of another transaction", "first undecodable", "last undecodable", "unknown type first", "unknown type last", "unknown type, no receipts"} {
			for _, two := range []bool{true, false} {
				b := []txc{{2, mNeg}, {0, 0}}
				if !two {
					b = b[:1]
				}
				s, n, _ := build(fork, b)
				s.name += ": " + k
				f := map[string]Val{".ExecutionHeader": s.header(n), ".ExecutionReceipts": s.receipts(n, n.txs, false)}
				last := n.txs[len(n.txs)-1]
				odd := s.I.Range("type", 5, big.NewInt(255))
				switch k {
				case "no receipts":
					f[".ExecutionReceipts"] = VNil{}
				case "no header":
					f[".ExecutionHeader"] = VNil{}
				case "neither":
					f[".ExecutionHeader"], f[".ExecutionReceipts"] = VNil{}, VNil{}
				case "one receipt too few":
					f[".ExecutionReceipts"] = s.receipts(n, n.txs[:len(n.txs)-1], false)
				case "one receipt too many":
					f[".ExecutionReceipts"] = s.receipts(n, append(append([]string{}, n.txs...), "t9"), false)
				case "no receipt at all":
					f[".ExecutionReceipts"] = s.receipts(n, nil, false)
				case "receipts swapped":
					if !two {
						continue
					}
					f[".ExecutionReceipts"] = s.receipts(n, n.txs, true)
				case "last receipt of another transaction":
					f[".ExecutionReceipts"] = s.receipts(n, append(append([]string{}, n.txs[:len(n.txs)-1]...), "t9"), false)
				case "first undecodable":
					n.tx["t0"].badDecode = true
				case "last undecodable":
					n.tx[last].badDecode = true
				case "unknown type first":
					n.tx["t0"].otyp = odd
				case "unknown type last":
					n.tx[last].otyp = odd
				case "unknown type, no receipts":
					n.tx["t0"].otyp = odd
					f[".ExecutionReceipts"] = VNil{}
				}
				fb := s.nodeBlock(n, f)
				s.call(fn, fb)
				if !s.clean(bad) {
					continue
				}
				nn, _ := s.lastErr()
				c.Check(nn, bad, s.name, s.pos(), "the result is %s", trunc(s.ret.key(), 200))
			}
		}
	}
	// saturation by itself
	sat := c.anchor("utils", "", "SumAndSaturate")
	for _, m := range []int{mNeg, mZero, mPos} {
		s := c.scn("sum " + satNames[m] + " the limit")
		a, b, l := s.nonneg("a"), s.nonneg("b"), s.nonneg("limit")
		if m == mZero {
			l = nAdd(a, b)
		} else {
			s.sign(nSub(nAdd(a, b), l), m)
		}
		pa, pb, pl := s.big(a), s.big(b), s.big(l)
		r := s.call(sat, pa, pb, pl)
		if !s.clean("saturating sum") {
			continue
		}
		want := nAdd(a, b)
		if m == mPos {
			want = l
		}
		g, _ := s.I.bigOf(s.st, r, "-").(*Num)
		c.Check(g != nil && s.I.mask(s.st, nSub(g, want).p) == mZero, "saturating sum", s.name, s.pos(), "gives %v", g)
		for i, x := range []struct {
			p Val
			n *Num
		}{{pa, a}, {pb, b}, {pl, l}} {
			k := s.I.bigOf(s.st, x.p, "-").key()
			c.Check(k == x.n.key(), "saturating sum", fmt.Sprintf("%s operand %d", s.name, i), s.pos(), "operand %d becomes %s", i, k)
		}
	}
	c.Min(rule, 60)
	c.Min(bad, 60)
}

func runC32(c *Ctx) {
	const rule = "classified by the exact prefix"
	type fnc struct {
		fn    *ssa.Function
		bytes bool
		kind  string
	}
	fns := []fnc{
		{c.anchor("utils", "", "IsBlsType"), false, "bls"},
		{c.anchor("utils", "", "IsEth1Type"), false, "eth1"},
		{c.anchor("utils", "", "IsElectraType"), false, "electra"},
		{c.anchor("utils", "", "GetCompatibleAddress"), false, "addr"},
		{c.anchor("utils", "", "GetCompatibleAddressByte"), true, "addr"},
		{c.anchor("oracle", "", "GetWithdrawalAndType"), true, "type"},
	}
	type cred struct {
		name  string
		bytes *Str
		kind  string // bls, eth1, electra, ""
	}
	var creds []cred
	rest := addrBytes("x")
	pad := func(i int, v byte) string {
		b := make([]byte, 11)
		if i >= 0 {
			b[i] = v
		}
		return string(b)
	}
	kind := func(p int) string { return map[int]string{0: "bls", 1: "eth1", 2: "electra"}[p] }
	for p := 0; p < 256; p++ {
		creds = append(creds, cred{fmt.Sprintf("prefix 0x%02x, zero padding", p), catS(strC(string([]byte{byte(p)})+pad(-1, 0)), rest), kind(p)})
	}
	for _, p := range []int{0, 1, 2, 3, 0x10, 0x20} {
		for i := 0; i < 11; i++ {
			for _, v := range []byte{1, 0x10, 0xff} {
				k := ""
				if p == 0 {
					k = "bls"
				}
				creds = append(creds, cred{fmt.Sprintf("prefix 0x%02x, padding byte %d is 0x%02x", p, i, v), catS(strC(string([]byte{byte(p)})+pad(i, v)), rest), k})
			}
		}
	}
	for _, p := range []byte{0, 1, 2} {
		for _, l := range []int{0, 1, 19, 21, 31, 52} {
			creds = append(creds, cred{fmt.Sprintf("prefix 0x%02x, %d bytes in all", p, 12+l), catS(strC(string([]byte{p})+pad(-1, 0)), &Str{parts: []SPart{{atom: "b:y", n: l}}}), ""})
		}
		creds = append(creds, cred{fmt.Sprintf("prefix 0x%02x, eight bytes only", p), strC(string([]byte{p}) + pad(-1, 0)[:7]), ""})
	}
	creds = append(creds, cred{"empty", strC(""), ""})
	wantAddr := catS(strC("0x"), hexOf(rest, true))
	vt := c.named(v1pkg, "Validator")
	for _, f := range fns {
		for _, cr := range creds {
			s := c.scn(shortName(f.fn) + ": " + cr.name)
			s.freshGlobals()
			s.node()
			var arg Val = hexOf(cr.bytes, true)
			if f.bytes {
				arg = cr.bytes
			}
			if f.kind == "type" {
				in := s.mkT(c.named(p0pkg, "Validator"), "pv", map[string]Val{".WithdrawalCredentials": cr.bytes, ".PublicKey": keyBytes("k:v"), ".EffectiveBalance": s.u64("eb")})
				arg = s.mkT(vt, "validator", map[string]Val{".Index": s.u64("v"), ".Validator": in})
			}
			ret := s.call(f.fn, arg)
			if f.kind == "type" && s.st.dead && len(s.I.notes) == 0 {
				c.Check(cr.kind == "", rule, s.name, s.pos(), "stops")
				continue
			}
			if !s.clean(rule) {
				continue
			}
			isAddr := cr.kind == "eth1" || cr.kind == "electra"
			switch f.kind {
			case "addr":
				nn, isNil := s.lastErr()
				if !isAddr {
					c.Check(nn, rule, s.name, s.pos(), "accepted: %s", trunc(ret.key(), 200))
					continue
				}
				x, _ := toStr(s.retAt(0))
				c.Check(isNil && x != nil && x.key() == wantAddr.key(), rule, s.name, s.pos(), "gives %s, not the last twenty bytes", trunc(ret.key(), 200))
			case "type":
				k := s.retAt(1).key()
				want := map[string]string{"eth1": "1", "electra": "2"}[cr.kind]
				if want == "" {
					want = "0"
				}
				c.Check(k == want, rule, s.name, s.pos(), "classified as withdrawal type %s, the property demands %s", k, want)
				if isAddr {
					x, _ := toStr(s.retAt(0))
					c.Check(x != nil && x.key() == wantAddr.key(), rule, s.name+" (address)", s.pos(), "gives address %s, not the last twenty bytes", s.retAt(0).key())
				}
			default:
				s.expectRet(rule, VBool(cr.kind == f.kind))
			}
		}
	}
	// hex with prefix 0x is no credential text
	for _, f := range fns {
		if f.bytes {
			continue
		}
		for _, p := range []string{"0x00", "0x01", "0x02", "01", "1"} {
			s := c.scn(shortName(f.fn) + ": text " + p + "...")
			x := catS(strC(p+strings.Repeat("0", 22)), hexOf(rest, true))
			if p == "01" {
				x = catS(x, strC("00"))
			}
			s.call(f.fn, x)
			if !s.clean(rule) {
				continue
			}
			if f.kind == "addr" {
				nn, _ := s.lastErr()
				c.Check(nn, rule, s.name, s.pos(), "accepted")
			} else {
				s.expectRet(rule, VBool(false))
			}
		}
	}
	c.Min(rule, 1500)
}

// one block of C30
type rcase struct {
	txs    int    // 0, 1, 2
	to     string // of the last transaction: "nil", "pool", "outsider"
	sender string // "fee" (the fee recipient), "listed", "outsider"
	fee    string // "pool", "builder"
	evs    string // "none", "same", "other", "two same", "other and same", "same and other", "foreign"
	sub    bool
	chain  int64
	creds  string // "", "bls", "eth1", "electra", "odd"
	bad    string // "", "undecodable", "no sender"
	fork   string
	missed bool
	prev   string // recipient of the transaction before
	slot   int64  // 0: an unknown one after the exceptional slot
}

// oddSlot: the payment of the block of this slot, on mainnet only, left no event and is hard-coded
const oddSlot, oddReward, oddPool = 10400574, 177043568463114308, "0xAdFb8D27671F14f297eE94135e266aAFf8752e35"

func (e rcase) String() string {
	if e.missed {
		return fmt.Sprintf("missed block, proposer subscribed %v, credentials %s", e.sub, e.creds)
	}
	l := "no transaction"
	if e.txs > 0 {
		l = fmt.Sprintf("%d transaction(s), the last to %s from %s %s", e.txs, e.to, e.sender, e.bad)
	}
	if e.slot != 0 {
		l += fmt.Sprintf(", slot %d", e.slot)
	}
	return fmt.Sprintf("chain %d, %s: fee recipient %s, %s, ether-received events of that value: %s, proposer subscribed %v, credentials %s", e.chain, e.fork, e.fee, l, e.evs, e.sub, e.creds)
}

const listedMainnet = "ae0A3D884E746599BD6C893a674E556C36a47f1e"

type rblock struct {
	s     *Scn
	n     *node
	fb    Val
	evs   []Val
	same  []bool
	mev   bool
	rcpt  string // "pool", "outsider", "foreign"
	value *Num
}

func (c *Ctx) rewardScn(e rcase) *rblock {
	s, n := c.blockScn(e.String(), e.fork)
	s.I.Uniq("foreign", "b:foreign", "w:p", "k:p")
	if e.missed {
		n.fork = ""
	}
	if e.slot != 0 {
		n.slot = numI(e.slot)
		n.pslot = n.slot
	}
	b := &rblock{s: s, n: n}
	s.I.Range("gasused", 0, big.NewInt(1<<60))
	n.fee = addrBytes(e.fee)
	from := func(k string) *Str {
		switch k {
		case "fee":
			return n.fee
		case "listed":
			raw, _ := hex.DecodeString(listedMainnet)
			return strC(string(raw))
		}
		return addrBytes("outsider")
	}
	for i := 0; i < e.txs; i++ {
		nm := fmt.Sprintf("t%d", i)
		var to Val = addrBytes("outsider")
		f := "fee" // an earlier transaction by the fee recipient is no MEV reward
		if i == e.txs-1 {
			f = e.sender
			switch e.to {
			case "nil":
				to = VNil{}
			default:
				to = addrBytes(e.to)
			}
		} else {
			to = addrBytes("pool")
		}
		d := n.addTx(nm, 0, to, from(f))
		if i == e.txs-1 {
			b.value = d.value
			d.badDecode = e.bad == "undecodable"
			d.badSender = e.bad == "no sender"
		}
	}
	et := c.named("contract", "ContractEtherReceived")
	add := func(same bool, emitter string) {
		am := s.nonneg(fmt.Sprintf("amount%d", len(b.evs)))
		if b.value != nil {
			if same {
				am = b.value
			} else {
				s.sign(nSub(am, b.value), mPos)
			}
		}
		b.evs = append(b.evs, s.mkT(et, "event", map[string]Val{".DonationAmount": am, ".Raw.BlockNumber": n.block, ".Raw.Address": addrBytes(emitter)}))
		b.same = append(b.same, same)
	}
	switch e.evs {
	case "same":
		add(true, "pool")
	case "other":
		add(false, "pool")
	case "two same":
		add(true, "pool")
		add(true, "pool")
	case "other and same":
		add(false, "pool")
		add(true, "pool")
	case "same and other":
		add(true, "pool")
		add(false, "pool")
	case "foreign":
		add(true, "foreign")
	}
	ev := s.mk("oracle", "Events", nil)
	if e.evs != "nil" {
		s.I.Put(s.st, ev, types.NewPointer(c.named("oracle", "Events")), ".EtherReceived", s.I.mkSlice(s.st, types.NewPointer(et), b.evs, "events"))
	}
	st := int64(4)
	if e.sub {
		st = 1
	}
	s.validators(vst{"p", st})
	f := map[string]Val{".ChainId": numI(e.chain), ".Events": ev, ".ExecutionHeader": s.header(n), ".ExecutionReceipts": s.receipts(n, n.txs, false)}
	if e.creds != "" {
		cr := map[string]*Str{"bls": credsOf(0, "w:p"), "eth1": credsOf(1, "w:p"), "electra": credsOf(2, "w:p"), "odd": catS(strC("\x01\x01"+strings.Repeat("\x00", 10)), addrBytes("w:p"))}[e.creds]
		in := s.mkT(c.named(p0pkg, "Validator"), "pv", map[string]Val{".WithdrawalCredentials": cr, ".PublicKey": keyBytes("k:p"), ".EffectiveBalance": s.u64("eb")})
		f[".Validator"] = s.mkT(c.named(v1pkg, "Validator"), "validator", map[string]Val{".Index": numAtom("p"), ".Validator": in})
	}
	b.fb = s.nodeBlock(n, f)
	// what the property says
	if e.txs > 0 && e.to != "nil" && !e.missed {
		b.mev = e.sender == "fee" || e.sender == "listed" && e.chain == 1
		b.rcpt = e.to
		for i := range b.evs {
			if b.same[i] {
				b.rcpt = "pool"
				if e.evs == "foreign" {
					b.rcpt = "foreign"
				}
				break
			}
		}
	}
	return b
}

// the tip of the block (its transactions are of type 0)
func (b *rblock) tip() *Num {
	r := nMul(numI(-1), nMul(numAtom("basefee"), numAtom("gasused")))
	for _, nm := range b.n.txs {
		r = nAdd(r, b.s.xTip(nm, b.n.tx[nm]))
	}
	return r
}

// expected reward, whether it was sent to the pool, and its type
func (b *rblock) want(e rcase, sub bool) (*Num, bool, int64) {
	if b.mev {
		return b.value, b.rcpt == "pool", 2
	}
	if e.fee == "pool" || sub {
		return b.tip(), e.fee == "pool", 1
	}
	return numI(0), false, 0
}

func runC30(c *Ctx) {
	mevF := c.anchor("oracle", "*FullBlock", "MevRewardInWei")
	sent := c.anchor("oracle", "*FullBlock", "GetSentRewardAndType")
	isRew := c.anchor("oracle", "*FullBlock", "isAddressRewarded")
	dons := c.anchor("oracle", "*FullBlock", "GetDonations")
	summ := c.anchor("oracle", "*FullBlock", "SummarizedBlock")
	const r1, r2, r3, r4 = "classified as MEV or vanilla", "counts as sent to the pool", "one event per MEV reward is withheld", "summary of the block"
	var cases []rcase
	evk := []string{"none", "nil", "same", "other", "two same", "other and same", "same and other", "foreign"}
	for _, chain := range []int64{1, 17000, 560048} {
		for _, fee := range []string{"pool", "builder"} {
			cases = append(cases, rcase{chain: chain, fee: fee, evs: "none", fork: "Electra"}, rcase{chain: chain, fee: fee, evs: "other", fork: "Deneb", sub: true})
			for _, to := range []string{"nil", "pool", "outsider"} {
				for _, sender := range []string{"fee", "listed", "outsider"} {
					for i, ev := range evk {
						for _, n := range []int{1, 2} {
							if chain == 17000 && (n == 2 || i > 3) {
								continue
							}
							cases = append(cases, rcase{chain: chain, fee: fee, txs: n, to: to, sender: sender, evs: ev, fork: forks[(i+n)%len(forks)]})
						}
					}
				}
			}
		}
	}
	for _, at := range []rcase{{chain: 1, slot: oddSlot - 1}, {chain: 1, slot: oddSlot + 1}, {chain: 560048, slot: oddSlot}, {chain: 17000, slot: oddSlot}, {chain: 560048, slot: oddSlot - 1}} {
		for _, fee := range []string{"pool", "builder"} {
			for _, sender := range []string{"fee", "outsider"} {
				for i, ev := range []string{"none", "same", "other"} {
					e := at
					e.fee, e.txs, e.to, e.sender, e.evs, e.fork = fee, 1, []string{"pool", "outsider"}[i%2], sender, ev, "Deneb"
					cases = append(cases, e)
				}
			}
		}
	}
	c.oddBlock(mevF)
	num := func(s *Scn, v Val) string { return s.I.bigOf(s.st, v, "-").key() }
	isPool := func(s *Scn, v Val, cls string) bool {
		x, _ := toStr(s.I.res(s.st, v))
		return x != nil && lowerS(x).key() == lowerS(addrStr(cls, "any")).key()
	}
	for _, e := range cases {
		// MEV reward
		b := c.rewardScn(e)
		s := b.s
		s.name = "MevRewardInWei, " + s.name
		s.call(mevF, b.fb)
		if s.clean(r1) {
			got := s.retAt(1).key()
			switch {
			case got != VBool(b.mev).key():
				s.fail(r1, "MEV reward present: %s, the property demands %v", got, b.mev)
			case b.mev && num(s, s.retAt(0)) != b.value.key():
				s.fail(r1, "the MEV reward is %s, the property demands %s", num(s, s.retAt(0)), b.value.key())
			case b.mev && !isPool(s, s.retAt(2), b.rcpt):
				s.fail(r1, "the recipient of the MEV reward is %s, the property demands the address of %s", s.retAt(2).key(), b.rcpt)
			default:
				c.Ok(r1, 1)
			}
		}
		// rewarded addresses
		for _, a := range []string{"pool", "builder", "outsider"} {
			if (a == "outsider") != (e.txs == 2) && a != "pool" {
				continue
			}
			b = c.rewardScn(e)
			s = b.s
			s.name = "isAddressRewarded(" + a + "), " + s.name
			s.call(isRew, b.fb, addrStr(a, "cfg"))
			s.expectRet(r2, VBool(e.fee == a || b.mev && b.rcpt == a))
		}
		for _, sub := range []bool{false, true} {
			e.sub = sub
			e.creds = []string{"eth1", "bls", "electra", "odd"}[(e.txs+len(e.evs)+len(e.to))%4]
			b = c.rewardScn(e)
			s = b.s
			s.name = "GetSentRewardAndType, " + s.name
			s.call(sent, b.fb, addrStr("pool", "cfg"), VBool(sub))
			wr, ws, wt := b.want(e, sub)
			if s.clean(r1) {
				switch {
				case s.retAt(2).key() != numI(wt).key():
					s.fail(r1, "the reward is of type %s, the property demands %d", s.retAt(2).key(), wt)
				case num(s, s.retAt(0)) != wr.key():
					s.fail(r1, "the reward is %s, the property demands %s", num(s, s.retAt(0)), wr.key())
				default:
					c.Ok(r1, 1)
				}
				c.Check(s.retAt(1).key() == VBool(ws).key(), r2, s.name, s.pos(), "sent to the pool: %s, the property demands %v", s.retAt(1).key(), ws)
			}
			b = c.rewardScn(e)
			s = b.s
			s.name = "SummarizedBlock, " + s.name
			s.checkSummary(r4, summ, b, e)
		}
		// donations
		b = c.rewardScn(e)
		s = b.s
		s.name = "GetDonations, " + s.name
		s.call(dons, b.fb, addrStr("pool", "cfg"))
		found := -1
		for i := range b.same {
			if b.same[i] {
				found = i
				break
			}
		}
		if b.mev && b.rcpt == "pool" && found < 0 {
			s.stops("a missing event of an MEV reward stops")
			continue
		}
		if !s.clean(r3) {
			continue
		}
		es, ok := s.I.elems(s.st, s.ret, types.NewPointer(c.named("contract", "ContractEtherReceived")))
		if isNilV(s.ret) {
			es, ok = nil, true
		}
		left := map[string]int{} // events left by amount class
		for i, v := range b.evs {
			if b.mev && b.rcpt == "pool" && i == found {
				continue
			}
			k := v.key()
			if b.same[i] {
				k = "same"
			}
			left[k]++
		}
		bad := !ok
		seen := map[string]bool{}
		for _, v := range es {
			k := s.I.res(s.st, v).key()
			if seen[k] {
				bad = true
			}
			seen[k] = true
			for i := range b.evs {
				if b.evs[i].key() == k && b.same[i] {
					k = "same"
				}
			}
			left[k]--
		}
		for _, x := range left {
			bad = bad || x != 0
		}
		c.Check(!bad, r3, s.name, s.pos(), "gives %s of the events %s", vkeys(s, es), vkeys(s, b.evs))
		// the events themselves stay as they were
		l, _, err := s.I.List(s.st, b.fb, types.NewPointer(c.named("oracle", "FullBlock")), ".Events.EtherReceived")
		c.Check(err == nil && vkeys(s, l) == vkeys(s, b.evs), r3, s.name+" (events of the block)", s.pos(), "the block's events become %s", vkeys(s, l))
	}
	// credentials and missed blocks
	for _, cr := range []string{"bls", "eth1", "electra", "odd"} {
		for _, sub := range []bool{true, false} {
			for _, e := range []rcase{
				{missed: true}, {fee: "pool", txs: 1, to: "outsider", sender: "outsider", evs: "none"}, {fee: "builder", txs: 1, to: "pool", sender: "fee", evs: "same"},
				{fee: "builder", txs: 1, to: "outsider", sender: "fee", evs: "other"}, {fee: "builder", txs: 0, evs: "none"}, {fee: "builder", txs: 2, to: "outsider", sender: "fee", evs: "same"},
			} {
				e.creds, e.sub, e.fork, e.chain = cr, sub, "Fulu", 1
				b := c.rewardScn(e)
				s := b.s
				s.name = "SummarizedBlock, " + s.name
				s.checkSummary(r4, summ, b, e)
			}
		}
	}
	e := rcase{missed: true, evs: "none", fork: "Electra", chain: 1, fee: "pool"}
	b := c.rewardScn(e)
	b.s.name = "GetDonations, " + b.s.name
	b.s.call(dons, b.fb, addrStr("pool", "cfg"))
	if b.s.clean(r3) {
		l := b.s.I.lenV(b.s.st, b.s.ret)
		c.Check(l.key() == "0", r3, b.s.name, b.s.pos(), "%s donations in a missed block", l.key())
	}
	// a last transaction that cannot be read stops
	for _, bad := range []string{"undecodable", "no sender"} {
		for _, fee := range []string{"pool", "builder"} {
			for i, fn := range []*ssa.Function{mevF, sent, dons, summ} {
				e := rcase{chain: 1, fee: fee, txs: 2, to: "pool", sender: "fee", evs: "same", fork: forks[i], bad: bad, sub: true}
				b := c.rewardScn(e)
				b.s.name = shortName(fn) + ", " + b.s.name
				switch fn {
				case mevF:
					b.s.call(fn, b.fb)
				case sent:
					b.s.call(fn, b.fb, addrStr("pool", "cfg"), VBool(true))
				case dons:
					b.s.call(fn, b.fb, addrStr("pool", "cfg"))
				default:
					b.s.call(fn, b.fb, b.s.or, addrStr("pool", "cfg"))
				}
				b.s.stops("an unreadable last transaction stops")
			}
		}
	}
	// a tip that cannot be computed stops
	for _, k := range []string{".ExecutionHeader", ".ExecutionReceipts"} {
		for _, e := range []rcase{{fee: "pool"}, {fee: "builder", sub: true}} {
			e.chain, e.txs, e.to, e.sender, e.evs, e.fork = 1, 1, "outsider", "outsider", "none", "Capella"
			b := c.rewardScn(e)
			b.s.I.Put(b.s.st, b.fb, types.NewPointer(c.named("oracle", "FullBlock")), k, VNil{})
			b.s.name = "GetSentRewardAndType without " + k + ", " + b.s.name
			b.s.call(sent, b.fb, addrStr("pool", "cfg"), VBool(e.sub))
			b.s.stops("an unknown tip stops")
		}
	}
	for _, r := range []string{r1, r2, r3, r4} {
		c.Min(r, 150)
	}
}

// oddBlock: the hard-coded payment is that of one block of one chain, and joins the events of
// that block only
func (c *Ctx) oddBlock(mevF *ssa.Function) {
	const rule = "hard-coded payment"
	set := c.anchor("oracle", "*FullBlock", "SetEvents")
	for _, e := range []rcase{{chain: 1, slot: oddSlot}, {chain: 1, slot: oddSlot - 1}, {chain: 1, slot: oddSlot + 1}, {chain: 1}, {chain: 560048, slot: oddSlot}, {chain: 560048}, {chain: 17000, slot: oddSlot}} {
		for _, ev := range []string{"none", "other", "same and other"} {
			e.fee, e.txs, e.to, e.sender, e.evs, e.fork = "builder", 1, "outsider", "outsider", ev, "Deneb"
			odd := e.chain == 1 && e.slot == oddSlot
			b := c.rewardScn(e)
			s := b.s
			s.name = "SetEvents, " + s.name
			fbt := types.NewPointer(c.named("oracle", "FullBlock"))
			evs, err := s.I.Get(s.st, b.fb, fbt, ".Events")
			if err != nil {
				panic(undecided(err.Error()))
			}
			s.I.Put(s.st, b.fb, fbt, ".Events", VNil{})
			s.call(set, b.fb, evs)
			if s.clean(rule) {
				l, _, err := s.I.List(s.st, b.fb, fbt, ".Events.EtherReceived")
				want := len(b.evs)
				if odd {
					want++
				}
				ok := err == nil && len(l) == want && vkeys(s, l[:len(b.evs)]) == vkeys(s, b.evs)
				if ok && odd {
					v, err := s.I.Get(s.st, l[len(l)-1], types.NewPointer(c.named("contract", "ContractEtherReceived")), ".DonationAmount")
					ok = err == nil && s.I.bigOf(s.st, v, "-").key() == numI(oddReward).key()
				}
				c.Check(ok, rule, s.name, s.pos(), "the ether-received events %s become %s", vkeys(s, b.evs), vkeys(s, l))
			}
			if odd {
				b = c.rewardScn(e)
				s = b.s
				s.name = "MevRewardInWei, " + s.name
				s.call(mevF, b.fb)
				if s.clean(rule) {
					x, _ := toStr(s.I.res(s.st, s.retAt(2)))
					ok := s.retAt(1).key() == "true" && s.I.bigOf(s.st, s.retAt(0), "-").key() == numI(oddReward).key() && x != nil && lowerS(x).key() == lowerS(strC(oddPool)).key()
					c.Check(ok, rule, s.name, s.pos(), "gives %s", s.ret.key())
				}
			}
		}
	}
	c.Min(rule, 20)
}

func (s *Scn) checkSummary(rule string, fn *ssa.Function, b *rblock, e rcase) {
	c := s.c
	ret := s.call(fn, b.fb, s.or, addrStr("pool", "cfg"))
	if !s.clean(rule) {
		return
	}
	t := c.named("oracle", "SummarizedBlock")
	o := s.I.newObj(s.st, t, "summary")
	s.I.store(s.st, &Ptr{o, ""}, t, ret, "-")
	ok := true
	want := func(f string, v Val) {
		g, err := s.I.Get(s.st, &Ptr{o, ""}, types.NewPointer(t), f)
		if err != nil {
			panic(undecided(err.Error()))
		}
		var k string
		if f == ".Reward" {
			k = s.I.bigOf(s.st, g, "-").key()
		} else {
			k = s.I.res(s.st, g).key()
		}
		if k != v.key() {
			ok = false
			s.fail(rule, "%s is %s, the property demands %s", f, trunc(k, 200), v.key())
		}
	}
	want(".Slot", b.n.slot)
	want(".ValidatorIndex", numAtom("p"))
	want(".ValidatorKey", keyStr("k:p"))
	if e.creds == "eth1" || e.creds == "electra" {
		want(".WithdrawalAddress", beaconAddr("w:p"))
	}
	if e.missed {
		want(".Reward", numI(0))
		want(".BlockType", numI(1))
		if ok {
			c.Ok(rule, 1)
		}
		return
	}
	wr, ws, wt := b.want(e, e.sub)
	want(".Block", b.n.block)
	want(".Reward", wr)
	want(".RewardType", numI(wt))
	bt := int64(2)
	if ws {
		bt = 3
		if e.creds == "bls" || e.creds == "odd" {
			bt = 4
		}
	}
	want(".BlockType", numI(bt))
	if ok {
		c.Ok(rule, 1)
	}
}
