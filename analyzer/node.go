package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// node answers the calls the code makes to the two nodes and to the contract, as
// honest nodes would: what comes back depends on what was asked for, so asking for
// the wrong slot, block, account or index shows in the result.
type node struct {
	s     *Scn
	calls []ncall
	count map[string]int
	hdOff int64                        // execution headers are of the block that many blocks on
	rcOff int64                        // so are the receipts
	ans   map[string]func(c *Call) Val // scenario's own answers, by short name
	fail  map[string]int               // call "Name" or "Name#k": that many next calls fail (-1: all)
	err   map[string]func(c *Call) Val // the error of a failing call
	epoch *Num                         // activation epoch of validators, if it matters
	known []string                     // names of the beacon validators that exist
	gone  map[string]bool              // those the beacon node does not return
	gen   string                       // sets later answers apart
	odd   map[string]Val               // index the node reports for a validator instead of its own
	slot  *Num                         // the slot asked about
	pslot *Num                         // the slot proposed by p (the first asked about)
	block *Num                         // the number of its execution block
	from  *Num                         // block == nil: events are asked for from this block to the head
	fork  string                       // "" : no block (404)
	prop  Val                          // proposer reported in the block
	fee   *Str                         // fee recipient (20 bytes)
	txs   []string                     // names of the block's transactions
	tx    map[string]*txd
	evs   map[string][]Val // contract events of that block by kind: "EtherReceived"...
	cut   map[string]int   // kind -> the iteration breaks with an error after that many events
	more  func(c *Call) (Val, bool)
}

type ncall struct {
	name, pos string
	args      []string
}

// a transaction
type txd struct {
	typ            int64
	otyp           Val // type, when not known
	data           *Str
	to             Val // address bytes or nil
	from           *Str
	value          *Num
	price, cap_, t *Num
	badDecode      bool
	badSender      bool
}

const clPkg = "github.com/attestantio/go-eth2-client"
const apiPkg = clPkg + "/api"
const gethPkg = "github.com/ethereum/go-ethereum"

func (s *Scn) node() *node {
	n := &node{s: s, count: map[string]int{}, ans: map[string]func(*Call) Val{}, fail: map[string]int{}, err: map[string]func(*Call) Val{},
		gone: map[string]bool{}, odd: map[string]Val{}, tx: map[string]*txd{}, evs: map[string][]Val{}, cut: map[string]int{}}
	s.I.hook = n.hook
	return n
}

// short name of a call to the outside world, "" if it is none
func nodeCall(name string) string {
	m := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "(*"+clPkg+"/http.Service)."), strings.HasPrefix(name, "("+clPkg+"."):
		return m
	case strings.HasPrefix(name, "(*"+gethPkg+"/ethclient.Client)."):
		return m
	case strings.HasPrefix(name, "(*"+modPath+"/contract.Contract"):
		if i := strings.Index(name, "Iterator)."); i > 0 {
			return name[len("(*"+modPath+"/contract.Contract"):i] + "." + m
		}
		return m
	case strings.HasPrefix(name, gethPkg+"/accounts/abi/bind."), name == modPath+"/contract.NewContract", name == gethPkg+"/ethclient.Dial", name == gethPkg+"/ethclient.DialContext":
		return m
	case name == clPkg+"/http.New":
		return "http.New"
	case strings.HasPrefix(name, "net/http.NewRequest"), strings.HasPrefix(name, "(*net/http.Client)."), name == "net/http.Get", name == "net/http.Post":
		return "http." + m
	}
	return ""
}

func (n *node) val(c *Call, v Val) Val {
	v = n.s.I.res(c.st, v)
	if x, ok := v.(*Iface); ok {
		v = n.s.I.res(c.st, x.v)
	}
	return v
}

// field of an argument given by pointer or value
func (n *node) field(c *Call, i int, path string) Val {
	v, err := n.s.I.Get(c.st, n.val(c, c.args[i]), c.sig0(i), path)
	if err != nil {
		panic(undecided(fmt.Sprintf("%s of the argument of %s at %s: %v", path, c.name, c.pos, err)))
	}
	return v
}

// sig0: type of argument i, the receiver being argument 0
func (c *Call) sig0(i int) types.Type {
	if c.sig.Recv() != nil {
		if i == 0 {
			return c.sig.Recv().Type()
		}
		i--
	}
	return c.sig.Params().At(i).Type()
}

// argIdx gives the first argument of the named type
func (c *Call) argOf(suffix string) int {
	for i := range c.args {
		off := i
		if c.sig.Recv() != nil {
			off--
		}
		if off < 0 || off >= c.sig.Params().Len() {
			continue
		}
		if strings.HasSuffix(types.TypeString(types.Unalias(c.sig.Params().At(off).Type()), nil), suffix) {
			return i
		}
	}
	panic(undecided("no argument of type " + suffix + " in " + c.name))
}

// response wraps data in *api.Response[T]
func (n *node) response(c *Call, put func(p *Ptr, t types.Type)) Val {
	rt := types.Unalias(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
	o := n.s.I.newObj(c.st, rt, "response")
	p := &Ptr{o, ""}
	put(p, types.NewPointer(rt))
	return tup(p, VNil{})
}

func (n *node) newAt(st *State, t types.Type, name string, f map[string]Val) *Ptr {
	o := n.s.I.newObj(st, t, name)
	p := &Ptr{o, ""}
	for k, v := range f {
		n.s.I.Put(st, p, types.NewPointer(t), k, v)
	}
	return p
}

// a beacon validator as known at a state
func (n *node) validator(st *State, idx Val, state string) *Ptr {
	s := n.s
	key := idx.key()
	if o := n.odd[key]; o != nil {
		idx = o
	}
	state += n.gen
	eb := numAtom("eb:" + key + "@" + state)
	s.I.rng[esc("eb:"+key+"@"+state)] = rng{big.NewInt(0), big.NewInt(1 << 53)}
	in := n.newAt(st, s.c.named(p0pkg, "Validator"), "phase0.Validator", map[string]Val{
		".WithdrawalCredentials": credsOf(1, "w:"+key),
		".PublicKey":             keyBytes("k:" + key),
		".EffectiveBalance":      eb,
	})
	if n.epoch != nil {
		s.I.Put(st, in, types.NewPointer(s.c.named(p0pkg, "Validator")), ".ActivationEpoch", n.epoch)
	}
	return n.newAt(st, s.c.named(v1pkg, "Validator"), "v1.Validator", map[string]Val{
		".Index": idx, ".Status": numI(3), ".Validator": in,
	})
}

func (n *node) str(c *Call, v Val) string {
	x, ok := toStr(n.val(c, v))
	if !ok || x == nil {
		panic(undecided("argument of " + c.name + " unknown at " + c.pos))
	}
	return x.key()
}

func (n *node) apiErr(code int64) func(c *Call) Val {
	return func(c *Call) Val {
		t := n.s.c.named(apiPkg, "Error")
		p := n.newAt(c.st, t, "api.Error", map[string]Val{".StatusCode": numI(code)})
		return &Iface{types.NewPointer(t), p}
	}
}

func (n *node) hook(c *Call) (Val, bool) {
	if v, ok := n.txHook(c); ok {
		return v, true
	}
	if n.more != nil {
		if v, ok := n.more(c); ok {
			return v, true
		}
	}
	nm := nodeCall(c.name)
	if nm == "" {
		return nil, false
	}
	var ks []string
	for _, a := range c.args {
		ks = append(ks, n.s.I.dump(c.st, a, nil))
	}
	n.count[nm]++
	n.calls = append(n.calls, ncall{nm, c.pos, ks})
	c.st.trace = append(c.st.trace, Event{kind: "node", name: nm, args: c.args, pos: c.pos})
	key := fmt.Sprintf("%s#%d", nm, n.count[nm])
	for _, k := range []string{key, nm} {
		if f := n.fail[k]; f != 0 && hasErrResult(c.sig) && !strings.HasSuffix(nm, ".Error") {
			if f > 0 {
				n.fail[k]--
			}
			v := n.s.I.failResults(c.sig, nm)
			if e := n.err[nm]; e != nil {
				ev := e(c)
				if t, ok := v.(*Tuple); ok {
					t.v[len(t.v)-1] = ev
				} else {
					v = ev
				}
			}
			return v, true
		}
	}
	if f := n.ans[nm]; f != nil {
		if v := f(c); v != nil {
			return v, true
		}
	}
	if v := n.answer(c, nm); v != nil {
		return v, true
	}
	return nil, false
}

func (n *node) answer(c *Call, nm string) Val {
	s := n.s
	I := s.I
	switch nm {
	case "Validators":
		i := c.argOf("api.ValidatorsOpts")
		state := n.str(c, n.field(c, i, ".State"))
		et := types.Unalias(s.c.named(p0pkg, "ValidatorIndex"))
		es, _, err := I.List(c.st, n.val(c, c.args[i]), c.sig0(i), ".Indices")
		if err != nil {
			panic(undecided("validators requested from the beacon node are unknown at " + c.pos))
		}
		if len(es) == 0 {
			for _, k := range n.known {
				if x, ok := new(big.Int).SetString(k, 10); ok {
					es = append(es, &Num{polyConst(x)})
					continue
				}
				es = append(es, numAtom(k))
			}
		}
		return n.response(c, func(p *Ptr, t types.Type) {
			var kv []Val
			seen := map[string]bool{}
			for _, e := range es {
				e = n.val(c, e)
				if n.gone[e.key()] || seen[e.key()] {
					continue
				}
				seen[e.key()] = true
				kv = append(kv, e, n.validator(c.st, e, state))
			}
			for k := range n.odd {
				if strings.HasPrefix(k, "+") { // an extra one nobody asked for
					kv = append(kv, n.odd[k], n.validator(c.st, n.odd[k], state))
				}
			}
			mt := types.NewMap(et, types.NewPointer(s.c.named(v1pkg, "Validator")))
			I.Put(c.st, p, t, ".Data", I.NewMap(c.st, mt, kv...))
		})
	case "SignedBeaconBlock":
		i := c.argOf("api.SignedBeaconBlockOpts")
		q := n.str(c, n.field(c, i, ".Block"))
		if q == I.decS(n.slot).key() && n.fork == "" {
			return tup(VNil{}, n.apiErr(404)(c))
		}
		return n.response(c, func(p *Ptr, t types.Type) {
			I.Put(c.st, p, t, ".Data", n.beaconBlock(c.st, q))
		})
	case "ProposerDuties":
		i := c.argOf("api.ProposerDutiesOpts")
		ep := n.field(c, i, ".Epoch").(*Num)
		return n.response(c, func(p *Ptr, t types.Type) {
			var es []Val
			dt := s.c.named(v1pkg, "ProposerDuty")
			for k := int64(0); k < 32; k++ {
				sl := nAdd(nMul(numI(32), ep), numI(k))
				es = append(es, n.newAt(c.st, dt, "duty", map[string]Val{".Slot": sl, ".ValidatorIndex": n.proposerAt(sl)}))
			}
			I.Put(c.st, p, t, ".Data", I.mkSlice(c.st, types.NewPointer(dt), es, "duties"))
		})
	case "HeaderByNumber":
		var q Val = strC("latest")
		if v := n.val(c, c.args[2]); !isNilV(v) {
			q = I.bigOf(c.st, v, c.pos)
		}
		h := n.newAt(c.st, s.c.named(gethPkg+"/core/types", "Header"), "header", map[string]Val{})
		num, ok := q.(*Num)
		if !ok {
			num = numAtom("latestblock")
		}
		ht := types.NewPointer(s.c.named(gethPkg+"/core/types", "Header"))
		if n.hdOff != 0 {
			num = nAdd(num, numI(n.hdOff))
		}
		I.Put(c.st, h, ht, ".Number", num)
		I.Put(c.st, h, ht, ".BaseFee", I.Range("basefee("+num.key()+")", 0, nil))
		I.Put(c.st, h, ht, ".Time", I.Range("time("+num.key()+")", 0, maxU64))
		return tup(h, VNil{})
	case "TransactionReceipt":
		hs := n.val(c, c.args[2]).key()
		rt := s.c.named(gethPkg+"/core/types", "Receipt")
		h := n.newAt(c.st, rt, "receipt", map[string]Val{".TxHash": n.val(c, c.args[2]), ".GasUsed": I.Range("gas("+hs+")", 0, big.NewInt(1<<60)), ".BlockNumber": nAdd(n.block, numI(n.rcOff)), ".Status": numI(1)})
		return tup(h, VNil{})
	case "BalanceAt":
		return tup(I.newBig(c.st, I.Range("balance("+n.str(c, c.args[2])+","+n.numKey(c, c.args[3])+")", 0, nil), "balance"), VNil{})
	case "ClaimedBalance":
		return tup(I.newBig(c.st, I.Range("claimed("+n.str(c, c.args[2])+","+n.at(c, 1)+")", 0, nil), "claimed"), VNil{})
	}
	if k, ok := strings.CutPrefix(nm, "Filter"); ok {
		i := c.argOf("bind.FilterOpts")
		start := n.field(c, i, ".Start")
		end := n.field(c, i, ".End")
		if p, ok := end.(*Ptr); ok {
			end = I.load(c.st, p, types.Typ[types.Uint64], c.pos)
		}
		rt := types.Unalias(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
		it := n.newAt(c.st, rt, "iterator("+k+")", nil)
		var es []Val
		es = append(es, n.evs[k]...)
		if n.block == nil { // everything from a block to the head
			if n.from == nil || start.key() != n.from.key() || !isNilV(end) {
				et := n.s.c.named("contract", "Contract"+k)
				es = append(es, n.newAt(c.st, et, "event outside the range", map[string]Val{".Raw.BlockNumber": numAtom("otherblock")}))
			}
		} else if start.key() != n.block.key() || end.key() != n.block.key() {
			es = nil
			if end.key() != start.key() {
				es = append(es, n.evs[k]...)
			}
			et := n.s.c.named("contract", "Contract"+k)
			es = append(es, n.newAt(c.st, et, "event of another block", map[string]Val{".Raw.BlockNumber": numAtom("otherblock")}))
		}
		if len(c.args) > i+1 { // indexed filters restrict the events
			for j := i + 1; j < len(c.args); j++ {
				if l := I.lenV(c.st, n.val(c, c.args[j])); l.key() != "0" {
					panic(undecided("filtered event query at " + c.pos))
				}
			}
		}
		I.hidden(c.st, it.o, "es", I.mkSlice(c.st, types.NewInterfaceType(nil, nil), es, "answer"))
		I.hidden(c.st, it.o, "i", numI(0))
		return tup(it, VNil{})
	}
	if k, m, ok := strings.Cut(nm, "."); ok && n.isKind(k) {
		it, ok := n.val(c, c.args[0]).(*Ptr)
		if !ok {
			return nil
		}
		cut, broken := n.cut[k]
		switch m {
		case "Next":
			i, ok1 := c.st.cells[cellKey{it.o, "\x00i"}].(*Num)
			es, ok2 := I.elems(c.st, c.st.cells[cellKey{it.o, "\x00es"}], types.NewInterfaceType(nil, nil))
			if !ok1 || !ok2 {
				panic(undecided("event iterator at " + c.pos))
			}
			j, _ := i.int()
			if j >= len(es) || broken && j >= cut {
				return VBool(false)
			}
			I.Put(c.st, it, c.sig.Recv().Type(), ".Event", es[j])
			I.hidden(c.st, it.o, "i", numI(int64(j+1)))
			return VBool(true)
		case "Error":
			if broken {
				return errSym("iteration error")
			}
			return VNil{}
		case "Close":
			return VNil{}
		}
	}
	return nil
}

func (n *node) isKind(k string) bool { return n.s.c.P.Named("contract", "Contract"+k) != nil }

func (I *Interp) hidden(st *State, o *Obj, name string, v Val) {
	st.cells[cellKey{o, "\x00" + name}] = v
}

// numKey: the block a *big.Int argument asks for
func (n *node) numKey(c *Call, v Val) string {
	v = n.val(c, v)
	if isNilV(v) {
		return "latest"
	}
	return n.s.I.bigOf(c.st, v, c.pos).key()
}

// at: what the CallOpts ask for
func (n *node) at(c *Call, i int) string {
	if isNilV(n.val(c, c.args[i])) {
		return "latest"
	}
	b := n.field(c, i, ".BlockNumber")
	r := "latest"
	if !isNilV(b) {
		r = b.key()
	}
	if p := n.field(c, i, ".Pending"); p.key() != "false" {
		r += ",pending=" + p.key()
	}
	return r
}

// proposerAt: who is to propose at a slot
func (n *node) proposerAt(sl *Num) Val {
	if n.pslot == nil {
		n.pslot = n.slot
	}
	if n.pslot != nil && sl.key() == n.pslot.key() {
		return numAtom("p")
	}
	return n.s.u64("proposer@" + sl.key())
}

var forkPkg = map[string]string{"Bellatrix": "bellatrix", "Capella": "capella", "Deneb": "deneb", "Electra": "electra", "Fulu": "electra", "Altair": "altair"}
var forkVer = map[string]int64{"Altair": 1, "Bellatrix": 2, "Capella": 3, "Deneb": 4, "Electra": 5, "Fulu": 6}
var forks = []string{"Bellatrix", "Capella", "Deneb", "Electra", "Fulu"}

// beaconBlock is the block asked for by q, the decimal text of a slot
func (n *node) beaconBlock(st *State, q string) Val {
	I := n.s.I
	slot, blk := n.slot, n.block
	prop := n.prop
	if prop == nil {
		prop = numAtom("p")
	}
	if q != I.decS(n.slot).key() {
		slot = I.Range("slot of "+q, 0, maxU64)
		blk = I.Range("block of "+q, 0, maxU64)
		prop = n.s.u64("proposer of " + q)
	}
	fork := n.fork
	if fork == "" {
		fork = "Electra"
	}
	t := n.s.c.named(clPkg+"/spec", "VersionedSignedBeaconBlock")
	bt := n.s.c.named(clPkg+"/spec/"+forkPkg[fork], "SignedBeaconBlock")
	p := n.newAt(st, t, "block", map[string]Val{".Version": numI(forkVer[fork])})
	I.Put(st, p, types.NewPointer(t), "."+fork, n.newAt(st, bt, "signed", nil))
	mk := func(path string) {
		l, err := I.walk(st, p, types.NewPointer(t), path)
		if err != nil {
			panic(undecided(err.Error()))
		}
		I.store(st, l.addr, l.t, n.newAt(st, deref(l.t), path, nil), "entry")
	}
	m := "." + fork + ".Message"
	mk(m)
	put := func(path string, v Val) { I.Put(st, p, types.NewPointer(t), m+path, v) }
	put(".Slot", slot)
	put(".ProposerIndex", prop)
	mk(m + ".Body")
	if fork == "Altair" {
		return p
	}
	mk(m + ".Body.ExecutionPayload")
	put(".Body.ExecutionPayload.BlockNumber", blk)
	put(".Body.ExecutionPayload.FeeRecipient", n.fee)
	put(".Body.ExecutionPayload.GasUsed", I.Range("gasused", 0, big.NewInt(1<<60)))
	var raw []Val
	for _, x := range n.txs {
		raw = append(raw, strAtom("tx:"+x))
	}
	put(".Body.ExecutionPayload.Transactions", I.mkSlice(st, n.s.c.named(clPkg+"/spec/bellatrix", "Transaction"), raw, "transactions"))
	l, err := I.walk(st, p, types.NewPointer(t), m+".Body.ExecutionPayload.BaseFeePerGas")
	if err != nil {
		panic(undecided(err.Error()))
	}
	if ln, ok := byteArr(l.t); ok && ln == 32 { // little endian
		var ps []SPart
		for i := 31; i >= 0; i-- {
			ps = append(ps, SPart{atom: fmt.Sprintf("basefeeBE.%d", i), n: 1})
		}
		I.store(st, l.addr, l.t, &Str{parts: ps}, "entry")
	} else {
		I.store(st, l.addr, l.t, &Ptr{I.symObj("basefee256", deref(l.t)), ""}, "entry")
	}
	return p
}

// txHook models transactions by name
func (n *node) txHook(c *Call) (Val, bool) {
	I := n.s.I
	name := c.name
	const tp = gethPkg + "/core/types."
	tx := func(v Val) (string, *txd) {
		p, ok := n.val(c, v).(*Ptr)
		if !ok {
			return "", nil
		}
		r, _ := c.st.cells[cellKey{p.o, "\x00raw"}].(*Str)
		if r == nil {
			return "", nil
		}
		nm := txName(r.key())
		return nm, n.tx[nm]
	}
	switch name {
	case "(*" + tp + "Transaction).UnmarshalBinary":
		raw := n.str(c, c.args[1])
		nm := txName(raw)
		if d := n.tx[nm]; d != nil && d.badDecode {
			return errSym("undecodable transaction"), true
		}
		p, ok := n.val(c, c.args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		I.hidden(c.st, p.o, "raw", strAtom(nm))
		return VNil{}, true
	case "(" + clPkg + "/spec.VersionedSignedBeaconBlock).Slot", "(*" + clPkg + "/spec.VersionedSignedBeaconBlock).Slot":
		t := n.s.c.named(clPkg+"/spec", "VersionedSignedBeaconBlock")
		p, ok := n.val(c, c.args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		for _, f := range append([]string{"Altair"}, forks...) {
			v, err := I.Get(c.st, p, types.NewPointer(t), "."+f)
			if err == nil && !isNilV(v) {
				sl, err := I.Get(c.st, p, types.NewPointer(t), "."+f+".Message.Slot")
				if err == nil {
					return tup(sl, VNil{}), true
				}
			}
		}
		return tup(numI(0), errSym("unsupported version")), true
	case tp + "Sender":
		nm, d := tx(c.args[1])
		if d == nil {
			return nil, false
		}
		sg := n.val(c, c.args[0]).key()
		if d.badSender {
			return tup(I.zero(c.sig.Results().At(0).Type()), errSym("no sender")), true
		}
		if !strings.HasPrefix(sg, "signer(") || d.from == nil {
			return tup(&Str{parts: []SPart{{atom: "b:from(" + sg + "," + nm + ")", n: 20}}}, VNil{}), true
		}
		return tup(d.from, VNil{}), true
	case "(*github.com/holiman/uint256.Int).Bytes32", "(*github.com/holiman/uint256.Int).ToBig":
		if p, ok := n.val(c, c.args[0]).(*Ptr); ok && p.o.name == "basefee256" {
			if strings.HasSuffix(name, "ToBig") {
				return I.newBig(c.st, numAtom("basefee"), "basefee"), true
			}
			return basefeeBytes(false), true
		}
	case "(*math/big.Int).SetBytes":
		if x, _ := toStr(n.val(c, c.args[1])); x != nil && x.key() == basefeeBytes(false).key() {
			I.store(c.st, c.args[0], I.bigT(), numAtom("basefee"), c.pos)
			return c.args[0], true
		}
	case tp + "LatestSignerForChainID":
		return &Sym{t: "signer(" + n.numKey(c, c.args[0]) + ")", nn: true}, true
	}
	m, ok := strings.CutPrefix(name, "(*"+tp+"Transaction).")
	if !ok {
		return nil, false
	}
	nm, d := tx(c.args[0])
	if d == nil {
		return nil, false
	}
	big_ := func(x *Num) (Val, bool) { return I.newBig(c.st, x, m+"("+nm+")"), true }
	switch m {
	case "Hash":
		h := "hash(" + nm + ")"
		I.Uniq(h, "b:"+h)
		return &Str{parts: []SPart{{atom: "b:" + h, n: 32}}}, true
	case "To":
		if isNilV(d.to) {
			return VNil{}, true
		}
		at := n.s.c.named(gethPkg+"/common", "Address")
		o := I.newObj(c.st, at, "to")
		p := &Ptr{o, ""}
		I.store(c.st, p, at, d.to, c.pos)
		return p, true
	case "Data":
		if d.data == nil {
			return nil, false
		}
		return d.data, true
	case "Value":
		return big_(d.value)
	case "GasPrice":
		return big_(d.price)
	case "GasTipCap":
		return big_(d.t)
	case "GasFeeCap":
		return big_(d.cap_)
	case "Type":
		if d.otyp != nil {
			return d.otyp, true
		}
		return numI(d.typ), true
	}
	return nil, false
}

func txName(k string) string {
	return strings.TrimPrefix(strings.Trim(k, "\"{}"), "tx:")
}

// addTx makes the transaction named nm
func (n *node) addTx(nm string, typ int64, to Val, from *Str) *txd {
	I := n.s.I
	d := &txd{typ: typ, to: to, from: from, value: I.Range("value("+nm+")", 0, nil), price: I.Range("price("+nm+")", 0, nil), t: I.Range("tip("+nm+")", 0, nil), cap_: I.Range("cap("+nm+")", 0, nil)}
	n.tx[nm] = d
	n.txs = append(n.txs, nm)
	return d
}

// onchain is the client object of the oracle package
func (s *Scn) onchain() *Ptr {
	t := s.c.named("oracle", "Onchain")
	p := &Ptr{s.I.symObj("oc", t), ""}
	s.I.init["oc.PoolAddress"] = addrStr("pool", "cfg")
	s.I.init["oc.NumRetries"] = numI(3)
	s.I.Uniq("pool")
	return p
}

// freshGlobals gives every package-level variable of the module the value it has
// when the process starts, those that are reassigned later included.
func (s *Scn) freshGlobals() {
	for k, v := range s.I.mutInit {
		s.st.cells[k] = v
	}
}
