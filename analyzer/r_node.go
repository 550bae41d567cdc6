package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Rule{id: "C26", title: "all contract events of exactly the processed block are considered",
		explain: "FetchFullBlock is interpreted over every way its honest or failing environment can answer, within the enumerated classes: every external call is answered as a function of what was asked (state, block range, indices), so a query for another block or slot shows in the assembled block. Each call the clean run makes is then failed in turn, on its first and on its second occurrence, and every event iteration is cut short: the process must stop.",
		run:     runC26, minOblig: 100})
	register(&Rule{id: "C27", title: "only a definite not-found answer counts as a missed slot",
		explain: "FetchFullBlock and GetConsensusBlockAtSlot are interpreted with the beacon block request failing in every class of way: API error with status 404, API errors with other statuses, errors of any other kind with unknown text. Only the first may lead to a block without consensus data; the others are asked again and in the end stop processing.",
		run:     runC27, minOblig: 20})
	register(&Rule{id: "C37", title: "chain data is queried at the slot or block it is meant for",
		explain: "the query functions of Onchain are interpreted with symbolic arguments against nodes whose answers name what was asked; the result must name exactly the caller's arguments. Answers that miss a requested validator, or carry another index, must be errors. Refreshing the validator list must keep exactly the finalized answer.",
		run:     runC37, minOblig: 40})
}

var kinds9 = []string{"EtherReceived", "SubscribeValidator", "UnsubscribeValidator", "UpdatePoolFee", "UpdatePoolFeeRecipient", "UpdateCheckpointSlotSize", "UpdateSubscriptionCollateral", "BanValidator", "UnbanValidator"}
var kindField = map[string]string{"UpdatePoolFeeRecipient": "PoolFeeRecipient", "UpdateCheckpointSlotSize": "CheckpointSlotSize"}

type fetchCase struct {
	fork    string
	events  int  // of every kind
	pool    bool // fee recipient is the pool
	sub     bool // proposer is subscribed
	txs     int
	all     bool // everything is fetched on request
	subOnly string
	tag     string // names what is in the block
}

// fetchScn prepares a call of FetchFullBlock on slot 32e+3.
func (c *Ctx) fetchScn(e fetchCase) (*Scn, *node, []Val) {
	s := c.scn(fmt.Sprintf("fork %q, %d events of every kind %s, fee recipient the pool: %v, proposer subscribed: %v, %d transactions, everything asked for: %v", e.fork, e.events, e.subOnly, e.pool, e.sub, e.txs, e.all))
	s.freshGlobals()
	n := s.node()
	oc := s.onchain()
	ep := s.I.Range("e", 4, big.NewInt(1<<40))
	n.slot = nAdd(nMul(numI(32), ep), numI(3))
	n.block = s.I.Range("N", 1, new(big.Int).Sub(maxU64, big.NewInt(1)))
	n.fork = e.fork
	s.I.init["oc.ChainId"] = numI(560048)
	s.I.Uniq("builder", "outsider")
	if e.pool {
		n.fee = addrBytes("pool")
	} else {
		n.fee = addrBytes("builder")
	}
	s.I.init["or.cfg.PoolAddress"] = addrStr("pool", "cfg")
	st := int64(4)
	if e.sub {
		st = 1
	}
	s.validators(vst{"p", st})
	for i := 0; i < e.txs; i++ {
		s.I.Uniq(fmt.Sprintf("from%d", i), fmt.Sprintf("to%d", i))
		n.addTx(fmt.Sprintf("t%d", i), 2, addrBytes(fmt.Sprintf("to%d", i)), addrBytes(fmt.Sprintf("from%d", i)))
	}
	s.fetchEvents(e, n)
	var opt Val = VNil{}
	if e.all {
		opt = s.I.mkSlice(s.st, types.Typ[types.Bool], []Val{VBool(true)}, "opt")
	}
	return s, n, []Val{oc, n.slot, s.or, opt}
}

// fetchEvents: what the contract emitted in the block
func (s *Scn) fetchEvents(e fetchCase, n *node) {
	c := s.c
	for _, k := range kinds9 {
		n.evs[k] = nil
		cnt := e.events
		if e.subOnly != "" && e.subOnly != k {
			cnt = 0
		}
		for i := 0; i < cnt; i++ {
			t := c.named("contract", "Contract"+k)
			f := map[string]Val{".Raw.BlockNumber": n.block}
			if k == "SubscribeValidator" || k == "UnsubscribeValidator" {
				f[".ValidatorID"] = s.u64(fmt.Sprintf("%s%s%d", e.tag, strings.ToLower(k[:3]), i))
			}
			if k == "EtherReceived" {
				f[".DonationAmount"] = s.nonneg(fmt.Sprintf("%samount%d", e.tag, i))
			}
			n.evs[k] = append(n.evs[k], s.mkT(t, fmt.Sprintf("%sevent %s %d", e.tag, k, i), f))
		}
	}
}

func (e fetchCase) needsReceipts() bool { return e.pool || e.sub || e.all }

// checkFetched: the assembled block is the one the nodes hold for that slot
func (s *Scn) checkFetched(rule string, e fetchCase, n *node, ret Val, rule2 string) {
	c := s.c
	ft := types.NewPointer(c.named("oracle", "FullBlock"))
	if !s.clean(rule) {
		return
	}
	get := func(path string) Val {
		v, err := s.I.Get(s.st, ret, ft, path)
		if err != nil {
			s.fail(rule, "%s of the assembled block: %v", path, err)
			return nil
		}
		return v
	}
	want := func(rule, path string, v Val) {
		g := get(path)
		if g == nil {
			return
		}
		if g.key() != v.key() {
			s.fail(rule, "%s of the assembled block is %s, the nodes say %s", path, trunc(g.key(), 200), v.key())
			return
		}
		c.Check(true, rule, s.name+" "+path, s.pos(), "")
	}
	state := s.I.decS(n.slot).key()
	want(rule2, ".ConsensusDuty.Slot", n.slot)
	pr := n.proposerAt(n.slot)
	want(rule2, ".ConsensusDuty.ValidatorIndex", pr)
	want(rule2, ".Validator.Index", pr)
	want(rule2, ".Validator.Validator.EffectiveBalance", numAtom("eb:"+pr.key()+"@"+state))
	if e.fork == "" {
		want(rule, ".ConsensusBlock", VNil{})
	} else {
		want(rule2, ".ConsensusBlock."+e.fork+".Message.Slot", n.slot)
	}
	for _, k := range kinds9 {
		f := kindField[k]
		if f == "" {
			f = k
		}
		es, _, err := s.I.List(s.st, ret, ft, ".Events."+f)
		if err != nil {
			s.fail(rule, "events %s: %v", f, err)
			continue
		}
		var wantEs []Val
		if e.fork != "" {
			wantEs = n.evs[k]
		}
		a, b := vkeys(s, es), vkeys(s, wantEs)
		if a != b {
			s.fail(rule, "the block carries the %s events [%s], the contract emitted [%s]", f, a, b)
			continue
		}
		c.Check(true, rule, s.name+" events "+f, s.pos(), "")
	}
	for _, x := range []struct{ list, kind string }{{".ValidatorsSubs", "SubscribeValidator"}, {".ValidatorsUnsubs", "UnsubscribeValidator"}} {
		es, _, err := s.I.List(s.st, ret, ft, x.list)
		if err != nil {
			s.fail(rule, "%s: %v", x.list, err)
			continue
		}
		var evs []Val
		if e.fork != "" {
			evs = n.evs[x.kind]
		}
		if len(es) != len(evs) {
			s.fail(rule, "%d beacon validators in %s for %d events", len(es), x.list, len(evs))
			continue
		}
		for i := range es {
			id := fmt.Sprintf("%s%s%d", e.tag, strings.ToLower(x.kind[:3]), i)
			want(rule, fmt.Sprintf("%s[%d].Index", x.list, i), numAtom(id))
			want(rule2, fmt.Sprintf("%s[%d].Validator.EffectiveBalance", x.list, i), numAtom("eb:"+id+"@"+state))
		}
	}
	if e.fork != "" && e.needsReceipts() {
		want(rule2, ".ExecutionHeader.Number", n.block)
		es, _, err := s.I.List(s.st, ret, ft, ".ExecutionReceipts")
		if err != nil || len(es) != e.txs {
			s.fail(rule2, "receipts of %d transactions: %d, %v", e.txs, len(es), err)
			return
		}
		for i := range es {
			want(rule2, fmt.Sprintf(".ExecutionReceipts[%d].TxHash", i), &Str{parts: []SPart{{atom: fmt.Sprintf("b:hash(t%d)", i), n: 32}}})
		}
	}
}

func vkeys(s *Scn, vs []Val) string {
	var r []string
	for _, v := range vs {
		r = append(r, s.I.res(s.st, v).key())
	}
	return strings.Join(r, " ")
}

func runC26(c *Ctx) {
	fn := c.anchor("oracle", "*Onchain", "FetchFullBlock")
	const rule = "events handed over are those of the block"
	const stop = "a failed retrieval stops"
	cases := []fetchCase{{fork: ""}}
	for _, f := range []string{"Deneb", "Fulu"} {
		for _, ev := range []int{0, 1, 2, 3} {
			cases = append(cases, fetchCase{fork: f, events: ev})
		}
		for _, k := range kinds9 {
			cases = append(cases, fetchCase{fork: f, events: 2, subOnly: k})
		}
		cases = append(cases, fetchCase{fork: f, events: 2, pool: true, txs: 2}, fetchCase{fork: f, events: 1, sub: true, txs: 1}, fetchCase{fork: f, events: 1, txs: 2, all: true}, fetchCase{fork: f, events: 2, sub: true, pool: true})
	}
	for _, e := range cases {
		s, n, args := c.fetchScn(e)
		ret := s.call(fn, args...)
		s.checkFetched(rule, e, n, ret, "block data is that of the slot")
		if e.events != 2 || e.fork == "Deneb" || e.subOnly != "" || !e.pool {
			continue
		}
		// every call fails in turn
		var keys []string
		cnt := map[string]int{}
		for _, k := range n.calls {
			cnt[k.name]++
			keys = append(keys, fmt.Sprintf("%s#%d", k.name, cnt[k.name]))
		}
		for _, k := range uniqStrs(keys) {
			nm := k[:strings.Index(k, "#")]
			if strings.HasSuffix(nm, ".Next") || strings.HasSuffix(nm, ".Error") || strings.HasPrefix(nm, "http") {
				continue
			}
			s, n, args := c.fetchScn(e)
			s.name += ", failing: " + k
			if strings.HasSuffix(nm, ".Close") {
				n.fail[k] = 1
			} else {
				// from that call on, for good
				n.ans[nm] = failFrom(n, nm, k)
			}
			s.call(fn, args...)
			s.stops(stop)
		}
		for _, k := range kinds9 {
			for cut := 0; cut <= 2; cut++ {
				s, n, args := c.fetchScn(e)
				s.name += fmt.Sprintf(", iteration of %s breaks after %d", k, cut)
				n.cut[k] = cut
				s.call(fn, args...)
				s.stops("a partial retrieval stops")
			}
			// events of another block that a node slips in
			for _, d := range []int64{1, -1} {
				for at := 0; ; at++ {
					s, n, args := c.fetchScn(e)
					l := n.evs[k]
					if at > len(l) {
						break
					}
					s.name += fmt.Sprintf(", a %s event of block %+d, number %d of %d", k, d, at+1, len(l)+1)
					f := s.mkT(c.named("contract", "Contract"+k), "foreign", map[string]Val{".Raw.BlockNumber": nAdd(n.block, numI(d))})
					n.evs[k] = append(append(append([]Val{}, l[:at]...), f), l[at:]...)
					s.call(fn, args...)
					s.stops("an event of another block stops")
				}
			}
		}
		for _, d := range []int64{1, -1} {
			for _, k := range []string{"header", "receipts"} {
				if k == "receipts" && e.txs == 0 {
					continue
				}
				s, n, args := c.fetchScn(e)
				s.name += fmt.Sprintf(", %s of block %+d", k, d)
				if k == "header" {
					n.hdOff = d
				} else {
					n.rcOff = d
				}
				s.call(fn, args...)
				s.stops("header or receipts of another block stop")
			}
		}
		// transient failures change nothing
		s2, n2, args2 := c.fetchScn(e)
		s2.name += ", every kind of request fails once"
		for _, k := range keys {
			nm := k[:strings.Index(k, "#")]
			if !strings.Contains(nm, ".") {
				n2.fail[nm] = 1
			}
		}
		ret = s2.call(fn, args2...)
		s2.checkFetched("transient failures lose nothing", e, n2, ret, "transient failures change nothing")
	}
	c.Min(stop, 15)
	c.Min("a partial retrieval stops", 27)
	c.Min("header or receipts of another block stop", 4)
}

// failFrom answers with an error from the given occurrence on
func failFrom(n *node, nm, key string) func(c *Call) Val {
	var k int
	fmt.Sscanf(key[strings.Index(key, "#")+1:], "%d", &k)
	return func(c *Call) Val {
		if n.count[nm] >= k && hasErrResult(c.sig) {
			return n.s.I.failResults(c.sig, nm)
		}
		return nil
	}
}

func runC27(c *Ctx) {
	fetch := c.anchor("oracle", "*Onchain", "FetchFullBlock")
	get := c.anchor("oracle", "*Onchain", "GetConsensusBlockAtSlot")
	for _, fork := range []string{"", "Deneb", "Electra"} {
		for _, code := range []int64{404, 400, 401, 403, 405, 408, 429, 500, 502, 503, 504, -1, 4040, 1404} {
			if fork == "" && code != 404 {
				continue
			}
			for _, root := range []string{"fetch", "get"} {
				e := fetchCase{fork: fork, events: 1, sub: true}
				s, n, args := c.fetchScn(e)
				what := fmt.Sprintf("status %d", code)
				if code < 0 {
					what = "an error of another kind, with unknown text"
				}
				s.name = root + ", block request fails for good with " + what
				fn := fetch
				if root == "get" {
					fn = get
					args = []Val{args[0], n.slot, VNil{}}
				}
				n.fail["SignedBeaconBlock"] = -1
				if code >= 0 {
					n.err["SignedBeaconBlock"] = n.apiErr(code)
				}
				ret := s.call(fn, args...)
				switch {
				case code == 404 && root == "fetch":
					e.fork = ""
					s.checkFetched("a slot without a block is a missed slot", e, n, ret, "a slot without a block is a missed slot")
				case code == 404:
					if s.clean("a slot without a block is a missed slot") {
						_, isNil := s.lastErr()
						c.Check(isNil && isNilV(s.retAt(0)), "a slot without a block is a missed slot", s.name, s.pos(), "gives %s", trunc(ret.key(), 200))
					}
				case root == "fetch":
					s.stops("no other failure counts as a missed slot")
					c.Check(n.count["SignedBeaconBlock"] > 1, "other failures are retried", s.name, s.pos(), "the block is asked for %d time(s) only", n.count["SignedBeaconBlock"])
				default:
					if s.clean("no other failure counts as a missed slot") {
						nn, _ := s.lastErr()
						c.Check(nn, "no other failure counts as a missed slot", s.name, s.pos(), "the result is %s", trunc(ret.key(), 200))
					}
				}
				if code == 404 || root == "get" {
					continue
				}
				// once only: the block is obtained all the same
				s, n, args = c.fetchScn(e)
				s.name = "block request fails once with " + what
				n.fail["SignedBeaconBlock"] = 1
				if code >= 0 {
					n.err["SignedBeaconBlock"] = n.apiErr(code)
				}
				ret = s.call(fetch, args...)
				s.checkFetched("a failure that passes is no missed slot", e, n, ret, "a failure that passes is no missed slot")
			}
		}
		// an answer without a block is not a missed slot unless the node said so: block of another slot
		if fork != "" {
			e := fetchCase{fork: fork, events: 1, sub: true}
			s, n, args := c.fetchScn(e)
			s.name = "the node answers with the block of another slot"
			n.ans["SignedBeaconBlock"] = func(cl *Call) Val {
				return n.response(cl, func(p *Ptr, t types.Type) {
					s.I.Put(cl.st, p, t, ".Data", n.beaconBlock(cl.st, "\"7\""))
				})
			}
			s.sign(nSub(numAtom("slot of \"7\""), n.slot), mPos)
			s.call(fetch, args...)
			s.stops("a block of another slot stops")
		}
	}
	c.Min("no other failure counts as a missed slot", 20)
	c.Min("a slot without a block is a missed slot", 4)
}

func runC37(c *Ctx) {
	const rule = "asked as the caller wants"
	const odd = "answers for other validators are errors"
	single := c.anchor("oracle", "*Onchain", "GetSingleValidator")
	set := c.anchor("oracle", "*Onchain", "GetSetOfValidators")
	cons := c.anchor("oracle", "*Onchain", "GetPendingConsolidations")
	bal := c.anchor("oracle", "*Onchain", "GetPoolEthBalance")
	claimed := c.anchor("oracle", "*Onchain", "GetContractClaimedBalance")
	per := c.anchor("oracle", "*Onchain", "GetClaimedPerWithdrawalAddress")
	mk := func(name string) (*Scn, *node, *Ptr) {
		s := c.scn(name)
		s.freshGlobals()
		n := s.node()
		oc := s.onchain()
		n.slot, n.block = s.u64("slot"), s.u64("N")
		return s, n, oc
	}
	vt := types.NewPointer(c.named(v1pkg, "Validator"))
	checkV := func(s *Scn, v Val, idx, state string) {
		i, e1 := s.I.Get(s.st, v, vt, ".Index")
		b, e2 := s.I.Get(s.st, v, vt, ".Validator.EffectiveBalance")
		if e1 != nil || e2 != nil {
			s.fail(rule, "no validator: %s", v.key())
			return
		}
		c.Check(i.key() == idx && b.key() == "eb:"+idx+"@"+strAtom(state).key(), rule, s.name, s.pos(), "the result is validator %s with %s; asked was %s at %s", i.key(), b.key(), idx, state)
	}
	mustErr := func(s *Scn) {
		if s.clean(odd) {
			nn, _ := s.lastErr()
			c.Check(nn, odd, s.name, s.pos(), "the result is %s", trunc(s.ret.key(), 200))
		}
	}
	state := strAtom("state")
	// one validator
	s, n, oc := mk("one validator")
	s.call(single, oc, s.u64("v"), state, VNil{})
	if s.clean(rule) {
		_, isNil := s.lastErr()
		c.Check(isNil, rule, s.name, s.pos(), "error although the node answered")
		checkV(s, s.retAt(0), "v", "state")
	}
	for _, k := range []string{"another index reported", "answer for another validator", "an additional validator"} {
		s, n, oc = mk("one validator, " + k)
		s.less(s.u64("v"), s.u64("w"))
		switch k {
		case "another index reported":
			n.odd["v"] = numAtom("w")
		case "answer for another validator":
			n.gone["v"] = true
			n.odd["+w"] = numAtom("w")
		default:
			n.odd["+w"] = numAtom("w")
		}
		s.call(single, oc, numAtom("v"), state, VNil{})
		mustErr(s)
	}
	// a set
	vit := c.named(p0pkg, "ValidatorIndex")
	for size := 0; size <= 3; size++ {
		var nm []string
		for i := 0; i < size; i++ {
			nm = append(nm, fmt.Sprintf("v%d", i))
		}
		prep := func(name string) (*Scn, *node, []Val) {
			s, n, oc := mk(fmt.Sprintf("%d validators%s", size, name))
			var vs []Val
			for i, x := range nm {
				vs = append(vs, s.u64(x))
				for j := 0; j < i; j++ {
					s.less(numAtom(nm[j]), numAtom(x))
				}
			}
			n.known = append([]string{"zz"}, nm...)
			return s, n, []Val{oc, s.I.mkSlice(s.st, vit, vs, "indices"), state, VNil{}}
		}
		s, _, args := prep("")
		s.call(set, args...)
		if size == 0 {
			mustErr(s)
			continue
		}
		if s.clean(rule) {
			_, isNil := s.lastErr()
			c.Check(isNil, rule, s.name, s.pos(), "error although the node answered")
			m, ok := s.retAt(0).(*MapV)
			if !ok {
				s.fail(rule, "no validators: %s", s.ret.key())
				continue
			}
			mc, _ := s.I.mapOf(s.st, m.o)
			got := map[string]bool{}
			for _, e := range mc.es {
				got[e.k.key()] = true
				checkV(s, e.v, e.k.key(), "state")
			}
			for _, x := range nm {
				c.Check(got[x], rule, s.name, s.pos(), "%s is missing in the result", x)
			}
		}
		for _, x := range nm {
			s, n, args := prep(", " + x + " missing in the answer")
			n.gone[x] = true
			s.call(set, args...)
			mustErr(s)
		}
		s, n, args = prep(", none in the answer")
		for _, x := range nm {
			n.gone[x] = true
		}
		s.call(set, args...)
		mustErr(s)
		s, n, args = prep(", request fails")
		n.fail["Validators"] = -1
		s.call(set, args...)
		mustErr(s)
	}
	// pending consolidations
	for _, k := range []string{"", "request cannot be made", "request fails", "status", "undecodable"} {
		s, n, oc := mk("pending consolidations " + k)
		var urls []string
		n.more = func(cl *Call) (Val, bool) {
			switch {
			case strings.HasSuffix(cl.name, "http.Service).Address"):
				return strAtom("node"), true
			case strings.HasPrefix(cl.name, "net/http.NewRequest"):
				for i, a := range cl.args {
					if i >= len(cl.args)-2 && !isNilV(n.val(cl, a)) {
						if x, ok := toStr(n.val(cl, a)); ok && x != nil && x.key() != `"GET"` {
							urls = append(urls, x.key())
						}
					}
				}
				if k == "request cannot be made" {
					return s.I.failResults(cl.sig, "NewRequest"), true
				}
				return nil, false
			case cl.name == "net/http.Get" || strings.HasSuffix(cl.name, "http.Client).Get"):
				if x, ok := toStr(n.val(cl, cl.args[len(cl.args)-1])); ok {
					urls = append(urls, x.key())
				}
				fallthrough
			case strings.HasSuffix(cl.name, "net/http.Client).Do"):
				if k == "request fails" {
					return s.I.failResults(cl.sig, "Do"), true
				}
				t := c.named("net/http", "Response")
				code := numI(200)
				if k == "status" {
					code = numI(500)
				}
				p := n.newAt(cl.st, t, "http response", map[string]Val{".StatusCode": code})
				s.I.Put(cl.st, p, types.NewPointer(t), ".Body", &Sym{t: "body", nn: true})
				return tup(p, VNil{}), true
			case strings.HasSuffix(cl.name, "json.Decoder).Decode"), cl.name == "encoding/json.Unmarshal":
				if k == "undecodable" {
					return errSym("undecodable"), true
				}
			}
			return nil, false
		}
		s.call(cons, oc, state, VNil{})
		if !s.clean(rule) {
			continue
		}
		if k != "" {
			mustErr(s)
			continue
		}
		_, isNil := s.lastErr()
		c.Check(isNil && !isNilV(s.retAt(0)), rule, s.name, s.pos(), "error although the node answered")
		want := catS(catS(catS(strAtom("node"), strC("/eth/v1/beacon/states/")), state), strC("/pending_consolidations")).key()
		c.Check(len(urls) == 1 && urls[0] == want, rule, s.name+" url", s.pos(), "asked %v, wanted %s", urls, want)
		out := map[string]string{}
		s.I.leafs(s.st, s.retAt(0), types.NewPointer(c.named("oracle", "PendingConsolidationsResponse")), "", out, 0)
		okBody := false
		for p, v := range out {
			if strings.HasPrefix(p, ".Data") && strings.Contains(v, "body") {
				okBody = true
			}
		}
		c.Check(okBody, rule, s.name+" content", s.pos(), "the result is not what the node answered: %v", out)
	}
	// balances
	for _, at := range []string{"N", ""} {
		num := func(s *Scn) Val {
			if at == "" {
				return VNil{}
			}
			return s.big(numAtom("N"))
		}
		atK := at
		if at == "" {
			atK = "latest"
		}
		s, _, oc := mk("pool balance at " + atK)
		s.call(bal, oc, num(s), VNil{})
		if s.clean(rule) {
			_, isNil := s.lastErr()
			got := s.I.bigOf(s.st, s.retAt(0), "").key()
			want := "balance(" + addrBytes("pool").key() + "," + atK + ")"
			c.Check(isNil && got == want, rule, s.name, s.pos(), "gives %s, wanted %s", got, want)
		}
		s, _, oc = mk("claimed amount at " + atK)
		s.I.Uniq("acct", "acct2")
		s.call(claimed, oc, addrStr("acct", "x"), num(s), VNil{})
		want := func(a string) string { return "claimed(" + addrBytes(a).key() + "," + atK + ")" }
		if s.clean(rule) {
			_, isNil := s.lastErr()
			got := s.I.bigOf(s.st, s.retAt(0), "").key()
			c.Check(isNil && got == want("acct"), rule, s.name, s.pos(), "gives %s, wanted %s", got, want("acct"))
		}
		for size := 0; size <= 3; size++ {
			for failing := 0; failing <= size; failing++ {
				s, n, oc := mk(fmt.Sprintf("claimed amounts of %d accounts at %s, request %d fails", size, atK, failing))
				var es []Val
				for i := 0; i < size; i++ {
					s.I.Uniq(fmt.Sprintf("acct%d", i))
					es = append(es, addrStr(fmt.Sprintf("acct%d", i), "x"))
				}
				if failing > 0 {
					n.ans["ClaimedBalance"] = failFrom(n, "ClaimedBalance", fmt.Sprintf("#%d", failing))
				}
				s.call(per, oc, s.I.mkSlice(s.st, types.Typ[types.String], es, "accounts"), num(s), VNil{})
				if failing > 0 {
					mustErr(s)
					continue
				}
				if !s.clean(rule) {
					continue
				}
				out := map[string]string{}
				s.I.leafs(s.st, s.retAt(0), c.mapT(per.Signature.Results().At(0).Type()), "", out, 0)
				exp := map[string]string{}
				for i := 0; i < size; i++ {
					exp["["+addrStr(fmt.Sprintf("acct%d", i), "x").key()+"]"] = want(fmt.Sprintf("acct%d", i))
				}
				s.diff(rule, out, exp)
			}
		}
		s, n, oc := mk("pool balance at " + atK + ", request fails")
		n.fail["BalanceAt"] = -1
		s.call(bal, oc, num(s), VNil{})
		mustErr(s)
		s, n, oc = mk("claimed amount at " + atK + ", request fails")
		n.fail["ClaimedBalance"] = -1
		s.call(claimed, oc, addrStr("acct", "x"), num(s), VNil{})
		mustErr(s)
	}
	// what the block processing itself asks for
	fetch := c.anchor("oracle", "*Onchain", "FetchFullBlock")
	for _, e := range []fetchCase{{fork: "Electra", events: 2, pool: true, txs: 2}, {fork: "Deneb", events: 1, sub: true}, {fork: ""}} {
		s, n, args := c.fetchScn(e)
		ret := s.call(fetch, args...)
		s.checkFetched("block data is that of the slot", e, n, ret, "block data is that of the slot")
	}
	c.c37main()
	c.minedReads()
	c.refreshed()
	c.askedAgain()
	// the proposer duty cache never answers for another epoch
	for _, d := range []int64{1, 29, -3, -4, -36, 32, 64} {
		e := fetchCase{fork: ""}
		s, n, args := c.fetchScn(e)
		s.call(fetch, args...)
		ok := s.clean("duties of the right slot after another slot was asked")
		if !ok {
			continue
		}
		first := n.slot
		n.slot = nAdd(first, numI(d))
		s.name = fmt.Sprintf("slot %+d after another one", d)
		args[1] = n.slot
		ret := s.call(fetch, args...)
		s.checkFetched("duties of the right slot after another slot was asked", e, n, ret, "duties of the right slot after another slot was asked")
	}
}

// refreshed: the list of validators kept is what the consensus client says is finalized
func (c *Ctx) refreshed() {
	const rule = "the list of validators is the finalized one"
	fn := c.anchor("oracle", "*Onchain", "RefreshBeaconValidators")
	get := c.anchor("oracle", "*Onchain", "Validators")
	for size := 0; size <= 3; size++ {
		for _, fails := range []bool{false, true} {
			s := c.scn(fmt.Sprintf("refresh, %d validators, request fails: %v", size, fails))
			s.freshGlobals()
			n := s.node()
			oc := s.onchain()
			n.known, n.epoch = nil, s.I.Range("activation", 1, big.NewInt(1<<40))
			for i := 0; i < size; i++ {
				x := fmt.Sprint(i) // the consensus layer numbers validators without gaps
				n.known = append(n.known, x)
			}
			if fails {
				n.fail["Validators"] = -1
			}
			s.call(fn, oc)
			if len(s.I.notes) > 0 {
				s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
				continue
			}
			if fails || size == 0 {
				if s.st.dead {
					c.Check(true, rule, s.name, s.pos(), "")
					continue
				}
				// going on is right only with the list there was before
				s.call(get, oc)
				m, ok := s.ret.(*MapV)
				c.Check(!ok && strings.Contains(s.ret.key(), "oc.validators") || ok && strings.Contains(m.key(), "oc.validators"), rule, s.name, s.pos(), "goes on with %s", trunc(s.ret.key(), 200))
				continue
			}
			if !s.clean(rule) {
				continue
			}
			s.call(get, oc)
			m, ok := s.ret.(*MapV)
			if !ok {
				s.fail(rule, "no validators: %s", trunc(s.ret.key(), 200))
				continue
			}
			mc, _ := s.I.mapOf(s.st, m.o)
			c.Check(len(mc.es) == size, rule, s.name+": size", s.pos(), "%d validators are kept", len(mc.es))
			vt := types.NewPointer(c.named(v1pkg, "Validator"))
			for _, e := range mc.es {
				b, err := s.I.Get(s.st, e.v, vt, ".Validator.EffectiveBalance")
				want := "eb:" + e.k.key() + "@" + strC("finalized").key()
				c.Check(err == nil && b.key() == want, rule, s.name+": "+e.k.key(), s.pos(), "validator %s kept has balance %v, wanted that of the finalized state", e.k.key(), b)
			}
		}
	}
	c.Min(rule, 8)
}

// minedReads: the contract is asked for what blocks hold, never for what is pending
func (c *Ctx) minedReads() {
	const rule = "the contract is read as mined"
	for _, f := range c.onchainFns() {
		bad, reads := map[string]string{}, 0
		look := func(n *node, s *Scn) func(*Call) (Val, bool) {
			return func(cl *Call) (Val, bool) {
				for i := 0; i < cl.sig.Params().Len(); i++ {
					p, ok := types.Unalias(cl.sig.Params().At(i).Type()).(*types.Pointer)
					if !ok {
						continue
					}
					nt, ok := types.Unalias(p.Elem()).(*types.Named)
					if !ok || nt.Obj().Name() != "CallOpts" || nodeCall(cl.name) == "" {
						continue
					}
					reads++
					at := n.at(cl, i+len(cl.args)-cl.sig.Params().Len())
					if at != "latest" && at != n.block.key() {
						bad[cl.pos] = nodeCall(cl.name) + " is read at " + at
					}
				}
				return nil, false
			}
		}
		s, _, _ := c.sweepRun(f, " reads the contract", "", "", look)
		if len(s.I.notes) > 0 {
			s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
			continue
		}
		for _, pos := range sortedKeys(bad) {
			c.Fail(rule, s.name, pos, "%s", bad[pos])
		}
		if reads > 0 && len(bad) == 0 {
			c.Check(true, rule, s.name, s.pos(), "")
		}
	}
	c.Min(rule, 10)
}

func (c *Ctx) mapT(t types.Type) types.Type { return types.Unalias(t) }

var _ = sort.Strings

// askedAgain: nothing answered before is given as the answer to another question
func (c *Ctx) askedAgain() {
	const rule = "another question gets its own answer"
	fetch := c.anchor("oracle", "*Onchain", "FetchFullBlock")
	kinds := []fetchCase{{fork: ""}, {fork: "Deneb"}, {fork: "Electra", events: 2, pool: true, sub: true, txs: 2}, {fork: "Fulu", events: 1, sub: true, txs: 1}}
	for _, a := range kinds {
		for _, b := range kinds {
			for _, d := range []int64{1, -1, 2, 29} {
				if (d == 2 || d == -1) && (a.fork == "" || b.fork == "") {
					continue
				}
				s, n, args := c.fetchScn(a)
				s.call(fetch, args...)
				if !s.clean(rule) {
					continue
				}
				s.name = fmt.Sprintf("slot %+d (fork %q, %d events) after one of fork %q with %d events", d, b.fork, b.events, a.fork, a.events)
				b := b
				b.pool, b.sub = a.pool, false // another proposer
				b.tag = "later "
				n.slot, n.fork = nAdd(n.slot, numI(d)), b.fork
				n.prop = n.proposerAt(n.slot)
				s.less(s.u64("p"), n.prop.(*Num))
				if a.fork != "" {
					n.block = nAdd(n.block, numI(1))
				}
				n.txs = nil
				for i := 0; i < b.txs; i++ {
					s.I.Uniq(fmt.Sprintf("lfrom%d", i), fmt.Sprintf("lto%d", i))
					n.addTx(fmt.Sprintf("t%d", i), 2, addrBytes(fmt.Sprintf("lto%d", i)), addrBytes(fmt.Sprintf("lfrom%d", i)))
				}
				s.fetchEvents(b, n)
				args[1] = n.slot
				ret := s.call(fetch, args...)
				s.checkFetched(rule, b, n, ret, rule)
			}
		}
	}
	mk := func(name string) (*Scn, *node, *Ptr) {
		s := c.scn(name)
		s.freshGlobals()
		n := s.node()
		n.slot, n.block, n.fork = s.u64("slot"), s.u64("N"), "Deneb"
		s.I.Range("M", 0, maxU64)
		s.less(numAtom("N"), numAtom("M"))
		s.I.Uniq("acct", "acct2", "state", "state2")
		for _, x := range [][2]string{{"v", "w"}, {"v", "x"}, {"w", "x"}} {
			s.less(s.u64(x[0]), s.u64(x[1]))
		}
		return s, n, s.onchain()
	}
	vp := types.NewPointer(c.named(v1pkg, "Validator"))
	is := func(s *Scn, v Val, idx, state string) {
		b, err := s.I.Get(s.st, v, vp, ".Validator.EffectiveBalance")
		want := "eb:" + idx + "@" + strAtom(state).key()
		c.Check(err == nil && b.key() == want, rule, s.name, s.pos(), "validator %s at %s is answered with %v", idx, state, b)
	}
	single := c.anchor("oracle", "*Onchain", "GetSingleValidator")
	for _, q := range [][4]string{{"v", "state", "v", "state2"}, {"v", "state", "w", "state"}, {"v", "state", "w", "state2"}} {
		s, _, oc := mk(fmt.Sprintf("validator %s at %s after %s at %s", q[2], q[3], q[0], q[1]))
		s.call(single, oc, numAtom(q[0]), strAtom(q[1]), VNil{})
		s.call(single, oc, numAtom(q[2]), strAtom(q[3]), VNil{})
		if s.clean(rule) {
			is(s, s.retAt(0), q[2], q[3])
		}
	}
	set := c.anchor("oracle", "*Onchain", "GetSetOfValidators")
	vit := c.named(p0pkg, "ValidatorIndex")
	for _, q := range [][3]string{{"v w", "v w", "state2"}, {"v w", "w x", "state"}, {"v w", "v x", "state2"}, {"v w", "v w x", "state"}, {"v w x", "w", "state2"}} {
		s, _, oc := mk(fmt.Sprintf("validators %s at %s after %s at state", q[1], q[2], q[0]))
		ask := func(vs, state string) {
			var l []Val
			for _, x := range strings.Fields(vs) {
				l = append(l, numAtom(x))
			}
			s.call(set, oc, s.I.mkSlice(s.st, vit, l, "indices"), strAtom(state), VNil{})
		}
		ask(q[0], "state")
		ask(q[1], q[2])
		if !s.clean(rule) {
			continue
		}
		m, ok := s.retAt(0).(*MapV)
		if !ok {
			s.fail(rule, "no validators: %s", s.ret.key())
			continue
		}
		mc, _ := s.I.mapOf(s.st, m.o)
		var got []string
		for _, e := range mc.es {
			got = append(got, e.k.key())
			is(s, e.v, e.k.key(), q[2])
		}
		sort.Strings(got)
		c.Check(strings.Join(got, " ") == q[1], rule, s.name+": set", s.pos(), "validators %v are answered", got)
	}
	bal := c.anchor("oracle", "*Onchain", "GetPoolEthBalance")
	claimed := c.anchor("oracle", "*Onchain", "GetContractClaimedBalance")
	per := c.anchor("oracle", "*Onchain", "GetClaimedPerWithdrawalAddress")
	at := func(s *Scn, k string) Val {
		if k == "latest" {
			return VNil{}
		}
		return s.big(numAtom(k))
	}
	num := func(s *Scn, want string) {
		if s.clean(rule) {
			got := s.I.bigOf(s.st, s.retAt(0), "").key()
			c.Check(got == want, rule, s.name, s.pos(), "gives %s, wanted %s", got, want)
		}
	}
	blocks := []string{"N", "M", "latest"}
	for _, x := range blocks {
		for _, y := range blocks {
			if x != y {
				s, _, oc := mk("pool balance at " + y + " after " + x)
				s.call(bal, oc, at(s, x), VNil{})
				s.call(bal, oc, at(s, y), VNil{})
				num(s, "balance("+addrBytes("pool").key()+","+y+")")
				s, _, oc = mk("claimed amounts at " + y + " after " + x)
				l := s.I.mkSlice(s.st, types.Typ[types.String], []Val{addrStr("acct", "x"), addrStr("acct2", "x")}, "accounts")
				s.call(per, oc, l, at(s, x), VNil{})
				s.call(per, oc, l, at(s, y), VNil{})
				if s.clean(rule) {
					out, exp := map[string]string{}, map[string]string{}
					s.I.leafs(s.st, s.retAt(0), c.mapT(per.Signature.Results().At(0).Type()), "", out, 0)
					for _, a := range []string{"acct", "acct2"} {
						exp["["+addrStr(a, "x").key()+"]"] = "claimed(" + addrBytes(a).key() + "," + y + ")"
					}
					s.diff(rule, out, exp)
				}
			}
			for _, a := range []string{"acct", "acct2"} {
				if x == y && a == "acct" {
					continue
				}
				s, _, oc := mk("claimed amount of " + a + " at " + y + " after that of acct at " + x)
				s.call(claimed, oc, addrStr("acct", "x"), at(s, x), VNil{})
				s.call(claimed, oc, addrStr(a, "x"), at(s, y), VNil{})
				num(s, "claimed("+addrBytes(a).key()+","+y+")")
			}
		}
	}
	// the list of validators is taken anew each time
	refresh := c.anchor("oracle", "*Onchain", "RefreshBeaconValidators")
	get := c.anchor("oracle", "*Onchain", "Validators")
	for _, more := range []int{0, 1} {
		s, n, oc := mk(fmt.Sprintf("refreshed again, %d validators more", more))
		n.epoch = s.I.Range("activation", 1, big.NewInt(1<<40))
		n.known = []string{"0", "1"}
		s.call(refresh, oc)
		n.gen = "+"
		for i := 0; i < more; i++ {
			n.known = append(n.known, fmt.Sprint(2+i))
		}
		s.call(refresh, oc)
		s.call(get, oc)
		if !s.clean(rule) {
			continue
		}
		m, ok := s.ret.(*MapV)
		if !ok {
			s.fail(rule, "no validators: %s", trunc(s.ret.key(), 200))
			continue
		}
		mc, _ := s.I.mapOf(s.st, m.o)
		c.Check(len(mc.es) == 2+more, rule, s.name+": size", s.pos(), "%d validators are kept", len(mc.es))
		for _, e := range mc.es {
			b, err := s.I.Get(s.st, e.v, vp, ".Validator.EffectiveBalance")
			want := "eb:" + e.k.key() + "@" + strC("finalized").key() + n.gen
			c.Check(err == nil && b.key() == want, rule, s.name+": "+e.k.key(), s.pos(), "validator %s kept has balance %v, wanted that of the last finalized state", e.k.key(), b)
		}
	}
	c.Min(rule, 100)
}
