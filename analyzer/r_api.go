package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the paths of the API and what their requests name
var apiPaths = map[string]struct {
	input string // format of the path variable
	vr    string
	ready bool // answered only when the oracle is ready
}{
	"/":                                      {},
	"/status":                                {},
	"/config":                                {},
	"/registeredrelays/{valpubkey}":          {input: "pubkey", vr: "valpubkey"},
	"/state":                                 {},
	"/memory/validators":                     {ready: true},
	"/memory/validator/{valindex}":           {input: "index", vr: "valindex", ready: true},
	"/memory/validatorsbyindex/{valindices}": {input: "list", vr: "valindices"},
	"/memory/validators/{withdrawalAddress}": {input: "address", vr: "withdrawalAddress", ready: true},
	"/memory/feesinfo":                       {},
	"/memory/allblocks":                      {},
	"/memory/proposedblocks":                 {},
	"/memory/missedblocks":                   {},
	"/memory/wrongfeeblocks":                 {},
	"/memory/donations":                      {},
	"/memory/statistics":                     {ready: true},
	"/onchain/proof/{withdrawalAddress}":     {input: "address", vr: "withdrawalAddress", ready: true},
}

// apiWorld is one class of situations a request may meet.
type apiWorld struct {
	*apiRun
	s     *Scn
	n     *node
	L, F  *Num // latest processed slot, finalized slot
	vals  []string
	asked []string        // relay questions
	miss  map[string]bool // checkpoint "c0", or "leaf@c0", "proof@c0" of account a: not stored
}

// apiScn builds a state with three validators (two of them of account "a", one in the
// beacon chain only), one recorded block of each kind, two donations and two
// checkpoints, over an honest node whose finalized head is d slots ahead.
func (c *Ctx) apiScn(name string) *apiWorld {
	s := c.scn(name)
	s.freshGlobals()
	n := s.node()
	I := s.I
	w := &apiWorld{s: s, n: n, miss: map[string]bool{}}
	I.Uniq("a", "other")
	w.vals = []string{"v0", "v1", "v2"}
	s.validators(vst{"v0", 1}, vst{"v1", 4}, vst{"v2", 2})
	s.put(".state.Validators[v0].WithdrawalAddress", addrStr("a", "db0"))
	s.put(".state.Validators[v1].WithdrawalAddress", addrStr("other", "db1"))
	s.put(".state.Validators[v2].WithdrawalAddress", addrStr("a", "db2"))
	w.L = I.Range("latest", 1000000, big.NewInt(1<<40))
	s.put(".state.LatestProcessedSlot", w.L)
	s.put(".state.LatestProcessedBlock", I.Range("latestblock", 1000000, big.NewInt(1<<40)))
	w.lists(1)
	w.checkpoints()
	w.F = nAdd(w.L, I.Range("behind", 0, big.NewInt(64)))
	n.from = nAdd(numAtom("latestblock"), numI(1))
	w.oracleNode()
	w.apiRun = s.api(n)
	w.beacon("v0", "v1", "v2")
	return w
}

func (w *apiWorld) lists(k int) {
	s := w.s
	bt := s.c.named("oracle", "SummarizedBlock")
	i := 0
	for _, l := range []struct {
		f string
		t int64
	}{{"ProposedBlocks", 3}, {"MissedBlocks", 1}, {"WrongFeeBlocks", 2}} {
		var es []Val
		for j := 0; j < k; j++ {
			nm := fmt.Sprintf("b%d", i)
			i++
			p := s.mkT(bt, "block", map[string]Val{".Slot": s.u64(nm + ".slot"), ".Block": s.u64(nm + ".block"), ".ValidatorIndex": s.u64(nm + ".val"),
				".BlockType": numI(l.t), ".Reward": s.nonneg(nm + ".reward"), ".RewardType": numI(1), ".WithdrawalAddress": addrStr("w:"+nm, "db"), ".ValidatorKey": keyStr("k:" + nm)})
			es = append(es, s.I.load(s.st, p, bt, "entry"))
		}
		s.put(".state."+l.f, s.I.mkSlice(s.st, bt, es, "blocks"))
	}
	dt := s.c.named("contract", "ContractEtherReceived")
	var ds []Val
	for j := 0; j < 2*k; j++ {
		nm := fmt.Sprintf("don%d", j)
		ds = append(ds, s.mkT(dt, "donation", map[string]Val{".DonationAmount": s.nonneg(nm), ".Raw.BlockNumber": s.u64(nm + ".block"), ".Sender": addrBytes("s:" + nm)}))
	}
	l, err := s.I.walk(s.st, s.or, types.NewPointer(s.orT), ".state.Donations")
	if err != nil {
		panic(undecided(err.Error()))
	}
	s.put(".state.Donations", s.I.mkSlice(s.st, under(l.t).(*types.Slice).Elem(), ds, "donations"))
}

// checkpoints stores those of slots "c0" and "c1": account a has validators v0 and v2 there
func (w *apiWorld) checkpoints() {
	s := w.s
	ost := s.c.named("oracle", "OnchainState")
	lt := s.c.named("oracle", "RawLeaf")
	vt := types.NewPointer(s.c.named("oracle", "ValidatorInfo"))
	s.I.Range("c0", 1, big.NewInt(1<<40))
	s.I.Range("c1", 1, big.NewInt(1<<40))
	s.less(numAtom("c0"), numAtom("c1"))
	var kv []Val
	for _, k := range []string{"c0", "c1"} {
		if w.miss[k] {
			continue
		}
		s.I.Uniq("root:"+k, "b:root:"+k)
		var vs []Val
		for i, v := range w.vals {
			p := s.mk("oracle", "ValidatorInfo", map[string]Val{".ValidatorStatus": numI(int64(i + 1)), ".PendingRewardsWei": s.nonneg(v + ".pend@" + k), ".AccumulatedRewardsWei": s.nonneg(v + ".acc@" + k),
				".CollateralWei": s.nonneg(v + ".coll@" + k), ".WithdrawalAddress": addrStr(map[bool]string{true: "other", false: "a"}[i == 1], k+v), ".ValidatorIndex": numAtom(v), ".ValidatorKey": keyStr("k:" + v)})
			vs = append(vs, numAtom(v), p)
		}
		leaf := func(a string) Val {
			p := s.mkT(lt, "leaf", map[string]Val{".WithdrawalAddress": lowerS(addrStr(a, "x")), ".AccumulatedBalanceWei": s.nonneg("leaf:" + a + "@" + k)})
			return s.I.load(s.st, p, lt, "entry")
		}
		proof := func(a string) Val {
			return s.I.mkSlice(s.st, types.Typ[types.String], []Val{strAtom("proof0:" + a + "@" + k), strAtom("proof1:" + a + "@" + k)}, "proof")
		}
		key := func(a string) Val { return lowerS(addrStr(a, "x")) }
		held := func(what string, v func(string) Val) []Val {
			r := []Val{key("other"), v("other")}
			if !w.miss[what+"@"+k] {
				r = append(r, key("a"), v("a"))
			}
			return r
		}
		p := s.mkT(ost, "checkpoint", map[string]Val{
			".Slot": numAtom(k), ".MerkleRoot": w.rootStr(k), ".TxHash": strC(""),
			".Validators": s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], vt), vs...),
			".Leafs":      s.I.NewMap(s.st, types.NewMap(types.Typ[types.String], lt), held("leaf", leaf)...),
			".Proofs":     s.I.NewMap(s.st, types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String])), held("proof", proof)...),
		})
		kv = append(kv, numAtom(k), p)
	}
	s.put(".state.CommitedStates", s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(ost)), kv...))
}

func (w *apiWorld) rootBytes(k string) *Str {
	return &Str{parts: []SPart{{atom: "b:root:" + k, n: 32}}}
}
func (w *apiWorld) rootStr(k string) *Str { return catS(strC("0x"), hexOf(w.rootBytes(k), true)) }

// beacon sets the beacon validators the client object holds; account a owns v0 and v2
func (w *apiWorld) beacon(vs ...string) {
	s := w.s
	ot := s.c.named("oracle", "Onchain")
	st := under(ot).(*types.Struct)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		m, ok := under(st.Field(i).Type()).(*types.Map)
		if !ok || !isNamed(m.Key(), p0pkg, "ValidatorIndex") {
			continue
		}
		var kv []Val
		for _, v := range vs {
			cls := "a"
			if v == "v1" {
				cls = "other"
			}
			kv = append(kv, s.u64(v), w.bvals(v, cls))
		}
		s.I.Put(s.st, &Ptr{s.I.symObj("oc", ot), ""}, types.NewPointer(ot), "."+st.Field(i).Name(), s.I.NewMap(s.st, m, kv...))
		n++
	}
	if n != 1 {
		panic(undecided("the client object's beacon validators"))
	}
}

func (w *apiWorld) bvals(v, cls string) *Ptr {
	s := w.s
	s.I.Uniq("k:"+v, cls)
	s.I.Range("eb:"+v, 1, eb53)
	p := s.bval(numAtom(v), 3, credsOf(1, cls), numAtom("eb:"+v), keyBytes("k:"+v))
	s.I.Put(s.st, p, types.NewPointer(s.c.named(v1pkg, "Validator")), ".Balance", s.u64("bal:"+v))
	return p
}

func (w *apiWorld) oracleNode() {
	n := w.n
	I := w.s.I
	n.ans["BeaconBlockHeader"] = func(c *Call) Val {
		i := c.argOf("api.BeaconBlockHeaderOpts")
		if q := n.str(c, n.field(c, i, ".Block")); q != "\"finalized\"" {
			panic(undecided("header asked for " + q))
		}
		return n.response(c, func(p *Ptr, t types.Type) {
			hp := n.newAt(c.st, w.s.c.named(v1pkg, "BeaconBlockHeader"), "header", nil)
			ht := types.NewPointer(w.s.c.named(v1pkg, "BeaconBlockHeader"))
			sp := n.newAt(c.st, w.s.c.named(p0pkg, "SignedBeaconBlockHeader"), "signedheader", nil)
			mp := n.newAt(c.st, w.s.c.named(p0pkg, "BeaconBlockHeader"), "message", map[string]Val{".Slot": w.F})
			I.Put(c.st, sp, types.NewPointer(w.s.c.named(p0pkg, "SignedBeaconBlockHeader")), ".Message", mp)
			I.Put(c.st, hp, ht, ".Header", sp)
			I.Put(c.st, p, t, ".Data", hp)
		})
	}
	n.ans["LastConsolidatedSlot"] = func(c *Call) Val { return tup(numAtom("c1"), VNil{}) }
	n.ans["RewardsRoot"] = func(c *Call) Val { return tup(w.rootBytes("c1"), VNil{}) }
}

func (w *apiWorld) request(path, kind string) {
	p := apiPaths[path]
	switch p.input {
	case "":
		return
	case "address":
		w.vars[p.vr] = addrStr("a", "req")
	case "pubkey":
		w.vars[p.vr] = catS(strC("0x"), &Str{parts: []SPart{{atom: "req:k:v0", fold: "k:v0", n: 96}}})
	case "index":
		w.vars[p.vr] = w.s.I.decS(numAtom("v0"))
	case "list":
		w.vars[p.vr] = catS(catS(w.s.I.decS(numAtom("v0")), strC(",")), w.s.I.decS(numAtom("v2")))
	}
}

func (c *Ctx) apiRoutes(w *apiWorld, rule string) []string {
	var r []string
	for _, p := range w.order {
		if _, ok := apiPaths[p]; !ok {
			c.Fail(rule, "route "+p, "-", "the API serves a path the analysis does not know")
			continue
		}
		r = append(r, p)
	}
	for p := range apiPaths {
		if w.routes[p] == nil {
			c.Fail(rule, "route "+p, "-", "the API does not serve it")
		}
	}
	sort.Strings(r)
	return r
}

// ---- C35

func init() {
	register(&Rule{id: "C35", title: "data that must be current is served only when the oracle is ready",
		explain: "the router builder is interpreted to find the handler of each path; the five handlers are interpreted for every relation of the last processed slot to the finalized head (unknown head, head 0, 1..63, 64, 65, more than 65 slots ahead), with valid and invalid input: unless the head is known and at most 64 slots ahead the answer must be 503 with constant text and no other question to the nodes may have been asked; otherwise it must not be 503.",
		run:     runC35, minOblig: 60})
}

func runC35(c *Ctx) {
	const r1, r2 = "not ready: 503 and nothing else", "ready: served"
	type reg struct {
		name   string
		lo, hi int64
		ready  bool
	}
	regs := []reg{{"equal", 0, 0, true}, {"1 to 63 slots ahead", 1, 63, true}, {"64 slots ahead", 64, 64, true}, {"65 slots ahead", 65, 65, false}, {"66 to 96 slots ahead", 66, 96, false}, {"97 or more slots ahead", 97, 1 << 40, false}, {"unknown", 0, 0, false}, {"unknown after an answer", 0, 0, false}}
	served := c.apiRoutes(c.apiScn("routes"), r1)
	for _, path := range served {
		if !apiPaths[path].ready {
			continue
		}
		for _, rg := range regs {
			for _, bad := range []bool{false, true} {
				if bad && (apiPaths[path].input == "" || rg.ready) {
					continue
				}
				w := c.apiScn(fmt.Sprintf("GET %s, finalized head %s, invalid input: %v", path, rg.name, bad))
				w.F = nAdd(w.L, w.s.I.Range("ahead", rg.lo, big.NewInt(rg.hi)))
				if rg.lo == rg.hi {
					w.F = nAdd(w.L, numI(rg.lo))
				}
				if strings.HasPrefix(rg.name, "unknown") {
					w.n.fail["BeaconBlockHeader"] = -1
				}
				w.request(path, "")
				if bad {
					w.vars[apiPaths[path].vr] = strAtom("req")
					w.deny[apiPaths[path].input] = true
				}
				w.s.begin()
				w.get(path)
				rule := r1
				if rg.ready {
					rule = r2
				}
				if !w.s.clean(rule) {
					continue
				}
				code, body, prob := w.answer()
				if prob != "" {
					w.s.fail(rule, "%s", prob)
					continue
				}
				if rg.ready {
					c.Check(code != 503, rule, w.s.name, w.s.pos(), "answers 503 although the oracle is ready")
					continue
				}
				ok := code == 503
				c.Check(ok, rule, w.s.name, w.s.pos(), "answers %d; the property demands 503 (service unavailable)", code)
				for k, v := range body {
					ok := !strings.Contains(v, "{") && (k == ".code" || k == ".message")
					c.Check(ok, rule+": constant text", w.s.name+" "+k, w.s.pos(), "the 503 answer carries %s = %s", k, v)
				}
				for _, q := range w.nodeCalls() {
					c.Check(q == "BeaconBlockHeader", rule+": no other question", w.s.name+" "+q, w.s.pos(), "the nodes are asked %s although the oracle is not ready", q)
				}
			}
		}
	}
	c.Min(r1, 20)
	c.Min(r2, 15)
	_ = ssa.Value(nil)
}
