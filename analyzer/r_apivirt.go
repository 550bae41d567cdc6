package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register(&Rule{id: "C34", title: "the API's virtual state applies pending events by the pool's rules",
		explain: "the virtual state transition is interpreted on requested validators of every status (amounts unknown) and one event of each kind for every sender, collateral relation, beacon status and withdrawal credential class (validator unknown to the beacon chain included), then on every sequence of two and three events over two validators in every relation of their blocks and every order of the lists, against the fold of the stated rules; the withdrawal-address handler is interpreted end to end on pending events of an honest node: the range asked for must begin after the last processed block and reach the head, and the answer must show the virtual state.",
		run:     runC34, minOblig: 300})
}

// vev is an event of the virtual state
type vev struct {
	sub    bool
	v      string // validator
	own    bool   // sent by its withdrawal address
	coll   int    // collateral relation to the demanded one: mNeg, mZero, mPos
	status int64  // of the beacon validator; <0: unknown to the beacon chain
	block  int    // order of its block
}

func (e vev) String() string {
	k := "unsub"
	if e.sub {
		k = "sub"
	}
	return fmt.Sprintf("%s(%s,own=%v,coll=%d,beacon=%d)@%d", k, e.v, e.own, e.coll, e.status, e.block)
}

type virt struct {
	w    *apiWorld
	s    *Scn
	mp   Val
	mt   types.Type
	coll *Num
}

func (c *Ctx) virtScn(name string, vs ...vst) *virt {
	s := c.scn(name)
	s.freshGlobals()
	n := s.node()
	w := &apiWorld{s: s, n: n}
	w.apiRun = s.api(n)
	x := &virt{w: w, s: s}
	var kv []Val
	for i, v := range vs {
		kv = append(kv, s.u64(v.n), s.val(v.n, v.st))
		for j := 0; j < i; j++ {
			s.less(numAtom(vs[j].n), numAtom(v.n))
		}
	}
	x.mt = types.NewMap(types.Typ[types.Uint64], types.NewPointer(s.c.named("oracle", "ValidatorInfo")))
	x.mp = s.I.NewMap(s.st, x.mt, kv...)
	x.coll = numAtom("or.cfg.CollateralInWei")
	return x
}

// build makes the API's event value
func (x *virt) build(e vev, i int) Val {
	s := x.s
	T, V := "ContractUnsubscribeValidator", "Unsubscription"
	if e.sub {
		T, V = "ContractSubscribeValidator", "Subscription"
	}
	sender := "w:" + e.v
	if !e.own {
		sender = "stranger"
	}
	s.I.Uniq(sender)
	s.u64(e.v)
	f := map[string]Val{".ValidatorID": numAtom(e.v), ".Sender": addrBytes(sender), ".Raw.BlockNumber": x.block(e.block)}
	if e.sub {
		f[".SubscriptionCollateral"] = x.amount(e, i)
	}
	var bv Val = VNil{}
	if e.status >= 0 {
		s.I.Uniq("k:" + e.v)
		bv = s.bval(numAtom(e.v), e.status, credsOf(1, "w:"+e.v), numI(32000000000), keyBytes("k:"+e.v))
	}
	t := s.c.named("api", V)
	p := s.mkT(t, "apievent", map[string]Val{".Event": s.mk("contract", T, f), ".Validator": bv})
	return s.I.load(s.st, p, t, "entry")
}

func (x *virt) block(k int) *Num {
	n := x.s.I.Range("blk0", 1000001, big.NewInt(1<<40))
	for i := 1; i <= k; i++ {
		n = nAdd(n, x.s.I.Range(fmt.Sprintf("blkgap%d", i), 1, big.NewInt(1<<40)))
	}
	return n
}

func (x *virt) amount(e vev, i int) *Num {
	s := x.s
	switch e.coll {
	case mZero:
		return x.coll
	case mPos:
		return nAdd(x.coll, s.positive(fmt.Sprintf("extra%d", i)))
	}
	a := s.nonneg(fmt.Sprintf("low%d", i))
	s.less(a, x.coll)
	return a
}

// demand applies the events to the expected state by the stated rules
func (x *virt) demand(es []vev, rev bool) {
	s := x.s
	get := func(v, f string) Val {
		r, err := s.I.Get(s.exp, x.mp, x.mt, "["+v+"]"+f)
		if err != nil {
			return nil
		}
		return r
	}
	set := func(v, f string, val Val) { s.I.Put(s.exp, x.mp, x.mt, "["+v+"]"+f, val) }
	for b := 0; b < 4; b++ {
		for _, sub := range []bool{true, false} {
			for i := range es {
				if rev { // events of one block count in the order of their list
					i = len(es) - 1 - i
				}
				e := es[i]
				if e.block != b || e.sub != sub || get(e.v, ".ValidatorStatus") == nil || !e.own {
					continue
				}
				st, _ := get(e.v, ".ValidatorStatus").(*Num).int()
				if sub {
					if e.coll == mNeg || e.status != 1 && e.status != 2 && e.status != 3 || st != 4 && st != 6 {
						continue
					}
					set(e.v, ".ValidatorStatus", numI(1))
					set(e.v, ".PendingRewardsWei", nAdd(get(e.v, ".PendingRewardsWei").(*Num), x.amount(e, i)))
				} else if st == 1 || st == 2 || st == 3 {
					set(e.v, ".ValidatorStatus", numI(4))
					set(e.v, ".PendingRewardsWei", numI(0))
				}
			}
		}
	}
}

func (x *virt) run(rule string, es []vev, rev bool) {
	s := x.s
	c := s.c
	f := c.anchor("api", "*ApiService", "ApplyNonFinalizedState")
	var subs, unsubs []Val
	for i, e := range es {
		v := x.build(e, i)
		l := &unsubs
		if e.sub {
			l = &subs
		}
		if rev {
			*l = append([]Val{v}, *l...)
		} else {
			*l = append(*l, v)
		}
	}
	a1 := s.I.mkSlice(s.st, c.named("api", "Subscription"), subs, "subs")
	a2 := s.I.mkSlice(s.st, c.named("api", "Unsubscription"), unsubs, "unsubs")
	s.begin()
	x.demand(es, rev)
	s.call(f, x.w.obj, a1, a2, x.mp)
	if !s.clean(rule) {
		return
	}
	got, want := map[string]string{}, map[string]string{}
	s.I.leafs(s.st, x.mp, x.mt, "validators", got, 0)
	s.I.leafs(s.exp, x.mp, x.mt, "validators", want, 0)
	s.diff(rule, got, want)
	s.effects("the oracle's state is untouched")
}

func runC34(c *Ctx) {
	const r1, r2, r3 = "one pending event", "sequences of pending events", "handler applies the pending events"
	c.answersAgain("pending events are looked up for each request", "/memory/validators/{withdrawalAddress}")
	for st := int64(0); st <= 6; st++ {
		for _, own := range []bool{true, false} {
			for _, coll := range []int{mNeg, mZero, mPos} {
				for bs := int64(-1); bs <= 9; bs++ {
					if bs >= 0 && bs != 3 && (!own || coll != mZero) && c.tier != "thorough" {
						continue
					}
					e := vev{true, "v0", own, coll, bs, 0}
					c.virtScn(fmt.Sprintf("status %d, %v", st, e), vst{"v0", st}, vst{"v1", st}).run(r1, []vev{e}, false)
				}
			}
			for _, bs := range []int64{-1, 3} {
				e := vev{false, "v0", own, mZero, bs, 0}
				c.virtScn(fmt.Sprintf("status %d, %v", st, e), vst{"v0", st}, vst{"v1", st}).run(r1, []vev{e}, false)
			}
		}
	}
	for _, sub := range []bool{true, false} {
		for _, bs := range []int64{-1, 3} {
			e := vev{sub, "v9", true, mZero, bs, 0}
			x := c.virtScn(fmt.Sprintf("not requested: %v", e), vst{"v0", 1}, vst{"v1", 4})
			for _, v := range []string{"v0", "v1"} {
				x.s.u64("v9")
				x.s.less(numAtom(v), numAtom("v9"))
			}
			x.run(r1, []vev{e}, false)
		}
	}
	c.virtScn("no events", vst{"v0", 1}, vst{"v1", 6}).run(r1, nil, false)
	// sequences
	kinds := []vev{{true, "v0", true, mZero, 3, 0}, {false, "v0", true, mZero, 3, 0}, {true, "v1", true, mPos, 3, 0}, {false, "v1", true, mZero, 3, 0}}
	for _, sts := range [][2]int64{{6, 1}, {1, 4}, {4, 2}} {
		for i := range kinds {
			for j := range kinds {
				for _, bl := range [][2]int{{0, 0}, {0, 1}, {1, 0}} {
					for _, rev := range []bool{false, true} {
						es := []vev{kinds[i], kinds[j]}
						es[0].block, es[1].block = bl[0], bl[1]
						c.virtScn(fmt.Sprintf("statuses %v, %v, lists reversed: %v", sts, es, rev), vst{"v0", sts[0]}, vst{"v1", sts[1]}).run(r2, es, rev)
					}
				}
			}
		}
	}
	three := [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, ks := range [][3]int{{0, 1, 0}, {1, 0, 1}, {0, 1, 2}, {0, 0, 1}, {1, 2, 3}} {
		for _, bl := range three {
			for _, st := range []int64{6, 1} {
				es := []vev{kinds[ks[0]], kinds[ks[1]], kinds[ks[2]]}
				for k := range es {
					es[k].block = bl[k]
				}
				c.virtScn(fmt.Sprintf("status %d, %v", st, es), vst{"v0", st}, vst{"v1", 1}).run(r2, es, false)
			}
		}
	}
	c.virtHandler(r3)
	c.Min(r1, 80)
	c.Min(r2, 200)
	c.Min(r3, 8)
}

// virtHandler decides the withdrawal-address endpoint end to end.
func (c *Ctx) virtHandler(rule string) {
	path := "/memory/validators/{withdrawalAddress}"
	type ev struct {
		sub bool
		v   string
	}
	for _, es := range [][]ev{nil, {{false, "v0"}}, {{true, "v3"}}, {{true, "v3"}, {false, "v2"}}, {{true, "v1"}, {false, "v1"}}, {{true, "v9"}}} {
		w := c.apiScn(fmt.Sprintf("GET %s with pending events %v", path, es))
		s := w.s
		I := s.I
		// v3: of the account, in the beacon chain, not tracked
		s.u64("v3")
		s.u64("v9")
		for i, v := range []string{"v0", "v1", "v2", "v3"} {
			for _, u := range []string{"v1", "v2", "v3", "v9"}[i:] {
				s.less(numAtom(v), numAtom(u))
			}
		}
		w.beacon("v0", "v1", "v2", "v3")
		w.request(path, "")
		st := map[string]int64{"v0": 1, "v2": 2, "v3": 6}
		pend := map[string]*Num{"v0": numAtom("v0.pend"), "v2": numAtom("v2.pend"), "v3": numI(0)}
		at := numAtom("latestblock")
		for i, e := range es {
			snd := "a"
			if e.v == "v1" {
				snd = "other"
			}
			at = nAdd(at, I.Range(fmt.Sprintf("ago%d", i), 1, big.NewInt(1<<20)))
			f := map[string]Val{".ValidatorID": numAtom(e.v), ".Sender": addrBytes(snd), ".Raw.BlockNumber": at}
			if e.sub {
				f[".SubscriptionCollateral"] = numAtom("or.cfg.CollateralInWei")
				w.n.evs["SubscribeValidator"] = append(w.n.evs["SubscribeValidator"], s.mk("contract", "ContractSubscribeValidator", f))
				if x := st[e.v]; x == 6 || x == 4 {
					st[e.v], pend[e.v] = 1, nAdd(pend[e.v], numAtom("or.cfg.CollateralInWei"))
				}
			} else {
				w.n.evs["UnsubscribeValidator"] = append(w.n.evs["UnsubscribeValidator"], s.mk("contract", "ContractUnsubscribeValidator", f))
				if x := st[e.v]; x >= 1 && x <= 3 {
					st[e.v], pend[e.v] = 4, numI(0)
				}
			}
		}
		s.begin()
		w.get(path)
		if !s.clean(rule) {
			continue
		}
		code, body, prob := w.answer()
		if !c.Check(prob == "" && code == 200, rule, s.name, s.pos(), "answers %d %s %v", code, prob, body[".message"]) {
			continue
		}
		c.Check(body[".#"] == "3", rule, s.name+": validators of the account", s.pos(), "%s validators are shown, the account has 3", body[".#"])
		for i, v := range []string{"v0", "v2", "v3"} {
			p := fmt.Sprintf("[%d]", i)
			acc := numAtom(v + ".acc")
			if v == "v3" {
				acc = numI(0)
			}
			for k, want := range map[string]string{".validator_index": v, ".status": c.statusText(st[v]), ".pending_rewards_wei": I.decS(pend[v]).key(), ".accumulated_rewards_wei": I.decS(acc).key()} {
				c.Check(body[p+k] == want, rule, s.name+": "+v+k, s.pos(), "%s is %s, the property demands %s", k, body[p+k], want)
			}
		}
		s.effects("the oracle's state is untouched")
	}
	for _, f := range []string{"FilterSubscribeValidator", "FilterUnsubscribeValidator", "SubscribeValidator", "UnsubscribeValidator"} {
		w := c.apiScn(fmt.Sprintf("GET %s, %s fails", path, f))
		w.request(path, "")
		if strings.HasPrefix(f, "Filter") {
			w.n.fail[f] = -1
		} else {
			w.n.cut[f] = 0
		}
		w.s.begin()
		w.get(path)
		if w.s.clean(rule) {
			code, _, prob := w.answer()
			c.Check(prob == "" && code >= 400, rule, w.s.name, w.s.pos(), "answers %d although the pending events are not known %s", code, prob)
		}
	}
}

// statusText is the text of a validator status as the oracle's own stringer gives it
func (c *Ctx) statusText(st int64) string {
	f := c.P.Fn("oracle", "ValidatorStatus", "String")
	if f == nil {
		panic(undecided("ValidatorStatus has no text"))
	}
	s := c.scn("status text")
	s.freshGlobals()
	s.call(f, numI(st))
	if len(s.I.notes)+len(s.I.ends) > 0 || s.ret == nil {
		panic(undecided("text of a validator status"))
	}
	return s.ret.key()
}
