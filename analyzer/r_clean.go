package main

import (
	"fmt"
	"math/big"
)

// fork boundaries to look at exactly: the slots around each documented switch
type edge struct {
	net  string
	slot int64
	r    region
}

func edges() []edge {
	var es []edge
	for _, r := range regions {
		if r.hi == -1 {
			es = append(es, edge{r.net, 0, r})
			continue
		}
		es = append(es, edge{r.net, r.lo, r}, edge{r.net, r.lo + 1, r})
		if r.hi > 0 {
			es = append(es, edge{r.net, r.hi, r})
		}
	}
	return es
}

// cleanScn sets up ValidatorCleanup on a population with beacon statuses and consolidations.
type cleanCase struct {
	name string
	r    region
	slot *Num // nil: the whole region
	pop  []vst
	st   map[string]int64  // beacon status, default active
	cons map[string]string // source -> target
	zero map[string]bool   // pending is zero
	tgt  string            // credentials of an untracked target
}

func (c *Ctx) cleanScn(e cleanCase) (*Scn, *beacon, *Num) {
	s := c.scn(fmt.Sprintf("cleanup %s, %s %s, validators [%s]", e.name, e.r.net, e.r.name, popName(e.pop)))
	var slot *Num
	if e.slot != nil {
		s.network(e.r.net)
		s.I.init["or.state.NextSlotToProcess"] = e.slot
		slot = e.slot
	} else {
		slot = s.region(e.r)
	}
	s.fee()
	s.order("u1", "v1", "v2", "v3", "v4", "v5", "v6", "v7")
	s.validators(e.pop...)
	b := s.beacon()
	b.slot = slot
	b.noCons = !e.r.cons
	for _, v := range e.pop {
		if e.zero[v.n] {
			s.put(vp(v.n, "PendingRewardsWei"), numI(0))
		} else {
			s.positive(v.n + ".pend")
		}
		st := int64(3)
		if x, ok := e.st[v.n]; ok {
			st = x
		}
		b.add(v.n, st)
	}
	s.I.Uniq("w:u1", "k:u1")
	cr := e.tgt
	if cr == "" {
		cr = "eth1"
	}
	u := s.bv("u1", 3, cr, "w:u1")
	b.vals["u1"] = u.ptr
	for src, t := range e.cons {
		b.pend = append(b.pend, [2]*Num{numAtom(src), numAtom(t)})
	}
	// consolidations of unrelated validators
	b.pend = append(b.pend, [2]*Num{s.u64("other1"), s.u64("other2")})
	for _, o := range []string{"other1", "other2"} {
		for _, v := range []string{"u1", "v1", "v2", "v3", "v4", "v5", "v6", "v7"} {
			s.less(numAtom(v), numAtom(o))
		}
	}
	s.less(numAtom("other1"), numAtom("other2"))
	s.begin()
	st := map[string]int64{}
	for _, v := range e.pop {
		st[v.n] = 3
		if x, ok := e.st[v.n]; ok {
			st[v.n] = x
		}
	}
	s.xCleanup(e.r, &cleanup{status: st, cons: e.cons, target: map[string]*bval{"u1": u}})
	return s, b, slot
}

func init() {
	register(&Rule{id: "C04", title: "fork boundaries", minOblig: 60,
		explain: "Abstract interpretation of increaseAllPendingRewards and ValidatorCleanup at each slot next to every documented fork boundary and, with the slot unknown, over every whole region between boundaries, for every network: the method used is recognised by its effect (whole-state comparison with the documented split), and the beacon requests made are recorded. Unknown networks must stop the process; consolidations may be requested only in Electra regions; before fork 1 the cleanup neither asks the beacon node nor changes anything. AdvanceStateToNextSlot is interpreted over every region and at the same edge slots, cleanup due and not, so that both are decided by the slot being processed.",
		run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "increaseAllPendingRewards")
			cl := c.anchor("oracle", "*Oracle", "ValidatorCleanup")
			pop := []vst{{"v1", 1}, {"v2", 3}, {"v3", 2}, {"v4", 1}}
			check := func(name string, r region, slot *Num) {
				s, b, R := c.shareScn(name, r, pop)
				if slot != nil {
					s.I.init["or.state.NextSlotToProcess"] = slot
					b.slot = slot
				}
				s.begin()
				s.xShare(R, r.method)
				s.call(fn, s.or, s.big(R))
				b.check("split method")
				s.effects("split method")
				e := cleanCase{name: name, r: r, slot: slot, pop: []vst{{"v1", 1}, {"v2", 2}, {"v3", 5}, {"v4", 4}}, st: map[string]int64{"v2": 6, "v4": 9}, cons: map[string]string{"v2": "v1"}, zero: map[string]bool{"v3": true, "v4": true}}
				s, b, sl := c.cleanScn(e)
				s.call(cl, s.or, sl)
				b.check("cleanup boundary")
				s.effects("cleanup boundary")
				if !r.clean {
					c.Check(b.asks == 0 && b.consN == 0, "no beacon request before fork 1", s.name, s.pos(), "the cleanup asks the beacon node before fork 1")
				} else if r.cons {
					c.Check(b.consN == 1, "consolidations are looked up from Electra on", s.name, s.pos(), "consolidations are looked up %d times", b.consN)
				}
			}
			for _, r := range regions {
				check("whole region", r, nil)
			}
			for _, e := range edges() {
				check(fmt.Sprintf("slot %d", e.slot), e.r, numI(e.slot))
			}
			// the same where a slot is processed: cleanup and split are those of that slot
			adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
			at := func(r region, mult bool, slot *Num) {
				ev := "on others"
				if r.method == "prefork1" {
					ev = "none"
				}
				s, f, b := c.advance(advCase{r, mult, 3, 1, ev, mult, slot})
				if slot != nil {
					s.name += ", slot " + slot.key()
				}
				s.call(adv, s.or, f.ptr)
				b.check("rules of the slot being processed")
				s.effects("rules of the slot being processed")
			}
			for _, r := range regions {
				if r.hi != -1 {
					at(r, false, nil)
					at(r, true, nil)
				}
			}
			for _, e := range edges() {
				if e.slot > 0 {
					at(e.r, e.slot%1200 == 0, numI(e.slot))
				}
			}
			for _, net := range []string{"goerli", "", "sepolia"} {
				s := c.scn("network " + net + " without schedule")
				s.network(net)
				s.I.Range("or.state.NextSlotToProcess", 0, new(big.Int).Lsh(big.NewInt(1), 62))
				s.fee()
				s.validators(pop...)
				s.beacon(names(pop)...)
				s.begin()
				s.call(fn, s.or, s.big(s.nonneg("R")))
				s.stops("unknown network stops the oracle")

				s = c.scn("cleanup on network " + net + " without schedule")
				s.network(net)
				s.I.Range("or.state.NextSlotToProcess", 0, new(big.Int).Lsh(big.NewInt(1), 62))
				s.fee()
				s.validators(pop...)
				b := s.beacon(names(pop)...)
				b.noCons = true
				s.begin()
				s.call(cl, s.or, s.slotNow())
				if b.check("no consolidations on a network without Electra") {
					c.Ok("no consolidations on a network without Electra", 1)
				}
			}
		}})

	register(&Rule{id: "C09", title: "cleanup of exited validators", minOblig: 100,
		explain: "Abstract interpretation of ValidatorCleanup: beacon status of each tracked validator (active / exited / slashed / withdrawn), its oracle status and pending balance, and the target of its pending consolidation (none, tracked in every status, banned, untracked, shared by two sources) are enumerated; amounts, indices, balances and the slot are unknown. Obligation: whole-state equality with the demanded effects, beacon requests made for the slot being processed, failures of the requests reported. Each class is analysed with both map iteration orders.",
		run: func(c *Ctx) {
			cl := c.anchor("oracle", "*Oracle", "ValidatorCleanup")
			var cases []cleanCase
			for _, r := range regions {
				if r.hi == -1 {
					continue
				}
				cases = append(cases, cleanCase{name: "no validators", r: r})
				for st := int64(3); st <= 9; st++ {
					for os := int64(1); os <= 5; os++ {
						cases = append(cases, cleanCase{name: fmt.Sprintf("one validator with beacon status %d", st), r: r, pop: []vst{{"v1", os}, {"v2", 1}, {"v3", 2}, {"v4", 3}}, st: map[string]int64{"v1": st}, zero: map[string]bool{"v4": true}})
					}
				}
				for _, st := range []int64{6, 7, 8, 9} {
					cases = append(cases,
						cleanCase{name: fmt.Sprintf("exited (%d) without pending", st), r: r, pop: []vst{{"v1", 1}, {"v2", 5}, {"v3", 4}, {"v4", 1}}, st: map[string]int64{"v1": st, "v2": st, "v3": st}, zero: map[string]bool{"v1": true, "v2": true, "v3": true}},
						cleanCase{name: fmt.Sprintf("all exited (%d)", st), r: r, pop: []vst{{"v1", 1}, {"v2", 2}, {"v3", 3}, {"v4", 5}, {"v5", 4}}, st: map[string]int64{"v1": st, "v2": st, "v3": st, "v4": st, "v5": st}},
						cleanCase{name: fmt.Sprintf("some exited (%d)", st), r: r, pop: []vst{{"v1", 1}, {"v2", 2}, {"v3", 1}, {"v4", 5}, {"v5", 1}}, st: map[string]int64{"v1": st, "v2": st, "v4": st}},
					)
				}
				for _, t := range []int64{1, 2, 3, 4, 5} {
					cases = append(cases,
						cleanCase{name: "consolidation to tracked " + stNames[t], r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 2}, {"v4", 1}}, st: map[string]int64{"v1": 6}, cons: map[string]string{"v1": "v2", "v3": "v4"}},
						cleanCase{name: "two consolidations to tracked " + stNames[t], r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 3}, {"v4", 1}}, st: map[string]int64{"v1": 9, "v3": 6}, cons: map[string]string{"v1": "v2", "v3": "v2"}},
						cleanCase{name: "consolidation to tracked " + stNames[t] + " and an exit without target", r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 3}, {"v4", 1}}, st: map[string]int64{"v1": 9, "v3": 6}, cons: map[string]string{"v1": "v2"}},
					)
				}
				for _, t := range []int64{1, 3, 4, 5} {
					cases = append(cases,
						cleanCase{name: "consolidation, both ends exited, target " + stNames[t], r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 2}}, st: map[string]int64{"v1": 6, "v2": 9}, cons: map[string]string{"v1": "v2"}},
						cleanCase{name: "consolidation to a lower index, both ends exited, target " + stNames[t], r: r, pop: []vst{{"v1", t}, {"v2", 1}, {"v3", 2}}, st: map[string]int64{"v1": 9, "v2": 6}, cons: map[string]string{"v2": "v1"}},
						cleanCase{name: "chained consolidations, all exited, middle " + stNames[t], r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 1}, {"v4", 1}}, st: map[string]int64{"v1": 6, "v2": 6, "v3": 8}, cons: map[string]string{"v1": "v2", "v2": "v3"}},
						cleanCase{name: "chained consolidations down to an active validator, middle " + stNames[t], r: r, pop: []vst{{"v1", 1}, {"v2", t}, {"v3", 1}}, st: map[string]int64{"v2": 6, "v3": 8}, cons: map[string]string{"v3": "v2", "v2": "v1"}},
					)
				}
				cases = append(cases,
					cleanCase{name: "consolidation to an untracked validator", r: r, pop: []vst{{"v1", 2}, {"v2", 1}}, st: map[string]int64{"v1": 6}, cons: map[string]string{"v1": "u1"}},
					cleanCase{name: "consolidation of a banned source", r: r, pop: []vst{{"v1", 5}, {"v2", 1}}, st: map[string]int64{"v1": 6}, cons: map[string]string{"v1": "v2"}},
					cleanCase{name: "consolidation to an untracked 0x02 validator", r: r, pop: []vst{{"v1", 2}, {"v2", 1}}, st: map[string]int64{"v1": 6}, cons: map[string]string{"v1": "u1"}, tgt: "electra"},
					cleanCase{name: "two consolidations to an untracked validator", r: r, pop: []vst{{"v1", 2}, {"v2", 1}, {"v3", 1}}, st: map[string]int64{"v1": 6, "v3": 8}, cons: map[string]string{"v1": "u1", "v3": "u1"}},
				)
			}
			for _, e := range cases {
				if e.r.hi > 0 && !e.r.clean && len(e.pop) > 4 {
					continue
				}
				for _, rev := range []bool{false, true} {
					s, b, slot := c.cleanScn(e)
					s.I.reverse = rev
					s.call(cl, s.or, slot)
					b.check("cleanup requests")
					if s.effects("cleanup") {
						_, ok := s.lastErr()
						c.Check(ok, "cleanup reports no error", s.name, s.pos(), "gives %s", s.ret.key())
					}
				}
			}
			// failures
			for _, k := range []string{"validators", "consolidations"} {
				s, b, slot := c.cleanScn(cleanCase{name: k + " request fails", r: regElectra, pop: []vst{{"v1", 1}, {"v2", 1}}, st: map[string]int64{"v1": 6}})
				b.fail, b.failC = k == "validators", k == "consolidations"
				s.exp = s.st.clone()
				s.call(cl, s.or, slot)
				if s.effects("failed request changes nothing") {
					nn, _ := s.lastErr()
					c.Check(nn, "failed request is reported", s.name, s.pos(), "gives %s", s.ret.key())
				}
			}
			for _, cr := range []string{"bls", "badpad"} {
				s, _, slot := c.cleanScn(cleanCase{name: "untracked target with credentials " + cr, r: regElectra, pop: []vst{{"v1", 1}, {"v2", 1}}, st: map[string]int64{"v1": 6}, cons: map[string]string{"v1": "u1"}, tgt: cr})
				s.call(cl, s.or, slot)
				if !s.st.dead {
					nn, _ := s.lastErr()
					c.Check(nn, "target without address is refused", s.name, s.pos(), "goes on with %s", s.ret.key())
				} else {
					c.Ok("target without address is refused", 1)
				}
			}
		}})
}
