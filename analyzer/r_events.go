package main

import (
	"fmt"
	"math/big"
)

var regElectra = regions[2]
var regFork1 = regions[1]
var regPre = regions[3]

func init() {
	register(&Rule{id: "C06", title: "manual subscriptions", minOblig: 860,
		explain: "Abstract interpretation of handleManualSubscriptions on every class of event: validator absent / beacon status 0..9 x credentials (BLS, 0x01, 0x02, invalid) x sender (withdrawal address, the address the oracle has on record, someone else) x tracked status x collateral (below, equal, above the requirement), plus pairs and triples of events (same validator twice, different validators). Amounts and indices unknown. Obligation: the whole state reachable from the oracle equals the entry state with exactly the demanded credit and transition.",
		run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "handleManualSubscriptions")
			type ecase struct {
				beacon  int64 // -1: does not exist
				creds   string
				sender  string
				tracked int64
				coll    int
			}
			setup := func(name string, tr int64) *Scn {
				s := c.scn(name)
				s.region(regFork1)
				s.fee()
				vs := []vst{}
				if tr >= 0 {
					vs = append(vs, vst{"v1", tr})
				}
				vs = append(vs, vst{"v2", 1}, vst{"v3", 5})
				s.validators(vs...)
				s.order("v1", "v2", "v3", "v8", "v9")
				if tr >= 0 {
					// the address on record may be an older one
					s.I.Uniq("wold")
					s.put(vp("v1", "WithdrawalAddress"), addrStr("wold", "db"))
				}
				return s
			}
			coll := func(s *Scn, name string, k int) *Num {
				req := s.nonneg("or.state.CollateralInWei")
				a := s.nonneg(name)
				switch k {
				case -1:
					s.less(a, req)
				case 0:
					return req
				case 1:
					s.less(req, a)
				}
				return a
			}
			var cases []ecase
			for _, tr := range []int64{-1, 1, 2, 3, 4, 5} {
				cases = append(cases, ecase{-1, "", "w:v1", tr, 1})
				for b := int64(0); b <= 9; b++ {
					for _, cr := range []string{"eth1", "electra", "bls", "bad3", "badpad"} {
						if b != 3 && cr != "eth1" && cr != "bls" {
							continue
						}
						for _, sd := range []string{"w:v1", "other", "wold"} {
							for _, k := range []int{-1, 0, 1} {
								if (b != 3 || cr != "eth1") && k == 0 {
									continue
								}
								cases = append(cases, ecase{b, cr, sd, tr, k})
							}
						}
					}
				}
			}
			for _, e := range cases {
				name := fmt.Sprintf("subscription of %s (beacon status %d, credentials %s) by %s, collateral %+d", pname("v1", e.tracked), e.beacon, e.creds, e.sender, e.coll)
				s := setup(name, e.tracked)
				a := coll(s, "coll", e.coll)
				ev := event{kind: "sub", idx: numAtom("v1"), amount: a, sender: e.sender}
				if e.beacon >= 0 {
					ev.val = s.bv("v1", e.beacon, e.creds, "w:v1")
				}
				es := []*event{s.ev(ev)}
				l, vs := s.evs("ContractSubscribeValidator", es), s.bvs(es)
				s.begin()
				s.xSub(es[0])
				s.call(fn, s.or, l, vs)
				s.effects("one subscription")

				// the same between two of others, one known and banned, one new
				s = setup("another subscription before and after: "+name, e.tracked)
				a = coll(s, "coll", e.coll)
				ev.amount, ev.val = a, nil
				if e.beacon >= 0 {
					ev.val = s.bv("v1", e.beacon, e.creds, "w:v1")
				}
				es = []*event{
					s.ev(event{kind: "sub", idx: numAtom("v3"), amount: coll(s, "coll2", 1), sender: "w:v3", val: s.bv("v3", 3, "eth1", "w:v3")}),
					s.ev(ev),
					s.ev(event{kind: "sub", idx: numAtom("v9"), amount: coll(s, "coll3", 1), sender: "w:v9", val: s.bv("v9", 2, "electra", "w:v9")}),
				}
				l, vs = s.evs("ContractSubscribeValidator", es), s.bvs(es)
				s.begin()
				for _, e := range es {
					s.xSub(e)
				}
				s.call(fn, s.or, l, vs)
				s.effects("several subscriptions")
			}
			// several events of one block
			for _, tr := range []int64{-1, 1, 4, 5} {
				for _, k2 := range []int{-1, 1} {
					for _, first := range []string{"w:v1", "other"} {
						s := setup(fmt.Sprintf("two subscriptions of %s, first by %s, second collateral %+d, then one of another", pname("v1", tr), first, k2), tr)
						a1, a2, a3 := coll(s, "coll1", 1), coll(s, "coll2", k2), coll(s, "coll3", 1)
						b1 := s.bv("v1", 3, "eth1", "w:v1")
						b9 := s.bv("v9", 2, "electra", "w:v9")
						es := []*event{
							s.ev(event{kind: "sub", idx: numAtom("v1"), amount: a1, sender: first, val: b1}),
							s.ev(event{kind: "sub", idx: numAtom("v1"), amount: a2, sender: "w:v1", val: b1}),
							s.ev(event{kind: "sub", idx: numAtom("v9"), amount: a3, sender: "w:v9", val: b9}),
							s.ev(event{kind: "sub", idx: numAtom("v8"), amount: a3, sender: "w:v9"}),
						}
						l, vs := s.evs("ContractSubscribeValidator", es), s.bvs(es)
						s.begin()
						for _, e := range es {
							s.xSub(e)
						}
						s.call(fn, s.or, l, vs)
						s.effects("several subscriptions")
					}
				}
			}
			c.mixed("sub", "ContractSubscribeValidator", "handleManualSubscriptions", true)
		}})

	register(&Rule{id: "C07", title: "unsubscriptions", minOblig: 250,
		explain: "Abstract interpretation of handleManualUnsubscriptions on every class of event (validator absent, credentials BLS/0x01/0x02/invalid, sender the current withdrawal address, the address on record, or another, tracked status, number of remaining eligible validators) in a region of every split method, and on sequences of events. Obligation: the whole state reachable from the oracle equals the entry state with exactly the demanded transition and redistribution.",
		run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "handleManualUnsubscriptions")
			for _, r := range []region{regFork1, regElectra, regPre} {
				for _, rest := range [][]vst{{}, {{"v2", 1}}, {{"v2", 2}, {"v3", 3}, {"v4", 1}, {"v5", 5}}} {
					for _, tr := range []int64{-1, 1, 2, 3, 4, 5} {
						for _, cr := range []string{"eth1", "electra", "bls", "badpad", "none"} {
							for _, sd := range []string{"w:v1", "wold", "other"} {
								if r.net != "mainnet" && cr != "eth1" {
									continue
								}
								for _, more := range []bool{false, true} {
									if more && len(rest) != 4 {
										continue
									}
									name := fmt.Sprintf("unsubscription of %s (credentials %s) by %s next to [%s], %s %s", pname("v1", tr), cr, sd, popName(rest), r.net, r.name)
									if more {
										name = "another unsubscription before and after: " + name
									}
									s := c.scn(name)
									s.region(r)
									s.fee()
									vs := append([]vst{}, rest...)
									if tr >= 0 {
										vs = append([]vst{{"v1", tr}}, vs...)
									}
									s.validators(vs...)
									if tr >= 0 {
										s.I.Uniq("wold")
										s.put(vp("v1", "WithdrawalAddress"), addrStr("wold", "db"))
									} else {
										s.u64("v1")
										for _, v := range vs {
											s.less(numAtom("v1"), numAtom(v.n))
										}
									}
									b := s.beacon(names(vs)...)
									e := event{kind: "unsub", idx: numAtom("v1"), sender: sd}
									if cr != "none" {
										e.val = s.bv("v1", 3, cr, "w:v1")
									}
									es := []*event{s.ev(e)}
									if more {
										es = []*event{
											s.ev(event{kind: "unsub", idx: numAtom("v4"), sender: "w:v4", val: s.bv("v4", 3, "eth1", "w:v4")}),
											es[0],
											s.ev(event{kind: "unsub", idx: numAtom("v2"), sender: "w:v2", val: s.bv("v2", 3, "electra", "w:v2")}),
										}
									}
									l, bvs := s.evs("ContractUnsubscribeValidator", es), s.bvs(es)
									s.begin()
									for _, e := range es {
										s.xUnsub(e, r.method)
									}
									s.call(fn, s.or, l, bvs)
									b.check("one unsubscription")
									s.effects("one unsubscription")
								}
							}
						}
					}
				}
				s := c.scn("three unsubscriptions in a row, " + r.net + " " + r.name)
				s.region(r)
				s.fee()
				pop := []vst{{"v1", 1}, {"v2", 2}, {"v3", 3}, {"v4", 1}}
				s.validators(pop...)
				s.beacon(names(pop)...)
				var es []*event
				for _, v := range []string{"v1", "v1", "v3", "v2"} {
					es = append(es, s.ev(event{kind: "unsub", idx: numAtom(v), sender: "w:" + v, val: s.bv(v, 3, "eth1", "w:"+v)}))
				}
				l, bvs := s.evs("ContractUnsubscribeValidator", es), s.bvs(es)
				s.begin()
				for _, e := range es {
					s.xUnsub(e, r.method)
				}
				s.call(fn, s.or, l, bvs)
				s.effects("several unsubscriptions")
			}
			c.mixed("unsub", "ContractUnsubscribeValidator", "handleManualUnsubscriptions", true)
		}})

	register(&Rule{id: "C08", title: "manual bans and unbans", minOblig: 80,
		explain: "Abstract interpretation of handleManualBans and handleManualUnbans for every status of the named validators (and untracked ones), for one to three events per block including repetitions, with unknown amounts, in a region of every split method. Obligation: the whole state reachable from the oracle equals the entry state with the demanded transitions, one redistribution of the summed pending after all bans, and no balance change on unbans; mixed blocks stop the process.",
		run: func(c *Ctx) {
			ban := c.anchor("oracle", "*Oracle", "handleManualBans")
			unban := c.anchor("oracle", "*Oracle", "handleManualUnbans")
			for _, r := range []region{regFork1, regElectra, regPre} {
				for _, pend := range []int{0, 1} {
					for _, ids := range [][]string{{}, {"v1"}, {"v1", "v2"}, {"v1", "v1"}, {"v2", "v9", "v1"}} {
						for _, s1 := range []int64{1, 2, 3, 4, 5} {
							for _, s2 := range []int64{1, 3, 5} {
								if len(ids) < 2 && s2 != 1 {
									continue
								}
								s := c.scn(fmt.Sprintf("ban %v, v1 %s, v2 %s, pending %+d, %s %s", ids, stNames[s1], stNames[s2], pend, r.net, r.name))
								s.region(r)
								s.fee()
								pop := []vst{{"v1", s1}, {"v2", s2}, {"v3", 1}, {"v4", 4}}
								s.validators(pop...)
								for _, v := range []string{"v1", "v2"} {
									if pend == 0 {
										s.put(vp(v, "PendingRewardsWei"), numI(0))
									} else {
										s.positive(v + ".pend")
									}
								}
								s.untracked("v9", "v1", "v2", "v3", "v4")
								b := s.beacon(names(pop)...)
								var es []*event
								for _, i := range ids {
									es = append(es, s.ev(event{kind: "ban", idx: numAtom(i)}))
								}
								l := s.evs("ContractBanValidator", es)
								s.begin()
								s.xBans(es, r.method)
								s.call(ban, s.or, l)
								b.check("bans")
								s.effects("bans")
								if pend == 1 {
									// unbans do not move balances
									es = nil
									for _, i := range ids {
										es = append(es, s.ev(event{kind: "unban", idx: numAtom(i)}))
									}
									l = s.evs("ContractUnbanValidator", es)
									s.begin()
									s.xUnbans(es)
									s.call(unban, s.or, l)
									s.effects("unbans")
								}
							}
						}
					}
				}
			}
			c.mixed("ban", "ContractBanValidator", "handleManualBans", false)
			c.mixed("unban", "ContractUnbanValidator", "handleManualUnbans", false)
		}})
}

// mixed: events of different blocks, and inconsistent validator data, stop the process.
func (c *Ctx) mixed(kind, T, fnName string, vals bool) {
	fn := c.anchor("oracle", "*Oracle", fnName)
	for i := 1; i <= 2; i++ {
		s := c.scn(fmt.Sprintf("%s events of different blocks (event %d differs)", kind, i+1))
		s.region(regFork1)
		s.fee()
		s.validators(vst{"v1", 1}, vst{"v2", 1}, vst{"v3", 5})
		s.beacon("v1", "v2", "v3")
		b2 := s.u64("blk2")
		s.less(s.u64("blk"), b2)
		var es []*event
		for k, v := range []string{"v1", "v2", "v3"} {
			e := event{kind: kind, idx: numAtom(v), sender: "w:" + v, amount: s.nonneg("amt"), val: s.bv(v, 3, "eth1", "w:"+v)}
			if k == i {
				e.block = b2
			}
			es = append(es, s.ev(e))
		}
		args := []Val{s.or, s.evs(T, es)}
		if vals {
			args = append(args, s.bvs(es))
		}
		s.begin()
		s.call(fn, args...)
		s.stops("mixed blocks stop the oracle")
	}
	if !vals {
		return
	}
	for _, k := range []string{"more validators", "fewer validators", "wrong index"} {
		s := c.scn(fmt.Sprintf("%s events with %s than events", kind, k))
		s.region(regFork1)
		s.fee()
		s.validators(vst{"v1", 1}, vst{"v2", 1})
		s.beacon("v1", "v2")
		b1, b2 := s.bv("v1", 3, "eth1", "w:v1"), s.bv("v2", 3, "eth1", "w:v2")
		e1 := s.ev(event{kind: kind, idx: numAtom("v1"), sender: "w:v1", amount: s.nonneg("amt"), val: b1})
		e2 := s.ev(event{kind: kind, idx: numAtom("v2"), sender: "w:v2", amount: s.nonneg("amt"), val: b2})
		es, vs := []*event{e1}, []*event{e1}
		switch k {
		case "more validators":
			vs = []*event{e1, e2}
		case "fewer validators":
			es = []*event{e1, e2}
		case "wrong index":
			vs = []*event{e2}
		}
		l, bvs := s.evs(T, es), s.bvs(vs)
		s.begin()
		s.call(fn, s.or, l, bvs)
		s.stops("inconsistent data stops the oracle")
	}
	// no events: nothing happens
	s := c.scn("no " + kind + " events")
	s.validators(vst{"v1", 1})
	l, bvs := s.evs(T, nil), s.bvs(nil)
	s.begin()
	s.call(fn, s.or, l, bvs)
	s.effects("no events")
	_ = big.NewInt
}
