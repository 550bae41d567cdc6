package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// slotOf sets NextSlotToProcess to an unknown slot of the region, a multiple of 1200 or not,
// and LatestProcessedSlot to the one before.
func (s *Scn) slotOf(r region, multiple bool) *Num {
	s.network(r.net)
	lo := big.NewInt(r.lo/1200 + 1)
	hi := new(big.Int).Lsh(big.NewInt(1), 50)
	if r.hi > 0 {
		hi = big.NewInt(r.hi/1200 - 1)
	}
	s.I.rng["q"] = rng{lo, hi}
	n := nMul(numI(1200), numAtom("q"))
	if !multiple {
		n = nAdd(n, s.I.Range("m", 1, big.NewInt(1199)))
	}
	s.I.init["or.state.NextSlotToProcess"] = n
	s.I.init["or.state.LatestProcessedSlot"] = nSub(n, numI(1))
	return n
}

// fullBlock is a block of the given slot whose summary and donations are given.
type fullBlock struct {
	s         *Scn
	ptr       *Ptr
	sum       *sblock
	donations []*event
	calls     []string
	early     map[string]string // entry state, to see that the summary precedes every change
	late      bool              // that is not looked at
}

var evField = map[string]string{
	"sub": "SubscribeValidator", "unsub": "UnsubscribeValidator", "ether": "EtherReceived", "ban": "BanValidator", "unban": "UnbanValidator",
}

func (s *Scn) fullBlock(slot *Num, sum *sblock, donations []*event, evs map[string][]*event) *fullBlock {
	ty := map[string]string{"sub": "ContractSubscribeValidator", "unsub": "ContractUnsubscribeValidator", "ether": "ContractEtherReceived", "ban": "ContractBanValidator", "unban": "ContractUnbanValidator"}
	f := map[string]Val{}
	for k, fld := range evField {
		f["."+fld] = s.evs(ty[k], evs[k])
	}
	ep := s.mk("oracle", "Events", f)
	duty := s.mkT(s.c.named(v1pkg, "ProposerDuty"), "duty", map[string]Val{".Slot": slot})
	fb := s.mk("oracle", "FullBlock", map[string]Val{
		".ConsensusDuty":    duty,
		".Events":           ep,
		".ValidatorsSubs":   s.bvs(evs["sub"]),
		".ValidatorsUnsubs": s.bvs(evs["unsub"]),
	})
	return &fullBlock{s: s, ptr: fb, sum: sum, donations: donations}
}

func (f *fullBlock) hook(next func(*Call) (Val, bool)) func(*Call) (Val, bool) {
	s := f.s
	return func(c *Call) (Val, bool) {
		switch {
		case strings.HasSuffix(c.name, "FullBlock).SummarizedBlock"):
			f.calls = append(f.calls, "SummarizedBlock")
			now, then := map[string]string{}, f.early
			s.I.leafs(c.st, s.or, types.NewPointer(s.orT), "", now, 0)
			for k, v := range now {
				if f.late {
					break
				}
				if then[k] != v {
					s.fail("outcome is determined on the entry state", "the outcome is determined after %s changed from %s to %s", k, then[k], v)
					break
				}
			}
			for _, a := range c.args[1:] {
				if x, ok := s.I.res(c.st, a).(*Str); ok && x.key() != s.mustGet(c.st, ".cfg.PoolAddress").key() && x.key() != s.mustGet(c.st, ".state.PoolAddress").key() {
					s.fail("outcome uses the pool address", "the outcome is determined for the address %s", x.key())
				}
			}
			return f.sum.val, true
		case strings.HasSuffix(c.name, "FullBlock).GetDonations"):
			f.calls = append(f.calls, "GetDonations")
			for _, a := range c.args[1:] {
				if x, ok := s.I.res(c.st, a).(*Str); ok && x.key() != s.mustGet(c.st, ".cfg.PoolAddress").key() && x.key() != s.mustGet(c.st, ".state.PoolAddress").key() {
					s.fail("donations of the pool address", "donations are determined for the address %s", x.key())
				}
			}
			var vs []Val
			for _, e := range f.donations {
				vs = append(vs, e.ptr)
			}
			return s.I.mkSlice(c.st, types.NewPointer(s.c.named("contract", "ContractEtherReceived")), vs, "donations"), true
		}
		if next != nil {
			return next(c)
		}
		return nil, false
	}
}

func (s *Scn) snapshot() map[string]string {
	m := map[string]string{}
	s.I.leafs(s.st, s.or, types.NewPointer(s.orT), "", m, 0)
	return m
}

// advScn is a full slot: population, outcome, events and cleanup answers.
type advCase struct {
	r        region
	multiple bool
	typ      int64
	prop     int64 // status of the proposer, -1 untracked
	evs      string
	exited   bool
	slot     *Num // exactly this one
}

func (c *Ctx) advance(e advCase) (*Scn, *fullBlock, *beacon) {
	s := c.scn(fmt.Sprintf("slot of %s %s (multiple of 1200: %v), outcome %d, proposer %s, events %s", e.r.net, e.r.name, e.multiple, e.typ, pname("p", e.prop), e.evs))
	var slot *Num
	if e.slot != nil {
		s.network(e.r.net)
		slot = e.slot
		s.I.init["or.state.NextSlotToProcess"] = slot
		s.I.init["or.state.LatestProcessedSlot"] = nSub(slot, numI(1))
	} else {
		slot = s.slotOf(e.r, e.multiple)
	}
	s.fee()
	s.order("a", "b", "n", "o", "p", "u", "x", "y")
	pop := []vst{{"a", 1}, {"b", 5}, {"n", 4}}
	if e.prop >= 0 {
		pop = append(pop, vst{"p", e.prop})
	}
	pop = append(pop, vst{"x", 1}, vst{"y", 2})
	s.validators(pop...)
	for _, v := range pop {
		if v.st == 5 || v.st == 4 {
			s.put(vp(v.n, "PendingRewardsWei"), numI(0))
		} else {
			s.positive(v.n + ".pend")
		}
	}
	b := s.beacon(append(names(pop), "u", "p", "n")...)
	b.slot = slot
	if e.exited {
		b.add("x", 6)
	}
	b.noCons = !e.r.cons
	R := s.positive("R")
	sum := s.sblock(e.typ, numAtom("p"), R, "w:p")
	evs := map[string][]*event{}
	req := s.nonneg("or.state.CollateralInWei")
	coll := s.positive("coll")
	s.less(req, coll)
	add := func(kind, v string) {
		ev := event{kind: kind, idx: numAtom(v), sender: "w:" + v, amount: coll}
		if kind == "sub" || kind == "unsub" {
			ev.val = s.bv(v, 3, "eth1", "w:"+v)
		}
		evs[kind] = append(evs[kind], s.ev(ev))
	}
	var don []*event
	switch e.evs {
	case "none":
	case "on the proposer":
		for _, k := range []string{"sub", "unsub", "ban", "unban"} {
			add(k, "p")
		}
	case "on others":
		add("sub", "u")
		add("sub", "n")
		add("unsub", "a")
		add("ban", "y")
		add("unban", "b")
	case "mixed":
		add("sub", "p")
		add("ban", "p")
		add("unsub", "u")
		add("ban", "a")
		add("unban", "p")
	case "bans of the new":
		add("sub", "u")
		add("ban", "u")
		add("unban", "b")
		add("ban", "b")
		add("unsub", "y")
	}
	if e.evs != "none" {
		s.positive("D1")
		s.positive("D2")
		don = append(don, s.ev(event{kind: "ether", amount: numAtom("D1"), sender: "donor"}), s.ev(event{kind: "ether", amount: numAtom("D2"), sender: "donor2"}))
		evs["ether"] = append(evs["ether"], don[0], s.ev(event{kind: "ether", amount: s.positive("M"), sender: "builder"}), don[1])
	}
	f := s.fullBlock(slot, sum, don, evs)
	s.I.hook = f.hook(b.hook)
	f.early = s.snapshot()
	s.begin()
	// the demanded effects
	for k, l := range map[string]string{"sub": "SubscriptionEvents", "unsub": "UnsubscriptionEvents", "ether": "EtherReceivedEvents"} {
		for _, ev := range evs[k] {
			s.expAppend(".state."+l, ev.ptr)
		}
	}
	for _, ev := range evs["sub"] {
		s.xSub(ev)
	}
	s.xProposal(sum, e.r.method)
	for _, ev := range evs["unsub"] {
		s.xUnsub(ev, e.r.method)
	}
	s.xDonations(don, e.r.method)
	s.xBans(evs["ban"], e.r.method)
	s.xUnbans(evs["unban"])
	if e.multiple {
		st := map[string]int64{}
		if e.exited {
			st["x"] = 6
		}
		s.xCleanup(e.r, &cleanup{status: st})
	}
	s.expPut(".state.LatestProcessedSlot", slot)
	s.expPut(".state.NextSlotToProcess", nAdd(slot, numI(1)))
	if e.typ != 1 {
		s.expPut(".state.LatestProcessedBlock", numAtom("blk"))
	}
	return s, f, b
}

var evKinds = []string{"none", "on the proposer", "on others", "mixed", "bans of the new"}

func init() {
	register(&Rule{id: "C05", title: "effects of one slot", minOblig: 300,
		explain: "Abstract interpretation of AdvanceStateToNextSlot and of each outcome handler. The block's summary and donations are given (their derivation is C30's subject); everything else is interpreted from the source with callees inlined, amounts, indices and the slot unknown. Classes: 5 outcomes x 6 proposer situations x 5 event combinations (on the proposer, on others, interacting) x cleanup due or not x split method. Obligation: the whole state reachable from the oracle equals the entry state with the demanded effects applied in the demanded order (frame included: no other list, validator or field changes).",
		run: func(c *Ctx) {
			adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
			for _, r := range []region{regElectra, regFork1} {
				for _, mult := range []bool{false, true} {
					for typ := int64(0); typ <= 4; typ++ {
						for _, prop := range []int64{-1, 1, 2, 3, 4, 5} {
							for _, ev := range evKinds {
								e := advCase{r, mult, typ, prop, ev, mult && ev != "mixed", nil}
								s, f, b := c.advance(e)
								s.call(adv, s.or, f.ptr)
								b.check("one slot")
								if s.effects("one slot") {
									c.Check(len(f.calls) == 2, "one slot: summary and donations once", s.name, s.pos(), "calls %v", f.calls)
									_, ok := s.lastErr()
									c.Check(ok, "one slot: no error", s.name, s.pos(), "an error is returned for an accepted block: %v", s.ret.key())
								}
							}
						}
					}
				}
			}
			// each handler on its own
			type h struct {
				name string
				typ  int64
				any  bool // for any proposer, not only subscribed ones
			}
			for _, hd := range []h{{"handleMissedBlock", 1, false}, {"handleBanValidator", 2, false}, {"handleCorrectBlockProposal", 3, true}, {"handleBlsCorrectBlockProposal", 4, true}} {
				fn := c.anchor("oracle", "*Oracle", hd.name)
				for _, r := range []region{regFork1, regElectra, regPre} {
					for _, prop := range []int64{-1, 1, 2, 3, 4, 5} {
						if !hd.any && (prop < 1 || prop > 3) {
							continue
						}
						s := c.scn(fmt.Sprintf("%s for %s, %s %s", hd.name, pname("p", prop), r.net, r.name))
						s.region(r)
						s.fee()
						s.order("a", "b", "p", "y")
						pop := []vst{{"a", 1}, {"b", 5}}
						if prop >= 0 {
							pop = append(pop, vst{"p", prop})
						}
						pop = append(pop, vst{"y", 2})
						s.validators(pop...)
						s.beacon("a", "b", "p", "y")
						sb := s.sblock(hd.typ, numAtom("p"), s.nonneg("R"), "w:p")
						s.begin()
						s.xProposal(sb, r.method)
						s.call(fn, s.or, sb.val)
						s.effects(hd.name)
					}
				}
			}
			// donations
			fn := c.anchor("oracle", "*Oracle", "handleDonations")
			for _, r := range []region{regFork1, regElectra, regPre} {
				for n := 0; n <= 3; n++ {
					for _, diff := range []int{0, 1, 2} {
						if diff > 0 && diff >= n {
							continue
						}
						s := c.scn(fmt.Sprintf("%d donations, different block at %d, %s %s", n, diff, r.net, r.name))
						s.region(r)
						s.fee()
						s.validators(vst{"v1", 1}, vst{"v2", 3}, vst{"v3", 2})
						s.beacon("v1", "v2", "v3")
						var es []*event
						for i := 0; i < n; i++ {
							e := event{kind: "ether", amount: s.nonneg(fmt.Sprintf("D%d", i)), sender: "donor"}
							if diff > 0 && i == diff {
								e.block = s.u64("blk2")
								s.less(s.u64("blk"), e.block)
							}
							es = append(es, s.ev(e))
						}
						l := s.evs("ContractEtherReceived", es)
						s.begin()
						s.xDonations(es, r.method)
						s.call(fn, s.or, l)
						if diff > 0 {
							s.stops("donations of different blocks stop the oracle")
						} else {
							s.effects("donations")
						}
					}
				}
			}
		}})
}
