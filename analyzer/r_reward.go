package main

import (
	"fmt"
	"math/big"
	"strings"
)

// populations of tracked validators used as entry classes: every status is present
// next to every number of eligible ones.
var pops = [][]vst{
	{{"v1", 1}},
	{{"v1", 2}, {"v2", 1}},
	{{"v1", 1}, {"v2", 3}, {"v3", 2}, {"v4", 5}, {"v5", 1}},
	{{"v1", 0}, {"v2", 1}, {"v3", 2}, {"v4", 3}, {"v5", 4}, {"v6", 5}, {"v7", 6}, {"v8", 1}},
}
var popsNone = [][]vst{
	{},
	{{"v1", 0}, {"v2", 3}, {"v3", 4}, {"v4", 5}, {"v5", 6}},
}

// shareScn sets up increaseAllPendingRewards(R) on a population in a region.
func (c *Ctx) shareScn(name string, r region, pop []vst) (*Scn, *beacon, *Num) {
	s := c.scn(fmt.Sprintf("%s, %s %s, validators [%s]", name, r.net, r.name, popName(pop)))
	s.region(r)
	s.fee()
	s.validators(pop...)
	R := s.nonneg("R")
	b := s.beacon(names(pop)...)
	return s, b, R
}

func init() {
	register(&Rule{id: "C02", title: "eligibility for rewards", minOblig: 40,
		explain: "Abstract interpretation of increaseAllPendingRewards and getEligibleValidators (SSA, callees inlined, amounts as polynomials over unknown entry amounts) on every class of population (each of the 7 statuses alone and mixed) in every fork region. Obligation: the pending and accumulated balances of each ineligible validator are the entry ones, each eligible one is the target of the split, and without eligible validators exactly the whole amount is added to the pool's fees. The analyses of slot processing and of every event kind (C05 to C09) are then repeated, and whoever is not eligible afterwards must hold exactly the pending balance the events themselves give him.",
		run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "increaseAllPendingRewards")
			el := c.anchor("oracle", "*Oracle", "getEligibleValidators")
			for _, pop := range append(append([][]vst{}, pops...), popsNone...) {
				s := c.scn("eligible set of [" + popName(pop) + "]")
				s.validators(pop...)
				s.begin()
				v := s.call(el, s.or)
				if s.clean("eligible set") {
					got := map[string]bool{}
					es, ok := s.I.elems(s.st, v, c.named(p0pkg, "ValidatorIndex"))
					for _, e := range es {
						got[s.I.res(s.st, e).key()] = true
					}
					want := s.xEligible()
					good := ok && len(got) == len(want) && len(es) == len(want)
					for _, w := range want {
						good = good && got[w]
					}
					c.Check(good, "eligible set", s.name, s.pos(), "getEligibleValidators gives %v, the property demands %v", got, want)
				}
				s.effects("eligible set is read-only")
			}
			single := [][]vst{}
			for st := int64(0); st <= 6; st++ {
				single = append(single, []vst{{"v1", st}}, []vst{{"v1", st}, {"v2", 1}})
			}
			for _, r := range regions {
				for _, pop := range append(append(append([][]vst{}, pops...), popsNone...), single...) {
					s, b, R := c.shareScn("eligibility", r, pop)
					s.begin()
					none := len(s.xEligible()) == 0
					s.call(fn, s.or, s.big(R))
					if !s.clean("share") || !b.check("share") {
						continue
					}
					if none {
						s.xPool(R)
						s.effects("no eligible validator: all to the pool")
						continue
					}
					elig := map[string]bool{}
					for _, v := range s.xEligible() {
						elig[v] = true
					}
					for _, v := range s.xKeys() {
						e := s.expGet(vp(v, "PendingRewardsWei")).key()
						g := s.get(vp(v, "PendingRewardsWei")).key()
						if elig[v] {
							c.Check(e != g, "eligible validator is credited", s.name+" "+v, s.pos(), "%s (%s) receives nothing", v, stNames[s.xStatus(v)])
						} else {
							c.Check(e == g, "ineligible validator gets nothing", s.name+" "+v, s.pos(), "%s (%s) has pending %s after a reward was shared", v, stNames[s.xStatus(v)], g)
						}
						c.Check(s.expGet(vp(v, "AccumulatedRewardsWei")).key() == s.get(vp(v, "AccumulatedRewardsWei")).key(), "accumulated unchanged", s.name+" "+v, s.pos(), "the accumulated balance of %s changes", v)
					}
				}
			}
			// whoever is not (or no longer) eligible has what the events themselves give him
			c.project(func(s *Scn, k string) bool {
				if !strings.HasSuffix(k, "PendingRewardsWei") {
					return false
				}
				for _, v := range s.xKeys() {
					if strings.HasPrefix(k, ".state.Validators["+v+"]") {
						st := s.xStatus(v)
						return st != 1 && st != 2
					}
				}
				return true
			})
		}})

	register(&Rule{id: "C03", title: "split of a reward", minOblig: 60,
		explain: "Abstract interpretation of increaseAllPendingRewards for every split method, with the reward, fee (0..10000), effective balances, pending balances and slot of the region left unknown: the resulting pool and pending balances are compared, as polynomials over those unknowns (integer division uninterpreted), with the documented split, on the whole state reachable from the oracle. Conservation (credits sum to the reward) is an identity of the polynomials.",
		assume:  []string{"Effective balances reported by the beacon node are below 2^53 gwei and at least one is positive; populations up to 8 validators stand for all sizes (the code iterates uniformly)."},
		run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "increaseAllPendingRewards")
			for _, r := range regions {
				for _, pop := range pops {
					s, b, R := c.shareScn("split", r, pop)
					s.begin()
					pool0 := s.expGet(".state.PoolAccumulatedFees")
					s.xShare(R, r.method)
					s.call(fn, s.or, s.big(R))
					if !s.clean("split") || !b.check("slot of the effective balances") {
						continue
					}
					s.effects("split as documented")
					sum := nSub(s.get(".state.PoolAccumulatedFees").(*Num), pool0)
					for _, v := range names(pop) {
						sum = nAdd(sum, nSub(s.get(vp(v, "PendingRewardsWei")).(*Num), numAtom(v+".pend")))
					}
					c.Check(sum.key() == R.key(), "conservation", s.name, s.pos(), "credits sum to %s instead of the reward", sum.key())
				}
				// a validator without effective balance gets nothing under Electra; all without: refused
				if r.method == "electra" {
					for _, zero := range []int{1, 3} {
						s, b, R := c.shareScn(fmt.Sprintf("split with %d of 3 effective balances zero", zero), r, []vst{{"v1", 1}, {"v2", 2}, {"v3", 1}})
						for i := 0; i < zero; i++ {
							nm := fmt.Sprintf("v%d", i+1)
							s.I.Put(s.st, b.vals[nm], typesPtr(c.named(v1pkg, "Validator")), ".Validator.EffectiveBalance", numI(0))
						}
						s.begin()
						s.call(fn, s.or, s.big(R))
						if zero == 3 {
							s.stops("zero total balance is refused")
							continue
						}
						if s.clean("split") {
							c.Check(s.get(vp("v1", "PendingRewardsWei")).key() == numAtom("v1.pend").key(), "no balance, no share", s.name, s.pos(), "v1 has no effective balance but is credited %s", s.get(vp("v1", "PendingRewardsWei")).key())
						}
					}
					s, b, R := c.shareScn("beacon request fails", r, pops[1])
					b.fail = true
					s.begin()
					s.call(fn, s.or, s.big(R))
					s.stops("failed balance request stops the split")
				}
				s, _, R := c.shareScn("fee above 100%", r, pops[1])
				s.I.Range("or.state.PoolFeesPercentOver10000", 10001, big.NewInt(1<<40))
				s.begin()
				s.call(fn, s.or, s.big(R))
				s.stops("fee above 100% is refused")
			}
		}})
}
