package main

import (
	"fmt"
	"math/big"
)

// checkpointReached decides when IsCheckpoint says that a checkpoint is reached.
func (c *Ctx) checkpointReached() {
	const r1, r2 = "checkpoint reached", "no checkpoint without processed slots"
	f := c.anchor("oracle", "*Oracle", "IsCheckpoint")
	type off struct {
		name string
		lo   int64
		hi   int64
	}
	for _, S := range []int64{7200, 300} {
		for _, e := range []int64{0, 5} { // deployment slot relative to the multiples of the size
			for _, first := range []bool{true, false} { // no whole size has passed, or any number of them
				for _, r := range []off{{"a whole number of sizes", 0, 0}, {"one slot more", 1, 1}, {"some slots more", 2, S - 7}, {"almost one size more", S - 5, S - 5}, {"one slot less", S - 1, S - 1}} {
					s := c.scn(fmt.Sprintf("IsCheckpoint, size %d, deployed %d after a multiple of it, first size: %v, %s", S, e, first, r.name))
					s.I.rng["d"] = rng{big.NewInt(1), big.NewInt(1 << 40)}
					dep := nAdd(nMul(numI(S), numAtom("d")), numI(e))
					l := dep
					if !first {
						s.I.rng["k"] = rng{big.NewInt(1), big.NewInt(1 << 40)}
						l = nAdd(l, nMul(numI(S), numAtom("k")))
					}
					if r.lo == r.hi {
						l = nAdd(l, numI(r.lo))
					} else {
						l = nAdd(l, s.I.Range("m", r.lo, big.NewInt(r.hi)))
					}
					for _, k := range []string{"cfg", "state"} {
						s.I.init["or."+k+".DeployedSlot"] = dep
						s.I.init["or."+k+".CheckPointSizeInSlots"] = numI(S)
					}
					s.I.init["or.state.LatestProcessedSlot"] = l
					s.I.init["or.state.NextSlotToProcess"] = nAdd(l, numI(1))
					s.begin()
					s.call(f, s.or)
					if !s.clean(r1) || !s.effects(r1) {
						continue
					}
					_, isNil := s.lastErr()
					want := fmt.Sprint(r.lo == 0)
					c.Check(isNil && s.retAt(0).key() == want, r1, s.name, s.pos(), "gives %s, the property demands %s", s.ret.key(), want)
				}
			}
		}
		// nothing processed yet: the last processed slot is the one before the deployment
		for _, k := range []string{"0", "1", "S", "2S"} {
			s := c.scn(fmt.Sprintf("IsCheckpoint, size %d, last processed slot %s before the deployment", S, k))
			s.I.rng["d"] = rng{big.NewInt(3), big.NewInt(1 << 40)}
			dep := nMul(numI(S), numAtom("d"))
			l := nSub(dep, numI(map[string]int64{"0": 0, "1": 1, "S": S, "2S": 2 * S}[k]))
			if k == "0" {
				l = numI(0)
			}
			for _, k := range []string{"cfg", "state"} {
				s.I.init["or."+k+".DeployedSlot"] = dep
				s.I.init["or."+k+".CheckPointSizeInSlots"] = numI(S)
			}
			s.I.init["or.state.LatestProcessedSlot"] = l
			s.I.init["or.state.NextSlotToProcess"] = nAdd(l, numI(1))
			s.begin()
			s.call(f, s.or)
			if s.st != nil && s.st.dead {
				c.Ok(r2, 1)
				continue
			}
			if !s.clean(r2) || !s.effects(r2) {
				continue
			}
			nonNil, _ := s.lastErr()
			c.Check(nonNil || s.retAt(0).key() == "false", r2, s.name, s.pos(), "gives %s although no slot of the pool was processed", s.ret.key())
		}
	}
	c.Min(r1, 20)
}
