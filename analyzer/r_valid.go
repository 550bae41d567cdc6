package main

import (
	"fmt"
	"go/types"
	"math/big"
)

type paramEv struct {
	kind string // fee, recipient, checkpoint, collateral
	val  Val
}

var paramField = map[string][3]string{
	"fee":        {"UpdatePoolFee", "ContractUpdatePoolFee", ".NewPoolFee"},
	"recipient":  {"PoolFeeRecipient", "ContractUpdatePoolFeeRecipient", ".NewPoolFeeRecipient"},
	"checkpoint": {"CheckpointSlotSize", "ContractUpdateCheckpointSlotSize", ".NewCheckpointSlotSize"},
	"collateral": {"UpdateSubscriptionCollateral", "ContractUpdateSubscriptionCollateral", ".NewSubscriptionCollateral"},
}

// params adds parameter change events to a block
func (f *fullBlock) params(ps ...paramEv) {
	s := f.s
	by := map[string][]Val{}
	for _, p := range ps {
		d := paramField[p.kind]
		by[p.kind] = append(by[p.kind], s.mk("contract", d[1], map[string]Val{d[2]: p.val, ".Raw.BlockNumber": s.u64("blk")}))
	}
	for k, vs := range by {
		d := paramField[k]
		t := types.NewPointer(s.c.named("oracle", "FullBlock"))
		s.I.Put(s.st, f.ptr, t, ".Events."+d[0], s.slice(types.NewPointer(s.c.named("contract", d[1])), vs...))
	}
}

// cfgState gives the configuration and the state the same, unknown, parameters.
func (s *Scn) cfgState() {
	s.I.Uniq("w:pool", "w:fees")
	for _, p := range []string{"cfg", "state"} {
		s.I.init["or."+p+".PoolFeesAddress"] = addrStr("w:fees", "cfg")
		s.I.init["or."+p+".PoolAddress"] = addrStr("w:pool", "cfg")
	}
	n := s.I.Range("size", 1, maxU64)
	s.I.init["or.cfg.CheckPointSizeInSlots"] = n
	s.I.init["or.state.CheckPointSizeInSlots"] = n
	f := s.I.Range("or.cfg.PoolFeesPercentOver10000", 0, big.NewInt(10000))
	s.I.init["or.state.PoolFeesPercentOver10000"] = f
}

func (s *Scn) unchanged(rule string) bool { return s.effects(rule) }

// refused: the call returns a non-nil error and the state is untouched
func (s *Scn) refused(rule string) bool {
	if !s.effects(rule + ": refused block changes nothing") {
		return false
	}
	nn, _ := s.lastErr()
	return s.c.Check(nn, rule+": refusal is reported", s.name, s.pos(), "gives %s", s.ret.key())
}

func init() {
	register(&Rule{id: "C10", title: "slot sequencing", minOblig: 60,
		explain: "Abstract interpretation of AdvanceStateToNextSlot with the cursors and the block's slot unknown, split by their order: next slot below, at and above last+1; block's slot below, at and above the next slot. Refused classes must return an error with the whole state equal to the entry state; accepted classes (each outcome) must return the processed slot and leave exactly the demanded cursors.",
		run: func(c *Ctx) {
			adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
			// refusals
			for _, cur := range []string{"next below last+1", "next above last+1", "next is last+1"} {
				for _, blk := range []string{"below next", "at next", "above next"} {
					if cur == "next is last+1" && blk == "at next" {
						continue
					}
					for typ := int64(0); typ <= 4; typ++ {
						s := c.scn(fmt.Sprintf("%s, block's slot %s, outcome %d", cur, blk, typ))
						s.network("mainnet")
						s.cfgState()
						s.fee()
						next := s.I.Range("next", 1, new(big.Int).Lsh(big.NewInt(1), 60))
						last := s.I.Range("last", 0, new(big.Int).Lsh(big.NewInt(1), 60))
						s.I.init["or.state.NextSlotToProcess"] = next
						switch cur {
						case "next below last+1":
							s.less(next, nAdd(last, numI(1)))
						case "next above last+1":
							s.less(nAdd(last, numI(1)), next)
						default:
							last = nSub(next, numI(1))
						}
						s.I.init["or.state.LatestProcessedSlot"] = last
						slot := next
						if blk != "at next" {
							slot = s.u64("slot")
							if blk == "below next" {
								s.less(slot, next)
							} else {
								s.less(next, slot)
							}
						}
						s.validators(vst{"p", 1}, vst{"x", 3})
						b := s.beacon("p", "x")
						b.slot = next
						sum := s.sblock(typ, numAtom("p"), s.positive("R"), "w:p")
						f := s.fullBlock(slot, sum, nil, map[string][]*event{
							"sub":   {s.ev(event{kind: "sub", idx: numAtom("x"), sender: "w:x", amount: s.positive("coll"), val: s.bv("x", 3, "eth1", "w:x")})},
							"ban":   {s.ev(event{kind: "ban", idx: numAtom("p")})},
							"ether": {s.ev(event{kind: "ether", amount: s.positive("D"), sender: "donor"})},
						})
						s.I.hook = f.hook(b.hook)
						f.early = s.snapshot()
						s.begin()
						s.call(adv, s.or, f.ptr)
						s.refused("out of sequence")
					}
				}
			}
			// accepted
			for _, mult := range []bool{false, true} {
				for typ := int64(1); typ <= 4; typ++ {
					for _, prop := range []int64{-1, 1, 3, 4, 5} {
						for _, ev := range []string{"none", "on others"} {
							s, f, _ := c.advance(advCase{regElectra, mult, typ, prop, ev, false, nil})
							s.call(adv, s.or, f.ptr)
							if !s.clean("cursors after an accepted block") {
								continue
							}
							got, want := map[string]string{}, map[string]string{}
							for _, k := range []string{"LatestProcessedSlot", "NextSlotToProcess", "LatestProcessedBlock"} {
								got[k], want[k] = s.get(".state."+k).key(), s.mustGet(s.exp, ".state."+k).key()
							}
							if s.diff("cursors after an accepted block", got, want) {
								_, ok := s.lastErr()
								c.Check(ok && s.retAt(0).key() == s.slotNow().key(), "processed slot is returned", s.name, s.pos(), "gives %s", s.ret.key())
							}
						}
					}
				}
			}
		}})

	register(&Rule{id: "C11", title: "contract parameter changes", minOblig: 150,
		explain: "Abstract interpretation of validateFullBlockConfig, and of AdvanceStateToNextSlot around it, for every combination class of parameter-change events: none, one or two of each kind, value equal to or different from (below, above) the configured one; pool-fee changes with scheduled and unscheduled fee at scheduled slots, next to them and anywhere else on each network. Refused classes must report an error and change nothing in state or configuration; accepted fee changes must set both.",
		run: func(c *Ctx) {
			val := c.anchor("oracle", "*Oracle", "validateFullBlockConfig")
			adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
			type pc struct {
				name string
				net  string
				slot int64 // -1 unknown, away from the schedule
				evs  func(s *Scn) []paramEv
				ok   bool
				fee  int64 // new fee, 0: unchanged
			}
			var cs []pc
			add := func(name, net string, slot int64, ok bool, fee int64, evs func(s *Scn) []paramEv) {
				cs = append(cs, pc{name, net, slot, evs, ok, fee})
			}
			one := func(k string, v func(s *Scn) Val) func(s *Scn) []paramEv {
				return func(s *Scn) []paramEv { return []paramEv{{k, v(s)}} }
			}
			kc := func(n int64) func(s *Scn) Val { return func(s *Scn) Val { return numI(n) } }
			same := map[string]func(s *Scn) Val{
				"recipient":  func(s *Scn) Val { return addrBytes("w:fees") },
				"checkpoint": func(s *Scn) Val { return numAtom("size") },
				"collateral": func(s *Scn) Val { return numAtom("or.cfg.CollateralInWei") },
			}
			other := map[string][]func(s *Scn) Val{
				"recipient": {func(s *Scn) Val { s.I.Uniq("w:new"); return addrBytes("w:new") }, func(s *Scn) Val { return strC(string(make([]byte, 20))) }, func(s *Scn) Val { return addrBytes("w:pool") }},
				"checkpoint": {
					func(s *Scn) Val { v := s.u64("v"); s.less(v, numAtom("size")); return v },
					func(s *Scn) Val { v := s.u64("v"); s.less(numAtom("size"), v); return v }},
				"collateral": {
					func(s *Scn) Val { v := s.nonneg("v"); s.less(v, numAtom("or.cfg.CollateralInWei")); return v },
					func(s *Scn) Val { v := s.nonneg("v"); s.less(numAtom("or.cfg.CollateralInWei"), v); return v }},
			}
			add("no change", "mainnet", -1, true, 0, func(s *Scn) []paramEv { return nil })
			for _, k := range []string{"recipient", "checkpoint", "collateral"} {
				add("same "+k, "mainnet", -1, true, 0, one(k, same[k]))
				add("same "+k+" twice", "mainnet", -1, false, 0, func(s *Scn) []paramEv { v := same[k](s); return []paramEv{{k, v}, {k, v}} })
				for i, o := range other[k] {
					add(fmt.Sprintf("different %s (%d)", k, i), "mainnet", -1, false, 0, one(k, o))
					add(fmt.Sprintf("different %s (%d) and back", k, i), "mainnet", -1, false, 0, func(s *Scn) []paramEv { return []paramEv{{k, o(s)}, {k, same[k](s)}} })
					add(fmt.Sprintf("scheduled fee with different %s (%d)", k, i), "mainnet", 14082460, false, 0, func(s *Scn) []paramEv { return []paramEv{{"fee", numI(500)}, {k, o(s)}} })
					for _, k2 := range []string{"recipient", "checkpoint", "collateral"} {
						if k2 != k {
							add(fmt.Sprintf("different %s (%d) with same %s", k, i, k2), "hoodi", -1, false, 0, func(s *Scn) []paramEv { return []paramEv{{k, o(s)}, {k2, same[k2](s)}} })
						}
					}
				}
				add("scheduled fee with same "+k, "mainnet", 14082460, true, 500, func(s *Scn) []paramEv { return []paramEv{{"fee", numI(500)}, {k, same[k](s)}} })
			}
			for net, slot := range map[string]int64{"mainnet": 14082460, "hoodi": 2801050} {
				add("scheduled fee at its slot", net, slot, true, 500, one("fee", kc(500)))
				for _, f := range []int64{0, 499, 501, 700, 1000, 10000} {
					add(fmt.Sprintf("fee %d at the scheduled slot", f), net, slot, false, 0, one("fee", kc(f)))
				}
				add("scheduled fee twice", net, slot, false, 0, func(s *Scn) []paramEv { return []paramEv{{"fee", numI(500)}, {"fee", numI(500)}} })
				for _, d := range []int64{-1, 1} {
					add("scheduled fee next to its slot", net, slot+d, false, 0, one("fee", kc(500)))
				}
				for _, f := range []int64{0, 500, 700, 1000} {
					add(fmt.Sprintf("fee %d away from the schedule", f), net, -1, false, 0, one("fee", kc(f)))
				}
				add("current fee away from the schedule", net, -1, false, 0, one("fee", func(s *Scn) Val { return numAtom("or.cfg.PoolFeesPercentOver10000") }))
			}
			for _, net := range []string{"holesky", "goerli", ""} {
				for _, slot := range []int64{14082460, 2801050, -1, -2} {
					for _, f := range []int64{0, 500, 700} {
						add(fmt.Sprintf("fee %d on a network without schedule", f), net, slot, false, 0, one("fee", kc(f)))
					}
				}
			}
			add("mainnet's change on hoodi", "hoodi", 14082460, false, 0, one("fee", kc(500)))
			add("hoodi's change on mainnet", "mainnet", 2801050, false, 0, one("fee", kc(500)))
			for _, e := range cs {
				for _, whole := range []bool{false, true} {
					if whole && (e.net == "goerli" || e.net == "") {
						continue
					}
					s := c.scn(fmt.Sprintf("%s, %s, slot %d, whole %v", e.name, e.net, e.slot, whole))
					s.network(e.net)
					s.cfgState()
					var slot *Num
					switch {
					case e.slot == -1:
						slot = s.I.Range("next", 14082461, new(big.Int).Lsh(big.NewInt(1), 60))
					case e.slot == -2:
						slot = s.I.Range("next", 1, big.NewInt(2801049))
					default:
						slot = numI(e.slot)
					}
					s.I.init["or.state.NextSlotToProcess"] = slot
					s.I.init["or.state.LatestProcessedSlot"] = nSub(slot, numI(1))
					s.validators(vst{"p", 3}, vst{"x", 3})
					b := s.beacon("p", "x")
					b.slot = slot
					sum := s.sblock(0, numAtom("p"), numI(0), "w:p")
					f := s.fullBlock(slot, sum, nil, map[string][]*event{})
					f.params(e.evs(s)...)
					s.I.hook = f.hook(b.hook)
					f.early = nil
					s.begin()
					if e.fee != 0 {
						s.expPut(".cfg.PoolFeesPercentOver10000", numI(e.fee))
						s.expPut(".state.PoolFeesPercentOver10000", numI(e.fee))
					}
					if !whole {
						s.call(val, s.or, f.ptr, s.get(".cfg"))
						if !e.ok {
							s.refused("parameter change")
							continue
						}
						if s.effects("accepted parameter change") {
							_, ok := s.lastErr()
							c.Check(ok, "accepted parameter change: no error", s.name, s.pos(), "gives %s", s.ret.key())
						}
						continue
					}
					f.late = true
					s.call(adv, s.or, f.ptr)
					if !e.ok {
						s.refused("block with parameter change")
						continue
					}
					if s.clean("block with accepted parameter change") {
						got, want := map[string]string{}, map[string]string{}
						for _, k := range []string{".cfg.PoolFeesPercentOver10000", ".state.PoolFeesPercentOver10000", ".cfg.CollateralInWei", ".cfg.CheckPointSizeInSlots", ".cfg.PoolFeesAddress"} {
							v, w := s.get(k), s.mustGet(s.exp, k)
							got[k], want[k] = s.deref(s.st, v), s.deref(s.exp, w)
						}
						s.diff("block with accepted parameter change", got, want)
						_, ok := s.lastErr()
						c.Check(ok, "accepted parameter change: no error", s.name, s.pos(), "gives %s", s.ret.key())
					}
				}
			}
		}})
}

// deref gives the number behind a pointer, or the value itself
func (s *Scn) deref(st *State, v Val) string {
	if p, ok := v.(*Ptr); ok {
		return s.I.bigOf(st, p, "deref").key()
	}
	return v.key()
}
