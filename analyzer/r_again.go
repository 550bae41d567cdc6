package main

import (
	"fmt"
	"math/big"
	"strings"
)

// answersAgain: an answer does not depend on what was asked before, or when. Every
// request is answered twice: by a service that was never asked anything, and by one that
// answered a request about other records, or about the same ones when state, contract
// and nodes stood elsewhere. Both answers must be the same.
func (c *Ctx) answersAgain(rule string, paths ...string) {
	type was struct {
		name string
		set  func(w *apiWorld) (undo func())
	}
	const pendingNow, aheadNow = 7, 9
	put := func(w *apiWorld, vals map[string]Val) func() {
		old := map[string]Val{}
		for _, p := range keysOfV(vals) {
			old[p] = w.s.get(p)
			w.s.put(p, vals[p])
		}
		return func() {
			for _, p := range keysOfV(old) {
				w.s.put(p, old[p])
			}
		}
	}
	early := []was{
		{"the same", func(w *apiWorld) func() { return func() {} }},
		{"other balances and statuses", func(w *apiWorld) func() {
			s := w.s
			m := map[string]Val{".state.PoolAccumulatedFees": s.big(s.nonneg("oldfees"))}
			for i, v := range w.vals {
				m[vp(v, "AccumulatedRewardsWei")] = s.big(s.nonneg("old." + v + ".acc"))
				m[vp(v, "PendingRewardsWei")] = s.big(s.nonneg("old." + v + ".pend"))
				m[vp(v, "CollateralWei")] = s.big(s.nonneg("old." + v + ".coll"))
				m[vp(v, "ValidatorStatus")] = numI(int64(1 + (i+1)%3))
				m[vp(v, "SubscriptionType")] = numI(int64(i % 2))
			}
			return put(w, m)
		}},
		{"fewer blocks and donations", func(w *apiWorld) func() {
			m := map[string]Val{}
			for _, f := range []string{"ProposedBlocks", "MissedBlocks", "WrongFeeBlocks", "Donations"} {
				m[".state."+f] = VNil{}
			}
			return put(w, m)
		}},
		{"an earlier slot", func(w *apiWorld) func() {
			f := w.F
			u := put(w, map[string]Val{".state.LatestProcessedSlot": nSub(w.L, numI(40))})
			w.F = nSub(w.L, numI(30))
			return func() { u(); w.F = f }
		}},
		{"an earlier block", func(w *apiWorld) func() {
			f := w.n.from
			u := put(w, map[string]Val{".state.LatestProcessedBlock": nSub(numAtom("latestblock"), numI(40))})
			w.n.from = nSub(numAtom("latestblock"), numI(39))
			return func() { u(); w.n.from = f }
		}},
		{"the checkpoint before on chain", func(w *apiWorld) func() {
			a, b := w.n.ans["LastConsolidatedSlot"], w.n.ans["RewardsRoot"]
			w.n.ans["LastConsolidatedSlot"] = func(c *Call) Val { return tup(numAtom("c0"), VNil{}) }
			w.n.ans["RewardsRoot"] = func(c *Call) Val { return tup(w.rootBytes("c0"), VNil{}) }
			return func() { w.n.ans["LastConsolidatedSlot"], w.n.ans["RewardsRoot"] = a, b }
		}},
		{"other claims", func(w *apiWorld) func() {
			a := w.n.ans["ClaimedBalance"]
			w.n.ans["ClaimedBalance"] = func(c *Call) Val {
				return tup(w.s.I.newBig(c.st, w.s.I.Range("claimed before", 0, nil), "claimed"), VNil{})
			}
			return func() { w.n.ans["ClaimedBalance"] = a }
		}},
		{"pending subscriptions", func(w *apiWorld) func() {
			e := w.n.evs
			t := c.named("contract", "ContractSubscribeValidator")
			k := map[string][]Val{}
			for x, l := range e {
				k[x] = l
			}
			k["SubscribeValidator"] = []Val{w.s.mkT(t, "pending", map[string]Val{".Raw.BlockNumber": nAdd(numAtom("latestblock"), numI(2)), ".ValidatorID": numAtom("v0"), ".Sender": addrBytes("a"), ".SubscriptionCollateral": numAtom("or.cfg.CollateralInWei")})}
			w.n.evs = k
			u := put(w, map[string]Val{vp("v0", "ValidatorStatus"): numI(4)})
			return func() { w.n.evs = e; u() }
		}},
		{"other beacon validators", func(w *apiWorld) func() {
			w.beacon("v1", "v2")
			return func() { w.beacon("v0", "v1", "v2") }
		}},
		{"the finalized head far ahead", func(w *apiWorld) func() {
			f := w.F
			w.F = nAdd(w.L, numI(100))
			return func() { w.F = f }
		}},
		{"a failing node", func(w *apiWorld) func() {
			w.n.fail["BeaconBlockHeader"] = -1
			return func() { delete(w.n.fail, "BeaconBlockHeader") }
		}},
		{"a failing contract", func(w *apiWorld) func() {
			for _, k := range []string{"LastConsolidatedSlot", "ClaimedBalance", "FilterSubscribeValidator"} {
				w.n.fail[k] = -1
			}
			return func() {
				for _, k := range []string{"LastConsolidatedSlot", "ClaimedBalance", "FilterSubscribeValidator"} {
					delete(w.n.fail, k)
				}
			}
		}},
	}
	other := map[string]func(w *apiWorld) Val{
		"address": func(w *apiWorld) Val { return addrStr("other", "req") },
		"pubkey": func(w *apiWorld) Val {
			return catS(strC("0x"), &Str{parts: []SPart{{atom: "req:k:v1", fold: "k:v1", n: 96}}})
		},
		"index": func(w *apiWorld) Val { return w.s.I.decS(numAtom("v1")) },
		"list": func(w *apiWorld) Val {
			return catS(catS(w.s.I.decS(numAtom("v1")), strC(",")), w.s.I.decS(numAtom("v2")))
		},
	}
	for _, path := range paths {
		p := apiPaths[path]
		setup := func(name string) *apiWorld {
			w := c.apiScn("GET " + path + name)
			w.s.I.Uniq("pool", "b:pool")
			w.s.I.Range("latestblock", 1000000, big.NewInt(1<<40))
			if p.input == "pubkey" {
				w.relayAnswers([]string{"pool", "404"})
			}
			for _, l := range []string{"c0", "c1"} {
				w.s.less(numAtom(l), w.L)
			}
			return w
		}
		ask := func(w *apiWorld) (map[string]string, bool) {
			w.s.begin()
			w.asked = nil
			w.get(path)
			if !w.s.clean(rule) {
				return nil, false
			}
			code, body, prob := w.answer()
			if prob != "" {
				w.s.fail(rule, "%s", prob)
				return nil, false
			}
			r := map[string]string{"status code": fmt.Sprint(code), "asked": strings.Join(w.asked, " ")}
			for k, v := range body {
				r[k] = v
			}
			return r, true
		}
		for _, now := range []int{-1, aheadNow, pendingNow} {
			label := ""
			if now >= 0 {
				label = ", now: " + early[now].name
			}
			w := setup(label)
			if now >= 0 {
				early[now].set(w)
			}
			w.request(path, "")
			want, ok := ask(w)
			if !ok {
				continue
			}
			for i, e := range early {
				if now >= 0 && i > 0 {
					break
				}
				for _, same := range []bool{true, false} {
					if !same && p.input == "" || i == 0 && same && now < 0 {
						continue
					}
					w := setup(fmt.Sprintf(" after one about the same records: %v, state and nodes then: %s%s", same, e.name, label))
					w.request(path, "")
					if !same {
						w.vars[p.vr] = other[p.input](w)
					}
					undo := e.set(w)
					w.s.begin()
					w.get(path)
					if len(w.s.I.notes) > 0 {
						w.s.fail(rule, "undecided: %s", strings.Join(uniqStrs(w.s.I.notes), "; "))
						continue
					}
					undo()
					if now >= 0 {
						early[now].set(w)
					}
					w.request(path, "")
					if got, ok := ask(w); ok {
						w.s.diff(rule, got, want)
					}
				}
			}
		}
	}
	c.Min(rule, 10*len(paths))
}

func keysOfV(m map[string]Val) []string {
	k := map[string]string{}
	for x := range m {
		k[x] = ""
	}
	return sortedKeys(k)
}
