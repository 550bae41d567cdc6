package main

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	register(&Rule{id: "C20", title: "reconciliation compares all liabilities with all assets",
		explain: "both reconciliations are interpreted on oracle states with zero to four validators, ether-received events, subscriptions and recorded blocks of each reward type and with zero to three claims, all amounts unknown, for a total difference assumed to be zero, positive or negative: the result must be nil exactly in the first case, and nothing may have changed.",
		run:     runC20, minOblig: 100})
}

func runC20(c *Ctx) {
	off := c.anchor("oracle", "*Oracle", "RunOffchainReconciliation")
	on := c.anchor("oracle", "*Oracle", "RunOnchainReconciliation")
	uniq := c.anchor("oracle", "*Oracle", "GetUniqueWithdrawalAddresses")
	const r1, r2, r3 = "passes exactly when liabilities equal assets", "changes nothing", "claims of every address are asked for"
	ver := func(s *Scn, nv int) *Num {
		var vs []vst
		sum := s.nonneg("or.state.PoolAccumulatedFees")
		for i := 0; i < nv; i++ {
			nm := fmt.Sprintf("v%d", i)
			vs = append(vs, vst{nm, -1})
			sum = nAdd(sum, nAdd(s.nonneg(nm+".acc"), s.nonneg(nm+".pend")))
		}
		s.validators(vs...)
		return sum
	}
	check := func(s *Scn, m int) {
		s.st.trace = nil
		if !s.clean(r1) {
			return
		}
		nn, isNil := s.lastErr()
		if m == mZero {
			c.Check(isNil, r1, s.name, s.pos(), "refused although both sides are equal")
		} else {
			c.Check(nn, r1, s.name, s.pos(), "accepted although liabilities and assets differ: result %s", s.ret.key())
		}
	}
	signs := map[int]string{mZero: "equal", mPos: "larger than", mNeg: "smaller than"}
	type dim struct{ nv, don, sub, van, mev, unk, cl int }
	var ds []dim
	for nv := 0; nv <= 4; nv++ {
		for _, d := range []dim{{0, 0, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0, 1}, {0, 0, 1, 0, 0, 0, 2}, {0, 0, 0, 1, 0, 0, 3}, {0, 2, 3, 2, 2, 1, 0}, {0, 0, 0, 0, 1, 1, 2}, {0, 3, 1, 3, 1, 2, 3}} {
			d.nv = nv
			ds = append(ds, d)
		}
	}
	bt := c.named("oracle", "SummarizedBlock")
	for _, d := range ds {
		for _, m := range []int{mZero, mPos, mNeg} {
			// off-chain
			s := c.scn(fmt.Sprintf("off-chain: %d validators, %d donations, %d subscriptions, blocks: %d vanilla, %d MEV; liabilities %s assets", d.nv, d.don, d.sub, d.van, d.mev, signs[m]))
			s.freshGlobals()
			s.node()
			liab := ver(s, d.nv)
			assets := numI(0)
			var es, ss, bs []Val
			et, st := c.named("contract", "ContractEtherReceived"), c.named("contract", "ContractSubscribeValidator")
			for i := 0; i < d.don; i++ {
				a := s.nonneg(fmt.Sprintf("don%d", i))
				assets = nAdd(assets, a)
				es = append(es, s.mkT(et, "event", map[string]Val{".DonationAmount": a}))
			}
			for i := 0; i < d.sub; i++ {
				a := s.nonneg(fmt.Sprintf("coll%d", i))
				assets = nAdd(assets, a)
				ss = append(ss, s.mkT(st, "event", map[string]Val{".SubscriptionCollateral": a}))
			}
			k := 0
			blk := func(n int, typ int64) {
				for i := 0; i < n; i++ {
					a := s.nonneg(fmt.Sprintf("reward%d", k))
					if typ == 1 {
						assets = nAdd(assets, a)
					}
					o := s.mkT(bt, "block", map[string]Val{".Reward": a, ".RewardType": numI(typ), ".BlockType": s.I.Range(fmt.Sprintf("bt%d", k), 3, big.NewInt(4)), ".Slot": s.u64(fmt.Sprintf("slot%d", k))})
					bs = append(bs, s.I.load(s.st, o, bt, "entry"))
					k++
				}
			}
			blk(d.mev, 2)
			blk(d.van, 1)
			s.put(".state.EtherReceivedEvents", s.I.mkSlice(s.st, types.NewPointer(et), es, "events"))
			s.put(".state.SubscriptionEvents", s.I.mkSlice(s.st, types.NewPointer(st), ss, "events"))
			s.put(".state.ProposedBlocks", s.I.mkSlice(s.st, bt, bs, "blocks"))
			if assets.key() == "0" && m == mNeg {
				continue
			}
			s.sign(nSub(liab, assets), m)
			s.begin()
			s.call(off, s.or)
			check(s, m)
			s.effects(r2)
			// on-chain
			s = c.scn(fmt.Sprintf("on-chain: %d validators, %d claims; liabilities %s balance", d.nv, d.cl, signs[m]))
			s.freshGlobals()
			s.node()
			liab = ver(s, d.nv)
			var kv []Val
			for i := 0; i < d.cl; i++ {
				nm := fmt.Sprintf("acct%d", i)
				s.I.Uniq(nm)
				a := s.nonneg("claimed" + nm)
				liab = nSub(liab, a)
				kv = append(kv, addrStr(nm, "x"), s.big(a))
			}
			bal := s.nonneg("balance")
			s.sign(nSub(liab, bal), m)
			pb := s.big(bal)
			mp := s.I.NewMap(s.st, types.NewMap(types.Typ[types.String], on.Signature.Params().At(0).Type()), kv...)
			s.begin()
			s.call(on, s.or, pb, mp)
			check(s, m)
			s.effects(r2)
			ok := s.I.bigOf(s.st, pb, "-").key() == "balance"
			for i := 1; i < len(kv); i += 2 {
				ok = ok && s.I.bigOf(s.st, kv[i], "-").key() == "claimed"+fmt.Sprintf("acct%d", i/2)
			}
			c.Check(ok, r2, s.name+" (arguments)", s.pos(), "the balance or claims handed over are changed")
		}
	}
	// which accounts are asked for their claims
	for nv := 0; nv <= 3; nv++ {
		for _, shared := range []bool{false, true} {
			if shared && nv < 2 {
				continue
			}
			s := c.scn(fmt.Sprintf("%d validators, sharing a withdrawal address: %v", nv, shared))
			s.freshGlobals()
			s.node()
			ver(s, nv)
			s.I.Uniq("fees")
			s.put(".state.PoolFeesAddress", addrStr("fees", "cfg"))
			want := map[string]bool{lowerS(addrStr("fees", "x")).key(): true}
			for i := 0; i < nv; i++ {
				w := fmt.Sprintf("w:v%d", i)
				if shared && i == 1 {
					w = "w:v0"
					s.put(".state.Validators[v1].WithdrawalAddress", addrStr(w, "other"))
				}
				want[lowerS(addrStr(w, "x")).key()] = true
			}
			s.begin()
			s.call(uniq, s.or)
			if !s.clean(r3) {
				continue
			}
			es, ok := s.I.elems(s.st, s.ret, types.Typ[types.String])
			got := map[string]bool{}
			for _, e := range es {
				x, _ := toStr(s.I.res(s.st, e))
				if x == nil || got[lowerS(x).key()] || !want[lowerS(x).key()] {
					ok = false
					break
				}
				got[lowerS(x).key()] = true
			}
			c.Check(ok && len(got) == len(want), r3, s.name, s.pos(), "the accounts are %s", vkeys(s, es))
			s.effects(r2)
		}
	}
	c.Min(r1, 150)
	c.Min(r2, 150)
	c.Min(r3, 5)
}
