package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Rule{id: "C44", title: "the API reports the oracle's own records",
		explain: "every endpoint that shows recorded data is interpreted end to end, its handler found through the router, on states with unknown amounts, indices, slots and addresses (every validator status and subscription type, validators the consensus client knows or not, lists of zero to three blocks and donations, slots and blocks around the 30-day limit, requested indices tracked or not, relays registered with the pool, with somebody else or not at all, nodes in and out of sync), and the JSON fields of the answer are compared one by one with those demanded of the record they belong to. The router is read for the methods each route allows, and the server's handler and middleware are run for what they pass on.",
		assume:  []string{"the finalized head is not behind the last processed slot and the contract's slot not ahead of it (otherwise distances are meaningless)"},
		run:     runC44, minOblig: 700})
}

// reported runs a request and compares all of the answer's JSON fields
func (w *apiWorld) reported(rule, path string, want map[string]string, unordered bool) {
	s := w.s
	s.begin()
	w.get(path)
	if !s.clean(rule) {
		return
	}
	code, body, prob := w.answer()
	if !s.c.Check(prob == "" && code == 200, rule, s.name, s.pos(), "answers %d %s %v", code, prob, body[".message"]) {
		return
	}
	if unordered {
		body, want = entriesOf(body), entriesOf(want)
	}
	s.diff(rule, body, want)
}

// entriesOf makes the entries of a top-level list comparable regardless of order
func entriesOf(m map[string]string) map[string]string {
	by := map[string][]string{}
	out := map[string]string{}
	for _, k := range sortedKeys(m) {
		if i := strings.IndexByte(k, ']'); strings.HasPrefix(k, "[") && i > 0 {
			by[k[:i+1]] = append(by[k[:i+1]], k[i+1:]+"="+m[k])
		} else {
			out[k] = m[k]
		}
	}
	var es []string
	for _, e := range by {
		es = append(es, strings.Join(e, "\n"))
	}
	sort.Strings(es)
	for i, e := range es {
		for _, kv := range strings.Split(e, "\n") {
			k, v, _ := strings.Cut(kv, "=")
			out[fmt.Sprintf("[%d in some order]%s", i, k)] = v
		}
	}
	return out
}

func q(s string) string { return strC(s).key() }

var valText = map[int64]string{0: "unknownstate", 1: "active", 2: "yellowcard", 3: "redcard", 4: "notsubscribed", 5: "banned", 6: "untracked"}
var subText = map[int64]string{0: "manual", 1: "auto"}
var blockText = map[int64]string{1: "missedproposal", 2: "wrongfeerecipient", 3: "okpoolproposal", 4: "okpoolproposalblskeys"}
var rewText = map[int64]string{1: "vanila", 2: "mev"}

// rval is a validator of the reporting states
type rval struct{ status, sub int64 }

func (w *apiWorld) setVals(v [3]rval) {
	for i, x := range v {
		w.s.put(".state.Validators["+w.vals[i]+"].ValidatorStatus", numI(x.status))
		w.s.put(".state.Validators["+w.vals[i]+"].SubscriptionType", numI(x.sub))
	}
}

func (w *apiWorld) dec(n *Num) string { return w.s.I.decS(n).key() }

// valEntry: what the entry of tracked validator v must show
func (w *apiWorld) valEntry(out map[string]string, path, v string, x rval) {
	own := map[string]string{"v0": "a", "v1": "other", "v2": "a"}
	set := map[string]string{
		".status":                        q(valText[x.status]),
		".subscription_type":             q(subText[x.sub]),
		".beacon_status":                 q("{3.String()}"),
		".beacon_balance_gwei":           w.dec(numAtom("bal:" + v)),
		".beacon_effective_balance_gwei": w.dec(numAtom("eb:" + v)),
		".accumulated_rewards_wei":       w.dec(numAtom(v + ".acc")),
		".pending_rewards_wei":           w.dec(numAtom(v + ".pend")),
		".collateral_wei":                w.dec(numAtom(v + ".coll")),
		".withdrawal_address":            addrStr(own[v], "db"+v[1:]).key(),
		".validator_index":               numAtom(v).key(),
		".validator_key":                 w.s.get(".state.Validators[" + v + "].ValidatorKey").key(),
	}
	for k, x := range set {
		out[path+k] = x
	}
}

func runC44(c *Ctx) {
	c.reportValidators()
	c.reportBlocks()
	c.reportStatistics()
	c.reportRelays()
	c.reportStatus()
	c.reportState()
	c.reportServed()
	var all []string
	for p := range apiPaths {
		if p != "/status" && p != "/state" && p != "/config" {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	c.answersAgain("an answer does not depend on earlier ones", all...)
}

// reportState: the state served is the oracle's own, with its hash
func (c *Ctx) reportState() {
	const rule = "the state served is the oracle's own"
	h := c.anchor("oracle", "*Oracle", "StateWithHash")
	w := c.apiScn("GET /state")
	w.s.call(h, w.s.or)
	hash := w.s.get(".state.StateHash").key()
	w = c.apiScn("GET /state")
	s := w.s
	s.begin()
	w.get("/state")
	if s.clean(rule) {
		code, body, prob := w.answer()
		if c.Check(prob == "" && code == 200, rule, s.name, s.pos(), "answers %d %s", code, prob) {
			if body["&"] != "&or.state" {
				want := map[string]string{}
				s.I.jsonView(s.st, s.I.loadLoc(s.st, s.or.o, ".state", s.c.named("oracle", "OracleState")), s.c.named("oracle", "OracleState"), "", want, 1)
				s.diff(rule, body, want)
				c.Check(body[".state_hash"] == hash, rule, s.name+": hash", s.pos(), "the hash served is %s, not the state's %s", body[".state_hash"], hash)
			} else {
				got := s.get(".state.StateHash").key()
				c.Check(got == hash, rule, s.name+": hash", s.pos(), "the hash served is %s, not the state's %s", got, hash)
			}
		}
	}
	w = c.apiScn("GET /state when it cannot be hashed")
	s = w.s
	s.I.fail["encoding/json.Marshal"], s.I.fail["encoding/json.MarshalIndent"] = true, true
	s.begin()
	w.get("/state")
	if s.clean(rule) {
		code, _, prob := w.answer()
		c.Check(prob == "" && code >= 400, rule, s.name, s.pos(), "answers %d %s", code, prob)
	}
	c.Min(rule, 3)
}

// reportServed: a GET request comes to its handler and the answer back
func (c *Ctx) reportServed() {
	const rule = "requests reach their handlers"
	w := c.apiScn("routing")
	for _, p := range sortedKeys(apiPaths) {
		ok := len(w.methods[p]) == 0
		for _, m := range w.methods[p] {
			ok = ok || m == "GET"
		}
		c.Check(w.routes[p] != nil && ok, rule, "route "+p, "-", "GET %s is not served, only %v", p, w.methods[p])
	}
	n := 0
	wrap := func(name string, handler func(w *apiWorld) Val) {
		w := c.apiScn("GET request through " + name)
		s := w.s
		I := s.I
		h := handler(w)
		req := &Ptr{I.symObj("httpreq", c.named("net/http", "Request")), ""}
		I.Put(s.st, req, types.NewPointer(c.named("net/http", "Request")), ".Method", strC("GET"))
		s.st.trace = nil
		serve := func(h Val) {
			if x, ok := h.(*Iface); ok {
				h = I.res(s.st, x.v)
			}
			f, ok := h.(*FuncV)
			if !ok {
				if strings.HasPrefix(h.key(), "router") {
					w.passed = -1
					return
				}
				panic(undecided(name + " gives " + h.key()))
			}
			s.callF(f, &Sym{t: "w", nn: true}, req)
		}
		serve(h)
		if w.passed < 0 {
			c.Check(true, rule, s.name, s.pos(), "")
			return
		}
		if !s.clean(rule) {
			return
		}
		var at *Event
		k := 0
		for i, e := range s.st.trace {
			if e.kind == "passed" {
				at = &s.st.trace[i]
				k++
				c.Check(len(e.gd) == 0, rule, s.name+": passed on", e.pos, "passed on only if %s", strings.Join(e.gd, " & "))
			}
			c.Check(e.kind != "http", rule, s.name+": answered", e.pos, "it is answered on the way")
		}
		if !c.Check(k == 1, rule, s.name, s.pos(), "passed on %d times", k) {
			return
		}
		n++
		c.Check(at.args[2].key() == req.key(), rule, s.name+": request", at.pos, "another request is passed on: %s", at.args[2].key())
		wr := at.args[1]
		if wr.key() == "w" {
			return
		}
		x, ok := wr.(*Iface)
		if !ok {
			panic(undecided("writer " + wr.key()))
		}
		method := func(m string, args ...Val) {
			f := s.I.P.SSA.LookupMethod(x.t, nil, m)
			if f == nil {
				panic(undecided("method " + m + " of the writer"))
			}
			s.st.trace = nil
			s.callF(&FuncV{fn: f}, append([]Val{x.v}, args...)...)
			s.clean(rule)
		}
		code := I.Range("status code", 100, big.NewInt(599))
		before := s.st.clone()
		text := strAtom("body")
		events := func() string {
			var r []string
			for _, e := range s.st.trace {
				if e.kind == "http" {
					r = append(r, strings.Fields(e.name)[0]+" "+e.args[0].key())
				}
			}
			return strings.Join(r, ", ")
		}
		method("WriteHeader", code)
		c.Check(events() == "status "+code.key(), rule, s.name+": status", s.pos(), "a handler's status becomes %s", events())
		written := func(what string, wants ...string) {
			method("Write", text)
			got := events()
			ok := false
			for _, w := range wants {
				ok = ok || got == w
			}
			c.Check(ok, rule, s.name+": "+what, s.pos(), "what a handler writes becomes %s", got)
			c.Check(s.retAt(0).key() == I.lenV(s.st, text).key() && isNilV(s.retAt(1)), rule, s.name+": "+what+" reported", s.pos(), "writing gives %s", s.ret.key())
		}
		written("body", "body "+text.key())
		s.st = before
		written("body without status", "body "+text.key(), "status 200, body "+text.key())
	}
	wrap("the server", func(w *apiWorld) Val {
		s := w.s
		srv := c.anchor("api", "*ApiService", "StartHTTPServer")
		s.call(srv, w.obj)
		if len(w.served) != 1 {
			panic(undecided(fmt.Sprintf("%d servers are started", len(w.served))))
		}
		return s.I.res(s.st, w.served[0])
	})
	for i, m := range w.mws {
		if m.key() == "mux's CORS middleware" {
			continue
		}
		i := i
		wrap(fmt.Sprintf("middleware %d", i), func(w *apiWorld) Val {
			f, ok := w.mws[i].(*FuncV)
			if !ok {
				panic(undecided("middleware " + w.mws[i].key()))
			}
			w.s.callF(f, &Sym{t: "next", nn: true})
			return w.s.I.res(w.s.st, w.s.ret)
		})
	}
	c.Min(rule, 25)
}

func (c *Ctx) reportValidators() {
	const r1, r2, r3 = "validators are listed as recorded", "a validator is shown as recorded", "validators looked up by index"
	cases := [][3]rval{{{1, 0}, {2, 1}, {3, 0}}, {{4, 1}, {5, 0}, {6, 1}}, {{3, 1}, {1, 0}, {4, 0}}, {{5, 1}, {4, 1}, {2, 0}}}
	for _, vs := range cases {
		for _, known := range [][]string{{"v0", "v1", "v2"}, {"v1"}, {"v0", "v2"}, {}} {
			w := c.apiScn(fmt.Sprintf("GET /memory/validators, validators %v, known to the consensus client: %v", vs, known))
			w.setVals(vs)
			w.beacon(known...)
			want := map[string]string{".#": fmt.Sprint(len(known))}
			for i, v := range known {
				w.valEntry(want, fmt.Sprintf("[%d]", i), v, vs[v[1]-'0'])
			}
			w.reported(r1, "/memory/validators", want, false)
			for _, ask := range [][]string{{"v0"}, {"v1"}, {"v2", "v0"}, {"v0", "v9"}, {"v9", "v1", "v8"}, {"v9"}, {"v0", "v1", "v2"}} {
				w := c.apiScn(fmt.Sprintf("GET /memory/validatorsbyindex/%s, validators %v, known to the consensus client: %v", strings.Join(ask, ","), vs, known))
				s := w.s
				s.u64("v8")
				s.u64("v9")
				for i, v := range []string{"v0", "v1", "v2", "v8"} {
					for _, u := range []string{"v1", "v2", "v8", "v9"}[i:] {
						s.less(numAtom(v), numAtom(u))
					}
				}
				w.setVals(vs)
				w.beacon(known...)
				var in *Str
				f, nf := 0, 0
				want := map[string]string{}
				for _, v := range ask {
					if in == nil {
						in = s.I.decS(numAtom(v))
					} else {
						in = catS(catS(in, strC(",")), s.I.decS(numAtom(v)))
					}
					if v >= "v8" {
						want[fmt.Sprintf(".not_found_validators[%d]", nf)] = numAtom(v).key()
						nf++
					} else if strings.Contains(strings.Join(known, ","), v) {
						w.valEntry(want, fmt.Sprintf(".found_validators[%d]", f), v, vs[v[1]-'0'])
						f++
					}
				}
				want[".found_validators.#"], want[".not_found_validators.#"] = fmt.Sprint(f), fmt.Sprint(nf)
				w.vars["valindices"] = in
				w.reported(r3, "/memory/validatorsbyindex/{valindices}", want, false)
			}
		}
		for _, v := range []string{"v0", "v1", "v2"} {
			w := c.apiScn(fmt.Sprintf("GET /memory/validator/%s, validators %v", v, vs))
			w.setVals(vs)
			w.vars["valindex"] = w.s.I.decS(numAtom(v))
			x := vs[v[1]-'0']
			want := map[string]string{}
			w.valEntry(want, "", v, x)
			for _, k := range []string{".beacon_status", ".beacon_balance_gwei", ".beacon_effective_balance_gwei"} {
				delete(want, k)
			}
			// the record itself is shown
			want[".status"], want[".subscription_type"] = fmt.Sprint(x.status), fmt.Sprint(x.sub)
			want[".accumulated_rewards_wei"], want[".pending_rewards_wei"], want[".collateral_wei"] = numAtom(v+".acc").key(), numAtom(v+".pend").key(), numAtom(v+".coll").key()
			w.reported(r2, "/memory/validator/{valindex}", want, false)
		}
		w := c.apiScn(fmt.Sprintf("GET /memory/validator/ of an index not tracked, validators %v", vs))
		w.setVals(vs)
		w.s.u64("v9")
		for _, v := range w.vals {
			w.s.less(numAtom(v), numAtom("v9"))
		}
		w.vars["valindex"] = w.s.I.decS(numAtom("v9"))
		w.s.begin()
		w.get("/memory/validator/{valindex}")
		if w.s.clean(r2) {
			code, _, prob := w.answer()
			c.Check(prob == "" && code >= 400, r2, w.s.name, w.s.pos(), "answers %d %s", code, prob)
		}
	}
	w := c.apiScn("GET /memory/validators, none tracked")
	w.clearMap(".state.Validators")
	w.reported(r1, "/memory/validators", map[string]string{".#": "0"}, false)
	c.Min(r1, 30)
	c.Min(r2, 25)
	c.Min(r3, 200)
}

func (w *apiWorld) blockEntry(out map[string]string, path, b string, typ, rew int64) {
	set := map[string]string{
		".slot": numAtom(b + ".slot").key(), ".block": numAtom(b + ".block").key(), ".validator_index": numAtom(b + ".val").key(),
		".validator_key": keyStr("k:" + b).key(), ".block_type": q(blockText[typ]), ".reward_wei": w.dec(numAtom(b + ".reward")),
		".reward_type": q(rewText[rew]), ".withdrawal_address": addrStr("w:"+b, "db").key(),
	}
	for k, v := range set {
		out[path+k] = v
	}
}

func (c *Ctx) reportBlocks() {
	const r1, r2, r3 = "blocks are listed as recorded", "donations are listed as recorded", "fees and configuration are shown as in use"
	lists := []struct {
		f, path string
		typ     int64
	}{{"ProposedBlocks", "/memory/proposedblocks", 3}, {"MissedBlocks", "/memory/missedblocks", 1}, {"WrongFeeBlocks", "/memory/wrongfeeblocks", 2}}
	for k := 0; k <= 3; k++ {
		for _, bls := range []int{-1, 0, k - 1} {
			if bls >= k || bls == -1 && k == 0 {
				continue
			}
			all := map[string]string{}
			build := func(path string) *apiWorld {
				w := c.apiScn(fmt.Sprintf("GET %s, %d blocks of each kind, after an automatic subscription: %d", path, k, bls))
				w.lists(k)
				for _, l := range lists {
					for j := 0; j < k; j++ {
						w.s.put(fmt.Sprintf(".state.%s[%d].RewardType", l.f, j), numI(int64(1+j%2)))
					}
				}
				if bls >= 0 {
					w.s.put(fmt.Sprintf(".state.ProposedBlocks[%d].BlockType", bls), numI(4))
				}
				return w
			}
			n := 0
			for _, l := range lists {
				w := build(l.path)
				want := map[string]string{".#": fmt.Sprint(k)}
				for j := 0; j < k; j++ {
					t := l.typ
					if t == 3 && j == bls {
						t = 4
					}
					w.blockEntry(want, fmt.Sprintf("[%d]", j), fmt.Sprintf("b%d", n), t, int64(1+j%2))
					w.blockEntry(all, fmt.Sprintf("[%d]", n), fmt.Sprintf("b%d", n), t, int64(1+j%2))
					n++
				}
				w.reported(r1, l.path, want, false)
			}
			all[".#"] = fmt.Sprint(3 * k)
			build("/memory/allblocks").reported(r1, "/memory/allblocks", all, true)
		}
		w := c.apiScn(fmt.Sprintf("GET /memory/donations, %d donations", 2*k))
		w.lists(k)
		want := map[string]string{".#": fmt.Sprint(2 * k)}
		for j := 0; j < 2*k; j++ {
			d, p := fmt.Sprintf("don%d", j), fmt.Sprintf("[%d]", j)
			h := &Str{parts: []SPart{{atom: "b:tx" + d, n: 32}}}
			w.s.put(fmt.Sprintf(".state.Donations[%d].Raw.TxHash", j), h)
			want[p+".amount_wei"], want[p+".block_number"] = w.dec(numAtom(d)), numAtom(d+".block").key()
			want[p+".tx_hash"], want[p+".sender"] = catS(strC("0x"), hexOf(h, true)).key(), addrStr("s:"+d, "cs").key()
		}
		w.reported(r2, "/memory/donations", want, false)
	}
	w := c.apiScn("GET /memory/feesinfo")
	w.reported(r3, "/memory/feesinfo", map[string]string{".pool_fee_percent": w.s.get(".state.PoolFeesPercentOver10000").key(), ".pool_fee_address": w.s.I.asStr(w.s.get(".state.PoolFeesAddress")).key(), ".pool_accumulated_fees": w.dec(numAtom("or.state.PoolAccumulatedFees"))}, false)
	w = c.apiScn("GET /config")
	want := map[string]string{".collateral_in_wei": w.dec(numAtom("or.cfg.CollateralInWei"))}
	for k, f := range map[string]string{"network": "Network", "pool_address": "PoolAddress", "deployed_slot": "DeployedSlot", "checkpoint_size": "CheckPointSizeInSlots", "pool_fees_percent": "PoolFeesPercentOver10000", "pool_fees_address": "PoolFeesAddress", "dry_run": "DryRun"} {
		v := w.s.get(".cfg." + f)
		if strings.HasSuffix(k, "address") || k == "network" {
			v = w.s.I.asStr(v)
		}
		want["."+k] = v.key()
	}
	w.reported(r3, "/config", want, false)
	c.Min(r1, 60)
	c.Min(r2, 8)
	c.Min(r3, 4)
}

// reportStatistics: counts and sums of exactly the records they name
func (c *Ctx) reportStatistics() {
	const rule = "statistics are those of the records"
	const month = 216000
	type blk struct {
		typ int64
		off int64 // slot minus the 30-day limit
	}
	type tcase struct {
		vs    [3]int64
		known []string
		bs    []blk
		ds    []int64 // block minus the 30-day limit
	}
	all := []string{"v0", "v1", "v2"}
	cases := []tcase{}
	for _, vs := range [][3]int64{{1, 1, 1}, {1, 2, 3}, {2, 3, 4}, {3, 3, 3}, {4, 5, 6}, {5, 1, 4}, {2, 2, 5}, {6, 3, 2}, {4, 4, 1}} {
		cases = append(cases, tcase{vs, all, []blk{{3, 5}, {3, -5}}, []int64{7, -7}})
	}
	for _, known := range [][]string{{}, {"v0"}, {"v1", "v2"}} {
		cases = append(cases, tcase{[3]int64{1, 2, 3}, known, []blk{{3, 5}}, []int64{7}})
	}
	for _, off := range []int64{-month, -1, 0, 1, month - 1, month} {
		cases = append(cases, tcase{[3]int64{1, 2, 3}, all, []blk{{3, off}}, nil}, tcase{[3]int64{1, 2, 3}, all, nil, []int64{off}}, tcase{[3]int64{1, 2, 3}, all, []blk{{4, off}, {3, off}}, []int64{off, -off}})
	}
	cases = append(cases, tcase{[3]int64{1, 2, 3}, all, []blk{{4, 5}}, nil}, tcase{[3]int64{1, 4, 3}, all, []blk{{4, 5}, {4, -5}}, []int64{3}},
		tcase{[3]int64{1, 2, 3}, all, []blk{{3, 1}, {4, 2}, {3, 3}}, []int64{1, 0, 3, -4}}, tcase{[3]int64{1, 2, 3}, all, nil, nil})
	for _, k := range cases {
		for _, extra := range []int{0, 2} {
			w := c.apiScn(fmt.Sprintf("GET /memory/statistics, statuses %v, known %v, proposed blocks (type, slot from the limit) %v, donations from the limit %v, %d other blocks", k.vs, k.known, k.bs, k.ds, extra))
			s := w.s
			w.statuses(k.vs[0], k.vs[1], k.vs[2])
			w.beacon(k.known...)
			lim, limB := nSub(w.L, numI(month)), nSub(numAtom("latestblock"), numI(month))
			w.lists(extra)
			bt := c.named("oracle", "SummarizedBlock")
			var bs []Val
			sent, recent, dons := numI(0), numI(0), numI(0)
			oks := int64(0)
			for i, b := range k.bs {
				rew := s.nonneg(fmt.Sprintf("p%d.reward", i))
				p := s.mkT(bt, "block", map[string]Val{".Slot": nAdd(lim, numI(b.off)), ".Block": s.u64(fmt.Sprintf("p%d.block", i)), ".BlockType": numI(b.typ), ".Reward": rew, ".RewardType": numI(1), ".WithdrawalAddress": addrStr("w", "db"), ".ValidatorKey": keyStr("k")})
				bs = append(bs, s.I.load(s.st, p, bt, "entry"))
				if b.typ == 3 {
					oks++
					sent = nAdd(sent, rew)
					if b.off > 0 {
						recent = nAdd(recent, rew)
					}
				}
			}
			s.put(".state.ProposedBlocks", s.I.mkSlice(s.st, bt, bs, "blocks"))
			dt := c.named("contract", "ContractEtherReceived")
			var ds []Val
			for i, off := range k.ds {
				am := s.nonneg(fmt.Sprintf("d%d", i))
				ds = append(ds, s.mkT(dt, "donation", map[string]Val{".DonationAmount": am, ".Raw.BlockNumber": nAdd(limB, numI(off)), ".Sender": addrBytes("sender")}))
				sent, dons = nAdd(sent, am), nAdd(dons, am)
				if off > 0 {
					recent = nAdd(recent, am)
				}
			}
			l, err := s.I.walk(s.st, s.or, types.NewPointer(s.orT), ".state.Donations")
			if err != nil {
				panic(undecided(err.Error()))
			}
			s.put(".state.Donations", s.I.mkSlice(s.st, under(l.t).(*types.Slice).Elem(), ds, "donations"))
			cnt := map[int64]int64{}
			acc, pend, eb := numI(0), numI(0), numI(0)
			for i, st := range k.vs {
				v := w.vals[i]
				cnt[st]++
				acc, pend = nAdd(acc, numAtom(v+".acc")), nAdd(pend, numAtom(v+".pend"))
				if st >= 1 && st <= 3 && strings.Contains(strings.Join(k.known, ","), v) {
					eb = nAdd(eb, numAtom("eb:"+v))
				}
			}
			sub, earn := cnt[1]+cnt[2]+cnt[3], cnt[1]+cnt[2]
			want := map[string]string{
				".total_subscribed_validators": fmt.Sprint(sub), ".total_active_validators": fmt.Sprint(cnt[1]), ".total_yellowcard_validators": fmt.Sprint(cnt[2]), ".total_redcard_validators": fmt.Sprint(cnt[3]),
				".total_banned_validators": fmt.Sprint(cnt[5]), ".total_notsubscribed_validators": fmt.Sprint(cnt[4]),
				".latest_checkpoint_slot": w.L.key(), ".next_checkpoint_slot": nAdd(w.L, numAtom("or.cfg.CheckPointSizeInSlots")).key(),
				".total_accumulated_rewards_wei": w.dec(acc), ".total_pending_rewards_wei": w.dec(pend),
				".total_rewards_sent_wei": w.dec(sent), ".total_rewards_sent_30days_wei": w.dec(recent), ".total_donations_wei": w.dec(dons),
				".rewards_per_validator_per_30days_wei": w.dec(w.quot(recent, earn)), ".avg_block_reward_wei": w.dec(w.quot(sent, oks)),
				".total_proposed_blocks": fmt.Sprint(len(k.bs)), ".total_missed_blocks": fmt.Sprint(extra), ".total_wrongfee_blocks": fmt.Sprint(extra),
				".total_effective_balance_gwei": w.dec(eb), ".avg_effective_balance_gwei": w.dec(w.quot(eb, sub)),
			}
			w.reported(rule, "/memory/statistics", want, false)
		}
	}
	c.Min(rule, 40)
}

// quot: the whole part of n over k, 0 when k is 0
func (w *apiWorld) quot(n *Num, k int64) *Num {
	if k == 0 {
		return numI(0)
	}
	return nDiv(n, numI(k))
}

// reportRelays: each configured relay is shown once, by its own answer
func (c *Ctx) reportRelays() {
	const rule = "relay registrations are shown as answered"
	const path = "/registeredrelays/{valpubkey}"
	kinds := []string{"pool", "feerec", "404", "400", "204", "500"}
	var combos [][]string
	for _, a := range kinds {
		combos = append(combos, []string{a})
		for _, b := range kinds {
			combos = append(combos, []string{a, b})
		}
	}
	combos = append(combos, nil, []string{"pool", "pool", "feerec"}, []string{"pool", "404", "pool"}, []string{"404", "pool", "400"}, []string{"feerec", "404", "pool"})
	for _, k := range combos {
		w := c.apiScn(fmt.Sprintf("GET %s, relays answering %v", path, k))
		s := w.s
		s.I.Uniq("pool", "b:pool")
		ot := c.named("oracle", "Onchain")
		s.I.Put(s.st, &Ptr{s.I.symObj("oc", ot), ""}, types.NewPointer(ot), ".PoolAddress", addrStr("pool", "cfg"))
		w.relayAnswers(k)
		w.request(path, "")
		key := w.vars["valpubkey"].(*Str)
		n := map[string]int{}
		want := map[string]string{}
		for i, a := range k {
			l := map[string]string{"pool": ".correct_fee_relayers", "feerec": ".wrong_fee_relayers"}[a]
			e := map[string]string{".relay_address": strAtom(fmt.Sprintf("relay%d", i)).key(), ".fee_recipient": q(""), ".timestamp": q("")}
			if l == "" {
				l = ".unregistered_relayers"
			} else {
				e[".fee_recipient"] = addrStr(a, "cs").key()
				e[".timestamp"] = fmt.Sprintf(`"{dec(registered%d.UnixNano())}"`, i)
			}
			for f, v := range e {
				want[fmt.Sprintf("%s[%d]%s", l, n[l], f)] = v
			}
			n[l]++
		}
		for _, l := range []string{".correct_fee_relayers", ".wrong_fee_relayers", ".unregistered_relayers"} {
			want[l+".#"] = fmt.Sprint(n[l])
		}
		want[".correct_fee_recipients"] = fmt.Sprint(n[".correct_fee_relayers"] > 0 && n[".wrong_fee_relayers"] == 0)
		w.asked = nil
		w.reported(rule, path, want, false)
		for i := range k {
			u := catS(catS(strAtom(fmt.Sprintf("relay%d", i)), strC("/relay/v1/data/validator_registration?pubkey=")), key).key()
			c.Check(i < len(w.asked) && w.asked[i] == u, rule, s.name+fmt.Sprintf(": question to relay %d", i), s.pos(), "the relays are asked %v, wanted %s", w.asked, u)
		}
	}
	c.Min(rule, 150)
}

// relayAnswers: relay i answers with the status k[i], or 200 and a registration with fee recipient k[i]
func (w *apiWorld) relayAnswers(k []string) {
	w.relays(len(k))
	I := w.s.I
	I.Uniq("b:feerec", "feerec")
	at := -1
	w.n.ans["http.Get"] = func(c *Call) Val {
		u := I.res(c.st, c.args[0])
		w.asked = append(w.asked, u.key())
		at = -1
		for i := range k {
			if strings.HasPrefix(u.key(), fmt.Sprintf(`"{relay%d}`, i)) {
				at = i
			}
		}
		if at < 0 {
			panic(undecided("a relay is asked " + u.key()))
		}
		code := int64(200)
		if k[at][0] <= '9' {
			fmt.Sscan(k[at], &code)
		}
		t := w.s.c.named("net/http", "Response")
		p := w.n.newAt(c.st, t, "relay response", map[string]Val{".StatusCode": numI(code), ".Body": &Sym{t: fmt.Sprintf("relaybody%d", at), nn: true}})
		return tup(p, VNil{})
	}
	fill := func(c *Call, dst Val, from string) bool {
		i := -1
		fmt.Sscanf(from, "%d", &i)
		p, ok := w.n.val(c, dst).(*Ptr)
		if i < 0 || i >= len(k) || k[i][0] <= '9' || !ok {
			return false
		}
		m := w.n.newAt(c.st, w.s.c.named(builderPkg, "ValidatorRegistration"), "registration", map[string]Val{".FeeRecipient": addrBytes(k[i]), ".Timestamp": &Sym{t: fmt.Sprintf("registered%d", i)}})
		I.Put(c.st, p, types.NewPointer(w.s.c.named(builderPkg, "SignedValidatorRegistration")), ".Message", m)
		return true
	}
	old := w.n.more
	w.n.more = func(c *Call) (Val, bool) {
		switch c.name {
		case "io.ReadAll", "io/ioutil.ReadAll":
			if b, ok := strings.CutPrefix(w.n.val(c, c.args[0]).key(), "relaybody"); ok {
				return tup(strAtom("relaytext"+b), VNil{}), true
			}
		case "encoding/json.Unmarshal":
			if b, ok := strings.CutPrefix(w.n.str(c, c.args[0]), `"{relaytext`); ok && fill(c, c.args[1], b) {
				return VNil{}, true
			}
		case "encoding/json.NewDecoder":
			if b, ok := strings.CutPrefix(w.n.val(c, c.args[0]).key(), "relaybody"); ok {
				return &Sym{t: "relaydecoder" + b, nn: true}, true
			}
		case "(*encoding/json.Decoder).Decode":
			if b, ok := strings.CutPrefix(w.n.val(c, c.args[0]).key(), "relaydecoder"); ok && fill(c, c.args[1], b) {
				return VNil{}, true
			}
		}
		return old(c)
	}
}

// reportStatus: the status endpoint shows where nodes, oracle and contract are
func (c *Ctx) reportStatus() {
	const rule = "status is that of nodes, oracle and contract"
	for _, exec := range []bool{false, true} {
		for _, dist := range []int64{0, 1, 2, 100} {
			for _, behind := range []string{"none", "some"} {
				for _, next := range []string{"ahead", "reached", "passed"} {
					w := c.apiScn(fmt.Sprintf("GET /status, execution node syncing %v, consensus node %d slots behind, oracle behind: %s, next checkpoint %s", exec, dist, behind, next))
					s := w.s
					I := s.I
					w.syncing(exec)
					w.n.ans["NodeSyncing"] = func(cl *Call) Val {
						return w.n.response(cl, func(p *Ptr, t types.Type) {
							I.Put(cl.st, p, t, ".Data", w.n.newAt(cl.st, c.named(v1pkg, "SyncState"), "sync state", map[string]Val{".SyncDistance": numI(dist)}))
						})
					}
					w.n.ans["DepositContract"] = func(cl *Call) Val {
						return w.n.response(cl, func(p *Ptr, t types.Type) {
							I.Put(cl.st, p, t, ".Data", w.n.newAt(cl.st, c.named(v1pkg, "DepositContract"), "deposit contract", map[string]Val{".ChainID": numAtom("beaconchain"), ".Address": addrBytes("deposit")}))
						})
					}
					s.u64("beaconchain")
					w.n.ans["ChainID"] = func(cl *Call) Val { return w.n.bigRet(cl, numAtom("execchain")) }
					I.Range("execchain", 1, big.NewInt(1<<40))
					d := numI(0)
					if behind == "some" {
						d = I.Range("gap", 1, big.NewInt(1<<20))
					}
					w.F = nAdd(w.L, d)
					size := numAtom("or.cfg.CheckPointSizeInSlots")
					// the contract's slot: the next checkpoint is ahead of, at or before the finalized slot
					nx := nAdd(w.F, I.Range("left", 1, big.NewInt(1<<20)))
					left := numAtom("left")
					switch next {
					case "reached":
						nx, left = w.F, numI(0)
					case "passed":
						nx, left = nSub(w.F, numAtom("left")), numI(0)
					}
					cs := nSub(nx, size)
					w.n.ans["LastConsolidatedSlot"] = func(*Call) Val { return tup(cs, VNil{}) }
					age := nSub(w.F, cs)
					dur := func(n *Num) string {
						return fmt.Sprintf(`"{durafmt.Parse(%s).String()}"`, nMul(n, numI(12000000000)).key())
					}
					want := map[string]string{
						".is_consensus_in_sync": fmt.Sprint(dist < 2), ".is_execution_in_sync": fmt.Sprint(!exec), ".is_oracle_in_sync": fmt.Sprint(behind == "none"),
						".latest_processed_slot": w.L.key(), ".latest_processed_block": numAtom("latestblock").key(),
						".latest_finalized_slot": w.F.key(), ".latest_finalized_epoch": nDiv(w.F, numI(32)).key(), ".oracle_sync_distance_slots": d.key(),
						".next_checkpoint_slot": nx.key(), ".next_checkpoint_time": q(""), ".previous_checkpoint_time": q(""),
						".next_checkpoint_remaining": dur(left), ".next_checkpoint_remaining_unix": nMul(left, numI(12)).key(),
						".previous_checkpoint_slot": cs.key(), ".previous_checkpoint_age": dur(age), ".previous_checkpoint_age_unix": nMul(age, numI(12)).key(),
						".execution_chainid": w.dec(numAtom("execchain")), ".consensus_chainid": w.dec(numAtom("beaconchain")), ".depositcontract": catS(strC("0x"), hexOf(addrBytes("deposit"), true)).key(),
					}
					w.reported(rule, "/status", want, false)
				}
			}
		}
	}
	c.Min(rule, 40)
}
