package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Rule{id: "C23", title: "serving the API never changes the oracle's state",
		explain: "every registered handler is interpreted on every class of states (statuses, empty and filled lists and checkpoints, validators stored under another index, before the first block, readiness both ways), requests (valid, invalid, of an unknown account or index), pending events and node answers (each question failing in turn, absent answers), and the oracle's state, its configuration, the client object, the command line configuration and every package variable of the module are compared field by field with what they were; the state hash is excepted. No handler may call a contract method that takes transaction options, send a transaction, touch a file or start a goroutine.",
		run:     runC23, minOblig: 300})
	register(&Rule{id: "C24", title: "no API request can stop the oracle",
		explain: "the same interpretations must reach the end of the handler with exactly one answer: no process-ending check, panic, division by a count that may be zero, use of an absent answer, error or result may be reachable for any class. A handler must not read a map of the live state that the main loop changes in place without the state's lock, because the runtime ends the process when it meets both at once.",
		assume:  []string{"a successful answer of the consensus client carries its data, a finalized header with its message and a validator with its fields", "every amount and block list entry of the state is present (decided for the state's own functions by C13, C38)"},
		run:     runC24, minOblig: 300})
}

type safeCase struct {
	path, name string
	mod        func(w *apiWorld)
}

// safeWorld builds the world of a case
func (c *Ctx) safeWorld(k safeCase) *apiWorld {
	w := c.apiScn("GET " + k.path + ", " + k.name)
	w.relays(2)
	w.request(k.path, "")
	if k.mod != nil {
		k.mod(w)
	}
	return w
}

func (w *apiWorld) clearMap(path string) {
	l, err := w.s.I.walk(w.s.st, w.s.or, types.NewPointer(w.s.orT), path)
	if err != nil {
		panic(undecided(err.Error()))
	}
	w.s.put(path, w.s.I.NewMap(w.s.st, types.Unalias(under(l.t))))
}

func (w *apiWorld) statuses(a, b, c int64) {
	for i, st := range []int64{a, b, c} {
		w.s.put(".state.Validators["+w.vals[i]+"].ValidatorStatus", numI(st))
	}
}

func (c *Ctx) safeCases() []safeCase {
	var r []safeCase
	paths := c.apiRoutes(c.apiScn("routes"), "routes")
	for _, p := range paths {
		p := p
		in := apiPaths[p]
		add := func(name string, mod func(w *apiWorld)) { r = append(r, safeCase{p, name, mod}) }
		add("usual state", nil)
		add("broken connection", func(w *apiWorld) { w.encErr = true })
		add("no validators", func(w *apiWorld) { w.clearMap(".state.Validators") })
		add("no checkpoints", func(w *apiWorld) { w.miss["c0"], w.miss["c1"] = true, true; w.checkpoints() })
		add("no validators, blocks, donations or checkpoints", func(w *apiWorld) {
			w.clearMap(".state.Validators")
			w.miss["c0"], w.miss["c1"] = true, true
			w.checkpoints()
			w.lists(0)
		})
		add("three blocks of each kind", func(w *apiWorld) {
			w.lists(3)
			w.s.put(".state.LatestProcessedSlot", numI(5000000))
			w.s.put(".state.LatestProcessedBlock", numI(4000000))
			w.L, w.n.from = numI(5000000), numI(4000001)
			w.F = nAdd(w.L, numAtom("behind"))
			for _, l := range []string{"ProposedBlocks", "MissedBlocks", "WrongFeeBlocks"} {
				for i, x := range []int64{1000000, 4784000, 4999999} {
					w.s.put(fmt.Sprintf(".state.%s[%d].Slot", l, i), numI(x))
				}
			}
			for i, x := range []int64{1000000, 3784000, 3784001, 3999999, 7, 3000000} {
				w.s.put(fmt.Sprintf(".state.Donations[%d].Raw.BlockNumber", i), numI(x))
			}
		})
		add("before the first block", func(w *apiWorld) {
			w.clearMap(".state.Validators")
			w.miss["c0"], w.miss["c1"] = true, true
			w.checkpoints()
			w.lists(0)
			w.s.put(".state.LatestProcessedSlot", numI(0))
			w.s.put(".state.LatestProcessedBlock", numI(0))
			w.F = w.s.I.Range("head", 0, big.NewInt(1<<40))
		})
		add("no block processed yet", func(w *apiWorld) { w.s.put(".state.LatestProcessedBlock", numI(0)) })
		add("less than a month of slots", func(w *apiWorld) {
			w.L = w.s.I.Range("lowlatest", 1, big.NewInt(200000))
			w.F = nAdd(w.L, numAtom("behind"))
			w.s.put(".state.LatestProcessedSlot", w.L)
		})
		add("less than a month of blocks", func(w *apiWorld) {
			w.s.put(".state.LatestProcessedBlock", w.s.I.Range("lowblock", 1, big.NewInt(200000)))
			w.n.from = nAdd(numAtom("lowblock"), numI(1))
		})
		add("any number of slots and blocks", func(w *apiWorld) {
			w.L = w.s.u64("anylatest")
			w.s.put(".state.LatestProcessedSlot", w.L)
			w.F = w.L
			w.s.put(".state.LatestProcessedBlock", w.s.u64("anyblock"))
			w.n.from = nAdd(numAtom("anyblock"), numI(1))
		})
		for _, st := range [][3]int64{{3, 3, 3}, {3, 4, 3}, {4, 4, 4}, {5, 5, 5}, {3, 5, 4}, {1, 1, 1}, {2, 2, 2}, {6, 6, 6}, {0, 0, 0}, {1, 2, 3}} {
			st := st
			add(fmt.Sprintf("statuses %v", st), func(w *apiWorld) { w.statuses(st[0], st[1], st[2]) })
		}
		add("validators stored under another index", func(w *apiWorld) {
			for i, v := range w.vals {
				w.s.put(".state.Validators["+v+"].ValidatorIndex", w.s.u64(fmt.Sprintf("wrong%d", i)))
				for _, u := range append(append([]string{}, w.vals...), "wrong0", "wrong1", "wrong2")[:3+i] {
					w.s.less(numAtom(u), numAtom(fmt.Sprintf("wrong%d", i)))
				}
			}
		})
		add("withdrawal addresses of another length", func(w *apiWorld) {
			for _, v := range w.vals {
				w.s.put(".state.Validators["+v+"].WithdrawalAddress", strC("0xshort"))
			}
		})
		add("pool address without prefix", func(w *apiWorld) {
			pa := strC("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")
			w.s.put(".cfg.PoolAddress", pa)
			ot := types.NewPointer(w.s.c.named("oracle", "Onchain"))
			w.s.I.Put(w.s.st, &Ptr{w.s.I.symObj("oc", w.s.c.named("oracle", "Onchain")), ""}, ot, ".PoolAddress", pa)
		})
		add("beacon validators not loaded", func(w *apiWorld) { w.noBeacon() })
		add("beacon validators partly known", func(w *apiWorld) { w.beacon("v1") })
		add("no beacon validators", func(w *apiWorld) { w.beacon() })
		add("head behind", func(w *apiWorld) {
			w.F = w.s.u64("oldhead")
			w.s.less(w.F, w.L)
		})
		add("head far ahead", func(w *apiWorld) { w.F = nAdd(w.L, w.s.I.Range("far", 65, big.NewInt(1<<40))) })
		add("contract at an unknown slot", func(w *apiWorld) {
			sl := w.slotAt("after")
			w.n.ans["LastConsolidatedSlot"] = func(*Call) Val { return tup(sl, VNil{}) }
		})
		add("contract at slot 0", func(w *apiWorld) {
			w.n.ans["LastConsolidatedSlot"] = func(*Call) Val { return tup(numI(0), VNil{}) }
		})
		add("execution node syncing", func(w *apiWorld) { w.syncing(true) })
		if in.input != "" {
			add("invalid input", func(w *apiWorld) {
				w.vars[in.vr] = strAtom("req")
				w.s.I.nonEmpty["req"] = true
				k := in.input
				if k == "list" {
					k = "index"
				}
				w.deny[k] = true
			})
			add("no input", func(w *apiWorld) { w.vars[in.vr] = strC("") })
			add("input of nobody", func(w *apiWorld) {
				w.s.I.Uniq("nobody")
				w.s.u64("v9")
				for _, v := range w.vals {
					w.s.less(numAtom(v), numAtom("v9"))
				}
				switch in.input {
				case "address":
					w.vars[in.vr] = addrStr("nobody", "req")
				case "index", "list":
					w.vars[in.vr] = w.s.I.decS(numAtom("v9"))
				}
			})
		}
		if in.input == "address" {
			for _, e := range [][2]string{{"Subscribe", "v0"}, {"Subscribe", "v2"}, {"Unsubscribe", "v0"}, {"Unsubscribe", "v1"}, {"Subscribe", "v9"}, {"Unsubscribe", "v9"}} {
				e := e
				add(fmt.Sprintf("pending %s event of %s", e[0], e[1]), func(w *apiWorld) {
					w.s.u64("v9")
					for _, v := range w.vals {
						w.s.less(numAtom(v), numAtom("v9"))
					}
					w.statuses(4, 4, 1)
					f := map[string]Val{".ValidatorID": numAtom(e[1]), ".Sender": addrBytes(map[bool]string{true: "other", false: "a"}[e[1] == "v1"]), ".Raw.BlockNumber": nAdd(numAtom("latestblock"), numI(3))}
					if e[0] == "Subscribe" {
						f[".SubscriptionCollateral"] = w.s.nonneg("paid")
					}
					w.n.evs[e[0]+"Validator"] = append(w.n.evs[e[0]+"Validator"], w.s.mk("contract", "Contract"+e[0]+"Validator", f))
				})
			}
		}
		for _, k := range c.questions(p) {
			k := k
			add("failing "+k, func(w *apiWorld) { w.n.fail[k] = -1 })
		}
	}
	add := func(p, name string, mod func(w *apiWorld)) { r = append(r, safeCase{p, name, mod}) }
	add("/status", "consensus sync status absent", func(w *apiWorld) {
		w.n.ans["NodeSyncing"] = func(c *Call) Val { return tup(VNil{}, VNil{}) }
	})
	add("/status", "consensus sync data absent", func(w *apiWorld) {
		w.n.ans["NodeSyncing"] = func(c *Call) Val {
			return w.n.response(c, func(p *Ptr, t types.Type) { w.s.I.Put(c.st, p, t, ".Data", VNil{}) })
		}
	})
	for _, x := range []string{"short", "", "0x"} {
		x := x
		add("/registeredrelays/{valpubkey}", fmt.Sprintf("pool address %q", x), func(w *apiWorld) {
			w.s.I.Put(w.s.st, &Ptr{w.s.I.symObj("oc", w.s.c.named("oracle", "Onchain")), ""}, types.NewPointer(w.s.c.named("oracle", "Onchain")), ".PoolAddress", strC(x))
		})
	}
	add("/registeredrelays/{valpubkey}", "no relays", func(w *apiWorld) { w.relays(0) })
	return r
}

// questions: what the handler asks the nodes in the usual state, each in order
func (c *Ctx) questions(path string) []string {
	w := c.safeWorld(safeCase{path, "questions", nil})
	w.s.begin()
	w.get(path)
	n := map[string]int{}
	var r []string
	for _, q := range w.nodeCalls() {
		if strings.HasSuffix(q, ".Error") {
			continue
		}
		n[q]++
		r = append(r, fmt.Sprintf("%s#%d", q, n[q]))
	}
	return r
}

func (w *apiWorld) noBeacon() {
	ot := w.s.c.named("oracle", "Onchain")
	st := under(ot).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := under(st.Field(i).Type()).(*types.Map); ok && isNamed(m.Key(), p0pkg, "ValidatorIndex") {
			w.s.I.Put(w.s.st, &Ptr{w.s.I.symObj("oc", ot), ""}, types.NewPointer(ot), "."+st.Field(i).Name(), VNil{})
		}
	}
}

func (w *apiWorld) syncing(on bool) {
	w.n.ans["SyncProgress"] = func(c *Call) Val {
		if !on {
			return tup(VNil{}, VNil{})
		}
		rt := types.Unalias(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
		return tup(w.n.newAt(c.st, rt, "progress", nil), VNil{})
	}
}

// world: everything a request must leave alone
func (w *apiWorld) everything(st *State) map[string]string {
	s := w.s
	out := map[string]string{}
	s.I.leafs(st, s.or, types.NewPointer(s.orT), "oracle", out, 0)
	ot := s.c.named("oracle", "Onchain")
	s.I.leafs(st, &Ptr{s.I.symObj("oc", ot), ""}, types.NewPointer(ot), "client", out, 0)
	ct := s.c.named("config", "CliConfig")
	s.I.leafs(st, &Ptr{s.I.symObj("cli", ct), ""}, types.NewPointer(ct), "cli", out, 0)
	for k, v := range st.cells {
		if strings.HasPrefix(k.o.name, "global:") || strings.HasPrefix(k.o.name, "glob(") {
			out["package variable "+k.o.name+k.path] = v.key()
		}
	}
	for k := range out {
		if strings.HasSuffix(k, ".StateHash") {
			delete(out, k)
		}
	}
	return out
}

// txMethods: contract methods that take transaction options
func (c *Ctx) txMethods() map[string]bool {
	r := map[string]bool{"SendTransaction": true}
	n := c.named("contract", "ContractTransactor")
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sg := f.Type().(*types.Signature)
		if sg.Params().Len() > 0 && strings.HasSuffix(types.TypeString(sg.Params().At(0).Type(), nil), "bind.TransactOpts") {
			r[f.Name()] = true
		}
	}
	return r
}

func runC23(c *Ctx) {
	const r1, r2 = "nothing but the answer changes", "no transaction, file or goroutine"
	tx := c.txMethods()
	if len(tx) < 4 {
		c.Fail(r2, "contract methods", "-", "only %d contract methods take transaction options", len(tx))
	}
	for _, k := range c.safeCases() {
		w := c.safeWorld(k)
		s := w.s
		s.begin()
		before := w.everything(s.exp)
		w.get(k.path)
		// where a handler stops (see C24) everything up to there counts
		if len(s.I.notes) > 0 {
			s.fail(r1, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
			continue
		}
		s.diff(r1, w.everything(s.st), before)
		bad := ""
		for _, e := range s.st.trace {
			switch {
			case e.kind == "node" && tx[e.name[strings.LastIndex(e.name, ".")+1:]]:
				bad = e.name + " at " + e.pos
			case e.kind == "go" || e.kind == "send" || e.kind == "file":
				bad = e.kind + " " + e.name + " at " + e.pos
			}
		}
		c.Check(bad == "", r2, s.name, s.pos(), "the handler does %s", bad)
	}
	c.Min(r1, 300)
	c.Min(r2, 300)
}

// stateMaps: the map fields of the oracle's state; the main loop changes them in place
func (c *Ctx) stateMaps() []string {
	st := under(c.named("oracle", "OracleState")).(*types.Struct)
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := under(st.Field(i).Type()).(*types.Map); ok {
			r = append(r, st.Field(i).Name())
		}
	}
	sort.Strings(r)
	return r
}

func runC24(c *Ctx) {
	const r1, r2 = "the handler answers and goes on", "live map read without the lock"
	muts := c.stateMaps()
	if len(muts) == 0 {
		c.Fail(r2, "maps of the state", "-", "the state holds no map: the analysis lost its subject")
	}
	type use struct{ path, field string }
	unlocked := map[use]string{}
	reads := map[use]bool{}
	for _, k := range c.safeCases() {
		w := c.safeWorld(k)
		s := w.s
		objs := map[*Obj]string{}
		for _, f := range muts {
			if m, ok := s.get(".state." + f).(*MapV); ok {
				objs[m.o] = f
			}
		}
		s.I.onMap = func(st *State, o *Obj) {
			f := objs[o]
			if f == "" {
				return
			}
			u := use{k.path, f}
			reads[u] = true
			held := false
			for _, e := range st.trace {
				if e.kind == "lock" {
					held = strings.HasSuffix(e.name, "Lock") && !strings.HasSuffix(e.name, "Unlock")
				}
			}
			if !held && unlocked[u] == "" {
				unlocked[u] = k.name
			}
		}
		s.begin()
		w.get(k.path)
		s.I.onMap = nil
		if !s.clean(r1) {
			continue
		}
		code, _, prob := w.answer()
		open := strings.HasPrefix(prob, "the response depends") || w.encErr
		c.Check(open || prob == "" && code >= 200 && code < 600, r1, s.name, s.pos(), "answers %d %s", code, prob)
	}
	for u := range reads {
		c.Check(unlocked[u] == "", r2, "GET "+u.path+" reads "+u.field, "-", "the handler reads the live map %s without the state's lock (%s); the main loop changes it in place, and the runtime ends the process when both meet", u.field, unlocked[u])
	}
	c.Min(r1, 300)
	c.Min(r2, 1)
}
