package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the beacon validators are fetched anew at least every so many slots
const refreshEvery = 1200

func runC46(c *Ctx) {
	f := c.mainLoopFn()
	c.dutySlots(f)
	c.dutyCheckpoint(f)
	c.dutyRefresh(f)
	c.dutyReconcile(f)
	c.dutyStart()
	c.dutySignals()
}

func (c *Ctx) dutyRun(f *ssa.Function, name string, m *mainRun, ph ...world) {
	m.s.name = name
	m.ph = ph
	m.run(f)
	m.clean("duties")
	m.s.fn = f
}

// goesOn: nothing that happened in this run may end the process
func (m *mainRun) goesOn(rule string) {
	for _, e := range m.s.I.ends {
		if e.kind != "script" {
			m.s.fail(rule, "the process ends although nothing failed: %s %s at %s", e.kind, e.msg, e.pos)
		}
	}
	if !m.s.st.dead {
		m.s.fail(rule, "processing ends although nothing failed")
	}
}

// dutySlots: every finalized slot is processed as soon as the nodes are in sync
func (c *Ctx) dutySlots(f *ssa.Function) {
	const rule = "finalized slots are processed"
	in := []world{{head: "64"}, {exec: "syncing", head: "64"}, {cons: "behind", head: "64"}, {head: "err"}, {head: "-1"}, {head: "-33"}}
	var seqs [][]world
	for _, a := range in {
		for _, b := range in {
			for _, d := range in {
				seqs = append(seqs, []world{a, b, d})
			}
		}
	}
	for _, h := range []string{"0", "1", "2"} {
		w := world{head: h}
		seqs = append(seqs, []world{w, w, w, w, w})
	}
	for _, sq := range seqs {
		nm, want := "", 0
		for _, w := range sq {
			nm += fmt.Sprintf("[exec %q cons %q finalized %s]", w.exec, w.cons, w.head)
			k := int64(-1)
			if w.head != "err" {
				fmt.Sscan(w.head, &k)
			}
			if w.exec == "" && w.cons == "" && k >= int64(want) {
				want++
			}
		}
		m := c.mainScn("", "C46")
		m.dry = true
		m.step = 20
		m.setup = func() { m.n.fail["BalanceAt"] = -1 }
		c.dutyRun(f, "rounds "+nm, m, sq...)
		m.goesOn(rule)
		c.Check(m.nadv >= want, rule, m.s.name, c.P.pos(f.Pos()), "%d slots are processed, %d could be", m.nadv, want)
	}
}

// dutyCheckpoint: what is due at a checkpoint is done before the next slot
func (c *Ctx) dutyCheckpoint(f *ssa.Function) {
	const rule = "what is due at a checkpoint is done"
	w := func(cs, root string) world { return world{head: "1", cs: cs, root: root} }
	for _, dry := range []bool{false, true} {
		for _, frz := range []bool{true, false} {
			for _, save := range []string{"", "err"} {
				for _, at := range []string{"N-S", "N-2S", "N", "N-S+1", "N-S-1", "N+S", "0"} {
					for _, then := range []string{"accepted", "late"} {
						for _, wait := range []int{0, 1, 2} {
							sub := !dry && frz && at == "N-S"
							if !sub && (then != "accepted" || wait != 0) {
								continue
							}
							a := w(at, "old")
							if at == "N" {
								a.root = "R"
							}
							d := w("N", "R")
							ph := []world{a, a, a}
							if sub {
								for i := 0; i < wait; i++ {
									ph = append(ph, a)
								}
								ph = append(ph, d)
							}
							ph = append(ph, ph[len(ph)-1], ph[len(ph)-1])
							m := c.mainScn("", "C46")
							m.dry, m.chk, m.frz, m.save, m.once = dry, "yes", frz, save, true
							if then == "late" {
								m.upd = "late"
							}
							m.due = func(st *State, pos string) {
								if m.nadv != 2 {
									return
								}
								es := since(st, "advance")
								ck := func(ok bool, format string, x ...interface{}) { m.check("C46", ok, rule, pos, format, x...) }
								ck(has(es, "offchain "), "the next slot is processed without the off-chain reconciliation")
								ck(has(es, "frozen") || has(es, "not frozen"), "the next slot is processed without the checkpoint having been frozen")
								if !frz {
									return
								}
								ck(!sub || has(es, "submit ") || has(es, "submit late"), "the next slot is processed without the root having been submitted although it was next in line")
								kept := false
								for _, e := range es {
									kept = kept || e.name == "save" && e.args[0].key() == "true"
								}
								ck(kept, "the next slot is processed without the state having been saved with a copy of its own for this checkpoint")
							}
							c.dutyRun(f, fmt.Sprintf("dry %v frozen %v saving %q contract at %s, submission %s, consolidated after %d more rounds", dry, frz, save, at, then, wait), m, ph...)
							m.goesOn(rule)
							if sub {
								c.Check(m.nsub == 1, rule, m.s.name, c.P.pos(f.Pos()), "the root is submitted %d times", m.nsub)
							}
							c.Check(m.nadv == 2, rule, m.s.name, c.P.pos(f.Pos()), "%d slots are processed, two could be", m.nadv)
						}
					}
				}
			}
		}
	}
	c.Min(rule, 60)
}

// dutyRefresh: the list of beacon validators is fetched at start and every so many slots
func (c *Ctx) dutyRefresh(f *ssa.Function) {
	const rule = "the beacon validators are kept up to date"
	for _, k := range []int64{0, 1, 2, 3, 7} {
		for _, off := range []int64{-2, -1, 0, 1} {
			for _, chk := range []string{"no", "yes"} {
				for _, frz := range []bool{true, false} {
					m := c.mainScn("", "C46")
					m.dry, m.chk, m.frz = true, chk, frz
					m.slot = 1<<21 + refreshEvery - (1<<21)%refreshEvery + k*refreshEvery + off
					g := world{head: "64", cs: "N-S", root: "old"}
					m.due = func(st *State, pos string) {
						if m.nadv == 1 {
							m.check("C46", has(since(st, "never"), "refresh"), rule, pos, "a slot is processed without the beacon validators having been fetched at start")
							return
						}
						last := m.slot + int64(m.nadv) - 2
						if last%refreshEvery == 0 {
							m.check("C46", has(since(st, "advance"), "refresh"), rule, pos, "slot %d is processed without the beacon validators having been fetched after slot %d", last+1, last)
						}
					}
					c.dutyRun(f, fmt.Sprintf("first slot %d, checkpoints %s, frozen %v", m.slot, chk, frz), m, g, g, g, g)
					m.goesOn(rule)
					c.Check(m.nadv == 4, rule, m.s.name, c.P.pos(f.Pos()), "%d slots are processed, four could be", m.nadv)
				}
			}
		}
	}
	c.Min(rule, 60)
}

// dutyReconcile: while waiting for finality, assets and liabilities are compared every few hours
func (c *Ctx) dutyReconcile(f *ssa.Function) {
	const rule = "assets and liabilities are compared while waiting"
	p := c.P.pos(f.Pos())
	for _, rec := range []string{"", "err"} {
		for _, rounds := range []int{1, 2, 3} {
			for _, fail := range []string{"", "BalanceAt", "ClaimedBalance"} {
				m := c.mainScn("", "C46")
				m.dry, m.step, m.rec = rounds%2 == 0, 3*3600+61, rec
				m.setup = func() {
					if fail != "" {
						m.n.fail[fail] = -1
					}
				}
				var ph []world
				for i := 0; i < rounds; i++ {
					ph = append(ph, world{head: "-1"})
				}
				ph = append(ph, world{head: "0"}, world{head: "0"})
				c.dutyRun(f, fmt.Sprintf("%d rounds more than three hours apart, reconciliation %q, %s fails", rounds, rec, fail), m, ph...)
				switch {
				case fail != "":
					c.Check(m.nadv == 1, rule, m.s.name, p, "%d slots are processed, wanted 1: what cannot be read only postpones the comparison", m.nadv)
				case rec == "err":
					c.Check(m.nrec >= 1 && m.nadv == 0, rule, m.s.name, p, "%d slots are processed after %d comparisons of which the first failed", m.nadv, m.nrec)
				default:
					m.goesOn(rule)
					c.Check(m.nrec >= rounds && m.nadv == 1, rule, m.s.name, p, "compared %d times in %d rounds more than three hours apart, %d slots processed", m.nrec, rounds, m.nadv)
				}
			}
		}
	}
}

// dutyStart: an oracle that may start does, and serves
func (c *Ctx) dutyStart() {
	const rule = "an entitled oracle processes and serves"
	f := c.anchor("", "", "main")
	for _, dry := range []string{"", "dry"} {
		for _, src := range []string{"", "none", "url"} {
			for _, chain := range []string{"", "behind", "ahead", "ahead 1", "ahead of nothing"} {
				for _, members := range []string{"", "only"} {
					for _, reload := range []string{"", "missing"} {
						k := startCase{dry: dry, src: src, chain: chain, members: members, reload: reload}
						if !k.may() {
							continue
						}
						got := map[string]bool{}
						x := &startExt{}
						x.starts = func(st *State, what, pos string) { got[what] = got[what] || len(st.guardKeys()) == 0 }
						c.startup(k, x)
						nm := k.String()
						if len(x.s.I.notes) > 0 {
							c.Fail(rule, nm, c.P.pos(f.Pos()), "undecided: %s", strings.Join(uniqStrs(x.s.I.notes), "; "))
						}
						for _, e := range x.s.I.ends {
							if e.kind != "script" {
								c.Fail(rule, nm, e.pos, "the process ends: %s %s", e.kind, e.msg)
							}
						}
						for _, w := range []string{"processing", "serving"} {
							c.Check(got[w], rule, nm+": "+w, c.P.pos(f.Pos()), "the oracle does not start %s", w)
						}
					}
				}
			}
		}
	}
}

// dutySignals: asked to end, the oracle saves its state and ends
func (c *Ctx) dutySignals() {
	const rule = "asked to end, the state is saved"
	f := c.anchor("", "", "main")
	pos := c.P.pos(f.Pos())
	sigT := c.named("syscall", "Signal")
	for _, dry := range []string{"", "dry"} {
		for _, save := range []string{"", "err"} {
			for _, sig := range []int64{2, 15} {
				k := startCase{dry: dry}
				nm := fmt.Sprintf("signal %d, dry run %v, saving %q", sig, dry != "", save)
				got := 0
				x := &startExt{starts: func(*State, string, string) {}}
				x.recv = func(st *State, chans []Val, p string) (int, Val, bool) {
					s := x.s
					again := false
					var subs []Event
					for _, e := range st.trace {
						again = again || e.kind == "main" && e.name == "got"
						if e.kind == "main" && e.name == "notify" && len(e.gd) == 0 {
							subs = append(subs, e)
						}
					}
					if again {
						c.Fail(rule, nm, p, "goes on waiting after the signal")
						s.I.ends = append(s.I.ends, End{"script", "waiting", p, nil, st})
						st.dead = true
						return 0, VNil{}, true
					}
					for i, ch := range chans {
						if isNilV(ch) {
							continue
						}
						for _, e := range subs {
							if e.args[0].key() != "context" && s.I.res(st, ch).key() != e.args[0].key() {
								continue
							}
							ok := len(e.args) == 1
							for _, a := range e.args[1:] {
								ok = ok || s.I.res(st, a).key() == numI(sig).key()
							}
							if !ok {
								continue
							}
							got++
							st.trace = append(st.trace, Event{kind: "main", name: "got", pos: p})
							if e.args[0].key() == "context" {
								return i, &Struct{}, true
							}
							return i, &Iface{sigT, numI(sig)}, true
						}
					}
					// what is waited for may come from a goroutine that waits for the signal
					if gs := x.others; len(gs) > 0 {
						x.others = nil
						for _, g := range gs {
							g(st)
						}
						if got > 0 && !st.dead {
							for i, ch := range chans {
								if !isNilV(ch) {
									return i, VBool(true), true
								}
							}
						}
						if st.dead {
							return 0, VNil{}, true
						}
					}
					c.Fail(rule, nm, p, "does not wait for signal %d", sig)
					s.I.ends = append(s.I.ends, End{"script", "waiting", p, nil, st})
					st.dead = true
					return 0, VNil{}, true
				}
				x.more = func(cl *Call) (Val, bool) {
					s, st := x.s, cl.st
					switch cl.name {
					case "os/signal.Notify":
						st.trace = append(st.trace, Event{kind: "main", name: "notify", pos: cl.pos, args: append([]Val{s.I.res(st, cl.args[0])}, s.I.variadic(st, cl.args[1])...)})
						return &Tuple{}, true
					case "os/signal.NotifyContext":
						st.trace = append(st.trace, Event{kind: "main", name: "notify", pos: cl.pos, args: append([]Val{&Sym{t: "context"}}, s.I.variadic(st, cl.args[1])...)})
						return tup(&Sym{t: "sigctx", nn: true}, &Sym{t: "stop", nn: true}), true
					case "os/signal.Stop", "os/signal.Reset", "dynamic:stop":
						return &Tuple{}, true
					case "(*" + modPath + "/oracle.Oracle).SaveToJson":
						if s.I.res(st, cl.args[0]).key() == s.or.key() {
							st.trace = append(st.trace, Event{kind: "main", name: "saved", pos: cl.pos})
						}
						if save == "err" {
							return s.I.failResults(cl.sig, "SaveToJson"), true
						}
						return VNil{}, true
					}
					return nil, false
				}
				c.startup(k, x)
				if len(x.s.I.notes) > 0 {
					c.Fail(rule, nm, pos, "undecided: %s", strings.Join(uniqStrs(x.s.I.notes), "; "))
				}
				saved := func(st *State) bool {
					ok, after := false, false
					for _, e := range st.trace {
						if e.kind == "main" && e.name == "got" {
							after = true
						}
						ok = ok || after && e.kind == "main" && e.name == "saved" && len(e.gd) == 0
					}
					return ok
				}
				ended := 0
				for _, e := range x.s.I.ends {
					if e.kind == "script" {
						continue
					}
					ended++
					c.Check(e.kind == "fatal" && e.st != nil && saved(e.st), rule, nm, e.pos, "ends without having saved the state: %s %s", e.kind, e.msg)
				}
				if !x.s.st.dead {
					ended++
					c.Check(saved(x.s.st), rule, nm, pos, "ends without having saved the state")
				}
				c.Check(got > 0 && ended > 0, rule, nm+": ends", pos, "signal received %d times, process ends %d times", got, ended)
			}
		}
	}
}

var _ types.Type

func init() {
	register(&Rule{id: "C46", title: "every duty that is due is done", minOblig: 400, run: runC46,
		explain: "main and the goroutine of main that advances the state are analysed, callees inlined, against scripted answers of nodes and contract in which nothing that must stop the oracle happens (rounds in which the nodes are not in sync, finality is unknown or not reached; checkpoints with and without enough data, in dry-run mode or not, the contract one checkpoint behind or elsewhere, the submission accepted or late, consolidated sooner or later, saving failing or not; slots at and around every 1200th; waiting rounds hours apart). At every slot processed, what was due since the previous one must be among the events on every path; no run may end or stall. main is also run through every course of start-up that entitles the oracle to start, and up to each of the signals that ask it to end.",
		assume:  []string{"The consensus node reports errors of the sync status only when it cannot be used (the oracle then stops)."}})
}
