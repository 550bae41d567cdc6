package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runC19(c *Ctx) {
	f := c.mainLoopFn()
	one := func(name string, m *mainRun, submits, saves int, ph ...world) {
		m.s.name = name
		m.ph = ph
		m.run(f)
		m.clean("checkpoint round")
		p := c.P.pos(f.Pos())
		if submits >= 0 {
			c.Check(m.nsub <= submits, "submissions", m.s.name, p, "%d roots are submitted, at most %d may", m.nsub, submits)
			c.Check(m.nsave <= saves, "saves", m.s.name, p, "the state is saved %d times, at most %d", m.nsave, saves)
		}
	}
	g := func(cs, root string) world { return world{head: "0", cs: cs, root: root} }
	base := func() *mainRun {
		m := c.mainScn("", "C19")
		m.chk = "yes"
		return m
	}
	good := false
	for _, dry := range []bool{false, true} {
		for _, chk := range []string{"yes", "no", "err"} {
			for _, off := range []string{"", "err"} {
				for _, frz := range []bool{true, false} {
					for _, adv := range []string{"", "err"} {
						for _, at := range []string{"N-S", "N-2S", "N", "N-S+1", "N-S-1", "N+S", "0", "err"} {
							for _, then := range []string{"same", "done"} {
								m := base()
								m.dry, m.chk, m.off, m.frz, m.adv = dry, chk, off, frz, adv
								w := g(at, "old")
								if at == "N" {
									w.root = "R"
								}
								d := w
								if then == "done" {
									d = g("N", "R")
								}
								// phases: before the slot, round of the slot, after the random delay, waiting...
								ph := []world{w, w, w, d, d, d}
								may := 0
								if !dry && chk == "yes" && off == "" && frz && adv == "" && at == "N-S" {
									may = 1
								}
								sv := 1
								if may == 1 && then == "same" {
									sv = 0
								}
								if chk != "yes" || off != "" || !frz || adv != "" {
									sv = 0
								}
								one(fmt.Sprintf("dry %v checkpoint %s reconciliation %q frozen %v advance %q contract at %s then %s", dry, chk, off, frz, adv, at, then), m, may, sv, ph...)
								if may == 1 && then == "done" {
									good = m.nsub == 1 && m.nsave == 1
								}
							}
						}
					}
				}
			}
		}
	}
	c.Check(good, "coverage", "plain submission", "-", "no submission and save in the plain case: the analysis lost its subject")
	// the contract moves on while this oracle waits its random delay
	for _, to := range []string{"N", "N-2S", "N+S", "err"} {
		m := base()
		w := g("N-S", "old")
		d := g(to, "other")
		one("contract moves to "+to+" during the delay", m, 0, 1, w, w, d, d, d, d)
	}
	// what the contract carries after the submission
	for _, upd := range []string{"", "late", "err"} {
		for _, x := range [][2]string{{"N", "R"}, {"N", "old"}, {"N-S", "R"}, {"N-S", "old"}, {"N+S", "R"}, {"N+S", "old"}, {"err", "R"}, {"N", "err"}} {
			for _, y := range [][2]string{{"N", "R"}, {"N", "old"}, {"N-S", "R"}} {
				m := base()
				m.upd = upd
				a := g("N-S", "old")
				b := g(x[0], x[1])
				e := g(y[0], y[1])
				sv := 0
				R := [2]string{"N", "R"}
				if upd != "err" && (x == R || y == R && x[0] != "err" && x[1] != "err") {
					sv = 1
				}
				one(fmt.Sprintf("submission %q, contract then at %s root %s, then %s %s", upd, x[0], x[1], y[0], y[1]), m, 1, sv, a, a, a, b, b, e, e)
			}
		}
	}
	// a report of this oracle is pending
	for _, v := range []string{"N", "N-S", "0", "err"} {
		m := base()
		w := g("N-S", "old")
		w.vote = v
		d := g("N-S", "old")
		d2 := g("N", "R")
		one("own report at "+v, m, 1, 1, w, w, w, d, d, d2, d2)
		m = base()
		one("own report at "+v+", consolidated while waiting", m, 1, 1, w, w, g("N", "R"), g("N", "R"), g("N", "R"))
	}
	// two checkpoints in a row: each is judged in its own round
	for _, off2 := range []string{"", "err"} {
		m := base()
		m.off = off2
		a := world{head: "64", cs: "N-S", root: "old"}
		b := world{head: "64", cs: "N", root: "R"}
		one("two rounds "+off2, m, -1, 0, a, a, a, b, b, b, b)
	}
	for _, fail := range []string{"save"} {
		m := base()
		m.save = "err"
		a, b := g("N-S", "old"), g("N", "R")
		one("failing "+fail, m, 1, 1, a, a, a, b, b, b)
	}
	c.Min("root is submitted only when allowed", 50)
	c.Min("state is persisted only when the contract agrees", 50)
	c.checkpointReached()
	c.updateRoot("C19")
	c.boundAtPool()
}

// updCase is one way the submission transaction may go
type updCase struct {
	name string
	root *Str
	fail string
	stat int64
	ok   bool // must succeed
	sent bool
}

// updateRoot analyses UpdateContractMerkleRoot: which transaction is sent, and
// that only a mined successful one counts.
func (c *Ctx) updateRoot(prop string) {
	f := c.anchor("oracle", "*Onchain", "UpdateContractMerkleRoot")
	no0x := &Str{parts: []SPart{{atom: "cs:root", fold: "root", n: 64, lower: true}}}
	cases := []updCase{
		{"plain", rootText("root"), "", 1, true, true},
		{"without 0x", no0x, "", 1, true, true},
		{"reverted", rootText("root"), "", 0, false, true},
		{"timeout", rootText("root"), "timeout", 1, false, true},
		{"timeout without error", rootText("root"), "deadline", 1, false, true},
		{"wait fails", rootText("root"), "WaitMined", 1, false, true},
		{"submission fails", rootText("root"), "SubmitReport", 1, false, true},
		{"nonce fails", rootText("root"), "PendingNonceAt", 1, false, false},
		{"chain id fails", rootText("root"), "NetworkID", 1, false, false},
		{"transactor fails", rootText("root"), "NewKeyedTransactorWithChainID", 1, false, false},
		{"contract fails", rootText("root"), "NewContract", 1, false, false},
		{"short root", catS(strC("0x"), strC(strings.Repeat("ab", 31))), "", 1, false, false},
		{"long root", catS(strC("0x"), strC(strings.Repeat("ab", 33))), "", 1, false, false},
		{"empty root", strC(""), "", 1, false, false},
		{"odd root", strC("0x" + strings.Repeat("a", 63)), "", 1, false, false},
		{"no hex", strC("0x" + strings.Repeat("zz", 32)), "", 1, false, false},
	}
	for _, k := range cases {
		k := k
		s := c.scn("submission transaction: " + k.name)
		n := s.node()
		s.I.Uniq("root")
		oc := s.onchain()
		sent, asked := 0, 0
		const rule = "submission transaction"
		n.more = func(cl *Call) (Val, bool) {
			nm := nodeCall(cl.name)
			if nm == "" {
				switch {
				case strings.HasSuffix(cl.name, "crypto.PubkeyToAddress"):
					return &Str{parts: []SPart{{atom: "b:from", n: 20}}}, true
				case strings.HasSuffix(cl.name, "crypto/ecdsa.PrivateKey).Public"):
					t := types.NewPointer(s.c.named("crypto/ecdsa", "PublicKey"))
					return &Iface{t, &Ptr{s.I.symObj("pubkey", t.Elem()), ""}}, true
				case cl.name == "(context.Context).Err":
					if k.fail == "timeout" || k.fail == "deadline" {
						return errSym("deadline exceeded"), true
					}
					return VNil{}, true
				case cl.name == "context.WithDeadline" || cl.name == "context.WithTimeout" || cl.name == "context.WithCancel":
					return tup(&Sym{t: "ctx", nn: true}, &Sym{t: "cancel", nn: true}), true
				case cl.name == "dynamic:cancel":
					return &Tuple{}, true
				}
				return nil, false
			}
			if nm == k.fail {
				asked++
			}
			if nm == k.fail && !(nm == "WaitMined") {
				if nm == "SubmitReport" {
					sent++
				}
				return s.I.failResults(cl.sig, nm), true
			}
			switch nm {
			case "PendingNonceAt":
				return tup(s.I.Range("nonce", 0, big.NewInt(1<<40)), VNil{}), true
			case "NetworkID", "ChainID":
				return tup(s.I.newBig(cl.st, s.I.Range("chain", 1, big.NewInt(1<<40)), "chain"), VNil{}), true
			case "NewKeyedTransactorWithChainID":
				t := s.c.named(gethPkg+"/accounts/abi/bind", "TransactOpts")
				p := n.newAt(cl.st, t, "transactor", nil)
				s.I.hidden(cl.st, p.o, "who", strC(n.val(cl, cl.args[0]).key()+" on "+n.numKey(cl, cl.args[1])))
				return tup(p, VNil{}), true
			case "NewContract":
				ad := s.I.res(cl.st, cl.args[0]).key()
				c.Check(ad == addrBytes("pool").key(), rule, s.name+" contract", cl.pos, "the transaction goes to %s, not to the pool", ad)
				t := s.c.named("contract", "Contract")
				p := n.newAt(cl.st, t, "pool contract", nil)
				s.I.hidden(cl.st, p.o, "at", s.I.res(cl.st, cl.args[0]))
				return tup(p, VNil{}), true
			case "SubmitReport":
				sent++
				a := len(cl.args) - 3
				on := n.val(cl, cl.args[0]).key()
				c.Check(strings.Contains(on, "pool contract") || strings.Contains(on, "oc.Contract"), rule, s.name+" receiver", cl.pos, "the root is submitted to %s, not to the pool's contract", on)
				p, ok := n.val(cl, cl.args[a]).(*Ptr)
				who := "?"
				if ok {
					if w, ok := cl.st.cells[cellKey{p.o, "\x00who"}].(*Str); ok {
						who = w.key()
					}
				}
				wantWho := strC((&Ptr{s.I.symObj("oc.updaterKey", nil), ""}).key() + " on chain").key()
				_ = wantWho
				c.Check(strings.Contains(who, "updaterKey") && strings.Contains(who, " on chain"), rule, s.name+" sender", cl.pos, "the transaction is signed by %s, not by the updater key for the connected chain", who)
				if v := n.field(cl, a, ".Value"); !isNilV(v) {
					c.Check(s.I.bigOf(cl.st, v, cl.pos).key() == "0", rule, s.name+" value", cl.pos, "the transaction sends %s wei", s.I.bigOf(cl.st, v, cl.pos).key())
				}
				c.Check(n.field(cl, a, ".NoSend").key() == "false", rule, s.name+" sent", cl.pos, "the transaction is not sent")
				c.Check(s.I.res(cl.st, cl.args[a+1]).key() == "slot", rule, s.name+" slot", cl.pos, "slot submitted is %s", s.I.res(cl.st, cl.args[a+1]).key())
				want := (&Str{parts: []SPart{{atom: "b:root", n: 32}}}).key()
				c.Check(s.I.res(cl.st, cl.args[a+2]).key() == want, rule, s.name+" root", cl.pos, "root submitted is %s, wanted %s", s.I.res(cl.st, cl.args[a+2]).key(), want)
				t := s.c.named(gethPkg+"/core/types", "Transaction")
				p = n.newAt(cl.st, t, "sent tx", nil)
				s.I.hidden(cl.st, p.o, "sent", VBool(true))
				return tup(p, VNil{}), true
			case "WaitMined":
				if k.fail == "timeout" || k.fail == "WaitMined" {
					return s.I.failResults(cl.sig, nm), true
				}
				p, ok := n.val(cl, cl.args[2]).(*Ptr)
				c.Check(ok && cl.st.cells[cellKey{p.o, "\x00sent"}] != nil, rule, s.name+" receipt", cl.pos, "the receipt waited for is not that of the submission")
				t := s.c.named(gethPkg+"/core/types", "Receipt")
				return tup(n.newAt(cl.st, t, "receipt", map[string]Val{".Status": numI(k.stat)}), VNil{}), true
			}
			return nil, false
		}
		s.call(f, oc, s.u64("slot"), k.root)
		if !s.clean(rule) {
			continue
		}
		nn, isNil := s.lastErr()
		if k.fail == "NewContract" && asked == 0 {
			k.ok, k.sent = true, true // the contract bound at start is used
		}
		if k.ok {
			c.Check(isNil, rule, s.name, s.pos(), "error although the transaction succeeded")
		} else {
			c.Check(nn, rule, s.name, s.pos(), "reported as success (error may be nil)")
		}
		if !k.sent {
			c.Check(sent == 0, rule, s.name+" not sent", s.pos(), "a transaction is sent")
		} else {
			c.Check(sent == 1, rule, s.name+" sent once", s.pos(), "%d transactions are sent", sent)
		}
	}
}

// boundAtPool: the contract the oracle binds at start is the pool
func (c *Ctx) boundAtPool() {
	n := 0
	for _, id := range []int64{1, 17000, 560048} {
		s, _ := c.connectScn(fmt.Sprintf("both on chain %d", id), "", id, id, func(cl *Call, at string) {
			n++
			c.Check(at == addrBytes("pool").key(), "contract bound at start", "pool contract", cl.pos, "the oracle talks to the contract at %s, not to the pool", at)
		})
		s.clean("contract bound at start")
	}
	c.Check(n > 0, "contract bound at start", "coverage", "-", "no contract is bound at start: the analysis lost its subject")
}

// c37main: what the main loop asks for reconciliation, and the block it processes
func (c *Ctx) c37main() {
	f := c.mainLoopFn()
	seen := 0
	for _, h := range []string{"0", "1", "2"} {
		for _, rec := range []string{"", "err"} {
			for _, fail := range []string{"", "BalanceAt", "ClaimedBalance", "ClaimedBalance#2"} {
				m := c.mainScn(fmt.Sprintf("waiting after finalized %s, reconciliation %q, %s fails", h, rec, fail), "C37")
				m.rec = rec
				w := world{head: h}
				m.ph = []world{w, w, w, w, w}
				m.setup = func() {
					if fail != "" {
						m.n.fail[fail] = -1
					}
				}
				m.run(f)
				m.clean("reconciliation inputs")
				if fail == "" {
					seen += m.nrec
				} else {
					c.Check(m.nrec == 0, "reconciliation inputs", m.s.name, c.P.pos(f.Pos()), "reconciliation is run although %s failed", fail)
				}
			}
		}
	}
	c.Check(seen >= 4, "reconciliation inputs", "coverage", "-", "the on-chain reconciliation is not reached: the analysis lost its subject")
	c.Min("block of the processed slot", 10)
}

var _ *ssa.Function

func init() {
	register(&Rule{id: "C19", title: "roots are submitted only when allowed, reconciled and next in line", minOblig: 1000, run: runC19,
		explain: "The goroutine of main that advances the state is analysed, callees inlined, against scripted answers of node and contract (dry-run or not; checkpoint or not; reconciliation, freezing, advancing succeeding or failing; the contract's slot one checkpoint behind, elsewhere, changing while waiting, or failing; the submission accepted, refused as late or failing; the contract's slot and root afterwards). At every reachable call of UpdateContractMerkleRoot and SaveToJson the events on every path since the slot was processed must include what the property demands, and slot and root passed must be those of the newest frozen checkpoint. UpdateContractMerkleRoot itself is analysed for what it sends and when it reports success, IsCheckpoint for when it says that a checkpoint is reached (unknown number of sizes passed, on and off the boundary).",
		assume:  []string{"The contract's slot and root change only while the oracle sleeps."}})
}
