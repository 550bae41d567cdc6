package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// world is what the two nodes and the contract say during one phase of a run of the
// main loop. A phase ends when the loop sleeps or processes a slot.
type world struct {
	exec string // "" in sync, "syncing", "err"
	cons string // "" in sync, "behind", "err"
	head string // finalized header: offset from the first slot to process, or "err"
	cs   string // contract's last slot, relative to N: see slotOf; "err"
	root string // contract's root: "R" the newest frozen one, "old", "err"
	vote string // slot of this oracle's last report, as cs
}

type mainRun struct {
	c      *Ctx
	s      *Scn
	n      *node
	cfg    *Ptr
	ph     []world
	chk    string // IsCheckpoint: "yes", "no", "err"
	off    string // RunOffchainReconciliation: "", "err"
	frz    bool
	upd    string // UpdateContractMerkleRoot: "", "late" (slot number invalid), "err"
	adv    string // AdvanceStateToNextSlot: "", "err"
	save   string
	rec    string // RunOnchainReconciliation: "", "err"
	dry    bool
	first  *Num
	nsub   int
	nadv   int
	nsave  int
	nrec   int
	ncalls int
	step   int64                     // seconds that pass with each sleep, if not 60
	once   bool                      // only the first slot is a checkpoint
	slot   int64                     // the first slot processed, if it is not unknown
	due    func(st *State, p string) // called at each slot processed
	setup  func()
	tags   map[string]bool // which monitors report
}

// reaches: does f, through functions of package main, call one of the targets
func (c *Ctx) reaches(f *ssa.Function, seen map[*ssa.Function]bool, targets ...*ssa.Function) bool {
	for _, t := range targets {
		if f == t {
			return true
		}
	}
	if f == nil || seen[f] || fnPkg(f) != modPath && !strings.HasSuffix(f.Name(), "$bound") {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && c.reaches(mc.Fn.(*ssa.Function), seen, targets...) {
				return true
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				if c.reaches(ci.Common().StaticCallee(), seen, targets...) {
					return true
				}
			}
		}
	}
	return false
}

// mainLoopFn: the goroutine of main that advances the state
func (c *Ctx) mainLoopFn() *ssa.Function {
	c.anchor("", "", "main")
	adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
	re := func(f *ssa.Function) bool { return f != nil && c.reaches(f, map[*ssa.Function]bool{}, adv) }
	found := map[*ssa.Function]bool{}
	var closed func(f *ssa.Function)
	closed = func(f *ssa.Function) { // a closure is looked through
		if len(f.FreeVars) == 0 {
			found[f] = true
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); re(g) {
						closed(g)
					}
				}
			}
		}
	}
	for f := range c.P.mainFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					if t := g.Call.StaticCallee(); re(t) {
						closed(t)
					}
				}
			}
		}
	}
	if len(found) == 0 { // started through a value: the outermost function that advances the state
		inner := map[*ssa.Function]bool{}
		for f := range c.P.mainFns() {
			if f.Name() == "main" || f.Name() == "init" || !re(f) {
				continue
			}
			if len(f.FreeVars) == 0 {
				found[f] = true
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && len(f.FreeVars) == 0 {
						inner[ci.Common().StaticCallee()] = true
					}
				}
			}
		}
		for f := range inner {
			delete(found, f)
		}
	}
	if len(found) != 1 {
		panic(undecided(fmt.Sprintf("%d goroutines of package main advance the state, wanted one", len(found))))
	}
	for f := range found {
		c.Touch(f)
		return f
	}
	return nil
}

func (p *Prog) mainFns() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if fnPkg(f) == modPath {
			r[f] = true
		}
	}
	return r
}

func (m *mainRun) num(path string) *Num {
	v, ok := m.s.get(path).(*Num)
	if !ok {
		panic(undecided(path + " is not a number"))
	}
	return v
}

// slotOf: "N" the slot processed first, "N-S" one checkpoint earlier, ...
func (m *mainRun) slotOf(q string) *Num {
	N, S := m.first, numAtom("S")
	switch q {
	case "N":
		return N
	case "N-S":
		return nSub(N, S)
	case "N-2S":
		return nSub(N, nMul(numI(2), S))
	case "N-S+1":
		return nAdd(nSub(N, S), numI(1))
	case "N-S-1":
		return nSub(nSub(N, S), numI(1))
	case "N+S":
		return nAdd(N, S)
	case "0":
		return numI(0)
	case "", "none":
		return numI(0)
	}
	panic("slotOf " + q)
}

func rootText(name string) *Str {
	return catS(strC("0x"), &Str{parts: []SPart{{atom: "cs:" + name, fold: name, n: 64, lower: true}}})
}

func (m *mainRun) phase(st *State) (world, bool) {
	k := 0
	for _, e := range st.trace {
		if e.kind == "main" && (e.name == "sleep" || e.name == "advance") {
			k++
		}
	}
	if k >= len(m.ph) {
		return m.ph[len(m.ph)-1], false
	}
	return m.ph[k], true
}

func (m *mainRun) log(st *State, name, pos string, args ...Val) {
	st.trace = append(st.trace, Event{kind: "main", name: name, pos: pos, args: args})
}

// end of the script: what follows is not looked at
func (m *mainRun) stop(st *State, pos string) {
	m.s.I.ends = append(m.s.I.ends, End{"script", "end of script", pos, st.guardKeys(), st})
	st.dead = true
}

// since lists the events that happened on every way here since the last one named so
func since(st *State, name string) []Event {
	var r []Event
	for _, e := range st.trace {
		if e.kind != "main" {
			continue
		}
		if e.name == name {
			r = nil
			continue
		}
		if len(e.gd) == 0 {
			r = append(r, e)
		}
	}
	return r
}

func has(es []Event, name string) bool {
	for _, e := range es {
		if e.name == name {
			return true
		}
	}
	return false
}

func (m *mainRun) check(tag string, ok bool, what, pos, format string, a ...interface{}) {
	if m.tags[tag] {
		if !ok {
			m.s.bad = true
		}
		m.c.Check(ok, what, m.s.name, pos, format, a...)
	}
}

func (m *mainRun) result(c *Call, how string, okv ...Val) Val {
	if how == "err" {
		return m.s.I.failResults(c.sig, c.name[strings.LastIndex(c.name, ".")+1:])
	}
	if len(okv) == 1 {
		return okv[0]
	}
	return tup(okv...)
}

// clock: times are known to the second
func (m *mainRun) clock(c *Call, now int64) (Val, bool) {
	const giga = 1000000000
	at := func(i int) (int64, bool) { // nanoseconds since 1970
		switch v := m.s.I.res(c.st, c.args[i]).(type) {
		case *Sym:
			var s int64
			if v.t == "zero:time.Time" {
				return -7e18, true // long ago, without overflowing
			}
			if n, _ := fmt.Sscanf(v.t, "time:%d", &s); n == 1 {
				return s, true
			}
		}
		return 0, false
	}
	mk := func(ns int64) Val { return &Sym{t: fmt.Sprintf("time:%d", ns), nn: true} }
	nm := c.name[strings.LastIndex(c.name, ".")+1:]
	if nm == "Now" {
		return mk(now * giga), true
	}
	a, ok := at(0)
	if !ok {
		return nil, false
	}
	var b int64
	if len(c.args) > 1 && nm != "Add" {
		if b, ok = at(1); !ok {
			return nil, false
		}
	}
	switch nm {
	case "Unix":
		return numI(a / giga), true
	case "Since":
		return numI(now*giga - a), true
	case "Until":
		return numI(a - now*giga), true
	case "Sub":
		return numI(a - b), true
	case "After":
		return VBool(a > b), true
	case "Before":
		return VBool(a < b), true
	case "IsZero":
		return VBool(a < 0), true
	case "Add":
		if d, ok := m.s.I.res(c.st, c.args[1]).(*Num); ok {
			if k, ok := d.p.isConst(); ok {
				return mk(a + k.Int64()), true
			}
		}
	}
	return nil, false
}

func (m *mainRun) hook(c *Call) (Val, bool) {
	s, I, st := m.s, m.s.I, c.st
	m.ncalls++
	if m.ncalls > 4000 {
		m.stop(st, c.pos)
		return I.zeroResults(c.sig), true
	}
	w, _ := m.phase(st)
	const or = "(*" + modPath + "/oracle.Oracle)."
	const oc = "(*" + modPath + "/oracle.Onchain)."
	switch c.name {
	case "time.Sleep":
		m.log(st, "sleep", c.pos)
		if _, ok := m.phase(st); !ok {
			m.stop(st, c.pos)
		}
		return &Tuple{}, true
	case "(time.Time).Unix", "time.Now", "time.Since", "time.Until", "(time.Time).Sub", "(time.Time).Add", "(time.Time).After", "(time.Time).Before", "(time.Time).IsZero":
		k := int64(0)
		for _, e := range st.trace {
			if e.kind == "main" && e.name == "sleep" {
				k++
			}
		}
		step := m.step
		if step == 0 {
			step = 60
		}
		return m.clock(c, 1700000000+step*k)
	case oc + "RefreshBeaconValidators":
		m.log(st, "refresh", c.pos)
		return &Tuple{}, true
	case oc + "FetchFullBlock":
		p := n0(m, c)
		I.hidden(st, p.o, "slot", I.res(st, c.args[1]))
		return p, true
	case or + "AdvanceStateToNextSlot":
		N := m.numAt(st, ".state.NextSlotToProcess")
		es := since(st, "advance")
		execOk, consOk := false, false
		for _, e := range es {
			switch e.name {
			case "sleep": // a new round
				execOk, consOk = false, false
			case "exec ok", "exec bad":
				execOk = e.name == "exec ok"
			case "cons ok", "cons bad":
				consOk = e.name == "cons ok"
			}
		}
		okSync := execOk && consOk
		m.check("C18", okSync, "nodes in sync", c.pos, "slot %s is processed without both nodes having reported to be in sync in this round", N.key())
		fin := false
		for _, e := range es {
			if e.name == "sleep" {
				fin = false
			}
			if e.name == "finalized" && I.mask(st, nSub(e.args[0].(*Num), N).p)&mNeg == 0 {
				fin = true
			}
			if e.name == "finalized" && I.mask(st, nSub(e.args[0].(*Num), N).p)&mNeg != 0 {
				fin = false
			}
		}
		m.check("C18", fin, "slot is finalized", c.pos, "slot %s is processed without a finalized header at or after it in this round", N.key())
		bs := "no fetched block"
		if p, ok := I.res(st, c.args[1]).(*Ptr); ok {
			if v := st.cells[cellKey{p.o, "\x00slot"}]; v != nil {
				bs = v.key()
			}
		}
		m.check("C37", bs == N.key(), "block of the processed slot", c.pos, "slot %s is processed with the block of %s", N.key(), bs)
		m.nadv++
		if m.due != nil {
			m.due(st, c.pos)
		}
		m.log(st, "advance", c.pos, N)
		if m.adv == "err" {
			return m.result(c, "err"), true
		}
		m.putAt(st, ".state.LatestProcessedSlot", N)
		m.putAt(st, ".state.LatestProcessedBlock", I.Range("block@"+N.key(), 0, maxU64))
		m.putAt(st, ".state.NextSlotToProcess", nAdd(N, numI(1)))
		if _, ok := m.phase(st); !ok {
			m.stop(st, c.pos)
		}
		return tup(N, VNil{}), true
	case or + "IsCheckpoint":
		if m.once && m.nadv > 1 {
			m.log(st, "checkpoint no", c.pos)
			return tup(VBool(false), VNil{}), true
		}
		m.log(st, "checkpoint "+m.chk, c.pos)
		return m.result(c, m.chk, VBool(m.chk == "yes"), VNil{}), true
	case or + "RunOffchainReconciliation":
		m.log(st, "offchain "+m.off, c.pos)
		return m.result(c, m.off, VNil{}), true
	case or + "FreezeCheckpoint":
		es := since(st, "advance")
		m.check("C19", has(es, "checkpoint yes") && has(es, "offchain "), "frozen at a checkpoint after reconciliation", c.pos, "a checkpoint is frozen without being due or without the off-chain reconciliation having succeeded in this round")
		N := m.numAt(st, ".state.LatestProcessedSlot")
		if m.frz {
			m.log(st, "frozen", c.pos, N)
			cst := m.s.c.named("oracle", "OnchainState")
			old := m.n.newAt(st, cst, "old checkpoint", map[string]Val{".Slot": nSub(N, numAtom("S")), ".MerkleRoot": rootText("old")})
			nw := m.n.newAt(st, cst, "new checkpoint", map[string]Val{".Slot": N, ".MerkleRoot": rootText("root@" + N.key())})
			m.putAt(st, ".state.CommitedStates", I.NewMap(st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(cst)), N, nw, nSub(N, numAtom("S")), old))
		} else {
			m.log(st, "not frozen", c.pos)
		}
		return VBool(m.frz), true
	case oc + "UpdateContractMerkleRoot":
		m.submit(c)
		m.nsub++
		m.log(st, "submit "+m.upd, c.pos)
		if m.upd == "late" {
			return errSym("late submission"), true
		}
		return m.result(c, m.upd, VNil{}), true
	case "(error).Error", "invoke:Error":
		if I.res(st, c.args[0]).key() == errSym("late submission").key() {
			return strC("could not create tx to call SubmitReport: execution reverted: DappnodeSmoothingPool::submitReport: Slot number invalid"), true
		}
		if I.res(st, c.args[0]).key() == errSym("err(UpdateContractMerkleRoot)").key() {
			return strC("could not create tx to call SubmitReport: insufficient funds for gas"), true
		}
	case or + "SaveToJson":
		m.saved(c)
		m.nsave++
		m.log(st, "save", c.pos, I.res(st, c.args[1]))
		return m.result(c, m.save, VNil{}), true
	case or + "RunOnchainReconciliation":
		m.reconciled(c)
		m.nrec++
		m.log(st, "reconcile "+m.rec, c.pos)
		return m.result(c, m.rec, VNil{}), true
	}
	switch nodeCall(c.name) {
	case "SyncProgress":
		switch w.exec {
		case "":
			m.log(st, "exec ok", c.pos)
			return tup(VNil{}, VNil{}), true
		case "syncing":
			m.log(st, "exec bad", c.pos)
			t := s.c.named(gethPkg, "SyncProgress")
			return tup(m.n.newAt(st, t, "sync progress", nil), VNil{}), true
		}
		m.log(st, "exec bad", c.pos)
		return I.failResults(c.sig, "SyncProgress"), true
	case "NodeSyncing":
		if w.cons == "err" {
			m.log(st, "cons bad", c.pos)
			return I.failResults(c.sig, "NodeSyncing"), true
		}
		t := s.c.named(v1pkg, "SyncState")
		f := map[string]Val{".HeadSlot": s.u64("headslot"), ".SyncDistance": numI(0), ".IsSyncing": VBool(false)}
		if w.cons == "behind" {
			m.log(st, "cons bad", c.pos)
			f[".SyncDistance"] = I.Range("distance", 6, maxU64)
			f[".IsSyncing"] = VBool(true)
		} else {
			m.log(st, "cons ok", c.pos)
		}
		return m.n.response(c, func(p *Ptr, t2 types.Type) { I.Put(st, p, t2, ".Data", m.n.newAt(st, t, "sync state", f)) }), true
	case "BeaconBlockHeader":
		if w.head == "err" {
			m.log(st, "finalized", c.pos, numI(-1))
			return I.failResults(c.sig, "BeaconBlockHeader"), true
		}
		var k int64
		fmt.Sscan(w.head, &k)
		slot := nAdd(m.first, numI(k))
		q := m.n.str(c, m.n.field(c, c.argOf("api.BeaconBlockHeaderOpts"), ".Block"))
		if q == strC("finalized").key() {
			m.log(st, "finalized", c.pos, slot)
		} else {
			slot = nAdd(m.first, numI(1000))
		}
		return m.n.response(c, func(p *Ptr, t types.Type) {
			h := m.n.newAt(st, s.c.named(v1pkg, "BeaconBlockHeader"), "header", map[string]Val{".Canonical": VBool(true)})
			ht := types.NewPointer(s.c.named(v1pkg, "BeaconBlockHeader"))
			sh := s.c.named(p0pkg, "SignedBeaconBlockHeader")
			I.Put(st, h, ht, ".Header", m.n.newAt(st, sh, "signed header", map[string]Val{".Message": m.n.newAt(st, s.c.named(p0pkg, "BeaconBlockHeader"), "message", map[string]Val{".Slot": slot})}))
			I.Put(st, p, t, ".Data", h)
		}), true
	case "LastConsolidatedSlot":
		if w.cs == "err" {
			return I.failResults(c.sig, "LastConsolidatedSlot"), true
		}
		m.log(st, "read slot", c.pos, m.slotOf(w.cs))
		return tup(m.slotOf(w.cs), VNil{}), true
	case "RewardsRoot":
		if w.root == "err" {
			return I.failResults(c.sig, "RewardsRoot"), true
		}
		nm := "other"
		if w.root == "R" {
			nm = "root@" + m.first.key()
		}
		m.log(st, "read root", c.pos, strC(w.root))
		return tup(&Str{parts: []SPart{{atom: "b:" + nm, n: 32}}}, VNil{}), true
	case "AddressToVotedReportHash":
		return tup(&Str{parts: []SPart{{atom: "b:report", n: 32}}}, VNil{}), true
	case "ReportHashToReport":
		v := w.vote
		if v == "" {
			v = "0"
		}
		if v == "err" {
			return I.failResults(c.sig, "ReportHashToReport"), true
		}
		r := I.zero(c.sig.Results().At(0).Type())
		st0 := r.(*Struct)
		stt := under(c.sig.Results().At(0).Type()).(*types.Struct)
		f := append([]Val{}, st0.f...)
		for i := 0; i < stt.NumFields(); i++ {
			switch stt.Field(i).Name() {
			case "Slot":
				f[i] = m.slotOf(v)
			case "Votes":
				f[i] = s.u64("votes")
			}
		}
		return tup(&Struct{f: f}, VNil{}), true
	case "Quorum":
		return tup(s.u64("quorum"), VNil{}), true
	}
	return nil, false
}

func n0(m *mainRun, c *Call) *Ptr {
	t := m.s.c.named("oracle", "FullBlock")
	return m.n.newAt(c.st, t, "full block", nil)
}

func (m *mainRun) numAt(st *State, path string) *Num {
	v, ok := m.s.mustGet(st, path).(*Num)
	if !ok {
		panic(undecided(path + " is not a number"))
	}
	return v
}
func (m *mainRun) putAt(st *State, path string, v Val) {
	m.s.I.Put(st, m.s.or, types.NewPointer(m.s.orT), path, v)
}

// submit: the conditions for sending a root to the contract
func (m *mainRun) submit(c *Call) {
	st, I := c.st, m.s.I
	es := since(st, "advance")
	const r = "root is submitted only when allowed"
	m.check("C19", !m.dry, r, c.pos, "a root is submitted in dry-run mode")
	m.check("C19", has(es, "checkpoint yes"), r, c.pos, "a root is submitted in a round without a checkpoint")
	m.check("C19", has(es, "offchain "), r, c.pos, "a root is submitted without successful off-chain reconciliation in this round")
	m.check("C19", has(es, "frozen"), r, c.pos, "a root is submitted without a checkpoint frozen in this round")
	N := m.numAt(st, ".state.LatestProcessedSlot")
	m.check("C19", I.res(st, c.args[1]).key() == N.key(), r, c.pos, "the slot submitted is %s, not that of the newest frozen checkpoint %s", I.res(st, c.args[1]).key(), N.key())
	want := rootText("root@" + N.key()).key()
	m.check("C19", I.res(st, c.args[2]).key() == want, r, c.pos, "the root submitted is %s, not that of the newest frozen checkpoint", I.res(st, c.args[2]).key())
	w, _ := m.phase(st)
	if w.cs == "err" {
		m.check("C19", false, r, c.pos, "a root is submitted although the contract's slot could not be read")
		return
	}
	next := nAdd(m.slotOf(w.cs), numAtom("S"))
	m.check("C19", I.mask(st, nSub(next, N).p) == mZero, r, c.pos, "slot %s is submitted while the contract is at %s", N.key(), w.cs)
	var rd Val
	for _, e := range since(st, "frozen") {
		if e.name == "read slot" {
			rd = e.args[0]
		}
		if e.name == "sleep" {
			rd = nil
		}
	}
	m.check("C19", rd != nil && rd.key() == m.slotOf(w.cs).key(), r, c.pos, "a root is submitted without having read the contract's slot right before")
}

// saved: the conditions for persisting a checkpoint
func (m *mainRun) saved(c *Call) {
	st, I := c.st, m.s.I
	const r = "state is persisted only when the contract agrees"
	es := since(st, "advance")
	m.check("C19", has(es, "frozen") && has(es, "offchain "), r, c.pos, "the state is persisted without a checkpoint frozen after reconciliation in this round")
	if m.dry {
		return
	}
	sub := false
	for _, e := range st.trace {
		if e.kind == "main" && e.name == "advance" {
			sub = false
		}
		if e.kind == "main" && strings.HasPrefix(e.name, "submit ") {
			sub = true
			m.check("C19", e.name != "submit err", r, c.pos, "the state is persisted although the submission failed")
		}
	}
	N := m.numAt(st, ".state.LatestProcessedSlot")
	w, _ := m.phase(st)
	if sub {
		var slot, root Val
		var rd []Event
		for _, e := range es {
			if strings.HasPrefix(e.name, "submit ") {
				rd = nil
			}
			rd = append(rd, e)
		}
		for _, e := range rd {
			switch e.name {
			case "read slot":
				slot = e.args[0]
			case "read root":
				root = e.args[0]
			}
		}
		m.check("C19", slot != nil && root != nil && slot.key() == N.key() && root.key() == strC("R").key(), r, c.pos, "the state is persisted before the contract was seen with the submitted slot and root (contract at %s, root %s)", w.cs, w.root)
		return
	}
	// nothing was submitted: only right if it was not this checkpoint's turn
	next := true
	for _, e := range since(st, "frozen") {
		if e.name == "read slot" {
			next = I.mask(st, nSub(nAdd(e.args[0].(*Num), numAtom("S")), N).p)&mZero != 0
		}
	}
	m.check("C19", !next, r, c.pos, "the state is persisted without the root having been submitted although it was next in line (contract at %s)", w.cs)
}

// reconciled: what the on-chain reconciliation is given
func (m *mainRun) reconciled(c *Call) {
	s, st, I := m.s, c.st, m.s.I
	const r = "reconciliation uses data of the last processed block"
	blk := m.s.mustGet(st, ".state.LatestProcessedBlock").key()
	bal := I.bigOf(st, c.args[1], c.pos).key()
	want := "balance(" + addrBytes("pool").key() + "," + blk + ")"
	m.check("C37", bal == want, r, c.pos, "the balance used is %s, wanted %s", bal, want)
	out := map[string]string{}
	I.leafs(st, c.args[2], m.c.mapT(c.sig.Params().At(1).Type()), "", out, 0)
	exp := map[string]string{}
	for _, a := range []string{"w:v1", "w:v2", "pfa"} {
		exp["["+addrStr(a, "db").key()+"]"] = "claimed(" + addrBytes(a).key() + "," + blk + ")"
	}
	if m.tags["C37"] {
		fn := s.fn
		s.diff(r, out, exp)
		s.fn = fn
	}
}

func (m *mainRun) run(f *ssa.Function) {
	c := m.c
	s := c.scn(m.s.name)
	m.s = s
	n := s.node()
	m.n = n
	n.more = m.hook
	s.freshGlobals()
	m.first = s.I.Range("N", 1<<20, new(big.Int).Lsh(big.NewInt(1), 40))
	if m.slot != 0 {
		m.first = numI(m.slot)
	}
	s.I.Range("S", 2, big.NewInt(1<<18))
	s.network("mainnet")
	s.put(".state.NextSlotToProcess", m.first)
	s.put(".state.LatestProcessedSlot", nSub(m.first, numI(1)))
	s.put(".state.LatestProcessedBlock", s.u64("B"))
	s.validators(vst{"v1", 1}, vst{"v2", 4})
	s.I.Uniq("pfa", "report", "old", "other", "root@N")
	s.put(".state.PoolFeesAddress", addrStr("pfa", "db"))
	ct := c.named("oracle", "Config")
	co := s.I.newObj(s.st, ct, "config")
	m.cfg = &Ptr{co, ""}
	for k, v := range map[string]Val{".DryRun": VBool(m.dry), ".CheckPointSizeInSlots": numAtom("S"), ".NumRetries": numI(3), ".PoolAddress": addrStr("pool", "cfg")} {
		s.I.Put(s.st, m.cfg, types.NewPointer(ct), k, v)
	}
	s.put(".cfg", m.cfg)
	oc := s.onchain()
	given := map[string]Val{"*" + modPath + "/oracle.Oracle": s.or, "*" + modPath + "/oracle.Onchain": oc, "*" + modPath + "/oracle.Config": m.cfg}
	var args []Val
	for i, p := range f.Params {
		args = append(args, s.filled(p.Type(), fmt.Sprintf("arg%d", i), given))
	}
	if m.setup != nil {
		m.setup()
	}
	s.call(f, args...)
}

// filled is an unknown value of type t, in which every pointer of a given type is the given one
func (s *Scn) filled(t types.Type, name string, given map[string]Val) Val {
	t = types.Unalias(t)
	if v, ok := given[types.TypeString(t, nil)]; ok {
		return v
	}
	st, isPtr := t, false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, isPtr = types.Unalias(p.Elem()), true
	}
	if n, ok := st.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
		if sst, ok := st.Underlying().(*types.Struct); ok {
			o := s.I.newObj(s.st, st, name)
			for i := 0; i < sst.NumFields(); i++ {
				f := sst.Field(i)
				s.I.Put(s.st, &Ptr{o, ""}, types.NewPointer(st), "."+f.Name(), s.filled(f.Type(), name+"."+f.Name(), given))
			}
			if isPtr {
				return &Ptr{o, ""}
			}
			return s.I.load(s.st, &Ptr{o, ""}, st, "entry")
		}
	}
	return s.I.symVal(name, t)
}

func (m *mainRun) clean(rule string) {
	if len(m.s.I.notes) > 0 {
		m.s.fail(rule, "undecided: %s", strings.Join(uniqStrs(m.s.I.notes), "; "))
	}
	for _, e := range m.s.I.ends {
		if e.kind == "panic" {
			m.s.fail(rule, "may panic: %s at %s when %s", e.msg, e.pos, strings.Join(e.gd, " & "))
		}
	}
}

func (c *Ctx) mainScn(name, tag string) *mainRun {
	return &mainRun{c: c, s: &Scn{name: name}, chk: "no", frz: true, tags: map[string]bool{tag: true}}
}

func runC18(c *Ctx) {
	f := c.mainLoopFn()
	var all []world
	for _, e := range []string{"", "syncing", "err"} {
		for _, k := range []string{"", "behind", "err"} {
			for _, h := range []string{"-1", "-40", "0", "1", "64", "err"} {
				all = append(all, world{exec: e, cons: k, head: h})
			}
		}
	}
	str := func(w world) string { return fmt.Sprintf("[exec %q cons %q finalized %s]", w.exec, w.cons, w.head) }
	ok := func(w world, d int64) bool {
		var k int64
		if w.head == "err" {
			return false
		}
		fmt.Sscan(w.head, &k)
		return w.exec == "" && w.cons == "" && k >= d
	}
	do := func(ph ...world) {
		nm := ""
		want := 0
		for _, w := range ph {
			nm += str(w)
			if ok(w, int64(want)) {
				want++
			}
		}
		for _, chk := range []string{"no", "yes"} {
			m := c.mainScn("rounds "+nm+" checkpoint "+chk, "C18")
			m.ph = ph
			m.chk = chk
			m.dry = true
			m.run(f)
			m.clean("rounds")
			c.Check(m.nadv <= want, "slots processed", m.s.name, c.P.pos(f.Pos()), "%d slots are processed, at most %d may", m.nadv, want)
			if len(ph) == 1 && want == 1 {
				c.Check(m.nadv == 1, "slots processed", m.s.name+" good", c.P.pos(f.Pos()), "no slot is processed although the nodes are in sync and the slot is finalized: the analysis lost its subject")
			}
		}
	}
	for _, a := range all {
		do(a)
	}
	// later rounds are judged anew
	good := world{head: "64"}
	for _, b := range all {
		do(good, b)
		do(good, good, b)
		do(b, good, b)
	}
	for _, h := range []string{"0", "1", "2"} {
		do(world{head: h}, world{head: h}, world{head: h}, world{head: h})
	}
	// after a slot that was a checkpoint with a submission and its waiting
	for _, b := range all {
		for _, a := range []string{"N-S", "N"} {
			m := c.mainScn(fmt.Sprintf("after a checkpoint, contract at %s: %s", a, str(b)), "C18")
			m.chk = "yes"
			b1 := b
			b1.cs, b1.root = "N", "R"
			g := world{head: "64", cs: a, root: "old"}
			m.ph = []world{g, g, g, {head: "64", cs: "N", root: "R"}, b1, b1}
			m.run(f)
			m.clean("rounds")
			c.Check(m.nadv >= 1, "slots processed", m.s.name+" good", c.P.pos(f.Pos()), "no slot is processed: the analysis lost its subject")
		}
	}
	c.Min("nodes in sync", 50)
	c.Min("slot is finalized", 50)
}

func init() {
	register(&Rule{id: "C18", title: "only finalized slots are processed, and only with synced nodes", minOblig: 300, run: runC18,
		explain: "The goroutine of main that advances the state is analysed, callees inlined, against scripted answers of the two nodes for up to four rounds (each node in sync, not in sync or failing; the finalized header before, at or after the slot, or failing; a checkpoint or not), slots and all other quantities left unknown. At every reachable call of AdvanceStateToNextSlot the answers received on every path since the previous one must include both nodes in sync and a finalized header not before the slot.",
		assume:  []string{"The nodes report truthfully whether they are in sync and which header is finalized.", "A consensus node up to five slots behind counts as in sync (the code's own tolerance; distances 1..5 are not tried)."}})
}
