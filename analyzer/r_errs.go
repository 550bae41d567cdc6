package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var _ = constant.Bool
var _ = sort.Strings
var _ = fmt.Sprint

// errFlow decides which error values are certainly not nil, from the branches that
// dominate their use.
type errFlow struct {
	c    *Ctx
	memo map[*ssa.Function]int // all error results certainly not nil: 1 yes, 2 no, 3 in progress
}

func isErrT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// nilTest: the value compared with nil and the successor taken when it is not nil
func nilTest(i *ssa.If) (v ssa.Value, nonNilSucc int, ok bool) {
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		if u, ok := i.Cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			if b, ok := u.X.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if v, s, ok := nilOperand(b); ok {
					return v, 1 - s, true
				}
			}
		}
		return nil, 0, false
	}
	return nilOperand(b)
}

func nilOperand(b *ssa.BinOp) (ssa.Value, int, bool) {
	s := 0
	if b.Op == token.EQL {
		s = 1
	}
	if isNilConst(b.Y) {
		return b.X, s, true
	}
	if isNilConst(b.X) {
		return b.Y, s, true
	}
	return nil, 0, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// cellOf: the variable a value is loaded from
func cellOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch u.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.FieldAddr:
			return u.X
		}
	}
	return nil
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.X == y.X && x.Field == y.Field
}

// writes: the instruction may change the variable
func writes(i ssa.Instruction, cell ssa.Value) bool {
	switch x := i.(type) {
	case *ssa.Store:
		return sameCell(x.Addr, cell)
	case *ssa.RunDefers:
		return loses(x.Parent(), cell)
	case *ssa.Defer:
		// it runs later, see RunDefers
		if _, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			return false
		}
		return callWrites(x, cell)
	case ssa.CallInstruction:
		return callWrites(x, cell)
	}
	return false
}

// loses: a deferred function may replace the error in the variable by none
func loses(f *ssa.Function, cell ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for j, bd := range mc.Bindings {
				g := mc.Fn.(*ssa.Function)
				if bd == cell && !keepsErr(g, g.FreeVars[j]) {
					return true
				}
			}
		}
	}
	return false
}

// keepsErr: the function only stores errors in the variable, or stores in it only when it
// holds none
func keepsErr(g *ssa.Function, v ssa.Value) bool {
	e := &errFlow{nil, map[*ssa.Function]int{}}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if ok && st.Addr == v {
				if isNilConst(st.Val) || !domNil(v, b, st) && !e.nonNil(st.Val, b, st, map[ssa.Value]bool{}) {
					return false
				}
				continue
			}
			if u, ok := i.(*ssa.UnOp); ok && u.X == v {
				continue
			}
			for _, o := range i.Operands(nil) {
				if *o == v {
					return false // handed on
				}
			}
		}
	}
	return true
}

// domNil: a dominating branch found the variable to hold no error
func domNil(cell ssa.Value, blk *ssa.BasicBlock, at ssa.Instruction) bool {
	for d := blk; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, s, ok := nilTest(i)
		if ok && p.Succs[1-s] == d && len(d.Preds) == 1 && cellOf(x) == cell && unwritten(cell, d, at) {
			return true
		}
	}
	return false
}

func callWrites(i ssa.Instruction, cell ssa.Value) bool {
	switch x := i.(type) {
	case ssa.CallInstruction:
		for _, a := range x.Common().Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				for _, bd := range mc.Bindings {
					if bd == cell {
						return true
					}
				}
			}
			if a == cell {
				return true
			}
		}
		if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
			for _, bd := range mc.Bindings {
				if bd == cell {
					return true
				}
			}
		}
	}
	return false
}

// unwritten: no instruction between the start of block from and instruction at changes the cell
func unwritten(cell ssa.Value, from *ssa.BasicBlock, at ssa.Instruction) bool {
	for _, b := range from.Parent().Blocks {
		if !from.Dominates(b) {
			continue
		}
		if b != at.Block() && !reaches([]*ssa.BasicBlock{b}, at.Block(), from) && b != from {
			continue
		}
		for _, i := range b.Instrs {
			if i == at {
				break
			}
			if writes(i, cell) {
				return false
			}
		}
	}
	return true
}

// domNonNil: a dominating branch found v not nil
func domNonNil(v ssa.Value, blk *ssa.BasicBlock, at ssa.Instruction) bool {
	cell := cellOf(v)
	for d := blk; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, s, ok := nilTest(i)
		if !ok || p.Succs[s] != d || len(d.Preds) != 1 {
			continue
		}
		if x == v {
			return true
		}
		if cell != nil && cellOf(x) != nil && sameCell(cell, cellOf(x)) && at != nil && unwritten(cell, d, at) {
			return true
		}
	}
	return false
}

// nonNil: v is certainly not nil when control is at instruction at of block blk
func (e *errFlow) nonNil(v ssa.Value, blk *ssa.BasicBlock, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true // inductively, decided by the other edges
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		_, isPtr := under(x.X.Type()).(*types.Pointer)
		if !isPtr {
			return true
		}
		_, isAlloc := x.X.(*ssa.Alloc)
		return isAlloc
	case *ssa.ChangeInterface:
		return e.nonNil(x.X, blk, at, seen)
	case *ssa.Phi:
		if domNonNil(v, blk, at) {
			return true
		}
		s2 := map[ssa.Value]bool{v: true}
		for k := range seen {
			s2[k] = true
		}
		for k, ed := range x.Edges {
			p := x.Block().Preds[k]
			if e.edgeNonNil(ed, p, x.Block()) {
				continue
			}
			if !e.nonNil(ed, p, p.Instrs[len(p.Instrs)-1], s2) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if e.callNonNil(x, 0, seen) {
			return true
		}
		if x.Call.IsInvoke() && x.Call.Method.FullName() == "(context.Context).Err" && ctxDone(x) {
			return true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && e.callNonNil(c, x.Index, seen) {
			return true
		}
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return true
		}
		if st := lastStore(x); st != nil {
			return e.nonNil(st.Val, st.Block(), st, seen)
		}
	}
	return domNonNil(v, blk, at)
}

// edgeNonNil: the branch from p to b is taken only when v is not nil
func (e *errFlow) edgeNonNil(v ssa.Value, p, b *ssa.BasicBlock) bool {
	i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	x, s, ok := nilTest(i)
	return ok && x == v && p.Succs[s] == b && p.Succs[1-s] != b
}

func (e *errFlow) callNonNil(c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return e.nonNil(c.Call.Args[0], c.Block(), c, seen)
	}
	if f.Blocks == nil || !inModule(f) {
		return false
	}
	return e.always(f, idx)
}

// always: every return of f gives a non-nil error at idx
func (e *errFlow) always(f *ssa.Function, idx int) bool {
	if m := e.memo[f]; m != 0 {
		return m == 1
	}
	e.memo[f] = 2
	any := false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		any = true
		if idx >= len(r.Results) || !isErrT(r.Results[idx].Type()) || !e.nonNil(r.Results[idx], b, r, map[ssa.Value]bool{}) {
			return false
		}
	}
	if any {
		e.memo[f] = 1
	}
	return any
}

var wrapFns = map[string]bool{"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithMessage": true, "github.com/pkg/errors.WithMessagef": true, "github.com/pkg/errors.WithStack": true}

// ownFns: the functions of the module's own packages, tests and generated bindings excluded
func (c *Ctx) ownFns() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || !inModule(f) || fnPkg(f) == modPath+"/contract" || f.Synthetic != "" {
			continue
		}
		r = append(r, f)
	}
	return r
}

func (c *Ctx) wrapRule(rule string) {
	e := &errFlow{c, map[*ssa.Function]int{}}
	for _, f := range c.ownFns() {
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				sc := cl.Call.StaticCallee()
				if sc == nil || !wrapFns[sc.String()] {
					continue
				}
				n++
				c.Touch(f)
				ok = e.nonNil(cl.Call.Args[0], b, cl, map[ssa.Value]bool{}) || passedOn(cl.Call.Args[0], b)
				c.Check(ok, rule, fmt.Sprintf("%s, wrap %d", shortName(f), n), c.P.posOf(i), "the wrapped error may be nil here: wrapping nil gives nil, and the failure is reported as success")
			}
		}
	}
}

// passedOn: the error was given by a call the wrap follows unconditionally, so no branch
// found a failure on the way: the outcome of the call, failed or not, becomes the
// outcome of the wrap
func passedOn(v ssa.Value, b *ssa.BasicBlock) bool {
	if l, ok := v.(*ssa.UnOp); ok {
		if st := lastStore(l); st != nil {
			v = st.Val
		}
	}
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	for d := c.Block(); d != b; d = d.Succs[0] {
		if len(d.Succs) != 1 || len(d.Succs[0].Preds) != 1 {
			return false
		}
	}
	return true
}

// dropRule: error results nobody looks at
func (c *Ctx) dropRule(rule string) {
	e := &errFlow{c, map[*ssa.Function]int{}}
	for _, f := range c.ownFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sg := cl.Common().Signature()
				k := -1
				for j := 0; j < sg.Results().Len(); j++ {
					if isErrT(sg.Results().At(j).Type()) {
						k = j
					}
				}
				if k < 0 {
					continue
				}
				used := false
				if v, ok := i.(*ssa.Call); ok {
					if sg.Results().Len() == 1 {
						used = refs(v) > 0
					} else {
						for _, r := range *v.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == k && refs(ex) > 0 {
								used = true
							} else if _, ok := r.(*ssa.Extract); !ok {
								used = true
							}
						}
					}
				}
				if used && cl.Value() != nil {
					used = !onlyLogged(cl.Value(), k)
				}
				if !used {
					used = e.dropOk(f, i)
				}
				c.Check(used, rule, shortName(f)+" "+callName(cl.Common()), c.P.posOf(i), "the error of %s is dropped", callName(cl.Common()))
			}
		}
	}
}

// dropOk: the dropped error says nothing the function relies on
func (e *errFlow) dropOk(f *ssa.Function, i ssa.Instruction) bool {
	c := i.(ssa.CallInstruction).Common()
	n := callName(c)
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") {
		return true
	}
	// these never fail
	if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write") {
		return true
	}
	// the client of the API is gone
	if n == "(net/http.ResponseWriter).Write" {
		return true
	}
	// closing what was read, or a file at the end of its life
	if _, ok := i.(*ssa.Defer); ok && strings.HasSuffix(n, ".Close") {
		return true
	}
	switch n {
	case "(*github.com/gorilla/mux.Route).GetPathTemplate": // only the label of a metric
		return true
	case "net/http.ListenAndServe": // the metrics endpoint: nothing is computed from it
		return fnPkg(f) == modPath+"/metrics"
	case "(io.Writer).Write": // a hash never returns an error
		switch t := c.Value.(type) {
		case ssa.Value:
			return strings.HasSuffix(t.Type().String(), "hash.Hash") || strings.HasSuffix(t.Type().String(), ".KeccakState")
		}
	}
	// a failure is reported whatever the call says
	rs := f.Signature.Results()
	if rs.Len() == 0 || !isErrT(rs.At(rs.Len()-1).Type()) {
		return false
	}
	w := []*ssa.BasicBlock{i.Block()}
	seen := map[*ssa.BasicBlock]bool{}
	for len(w) > 0 {
		b := w[0]
		w = w[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !e.nonNil(r.Results[len(r.Results)-1], b, r, map[ssa.Value]bool{}) {
				return false
			}
		}
		w = append(w, b.Succs...)
	}
	return true
}

func refs(v ssa.Value) int {
	n := 0
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			n++
		}
	}
	return n
}

func callName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	return "dynamic call"
}

// pathErr: a walk over the branches a function takes after an error was found. k holds the
// values known not to be nil on the path; search: the path went on to another candidate
type pathErr struct {
	b      *ssa.BasicBlock
	k      map[ssa.Value]bool
	search bool
}

func (s pathErr) key() string {
	var n []string
	for v := range s.k {
		n = append(n, v.Name()) // registers are named once per function
	}
	sort.Strings(n)
	return fmt.Sprint(s.b.Index, s.search, n)
}

// ends: the instruction does not return
func ends(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.Name() {
			case "Fatal", "Fatalf", "Fatalln", "Exit", "Panic", "Panicf":
				p := fnPkg(f)
				return p == "github.com/sirupsen/logrus" || p == "os" || p == "log"
			}
		}
	}
	return false
}

// loopOf: the header of the innermost loop b is in
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || reaches([]*ssa.BasicBlock{b}, p, h)) {
				return h
			}
		}
	}
	return nil
}

// silent: where the function may return without an error when control enters to from
// pred with v not nil
func (e *errFlow) silent(f *ssa.Function, pred, to *ssa.BasicBlock, v ssa.Value, def *ssa.BasicBlock) *ssa.Return {
	known := map[ssa.Value]bool{v: true}
	if cell := cellOf(v); cell != nil {
		known[cell] = true
	}
	header := loopOf(pred)
	enter := func(s pathErr, to *ssa.BasicBlock) pathErr {
		k := map[ssa.Value]bool{}
		for x := range s.k {
			k[x] = true
		}
		idx := -1
		for j, p := range to.Preds {
			if p == s.b {
				idx = j
			}
		}
		for _, i := range to.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isErrT(ph.Type()) {
				continue
			}
			delete(k, ph)
			if idx >= 0 && (s.k[ph.Edges[idx]] || e.nonNil(ph.Edges[idx], s.b, s.b.Instrs[len(s.b.Instrs)-1], map[ssa.Value]bool{})) {
				k[ph] = true
			}
		}
		return pathErr{to, k, s.search || to == header}
	}
	seen := map[string]bool{}
	w := []pathErr{enter(pathErr{pred, known, false}, to)}
	for len(w) > 0 {
		s := w[0]
		w = w[1:]
		if seen[s.key()] || s.b == def && s.b != pred {
			continue
		}
		seen[s.key()] = true
		stop := false
		for _, i := range s.b.Instrs {
			if ends(i) {
				stop = true
				break
			}
			if s.b == pred {
				continue
			}
			for x := range s.k {
				if _, ok := x.Type().(*types.Pointer); ok && writes(i, x) {
					// replaced by another error, or by the one it holds
					if st, ok := i.(*ssa.Store); ok && (s.k[st.Val] || e.nonNil(st.Val, s.b, st, map[ssa.Value]bool{})) {
						continue
					}
					delete(s.k, x)
				}
			}
			// what is read from a variable known to hold an error
			if l, ok := i.(*ssa.UnOp); ok && cellOf(l) != nil {
				for x := range s.k {
					if sameCell(x, cellOf(l)) {
						s.k[l] = true
						break
					}
				}
			}
		}
		if stop {
			continue
		}
		switch t := s.b.Instrs[len(s.b.Instrs)-1].(type) {
		case *ssa.Return:
			x := t.Results[len(t.Results)-1]
			if !s.k[x] && !e.nonNil(x, s.b, t, map[ssa.Value]bool{}) {
				// another candidate was looked at and taken
				if s.search && inLoop(s.b, header) {
					continue
				}
				return t
			}
		case *ssa.If:
			if x, succ, ok := nilTest(t); ok && s.k[x] {
				w = append(w, enter(s, s.b.Succs[succ]))
				continue
			}
			for j, x := range s.b.Succs {
				if j == 0 && recognised(t, s.k) {
					continue
				}
				w = append(w, enter(s, x))
			}
		default:
			for _, x := range s.b.Succs {
				w = append(w, enter(s, x))
			}
		}
	}
	return nil
}

// inLoop: b is left from inside the loop, not after its last round
func inLoop(b, header *ssa.BasicBlock) bool {
	if header == nil || !header.Dominates(b) {
		return false
	}
	// the side of the header that comes back to it
	for _, s := range header.Succs {
		if s.Dominates(b) && s != header && reaches([]*ssa.BasicBlock{s}, header, nil) {
			return true
		}
	}
	return false
}

// recognised: the branch asks for a particular kind of the error (errors.Is, errors.As)
func recognised(i *ssa.If, k map[ssa.Value]bool) bool {
	c, ok := i.Cond.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return false
	}
	switch c.Call.StaticCallee().String() {
	case "errors.Is", "errors.As", "github.com/pkg/errors.Is", "github.com/pkg/errors.As":
		return k[c.Call.Args[0]]
	}
	for j, a := range c.Call.Args {
		if k[a] && asksKind(c.Call.StaticCallee(), j) {
			return true
		}
	}
	return false
}

// asksKind: the function of the module says yes only after errors.Is or errors.As said so
// about its parameter
func asksKind(g *ssa.Function, param int) bool {
	if g.Blocks == nil || !strings.HasPrefix(fnPkg(g), modPath) || g.Signature.Results().Len() != 1 || param >= len(g.Params) {
		return false
	}
	kind := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && recognised(&ssa.If{Cond: c}, map[ssa.Value]bool{g.Params[param]: true})
	}
	// in: b is entered only after the question was answered with yes
	in := func(b *ssa.BasicBlock) bool {
		for _, d := range g.Blocks {
			if i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && kind(i.Cond) {
				if t := d.Succs[0]; t != d.Succs[1] && len(t.Preds) == 1 && t.Dominates(b) {
					return true
				}
			}
		}
		return false
	}
	var ok func(v ssa.Value, b *ssa.BasicBlock) bool
	ok = func(v ssa.Value, b *ssa.BasicBlock) bool {
		if in(b) || kind(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.String() == "false"
		case *ssa.Phi:
			for j, e := range x.Edges {
				if _, again := e.(*ssa.Phi); again || !ok(e, x.Block().Preds[j]) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range g.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && !ok(r.Results[0], b) {
			return false
		}
	}
	return true
}

// swallowRule: returns without an error after an error was found
func (c *Ctx) swallowRule(rule string) {
	e := &errFlow{c, map[*ssa.Function]int{}}
	for _, f := range c.ownFns() {
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isErrT(rs.At(rs.Len()-1).Type()) {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			v, s, ok := nilTest(i)
			if !ok || !isErrT(v.Type()) {
				continue
			}
			n++
			def := b
			if x, ok := v.(ssa.Instruction); ok {
				def = x.Block()
				if ex, ok := v.(*ssa.Extract); ok {
					def = ex.Tuple.(ssa.Instruction).Block()
				}
			}
			r := e.silent(f, b, b.Succs[s], v, def)
			at := ""
			if r != nil {
				at = c.P.posOf(r)
			}
			c.Check(r == nil, rule, fmt.Sprintf("%s, error test %d", shortName(f), n), c.P.posOf(i), "after an error was found here the function may return without one at %s", at)
		}
	}
}

func init() {
	register(&Rule{id: "C25", title: "a detected failure is never reported as success",
		explain: "four dataflow rules over the SSA of every function of the module: what is handed to errors.Wrap is certainly not nil there (dominating branches, phis, result variables, always-failing callees); no error result is dropped or only logged; no error variable is overwritten unseen; after a branch found an error, no path reaches a return without one (path-sensitive over error values; a kind of error recognised by errors.Is/As and a search going on to its next candidate excepted). Then every call to the nodes or the contract an exported method of Onchain makes is failed in turn, every event iteration is cut short, node chain ids disagree, encoders and the tree library fail: the interpreted method must return an error or end the process, an API handler must answer with an error status. The obligations on refused parameter changes, refused states, failed saves, unequal reconciliations, unusable blocks, odd answers and failed submissions of C09, C11, C12, C14, C20, C26, C27, C31, C37 and C39 are included.",
		run: func(c *Ctx) {
			c.wrapRule("wrapped errors are errors")
			c.dropRule("no error is dropped")
			c.cellRule("no error is overwritten")
			c.swallowRule("a found error is reported")
			c.errSweep()
			c.errAPI()
			c.errStart()
			c.errCopy()
			c.updateRoot("C25")
			c.include("C09", "failed request is reported", "target without address is refused")
			c.include("C11", "parameter change: refusal is reported", "block with parameter change: refusal is reported")
			c.include("C12", "refused load is reported", "other problems are errors")
			c.include("C14", "failure is reported")
			c.include("C20", "passes exactly when liabilities equal assets")
			c.include("C26", "a failed retrieval stops", "a partial retrieval stops", "an event of another block stops")
			c.include("C27", "no other failure counts as a missed slot")
			c.include("C31", "an unusable block gives an error")
			c.include("C37", "answers for other validators are errors")
			c.include("C39", "a failure or an unknown chain stops")
			c.Min("wrapped errors are errors", 20)
			c.Min("no error is dropped", 300)
			c.Min("a found error is reported", 80)
		}, minOblig: 1000,
		assume: []string{"a failed deferred Close, a failed print, the metrics endpoint and the label of a metric decide nothing"}})
}

// lastStore: the store in the same block whose value a load reads (function results in
// a function with deferred calls are kept in variables)
func lastStore(l *ssa.UnOp) *ssa.Store {
	a, ok := l.X.(*ssa.Alloc)
	if !ok || l.Op != token.MUL {
		return nil
	}
	shared := false // a closure may write it, but only while something is called
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			shared = true
		}
	}
	if shared {
		for _, b := range l.Parent().Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					return nil
				}
			}
		}
	}
	var last *ssa.Store
	for _, i := range l.Block().Instrs {
		if i == ssa.Instruction(l) {
			break
		}
		switch x := i.(type) {
		case *ssa.Store:
			if x.Addr == a {
				last = x
			}
		case *ssa.Call, *ssa.RunDefers:
			if shared {
				last = nil
			}
		}
	}
	return last
}

// ctxDone: a dominating branch found the same context's error not nil; it stays so
func ctxDone(c *ssa.Call) bool {
	for d := c.Block(); d != nil && d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, s, ok := nilTest(i)
		if !ok || p.Succs[s] != d || len(d.Preds) != 1 {
			continue
		}
		if y, ok := x.(*ssa.Call); ok && y.Call.IsInvoke() && y.Call.Method == c.Call.Method && y.Call.Value == c.Call.Value {
			return true
		}
	}
	return false
}

// onlyLogged: the error result k of a call goes nowhere but into log lines
func onlyLogged(v *ssa.Call, k int) bool {
	var vals []ssa.Value
	if v.Call.Signature().Results().Len() == 1 {
		vals = []ssa.Value{v}
	} else {
		for _, r := range *v.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok {
				return false
			}
			if ex.Index == k {
				vals = append(vals, ex)
			}
		}
	}
	seen := map[ssa.Value]bool{}
	for len(vals) > 0 {
		x := vals[0]
		vals = vals[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeInterface:
				vals = append(vals, y)
			case *ssa.MakeInterface:
				vals = append(vals, y)
			case *ssa.Slice:
				vals = append(vals, y)
			case *ssa.Store:
				// an element of the arguments of a variadic call
				ia, ok := y.Addr.(*ssa.IndexAddr)
				if !ok || y.Val != x {
					if ok && y.Addr == x {
						continue
					}
					return false
				}
				if a, ok := ia.X.(*ssa.Alloc); ok {
					vals = append(vals, a)
				} else {
					return false
				}
			case *ssa.IndexAddr:
			case *ssa.Call:
				if y.Call.IsInvoke() && y.Call.Method.Name() == "Error" {
					vals = append(vals, y)
					continue
				}
				f := y.Call.StaticCallee()
				if f == nil || ends(y) {
					return false
				}
				switch fnPkg(f) {
				case "github.com/sirupsen/logrus", "log":
					switch f.Name() {
					case "WithError", "WithField", "WithFields":
						vals = append(vals, y)
					}
				case "fmt":
					vals = append(vals, y)
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// cellRule: an error put into a variable is looked at before another takes its place
func (c *Ctx) cellRule(rule string) {
	for _, f := range c.ownFns() {
		for _, b := range f.Blocks {
			for k, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || !isErrT(st.Val.Type()) || isNilConst(st.Val) {
					continue
				}
				if _, ok := st.Val.(*ssa.Parameter); ok {
					continue
				}
				switch st.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
				default:
					continue
				}
				lost := c.lostStore(st, b, k)
				c.Touch(f)
				c.Check(lost == "", rule, shortName(f)+" "+st.Addr.Name(), c.P.posOf(i), "the error stored here is replaced at %s on every path without having been looked at", lost)
			}
		}
	}
}

// lostStore: where the stored value is overwritten if no path reads it first
func (c *Ctx) lostStore(st *ssa.Store, b *ssa.BasicBlock, k int) string {
	lost := ""
	seen := map[*ssa.BasicBlock]bool{}
	type item struct {
		b *ssa.BasicBlock
		k int
	}
	w := []item{{b, k + 1}}
	for len(w) > 0 {
		x := w[0]
		w = w[1:]
		over := false
		for _, i := range x.b.Instrs[x.k:] {
			if l, ok := i.(*ssa.UnOp); ok && l.Op == token.MUL && sameCell(l.X, st.Addr) {
				return ""
			}
			if o, ok := i.(*ssa.Store); ok && sameCell(o.Addr, st.Addr) {
				lost, over = c.P.posOf(o), true
				break
			}
			if writes(i, st.Addr) { // handed to a function that may look at it
				return ""
			}
			if _, ok := i.(*ssa.Return); ok {
				return "" // whoever owns the variable looks at it
			}
		}
		if over {
			continue
		}
		for _, s := range x.b.Succs {
			if !seen[s] {
				seen[s] = true
				w = append(w, item{s, 0})
			}
		}
	}
	return lost
}
