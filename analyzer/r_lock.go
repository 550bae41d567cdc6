package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockFlow follows, from every entry point of the program, which locks are held, in which
// mode, on every path, through calls, deferred calls, closures and stored functions; and
// which values reach into the live state.
type lockFlow struct {
	c      *Ctx
	locks  map[string]int
	names  []string
	memo   map[string]*lockSum
	taint  map[string]*taintSum
	addr   map[string][]*ssa.Function // address-taken functions by signature
	store  map[string][]ssa.Value     // values stored to a field or package variable
	args   map[*ssa.Function][][]ssa.Value
	roots  map[string]bool
	queue  []lockRoot
	nOps   int
	nWr    map[string]bool
	nCall  int
	called map[*ssa.Function]bool
	stT    types.Type // OracleState
	orT    types.Type // Oracle
}

type lockRoot struct {
	f       *ssa.Function
	started bool
	mask    string
}

type lockSum struct {
	exits map[string]bool
	done  bool
}

// lstate is the state on a path: a mode per lock (U, R, W), whether other goroutines run,
// and the deferred calls
type lstate struct {
	m       string
	started bool
	d       []*ssa.Defer
}

func (s lstate) key() string {
	var b strings.Builder
	b.WriteString(s.m)
	if s.started {
		b.WriteString("+")
	}
	for _, d := range s.d {
		fmt.Fprintf(&b, " %p", d)
	}
	return b.String()
}

func exitKey(m string, started bool) string {
	if started {
		return m + "+"
	}
	return m
}

func isLockT(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

// lockID names the lock an operation acts on: the field of its struct type, the package
// variable, or the local variable
func (l *lockFlow) lockID(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := types.Unalias(deref(x.X.Type()))
		return types.TypeString(st, nil) + "." + under(st).(*types.Struct).Field(x.Field).Name()
	case *ssa.Global:
		return x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.lockID(x.X)
		}
	case *ssa.ChangeType:
		return l.lockID(x.X)
	case *ssa.MakeInterface:
		return l.lockID(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "RLocker" {
			return "R:" + l.lockID(x.Call.Args[0])
		}
	case *ssa.Phi:
		if len(x.Edges) > 0 {
			return l.lockID(x.Edges[0])
		}
	}
	if v.Parent() != nil {
		// handed in: the one lock of the module's types, if there is only one
		if len(l.names) == 1 {
			return l.names[0]
		}
		return shortName(v.Parent()) + "." + v.Name()
	}
	return v.Name()
}

func (l *lockFlow) idx(id string) int {
	if i, ok := l.locks[id]; ok {
		return i
	}
	l.locks[id] = len(l.names)
	l.names = append(l.names, id)
	return len(l.names) - 1
}

// lockOp recognises operations of sync.Mutex and sync.RWMutex
func (l *lockFlow) lockOp(c *ssa.CallCommon) (id, op string) {
	if c.IsInvoke() {
		if c.Method.FullName() == "(sync.Locker).Lock" || c.Method.FullName() == "(sync.Locker).Unlock" {
			id, op = l.lockID(c.Value), c.Method.Name()
			if strings.HasPrefix(id, "R:") {
				return id[2:], "R" + op
			}
			return id, op
		}
		return "", ""
	}
	f := c.StaticCallee()
	if f == nil {
		return "", ""
	}
	n := f.String()
	if strings.HasSuffix(n, "$bound") && len(c.Args) == 0 {
		n = strings.TrimSuffix(n, "$bound")
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && (strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "(*sync.Mutex).")) {
			return l.lockID(mc.Bindings[0]), n[strings.LastIndex(n, ".")+1:]
		}
	}
	if !strings.HasPrefix(n, "(*sync.RWMutex).") && !strings.HasPrefix(n, "(*sync.Mutex).") {
		return "", ""
	}
	return l.lockID(c.Args[0]), n[strings.LastIndex(n, ".")+1:]
}

const (
	lrBal = "a lock is taken when free and released when held"
	lrOut = "locks are released on every way out"
	lrWr  = "the state is changed under its lock, held for writing"
	lrCpy = "locks are not copied"
)

// apply performs a lock operation on a path
func (l *lockFlow) apply(s lstate, id, op string, f *ssa.Function, pos string) []lstate {
	i := l.idx(id)
	for len(s.m) <= i {
		s.m += "U"
	}
	m := s.m[i]
	set := func(b byte) lstate {
		n := s
		n.m = s.m[:i] + string(b) + s.m[i+1:]
		return n
	}
	short := id[strings.LastIndex(id, "/")+1:]
	bad := func(msg string) {
		l.c.Fail(lrBal, shortName(f)+": "+op+" of "+short, pos, "%s", msg)
	}
	l.c.Touch(f)
	held := map[byte]string{'R': "for reading", 'W': "for writing"}
	switch op {
	case "Lock", "RLock":
		to := byte('W')
		if op == "RLock" {
			to = 'R'
		}
		if m != 'U' {
			bad(fmt.Sprintf("%s is taken while this path already holds it %s: the goroutine waits for itself", short, held[m]))
			return []lstate{set(to)}
		}
		return []lstate{set(to)}
	case "TryLock":
		if m == 'U' {
			return []lstate{s, set('W')}
		}
	case "TryRLock":
		if m == 'U' {
			return []lstate{s, set('R')}
		}
	case "Unlock", "RUnlock":
		want := byte('W')
		if op == "RUnlock" {
			want = 'R'
		}
		if m != want {
			what := "not held"
			if m != 'U' {
				what = "held " + held[m]
			}
			bad(fmt.Sprintf("%s is released with %s although it is %s on this path", short, op, what))
		}
		return []lstate{set('U')}
	}
	return []lstate{s}
}

// run analyses a function from an entry state and gives its exit states
func (l *lockFlow) run(f *ssa.Function, m string, started bool, mask string, depth int) map[string]bool {
	for len(m) < len(l.names) {
		m += "U"
	}
	key := fmt.Sprintf("%s|%p|%s|%v|%s", f.Name(), f, m, started, mask)
	if s := l.memo[key]; s != nil {
		if s.done {
			return s.exits
		}
		return map[string]bool{exitKey(m, started): true}
	}
	sum := &lockSum{exits: map[string]bool{}}
	l.memo[key] = sum
	if depth > 80 {
		panic(undecided("lock analysis: calls nest too deep at " + shortName(f)))
	}
	ta := l.taintOf(f, mask)
	type item struct {
		b *ssa.BasicBlock
		s lstate
	}
	seen := map[string]bool{}
	w := []item{{f.Blocks[0], lstate{m: m, started: started}}}
	retAt := map[string]string{}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		k := fmt.Sprint(x.b.Index) + "|" + x.s.key()
		if seen[k] {
			continue
		}
		if len(seen) > 20000 {
			panic(undecided("lock analysis: too many states in " + shortName(f)))
		}
		seen[k] = true
		cur := []lstate{x.s}
		for _, i := range x.b.Instrs {
			var next []lstate
			for _, s := range cur {
				next = append(next, l.step(f, i, s, ta, mask, depth)...)
			}
			cur = next
			if len(cur) == 0 {
				break
			}
			if r, ok := i.(*ssa.Return); ok {
				for _, s := range cur {
					k := exitKey(s.m, s.started)
					sum.exits[k] = true
					if retAt[s.m] == "" {
						retAt[s.m] = l.c.P.posOf(r)
					}
				}
			}
		}
		for _, s := range cur {
			for _, n := range x.b.Succs {
				w = append(w, item{n, s})
			}
		}
	}
	// some ways out release a lock, others do not
	modes := map[string]bool{}
	for k := range sum.exits {
		modes[strings.TrimSuffix(k, "+")] = true
	}
	if len(modes) > 1 {
		var at []string
		for mm, p := range retAt {
			if mm != m {
				at = append(at, p)
			}
		}
		sort.Strings(at)
		l.c.Fail(lrOut, shortName(f), l.c.P.pos(f.Pos()), "some ways out leave a lock as it was found, others (%s) do not", strings.Join(at, ", "))
	}
	sum.done = true
	return sum.exits
}

func (l *lockFlow) step(f *ssa.Function, i ssa.Instruction, s lstate, ta *taintSum, mask string, depth int) []lstate {
	pos := func() string { return l.c.P.posOf(i) }
	l.wrote(f, i, s, ta)
	switch x := i.(type) {
	case *ssa.Defer:
		n := s
		n.d = append(append([]*ssa.Defer{}, s.d...), x)
		cnt := 0
		for _, d := range n.d {
			if d == x {
				cnt++
			}
		}
		if cnt > 3 {
			return nil // a defer in a loop: three rounds show what it does
		}
		return []lstate{n}
	case *ssa.RunDefers:
		cur := []lstate{s}
		for k := len(s.d) - 1; k >= 0; k-- {
			var next []lstate
			for _, c := range cur {
				next = append(next, l.call(f, s.d[k].Common(), s.d[k], c, ta, depth)...)
			}
			cur = next
		}
		for k := range cur {
			cur[k].d = nil
		}
		return cur
	case *ssa.Go:
		for _, t := range l.targets(x.Common(), f) {
			l.root(t, true, l.maskFor(t, x.Common(), ta))
		}
		s.started = true
		return []lstate{s}
	case *ssa.Call:
		if ends(x) {
			return nil
		}
		return l.call(f, x.Common(), i, s, ta, depth)
	case *ssa.Panic:
		return nil
	case *ssa.UnOp:
		if x.Op == token.MUL && holdsLock(x.Type(), 0) {
			l.c.Fail(lrCpy, shortName(f), pos(), "a %s, which holds a lock, is copied: the copy's lock guards nothing", x.Type())
		}
	}
	return []lstate{s}
}

func holdsLock(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	if isLockT(t) {
		return true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && n.Obj().Pkg().Path() != "sync" {
			return false // other modules' types
		}
		for i := 0; i < u.NumFields(); i++ {
			if holdsLock(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsLock(u.Elem(), d+1)
	}
	return false
}

// call performs a call on a path
func (l *lockFlow) call(f *ssa.Function, c *ssa.CallCommon, i ssa.Instruction, s lstate, ta *taintSum, depth int) []lstate {
	if id, op := l.lockOp(c); op != "" {
		l.nOps++
		return l.apply(s, id, op, f, l.c.P.posOf(i))
	}
	// a lock held in a once, a pool etc is not followed
	var out []lstate
	seen := map[string]bool{}
	add := func(m string, started bool) {
		n := s
		n.m, n.started = m, started
		if !seen[n.key()] {
			seen[n.key()] = true
			out = append(out, n)
		}
	}
	ts := l.targets(c, f)
	for _, t := range ts {
		l.nCall++
		for k := range l.run(t, s.m, s.started, l.maskFor(t, c, ta), depth+1) {
			add(strings.TrimSuffix(k, "+"), strings.HasSuffix(k, "+"))
		}
	}
	if len(ts) > 0 {
		return out
	}
	// functions handed to other modules may be called at once
	for _, a := range c.Args {
		for _, t := range l.funcsOf(a, f, map[ssa.Value]bool{}) {
			mk := l.closureMask(t, a, ta)
			for k := range l.run(t, s.m, s.started, mk, depth+1) {
				m := strings.TrimSuffix(k, "+")
				mm := s.m
				for len(mm) < len(m) {
					mm += "U"
				}
				if m != mm {
					l.c.Fail(lrOut, shortName(t), l.c.P.pos(t.Pos()), "called by %s, it returns with other locks held than it found", callName(c))
				}
			}
			// and later, by itself
			l.root(t, true, mk)
		}
	}
	return []lstate{s}
}

// targets are the module's functions a call may reach
func (l *lockFlow) targets(c *ssa.CallCommon, f *ssa.Function) []*ssa.Function {
	if c.IsInvoke() {
		var r []*ssa.Function
		it, ok := under(c.Value.Type()).(*types.Interface)
		if !ok {
			return nil
		}
		for _, p := range l.c.P.Pkgs {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.IsInterface(tn.Type()) || !types.Implements(t, it) {
						continue
					}
					if sel := l.c.P.SSA.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if m := l.c.P.SSA.MethodValue(sel); m != nil && m.Blocks != nil && inModule(m) {
							r = append(r, m)
						}
					}
				}
			}
		}
		return r
	}
	if t := c.StaticCallee(); t != nil {
		if t.Blocks != nil && (inModule(t) || t.Synthetic != "") {
			return []*ssa.Function{t}
		}
		return nil
	}
	return l.funcsOf(c.Value, f, map[ssa.Value]bool{})
}

// funcsOf: the module's functions a function value may be
func (l *lockFlow) funcsOf(v ssa.Value, f *ssa.Function, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var r []*ssa.Function
	all := func(vs []ssa.Value) {
		for _, x := range vs {
			r = append(r, l.funcsOf(x, f, seen)...)
		}
	}
	switch x := v.(type) {
	case *ssa.Function:
		if x.Blocks != nil {
			return []*ssa.Function{x}
		}
		return nil
	case *ssa.MakeClosure:
		return l.funcsOf(x.Fn, f, seen)
	case *ssa.MakeInterface:
		if _, ok := under(x.X.Type()).(*types.Signature); ok {
			return l.funcsOf(x.X, f, seen)
		}
		return nil
	case *ssa.ChangeType:
		return l.funcsOf(x.X, f, seen)
	case *ssa.ChangeInterface:
		return l.funcsOf(x.X, f, seen)
	case *ssa.Phi:
		all(x.Edges)
		return r
	case *ssa.Const:
		return nil
	}
	if _, ok := under(v.Type()).(*types.Signature); !ok {
		if sl, ok := v.(*ssa.Slice); ok { // arguments of a variadic call
			if a, ok := sl.X.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								all([]ssa.Value{st.Val})
							}
						}
					}
				}
			}
		}
		return r
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for _, as := range l.args[x.Parent()] {
			for k, p := range x.Parent().Params {
				if p == x && k < len(as) {
					all([]ssa.Value{as[k]})
				}
			}
		}
		return r
	case *ssa.FreeVar:
		for _, b := range bindingsOf(x) {
			all([]ssa.Value{b})
		}
		return r
	case *ssa.UnOp:
		if k := cellName(x.X); k != "" {
			all(l.store[k])
			return r
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					all([]ssa.Value{st.Val})
				}
			}
			return r
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			for _, b := range bindingsOf(fv) {
				if a, ok := b.(*ssa.Alloc); ok {
					for _, ref := range *a.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
							all([]ssa.Value{st.Val})
						}
					}
				}
			}
			return r
		}
	case *ssa.Call:
		if t := x.Call.StaticCallee(); t != nil && t.Blocks != nil {
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					all([]ssa.Value{ret.Results[0]})
				}
			}
			return r
		}
		if t := x.Call.StaticCallee(); t != nil && !inModule(t) {
			return nil // made by another module
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			t := c.Call.StaticCallee()
			if t != nil && t.Blocks != nil {
				for _, b := range t.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(ret.Results) {
						all([]ssa.Value{ret.Results[x.Index]})
					}
				}
				return r
			}
			if t != nil || c.Call.IsInvoke() && !inModulePath(c.Call.Method.Pkg()) {
				return nil
			}
		}
	}
	// anything of that type
	return l.addr[sigKey(v.Type())]
}

func sigKey(t types.Type) string {
	s, ok := under(t).(*types.Signature)
	if !ok {
		return ""
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func bindingsOf(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	k := -1
	for i, x := range f.FreeVars {
		if x == fv {
			k = i
		}
	}
	var r []ssa.Value
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f && k >= 0 {
				r = append(r, mc.Bindings[k])
			}
		}
	}
	return r
}

// cellName names a field or package variable
func cellName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := types.Unalias(deref(x.X.Type()))
		return types.TypeString(st, nil) + "." + under(st).(*types.Struct).Field(x.Field).Name()
	case *ssa.Global:
		return x.String()
	}
	return ""
}

// root queues an entry point
func (l *lockFlow) root(f *ssa.Function, started bool, mask string) {
	k := fmt.Sprintf("%p %v %s", f, started, mask)
	if l.roots[k] {
		return
	}
	l.roots[k] = true
	l.queue = append(l.queue, lockRoot{f, started, mask})
}

// ---- which values reach into the live state

type taintSum struct {
	t    map[ssa.Value]bool // points into the state
	h    map[ssa.Value]bool // a container or variable holding such pointers
	ret  string             // per result: T or -
	done bool
}

func refT(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refT(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refT(u.At(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refT(u.Elem())
	}
	return false
}

// stateField: the address or value is the oracle's own pointer to its state
func (l *lockFlow) stateField(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !types.Identical(types.Unalias(deref(fa.X.Type())), l.orT) {
		return false
	}
	ft := deref(fa.Type())
	return types.Identical(types.Unalias(ft), l.stT) || types.Identical(types.Unalias(deref(ft)), l.stT)
}

func (l *lockFlow) taintOf(f *ssa.Function, mask string) *taintSum {
	key := fmt.Sprintf("%p|%s", f, mask)
	if s := l.taint[key]; s != nil {
		return s
	}
	s := &taintSum{t: map[ssa.Value]bool{}, h: map[ssa.Value]bool{}, ret: strings.Repeat("-", f.Signature.Results().Len())}
	l.taint[key] = s
	k := 0
	for _, p := range f.Params {
		if k < len(mask) && mask[k] == 'T' {
			s.t[p] = true
		}
		k++
	}
	for _, p := range f.FreeVars {
		if k < len(mask) {
			switch mask[k] {
			case 'T':
				s.t[p] = true
			case 'H':
				s.h[p] = true
			}
		}
		k++
	}
	base := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return v
			}
		}
	}
	for changed := true; changed; {
		changed = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if s.t[x.X] {
						set(s.t, x)
					}
					if s.h[x.X] {
						set(s.h, x)
					}
					if l.stateField(x) && types.Identical(types.Unalias(deref(x.Type())), l.stT) {
						set(s.t, x)
					}
				case *ssa.IndexAddr:
					if s.t[x.X] {
						set(s.t, x)
					}
					if s.h[x.X] {
						set(s.h, x)
					}
				case *ssa.UnOp:
					if x.Op != token.MUL || !refT(x.Type()) {
						continue
					}
					if s.t[x.X] || l.stateField(x.X) || s.h[x.X] && base(x.X) == x.X && !isMapOrSlice(x.Type()) {
						set(s.t, x)
					} else if s.h[x.X] {
						set(s.h, x)
					}
				case *ssa.Lookup:
					if (s.t[x.X] || s.h[x.X]) && refT(x.Type()) {
						set(s.t, x)
					}
				case *ssa.Index:
					if (s.t[x.X] || s.h[x.X]) && refT(x.Type()) {
						set(s.t, x)
					}
				case *ssa.Field:
					if s.t[x.X] && refT(x.Type()) {
						set(s.t, x)
					}
				case *ssa.Range:
					if s.t[x.X] || s.h[x.X] {
						set(s.t, x)
					}
				case *ssa.Next:
					if s.t[x.Iter] {
						set(s.t, x)
					}
				case *ssa.Extract:
					if !refT(x.Type()) {
						continue
					}
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if r := l.retTaint(f, c, s); x.Index < len(r) && r[x.Index] == 'T' {
							set(s.t, x)
						}
						continue
					}
					if s.t[x.Tuple] {
						set(s.t, x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if s.t[e] {
							set(s.t, x)
						}
						if s.h[e] {
							set(s.h, x)
						}
					}
				case *ssa.ChangeType:
					if s.t[x.X] {
						set(s.t, x)
					}
				case *ssa.ChangeInterface:
					if s.t[x.X] {
						set(s.t, x)
					}
				case *ssa.MakeInterface:
					if s.t[x.X] && refT(x.X.Type()) {
						set(s.t, x)
					}
				case *ssa.TypeAssert:
					if s.t[x.X] && refT(x.Type()) {
						set(s.t, x)
					}
				case *ssa.Slice:
					if s.t[x.X] {
						set(s.t, x)
					}
					if s.h[x.X] {
						set(s.h, x)
					}
				case *ssa.Store:
					if (s.t[x.Val] || s.h[x.Val]) && refT(x.Val.Type()) && !s.t[x.Addr] && !l.stateField(x.Addr) {
						b := base(x.Addr)
						if s.t[x.Val] && b == x.Addr && isMapOrSlice(x.Val.Type()) {
							// a variable that is an alias of a map or list of the state
							set(s.h, b)
							set(s.t, aliasMark{b})
						} else {
							set(s.h, b)
						}
					}
				case *ssa.MapUpdate:
					if s.t[x.Value] && !s.t[x.Map] {
						set(s.h, x.Map)
					}
				case *ssa.Call:
					if x.Call.Signature().Results().Len() == 1 && refT(x.Type()) {
						if r := l.retTaint(f, x, s); r == "T" {
							set(s.t, x)
						}
					}
				case *ssa.Return:
					r := []byte(s.ret)
					for k, v := range x.Results {
						if s.t[v] && refT(v.Type()) && r[k] != 'T' {
							r[k] = 'T'
							changed = true
						}
					}
					s.ret = string(r)
				}
				// loads of a variable that aliases a map or list of the state
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && s.t[aliasMark{u.X}] {
					set(s.t, u)
				}
			}
		}
	}
	s.done = true
	return s
}

// aliasMark marks a variable whose own value is a map or list of the state
type aliasMark struct{ ssa.Value }

func isMapOrSlice(t types.Type) bool {
	switch under(t).(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

func (l *lockFlow) retTaint(f *ssa.Function, c *ssa.Call, s *taintSum) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && s.t[c.Call.Args[0]] {
			return "T"
		}
		return "-"
	}
	if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*math/big.Int).") {
		// the arithmetic methods give their receiver
		if len(c.Call.Args) > 0 && s.t[c.Call.Args[0]] && isBig(deref(c.Type())) {
			return "T"
		}
		return "-"
	}
	r := strings.Repeat("-", c.Call.Signature().Results().Len())
	for _, t := range l.targets(&c.Call, f) {
		x := l.taintOf(t, l.maskFor(t, &c.Call, s)).ret
		b := []byte(r)
		for k := range b {
			if k < len(x) && x[k] == 'T' {
				b[k] = 'T'
			}
		}
		r = string(b)
	}
	return r
}

// maskFor: which parameters and captured variables of t reach into the state at a call
func (l *lockFlow) maskFor(t *ssa.Function, c *ssa.CallCommon, s *taintSum) string {
	var b []byte
	as := c.Args
	if c.IsInvoke() {
		as = append([]ssa.Value{c.Value}, as...)
	}
	for k := range t.Params {
		x := byte('-')
		if k < len(as) && s.t[as[k]] && refT(as[k].Type()) {
			x = 'T'
		}
		b = append(b, x)
	}
	return string(b) + l.bindMask(t, c.Value, s)
}

func (l *lockFlow) bindMask(t *ssa.Function, v ssa.Value, s *taintSum) string {
	var b []byte
	mc, _ := v.(*ssa.MakeClosure)
	for k, fv := range t.FreeVars {
		x := byte('-')
		var bd ssa.Value
		if mc != nil && mc.Fn == t && k < len(mc.Bindings) {
			bd = mc.Bindings[k]
		} else if bs := bindingsOf(fv); len(bs) > 0 {
			bd = bs[0]
		}
		if bd != nil {
			if s.t[bd] {
				x = 'T'
			} else if s.h[bd] {
				x = 'H'
			}
		}
		b = append(b, x)
	}
	return string(b)
}

func (l *lockFlow) closureMask(t *ssa.Function, v ssa.Value, s *taintSum) string {
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
			continue
		}
		if m, ok := v.(*ssa.ChangeType); ok {
			v = m.X
			continue
		}
		break
	}
	return strings.Repeat("-", len(t.Params)) + l.bindMask(t, v, s)
}

var bigMut = map[string]bool{"Abs": true, "Add": true, "And": true, "AndNot": true, "Binomial": true, "Div": true, "DivMod": true, "Exp": true, "GCD": true, "GobDecode": true, "Lsh": true, "Mod": true, "ModInverse": true, "ModSqrt": true, "Mul": true, "MulRange": true, "Neg": true, "Not": true, "Or": true, "Quo": true, "QuoRem": true, "Rand": true, "Rem": true, "Rsh": true, "Scan": true, "Set": true, "SetBit": true, "SetBits": true, "SetBytes": true, "SetInt64": true, "SetString": true, "SetUint64": true, "Sqrt": true, "Sub": true, "UnmarshalJSON": true, "UnmarshalText": true, "Xor": true}

// wrote judges an instruction that changes the live state
func (l *lockFlow) wrote(f *ssa.Function, i ssa.Instruction, s lstate, ta *taintSum) {
	what := ""
	switch x := i.(type) {
	case *ssa.Store:
		if l.stateField(x.Addr) {
			if _, fresh := x.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); fresh {
				return
			}
			what = "replaces the state"
		} else if ta.t[x.Addr] {
			what = "stores to " + x.Addr.Type().String()
		}
	case *ssa.MapUpdate:
		if ta.t[x.Map] {
			what = "puts an entry into a map of the state"
		}
	case ssa.CallInstruction:
		if _, ok := i.(*ssa.Defer); ok {
			return
		}
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				if ta.t[c.Args[0]] {
					what = b.Name() + "s from the state"
				}
			}
		} else if g := c.StaticCallee(); g != nil && !c.IsInvoke() {
			n := g.String()
			switch {
			case strings.HasPrefix(n, "(*math/big.Int).") && bigMut[g.Name()]:
				if len(c.Args) > 0 && ta.t[c.Args[0]] {
					what = "changes an amount of the state with " + g.Name()
				}
			case n == "encoding/json.Unmarshal" || strings.HasSuffix(n, ".Decoder).Decode") || n == modPath+"/utils.DeepCopy" || strings.HasPrefix(n, "maps.Copy") || strings.HasPrefix(n, "maps.DeleteFunc") || strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort"):
				k := 0
				if n == "encoding/json.Unmarshal" || n == modPath+"/utils.DeepCopy" || strings.HasSuffix(n, ".Decoder).Decode") {
					k = 1
				}
				if k < len(c.Args) && (ta.t[c.Args[k]] || l.stateArg(c.Args[k])) {
					what = "writes into the state with " + g.Name()
				}
			}
		}
	}
	if what == "" {
		return
	}
	pos := l.c.P.posOf(i)
	l.nWr[pos] = true
	l.c.Touch(f)
	if !s.started {
		l.c.Ok(lrWr, 1)
		return
	}
	ok := false
	for id, k := range l.locks {
		if strings.HasPrefix(id, types.TypeString(l.orT, nil)+".") && k < len(s.m) && s.m[k] == 'W' {
			ok = true
		}
	}
	l.c.Check(ok, lrWr, shortName(f)+" "+what, pos, "%s %s while other goroutines run, on a path that does not hold the state's lock for writing", shortName(f), what)
}

func (l *lockFlow) stateArg(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return l.stateField(v)
	}
}

func newLockFlow(c *Ctx) *lockFlow {
	l := &lockFlow{c: c, locks: map[string]int{}, memo: map[string]*lockSum{}, taint: map[string]*taintSum{}, addr: map[string][]*ssa.Function{}, store: map[string][]ssa.Value{}, args: map[*ssa.Function][][]ssa.Value{}, roots: map[string]bool{}, nWr: map[string]bool{}}
	called := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if k := cellName(s.Addr); k != "" {
						if _, ok := under(s.Val.Type()).(*types.Signature); ok {
							l.store[k] = append(l.store[k], s.Val)
						}
					}
				}
				ci, isCall := i.(ssa.CallInstruction)
				if isCall {
					if t := ci.Common().StaticCallee(); t != nil {
						called[t] = true
						l.args[t] = append(l.args[t], ci.Common().Args)
					}
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Blocks == nil || isCall && ci.Common().Value == g {
						continue
					}
					if mc, ok := i.(*ssa.MakeClosure); ok && onlyCalled(mc) {
						continue
					}
					l.addr[sigKey(g.Type())] = append(l.addr[sigKey(g.Type())], g)
				}
			}
		}
	}
	l.called = called
	return l
}

func runC22(c *Ctx) {
	l := newLockFlow(c)
	called := l.called
	l.orT, l.stT = c.named("oracle", "Oracle"), c.named("oracle", "OracleState")
	// the locks of the module's types
	st := under(l.orT).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if t := st.Field(i).Type(); isLockT(t) || isLockT(deref(t)) {
			l.idx(types.TypeString(l.orT, nil) + "." + st.Field(i).Name())
		}
	}
	if len(l.names) == 0 {
		c.Fail("coverage", "state lock", "-", "the oracle has no lock: the analysis lost its subject")
		return
	}
	for _, f := range c.P.Funcs {
		// value receivers and parameters that hold a lock
		if inModule(f) && f.Synthetic == "" && f.Parent() == nil {
			ok := true
			for _, p := range f.Params {
				if holdsLock(p.Type(), 0) {
					ok = false
				}
			}
			c.Check(ok, lrCpy, shortName(f), c.P.pos(f.Pos()), "takes a value that holds a lock: it works on a copy of the lock, which guards nothing")
		}
	}
	// entry points: main, initialisers, what no function of the module calls
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || f.Parent() != nil || !inModule(f) || f.Synthetic != "" || fnPkg(f) == modPath+"/contract" {
			continue
		}
		if f.Name() == "main" && f.Signature.Recv() == nil && fnPkg(f) == modPath {
			l.root(f, false, "")
		} else if !called[f] {
			l.root(f, len(l.lockUse(f)) > 0 || f.Signature.Recv() != nil, "")
		}
	}
	n := 0
	for len(l.queue) > 0 {
		r := l.queue[0]
		l.queue = l.queue[1:]
		n++
		for k := range l.run(r.f, "", r.started, r.mask, 0) {
			m := strings.TrimSuffix(k, "+")
			c.Check(strings.Trim(m, "U") == "", lrOut, shortName(r.f), c.P.pos(r.f.Pos()), "returns to its caller outside the module, or ends its goroutine, with a lock held")
		}
	}
	// each function that uses a lock, entered without one: an entry point of its own
	users := 0
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || !inModule(f) {
			continue
		}
		if ops := l.lockUse(f); len(ops) > 0 {
			users++
			c.Ok(lrBal, len(ops))
			if f.Parent() == nil && f.Synthetic == "" && ast(f) {
				for k := range l.run(f, "", true, strings.Repeat("-", len(f.Params)+len(f.FreeVars)), 0) {
					c.Check(strings.Trim(strings.TrimSuffix(k, "+"), "U") == "", lrOut, shortName(f), c.P.pos(f.Pos()), "is exported and returns with a lock held")
				}
			}
		}
	}
	c.Check(users >= 6, "coverage", "functions that take a lock", "-", "only %d functions of the module use a lock: the analysis lost its subject", users)
	c.Check(len(l.nWr) >= 20, "coverage", "writes to the state", "-", "only %d places that change the state were found: the analysis lost its subject", len(l.nWr))
	c.Check(n >= 20, "coverage", "entry points", "-", "only %d entry points were found", n)
	if c.dbg {
		fmt.Println("roots", n, "lock ops", l.nOps, "write sites", len(l.nWr), "calls followed", l.nCall, "contexts", len(l.memo), "locks", l.names)
	}
}

func ast(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

// lockUse: the lock operations in a function's own body
func (l *lockFlow) lockUse(f *ssa.Function) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if _, op := l.lockOp(ci.Common()); op != "" {
					r = append(r, i)
				}
			}
		}
	}
	return r
}

func init() {
	register(&Rule{id: "C22", title: "state locks are always released and never re-entered",
		explain: "a typestate analysis over the SSA of the whole program: from main, every goroutine, every handler and callback handed to another module and every function nothing calls, the mode (free, read, write) of every lock is followed along all paths, through calls (callees entered in the caller's mode, results kept per entry mode), deferred calls, closures, functions stored in fields and interface methods. Taking a lock that the path holds in any mode, releasing one it does not hold in that mode, and a way out that leaves a lock held are violations. A second dataflow analysis finds, per calling context, which values point into the live state: once a goroutine may run, every store, map update, delete, change of an amount and decoding into it must happen on paths that hold the oracle's lock for writing. No value that holds a lock may be copied, receivers included.",
		run:     runC22, minOblig: 100,
		assume: []string{"there is one Oracle, so a lock is identified by its type's field", "locks are not released by recovering from panics: no function of the module recovers"}})
}

func inModulePath(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// onlyCalled: the closure is called where it is made and goes nowhere else
func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != mc {
			return false
		}
		for _, a := range c.Common().Args {
			if a == mc {
				return false
			}
		}
	}
	return true
}
