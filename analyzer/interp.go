package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter over the SSA of the module. Values are value
// numbers (polynomials, string terms, abstract heap references); branches decided by
// the assumed entry facts are followed, the others are analysed on both sides and
// joined at the immediate post-dominator with gated values.
type Interp struct {
	P        *Prog
	nobj     int
	syms     map[string]*Obj
	bytePart map[string]SPart // single bytes by the name of their number
	byteNum  map[string]*Num
	init     map[string]Val // values of named entry locations
	base     map[cellKey]Val
	cellTyp  map[cellKey]types.Type
	rng      map[string]rng
	polyOf   map[string]*Poly
	facts    map[string]bool // global facts
	uniq     map[string]bool // string classes pairwise distinct and distinct from literals
	nonEmpty map[string]bool
	decOf    map[string]*Num
	notes    []string
	ends     []End
	steps    int
	depth    int
	onMap    func(st *State, o *Obj) // observes uses of maps
	frames   int
	reverse  bool // map iteration order
	flip     bool // opposite of it
	hook     func(c *Call) (Val, bool)
	onRecv   func(st *State, pos string) bool
	bindings bool                                                      // interpret the contract bindings too
	onRecvV  func(st *State, chans []Val, pos string) (int, Val, bool) // which channel gives what
	onGo     func(st *State, f Val, name string, args []Val, pos string)
	mutInit  map[cellKey]Val // initial values of reassigned package-level variables
	attempts int             // attempts retry.Do makes when its options do not say
	fail     map[string]bool // "name" or "name#n": this external call returns an error
	ncall    map[string]int
	bmaps    map[*Obj]*mapC
	snaps    map[string]snapshot
	bufs     map[string]*Obj
	failSite string
	stack    []*ssa.Function
	onStore  func(st *State, o *Obj, path string)
	visited  map[*ssa.Function]bool
	rank     map[string]int // order of string atoms
	ndist    int
	ub       map[string]*Poly // quotient atom -> upper bound
}

// Call describes a call being made, for hooks and models.
type Call struct {
	I    *Interp
	st   *State
	name string // full name
	args []Val
	sig  *types.Signature
	pos  string
	fn   *ssa.Function
	in   *ssa.Function // caller
}

func NewInterp(P *Prog) *Interp {
	I := &Interp{P: P, bytePart: map[string]SPart{}, byteNum: map[string]*Num{}, syms: map[string]*Obj{}, init: map[string]Val{}, base: map[cellKey]Val{}, cellTyp: map[cellKey]types.Type{},
		rng: map[string]rng{}, polyOf: map[string]*Poly{}, facts: map[string]bool{}, uniq: map[string]bool{}, nonEmpty: map[string]bool{}, decOf: map[string]*Num{},
		fail: map[string]bool{}, ncall: map[string]int{}, visited: map[*ssa.Function]bool{}, rank: map[string]int{}, ub: map[string]*Poly{}}
	return I
}

const maxSteps = 4000000

type frame struct {
	fn    *ssa.Function
	id    int
	free  []Val
	visit map[*ssa.BasicBlock]int
}

type arrival struct {
	st  *State
	env map[ssa.Value]Val
}
type retv struct {
	st *State
	v  Val
}

func cloneEnv(e map[ssa.Value]Val) map[ssa.Value]Val {
	r := make(map[ssa.Value]Val, len(e))
	for k, v := range e {
		r[k] = v
	}
	return r
}

// run analyses a call of fn. The state is replaced by the joined exit state;
// a dead state means that no path returns.
func (I *Interp) run(st *State, fn *ssa.Function, args, free []Val, pos string) Val {
	if fn.Blocks == nil {
		panic("no body: " + fn.String())
	}
	if I.depth > 60 {
		I.note(st, "call depth exceeded in "+fn.String(), pos)
		return I.results(st, fn.Signature, "deep:"+fn.String())
	}
	I.visited[fn] = true
	I.depth++
	I.frames++
	I.stack = append(I.stack, fn)
	fr := &frame{fn: fn, id: I.frames, free: free, visit: map[*ssa.BasicBlock]int{}}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = I.symVal(fn.Name()+"."+p.Name(), p.Type())
		}
	}
	_, ret := I.region(fr, fn.Blocks[0], nil, nil, st.clone(), env)
	I.depth--
	I.stack = I.stack[:len(I.stack)-1]
	if ret == nil {
		st.dead = true
		return I.zeroResults(fn.Signature)
	}
	*st = *ret.st
	return ret.v
}

func (I *Interp) zeroResults(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return &Tuple{}
	case 1:
		return I.zero(sig.Results().At(0).Type())
	}
	t := &Tuple{}
	for i := 0; i < sig.Results().Len(); i++ {
		t.v = append(t.v, I.zero(sig.Results().At(i).Type()))
	}
	return t
}

// results builds unknown results for a call named name
func (I *Interp) results(st *State, sig *types.Signature, name string) Val {
	n := sig.Results().Len()
	if n == 0 {
		return &Tuple{}
	}
	t := &Tuple{}
	for i := 0; i < n; i++ {
		ty := sig.Results().At(i).Type()
		nm := name
		if n > 1 && i > 0 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		if types.Identical(ty, errType) {
			t.v = append(t.v, VNil{})
		} else {
			t.v = append(t.v, I.symVal(nm, ty))
		}
	}
	if n == 1 {
		return t.v[0]
	}
	return t
}

var errType = types.Universe.Lookup("error").Type()

func mergeRet(I *Interp, v Val, forkLen int, a, b *retv) *retv {
	if a == nil || a.st == nil || a.st.dead {
		return b
	}
	if b == nil || b.st == nil || b.st.dead {
		return a
	}
	c := condOf(v)
	va, vb := a.v, b.v
	st := I.merge(v, forkLen, a.st, b.st)
	if x, ok := v.(*Cond); ok && x.neg {
		va, vb = vb, va
	}
	return &retv{st, mkIte(c, va, vb)}
}

func (I *Interp) region(fr *frame, b, prev, stop *ssa.BasicBlock, st *State, env map[ssa.Value]Val) (*arrival, *retv) {
	phisDone := prev == nil && len(b.Preds) > 0 && b.Index != 0
	for {
		if !phisDone && prev != nil {
			idx := -1
			for i, p := range b.Preds {
				if p == prev {
					idx = i
				}
			}
			var vals []Val
			var phis []*ssa.Phi
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, I.val(st, fr, env, ph.Edges[idx]))
			}
			for i, ph := range phis {
				env[ph] = vals[i]
			}
		}
		phisDone = false
		if b == stop {
			return &arrival{st, env}, nil
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			I.steps++
			if why := exhausted.Load(); why != nil {
				panic(undecided(*why + " in " + fr.fn.String()))
			}
			if I.steps > maxSteps {
				panic(undecided("step budget exhausted in " + fr.fn.String()))
			}
			switch x := ins.(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				v := I.decide(st, I.val(st, fr, env, x.Cond))
				if d, ok := v.(VBool); ok {
					if d {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				if trace {
					println("  open:", I.P.posOf(ins), v.key())
				}
				fr.visit[b]++
				lim := 4
				if fr.visit[b] > lim && I.inLoop(b) {
					I.note(st, "loop bound is not decided by the entry facts", I.P.posOf(ins))
					exit := I.loopExit(b)
					I.assume(st, v, exit == 0)
					next = b.Succs[exit]
					break
				}
				ip := ipdom(fr.fn)[b]
				fork := len(st.trace)
				sT, sF := st.clone(), st.clone()
				I.assume(sT, v, true)
				I.assume(sF, v, false)
				var aT, aF *arrival
				var rT, rF *retv
				if !sT.dead {
					aT, rT = I.region(fr, b.Succs[0], b, ip, sT, cloneEnv(env))
				}
				if !sF.dead {
					aF, rF = I.region(fr, b.Succs[1], b, ip, sF, cloneEnv(env))
				}
				if ip == nil {
					return nil, mergeRet(I, v, fork, rT, rF)
				}
				if aT == nil && aF == nil {
					return nil, mergeRet(I, v, fork, rT, rF)
				}
				if aT == nil {
					st, env = aF.st, aF.env
				} else if aF == nil {
					st, env = aT.st, aT.env
				} else {
					st = I.merge(v, fork, aT.st, aF.st)
					c := condOf(v)
					neg := false
					if y, ok := v.(*Cond); ok && y.neg {
						neg = true
					}
					env = aT.env
					for _, i2 := range ip.Instrs {
						ph, ok := i2.(*ssa.Phi)
						if !ok {
							break
						}
						if neg {
							env[ph] = mkIte(c, aF.env[ph], aT.env[ph])
						} else {
							env[ph] = mkIte(c, aT.env[ph], aF.env[ph])
						}
					}
				}
				if ip == stop {
					return &arrival{st, env}, nil
				}
				b, prev = ip, nil
				phisDone = true
				next = nil
			case *ssa.Return:
				var v Val
				switch len(x.Results) {
				case 0:
					v = &Tuple{}
				case 1:
					v = I.val(st, fr, env, x.Results[0])
				default:
					t := &Tuple{}
					for _, r := range x.Results {
						t.v = append(t.v, I.val(st, fr, env, r))
					}
					v = t
				}
				delete(st.defs, fr.id)
				return nil, &retv{st, v}
			case *ssa.Panic:
				I.panicNow(st, "panic("+I.val(st, fr, env, x.X).key()+")", I.P.posOf(ins))
				return nil, nil
			default:
				I.instr(st, fr, env, ins)
			}
			if st.dead {
				return nil, nil
			}
			if phisDone {
				break
			}
		}
		if phisDone {
			continue
		}
		if next == nil {
			return nil, nil
		}
		prev, b = b, next
	}
}

type undecided string

// ---- control-flow helpers

var ipdomCache = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

func ipdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := ipdomCache[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	exit := n
	succ := make([][]int, n+1)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			succ[b.Index] = append(succ[b.Index], s.Index)
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				succ[b.Index] = append(succ[b.Index], exit)
			}
		}
	}
	// blocks that cannot reach the exit (infinite loops): connect them
	reach := make([]bool, n+1)
	calc := func() {
		for i := range reach {
			reach[i] = false
		}
		reach[exit] = true
		for ch := true; ch; {
			ch = false
			for i := 0; i < n; i++ {
				if reach[i] {
					continue
				}
				for _, s := range succ[i] {
					if reach[s] {
						reach[i] = true
						ch = true
						break
					}
				}
			}
		}
	}
	calc()
	for _, b := range fn.Blocks {
		if !reach[b.Index] && len(b.Succs) > 0 && inLoopB(b) {
			succ[b.Index] = append(succ[b.Index], exit)
			calc()
		}
	}
	// iterative post-dominator sets
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i <= n; i++ {
		pd[i] = append([]uint64{}, full...)
	}
	for i := range pd[exit] {
		pd[exit][i] = 0
	}
	pd[exit][exit/64] |= 1 << (exit % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] {
				continue
			}
			nw := append([]uint64{}, full...)
			for _, s := range succ[i] {
				if !reach[s] {
					continue
				}
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(v []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if v[i/64]&(1<<(i%64)) != 0 {
				c++
			}
		}
		return c
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		i := b.Index
		if !reach[i] {
			continue
		}
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]&(1<<(j%64)) != 0 {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 && best < n {
			m[b] = fn.Blocks[best]
		}
	}
	ipdomCache[fn] = m
	return m
}

func inLoopB(b *ssa.BasicBlock) bool { return reaches(b.Succs, b, nil) }
func reaches(from []*ssa.BasicBlock, to *ssa.BasicBlock, skip *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w []*ssa.BasicBlock
	w = append(w, from...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if seen[x] || x == skip {
			continue
		}
		seen[x] = true
		if x == to {
			return true
		}
		w = append(w, x.Succs...)
	}
	return false
}
func (I *Interp) inLoop(b *ssa.BasicBlock) bool { return inLoopB(b) }
func (I *Interp) loopExit(b *ssa.BasicBlock) int {
	for i, s := range b.Succs {
		if !reaches([]*ssa.BasicBlock{s}, b, nil) {
			return i
		}
	}
	return 1
}

// ---- values

func (I *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return I.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.String:
		return strC(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &Sym{t: "f:" + c.Value.ExactString(), nn: true}
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			n = big.NewInt(0)
		}
		return &Num{polyConst(n)}
	}
	if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return &Num{polyConst(n)}
		}
	}
	return &Sym{t: "f:" + c.Value.ExactString(), nn: true}
}

func (I *Interp) val(st *State, fr *frame, env map[ssa.Value]Val, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return I.constVal(x)
	case *ssa.Global:
		return &Ptr{I.globalObj(x), ""}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
			}
		}
		return &Ptr{I.symObj(fr.fn.Name()+"."+x.Name(), deref(x.Type())), ""}
	case *ssa.Builtin:
		return &Sym{t: "builtin:" + x.Name(), nn: true}
	}
	if r, ok := env[v]; ok {
		return I.res(st, r)
	}
	panic(undecided(fmt.Sprintf("value %s of %s has no abstract value", v.Name(), fr.fn)))
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (I *Interp) globalObj(g *ssa.Global) *Obj {
	return I.symObj("global:"+g.String(), deref(g.Type()))
}

func (I *Interp) fieldAddr(st *State, a Val, name, pos string) Val {
	return I.dist(st, a, func(a Val) Val {
		switch p := a.(type) {
		case *Ptr:
			return &Ptr{p.o, p.path + "." + name}
		case VNil:
			return VNil{}
		case *Sym:
			return &Ptr{I.symObj(p.t, nil), "." + name}
		}
		I.note(st, "field of unknown pointer "+a.key(), pos)
		return &Ptr{I.symObj(a.key(), nil), "." + name}
	})
}

func (I *Interp) instr(st *State, fr *frame, env map[ssa.Value]Val, ins ssa.Instruction) {
	pos := I.P.posOf(ins)
	V := func(v ssa.Value) Val { return I.val(st, fr, env, v) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := I.newObj(st, deref(x.Type()), shortName(fr.fn)+"."+x.Comment)
		env[x] = &Ptr{o, ""}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && !inModulePath(g.Pkg.Pkg) && types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
				// a library's error value (os.ErrNotExist, io.EOF): some error, never nil
				env[x] = &Sym{t: "global:" + g.String(), err: true, nn: true}
				return
			}
			if g, ok := x.X.(*ssa.Global); ok && (g.String() == "os.Interrupt" || g.String() == "os.Kill") {
				n := int64(2)
				if g.String() == "os.Kill" {
					n = 9
				}
				if sp := g.Pkg.Prog.ImportedPackage("syscall"); sp != nil {
					if t := sp.Type("Signal"); t != nil {
						env[x] = &Iface{t.Type(), numI(n)}
						return
					}
				}
			}
			env[x] = I.load(st, V(x.X), x.Type(), pos)
		case token.NOT:
			env[x] = I.decide(st, notV(I.decide(st, V(x.X))))
		case token.SUB:
			env[x] = I.dist(st, V(x.X), func(v Val) Val {
				if n, ok := v.(*Num); ok {
					return nSub(numI(0), n)
				}
				return &Sym{t: "neg(" + v.key() + ")", nn: true}
			})
		case token.ARROW:
			st.trace = append(st.trace, Event{kind: "recv", name: V(x.X).key(), pos: pos})
			if I.onRecvV != nil {
				if _, v, ok := I.onRecvV(st, []Val{V(x.X)}, pos); ok {
					if x.CommaOk {
						v = &Tuple{[]Val{v, VBool(true)}}
					}
					env[x] = v
					break
				}
			}
			if I.onRecv != nil && I.onRecv(st, pos) {
				break
			}
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				env[x] = &Tuple{[]Val{I.symVal("recv("+V(x.X).key()+")", tt.At(0).Type()), VBool(true)}}
			} else {
				env[x] = I.symVal("recv("+V(x.X).key()+")", x.Type())
			}
		default:
			env[x] = &Sym{t: x.Op.String() + V(x.X).key(), nn: true}
		}
	case *ssa.BinOp:
		env[x] = I.binop(st, x.Op, V(x.X), V(x.Y), x.X.Type(), pos)
	case *ssa.Store:
		I.store(st, V(x.Addr), x.Val.Type(), V(x.Val), pos)
	case *ssa.FieldAddr:
		f := under(deref(x.X.Type())).(*types.Struct).Field(x.Field)
		a := V(x.X)
		if isNilV(I.res(st, a)) {
			I.panicNow(st, "nil dereference", pos)
			return
		}
		env[x] = I.fieldAddr(st, a, f.Name(), pos)
		if p, ok := env[x].(*Ptr); ok && p.o.typ == nil {
			p.o.typ = deref(x.X.Type())
		}
	case *ssa.Field:
		st0, _ := under(x.X.Type()).(*types.Struct)
		f := st0.Field(x.Field)
		env[x] = I.dist(st, V(x.X), func(v Val) Val {
			if s, ok := v.(*Struct); ok {
				return s.f[x.Field]
			}
			return I.symVal(v.key()+"."+f.Name(), f.Type())
		})
	case *ssa.IndexAddr:
		env[x] = I.indexAddr(st, V(x.X), V(x.Index), x.X.Type(), pos)
	case *ssa.Index:
		env[x] = I.index(st, V(x.X), V(x.Index), x.X.Type(), x.Type(), pos)
	case *ssa.Lookup:
		env[x] = I.lookup(st, V(x.X), V(x.Index), x.X.Type(), x.CommaOk, pos)
	case *ssa.MapUpdate:
		I.mapUpdate(st, V(x.Map), V(x.Key), V(x.Value), pos)
	case *ssa.MakeMap:
		o := I.newObj(st, x.Type(), shortName(fr.fn)+".map")
		st.maps[o] = &mapC{}
		env[x] = &MapV{o}
	case *ssa.MakeSlice:
		n, ok := V(x.Len).(*Num)
		if byteSlice(x.Type()) {
			if k, ok2 := n.int(); ok && ok2 {
				env[x] = strC(strings.Repeat("\x00", k))
			} else {
				env[x] = strAtom("bytes(" + V(x.Len).key() + ")")
			}
			break
		}
		o := I.newObj(st, x.Type(), shortName(fr.fn)+".make")
		o.elem = under(x.Type()).(*types.Slice).Elem()
		if ok {
			if k, ok := n.int(); ok {
				env[x] = &SliceV{o: o, len: k}
				break
			}
		}
		env[x] = &Sym{t: "make(" + V(x.Len).key() + ")"}
	case *ssa.MakeChan:
		env[x] = &Sym{t: fmt.Sprintf("chan@%s", pos), nn: true}
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, V(b))
		}
		env[x] = f
	case *ssa.MakeInterface:
		v := V(x.X)
		if _, ok := v.(*Ite); ok {
			env[x] = I.dist(st, v, func(v Val) Val { return &Iface{x.X.Type(), v} })
		} else {
			env[x] = &Iface{x.X.Type(), v}
		}
	case *ssa.ChangeInterface:
		env[x] = V(x.X)
	case *ssa.ChangeType:
		env[x] = V(x.X)
	case *ssa.Convert:
		env[x] = I.convert(st, V(x.X), x.X.Type(), x.Type(), pos)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		env[ins.(ssa.Value)] = &Sym{t: "conv@" + pos, nn: true}
	case *ssa.TypeAssert:
		env[x] = I.typeAssert(st, V(x.X), x, pos)
	case *ssa.Slice:
		env[x] = I.slice(st, fr, env, x, pos)
	case *ssa.Extract:
		env[x] = I.dist(st, V(x.Tuple), func(v Val) Val {
			if t, ok := v.(*Tuple); ok && x.Index < len(t.v) {
				return t.v[x.Index]
			}
			return I.symVal(fmt.Sprintf("%s.%d", v.key(), x.Index), x.Type())
		})
	case *ssa.Range:
		env[x] = I.rangeOver(st, V(x.X), pos)
	case *ssa.Next:
		env[x] = I.next(st, V(x.Iter), x, pos)
	case *ssa.Call:
		env[x] = I.call(st, fr, env, &x.Call, pos)
	case *ssa.Defer:
		f, args, nm := I.callee(st, fr, env, &x.Call, pos)
		cc := x.Call
		st.trace = append(st.trace, Event{kind: "defer", name: nm, args: args, pos: pos})
		st.defs[fr.id] = append(st.defs[fr.id], func(s *State) { I.invoke(s, fr.fn, f, args, nm, &cc, pos) })
	case *ssa.RunDefers:
		ds := st.defs[fr.id]
		for i := len(ds) - 1; i >= 0 && !st.dead; i-- {
			ds[i](st)
		}
		delete(st.defs, fr.id)
	case *ssa.Go:
		f, args, nm := I.callee(st, fr, env, &x.Call, pos)
		st.trace = append(st.trace, Event{kind: "go", name: nm, args: args, pos: pos})
		if I.onGo != nil {
			I.onGo(st, f, nm, args, pos)
		}
	case *ssa.Send:
		st.trace = append(st.trace, Event{kind: "send", name: V(x.Chan).key(), args: []Val{V(x.X)}, pos: pos})
	case *ssa.Select:
		if I.onRecvV != nil {
			var chs []Val
			for _, q := range x.States {
				var ch Val = VNil{}
				if q.Dir == types.RecvOnly {
					ch = V(q.Chan)
				}
				chs = append(chs, ch)
			}
			if k, v, ok := I.onRecvV(st, chs, pos); ok {
				tt := x.Type().(*types.Tuple)
				t := &Tuple{[]Val{numI(int64(k)), VBool(true)}}
				n := 0
				for i, q := range x.States {
					if q.Dir != types.RecvOnly {
						continue
					}
					rv := I.zero(tt.At(2 + n).Type())
					if i == k {
						rv = v
					}
					t.v = append(t.v, rv)
					n++
				}
				env[x] = t
				break
			}
			if st.dead {
				break
			}
		}
		if I.onRecv != nil && I.onRecv(st, pos) {
			break
		}
		tt := x.Type().(*types.Tuple)
		t := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			t.v = append(t.v, I.symVal(fmt.Sprintf("select@%s.%d", pos, i), tt.At(i).Type()))
		}
		env[x] = t
	case *ssa.DebugRef:
	default:
		panic(undecided(fmt.Sprintf("instruction %T at %s", ins, pos)))
	}
}

// ---- operators

func (I *Interp) binop(st *State, op token.Token, a, b Val, t types.Type, pos string) Val {
	switch op {
	case token.EQL:
		return I.eqV(st, a, b)
	case token.NEQ:
		return I.decide(st, notV(I.eqV(st, a, b)))
	}
	return I.dist2(st, a, b, func(a, b Val) Val {
		na, oka := a.(*Num)
		nb, okb := b.(*Num)
		if oka && okb {
			switch op {
			case token.LSS:
				return I.decide(st, posV(nSub(nb, na).p))
			case token.GTR:
				return I.decide(st, posV(nSub(na, nb).p))
			case token.LEQ:
				return I.decide(st, notV(posV(nSub(na, nb).p)))
			case token.GEQ:
				return I.decide(st, notV(posV(nSub(nb, na).p)))
			case token.ADD:
				return nAdd(na, nb)
			case token.SUB:
				d := nSub(na, nb)
				if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					if I.mask(st, d.p)&^mNeg == 0 {
						at := "wrap(" + d.key() + ")"
						I.rng[esc(at)] = rng{new(big.Int).Lsh(big.NewInt(1), 62), maxU64}
						return numAtom(at)
					}
				}
				return d
			case token.MUL:
				p := nMul(na, nb)
				if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					_, c1 := na.p.isConst()
					_, c2 := nb.p.isConst()
					if _, hi := I.interval(p.p); !c1 && !c2 && (hi == nil || hi.Cmp(maxU64) > 0) {
						return numAtom("wrap64(" + p.key() + ")")
					}
				}
				return p
			case token.QUO, token.REM:
				m := I.mask(st, nb.p)
				if m == mZero {
					I.panicNow(st, "integer division by zero", pos)
					return numI(0)
				}
				if m&mZero != 0 {
					I.guardedPanic(st, "zero("+nb.key()+")", "integer division by zero", pos)
				}
				if op == token.QUO {
					return I.div(st, na, nb)
				}
				return I.mod(st, na, nb)
			}
			ca, ok1 := na.p.isConst()
			cb, ok2 := nb.p.isConst()
			if ok1 && ok2 && ca.Sign() >= 0 && cb.Sign() >= 0 {
				switch op {
				case token.AND:
					return &Num{polyConst(new(big.Int).And(ca, cb))}
				case token.OR:
					return &Num{polyConst(new(big.Int).Or(ca, cb))}
				case token.XOR:
					return &Num{polyConst(new(big.Int).Xor(ca, cb))}
				case token.SHL:
					return &Num{polyConst(new(big.Int).Lsh(ca, uint(cb.Int64())))}
				case token.SHR:
					return &Num{polyConst(new(big.Int).Rsh(ca, uint(cb.Int64())))}
				}
			}
			return numAtom("(" + na.key() + op.String() + nb.key() + ")")
		}
		sa, oka := a.(*Str)
		sb, okb := b.(*Str)
		if oka && okb {
			switch op {
			case token.ADD:
				return catS(sa, sb)
			case token.LSS:
				return I.strLess(st, sa, sb)
			case token.GTR:
				return I.strLess(st, sb, sa)
			case token.LEQ:
				return notV(I.strLess(st, sb, sa))
			case token.GEQ:
				return notV(I.strLess(st, sa, sb))
			}
		}
		if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			switch op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return I.decide(st, &Cond{t: "f(" + a.key() + op.String() + b.key() + ")"})
			}
		}
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return I.decide(st, &Cond{t: "(" + a.key() + op.String() + b.key() + ")"})
		}
		return &Sym{t: "(" + a.key() + op.String() + b.key() + ")", nn: true}
	})
}

func (I *Interp) strLess(st *State, a, b *Str) Val {
	ca, oka := a.konst()
	cb, okb := b.konst()
	if oka && okb {
		return VBool(ca < cb)
	}
	if a.key() == b.key() {
		return VBool(false)
	}
	// skip the common prefix, then compare ranks of the first differing atoms
	i := 0
	for i < len(a.parts) && i < len(b.parts) {
		x, y := a.parts[i], b.parts[i]
		if x.atom == "" && y.atom == "" && x.c == y.c || x.atom != "" && x.id() == y.id() {
			i++
			continue
		}
		break
	}
	if i < len(a.parts) && i < len(b.parts) {
		ra, ok1 := I.rank[a.parts[i].class()]
		rb, ok2 := I.rank[b.parts[i].class()]
		if ok1 && ok2 {
			return VBool(ra < rb)
		}
	}
	return I.decide(st, &Cond{t: "less(" + a.key() + "," + b.key() + ")"})
}

func (I *Interp) div(st *State, a, b *Num) *Num {
	// x*m / m
	if len(b.p.m) == 1 {
		for k, c := range b.p.m {
			if k != "" && c.Cmp(big.NewInt(1)) == 0 && I.mask(st, b.p)&mZero == 0 {
				q := a.p
				ok := true
				for _, f := range strings.Split(k, "*") {
					if q, ok = divMono(q, f); !ok {
						break
					}
				}
				if ok {
					return &Num{q}
				}
			}
		}
	}
	// (c*q + r) / c with a known 0 <= r < c
	if c, ok := b.p.isConst(); ok && c.Cmp(big.NewInt(1)) > 0 {
		q, rest := &Poly{m: map[string]*big.Int{}}, &Poly{m: map[string]*big.Int{}}
		for k, v := range a.p.m {
			if m := new(big.Int).Rem(v, c); m.Sign() == 0 {
				q.m[k] = new(big.Int).Quo(v, c)
			} else if k == "" {
				d, r := new(big.Int).DivMod(v, c, new(big.Int))
				if d.Sign() != 0 {
					q.m[k] = d
				}
				rest.m[k] = r
			} else {
				rest.m[k] = v
			}
		}
		if len(rest.m) > 0 || len(q.m) > 0 {
			lo, hi := I.interval(rest)
			qlo, _ := I.interval(q)
			if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(c) < 0 && qlo != nil && qlo.Sign() >= 0 {
				return &Num{q}
			}
		}
	}
	r := nDiv(a, b)
	if len(r.p.m) == 1 {
		for k := range r.p.m {
			if strings.HasPrefix(k, "div(") {
				lo, hi := I.interval(a.p)
				bl, _ := I.interval(b.p)
				if (lo != nil && lo.Sign() >= 0 || I.mask(st, a.p)&mNeg == 0) && bl != nil && bl.Sign() >= 0 {
					if _, ok := I.rng[k]; !ok {
						I.rng[k] = rng{big.NewInt(0), hi}
					}
					// (x*f)/c <= x when 0 <= f <= c
					if c, ok := b.p.isConst(); ok && c.Sign() > 0 && I.ub[k] == nil {
						for f, fr := range I.rng {
							if fr.lo == nil || fr.lo.Sign() < 0 || fr.hi == nil || fr.hi.Cmp(c) > 0 {
								continue
							}
							if q, ok := divMono(a.p, f); ok {
								if l, _ := I.interval(q); l != nil && l.Sign() >= 0 || I.mask(st, q)&mNeg == 0 {
									I.ub[k] = q
									break
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

// divMono divides every monomial of p by the atom f
func divMono(p *Poly, f string) (*Poly, bool) {
	r := &Poly{m: map[string]*big.Int{}}
	for k, v := range p.m {
		fs := strings.Split(k, "*")
		hit := false
		var rest []string
		for _, x := range fs {
			if x == f && !hit {
				hit = true
				continue
			}
			rest = append(rest, x)
		}
		if !hit {
			return nil, false
		}
		r.m[strings.Join(rest, "*")] = v
	}
	return r, len(p.m) > 0
}

func (I *Interp) mod(st *State, a, b *Num) *Num {
	// x mod c with a known value: a scenario fact mod(x,c)=k is given as an init value
	k := "mod(" + a.key() + "," + b.key() + ")"
	if v, ok := I.init[k]; ok {
		return v.(*Num)
	}
	return nSub(a, nMul(b, I.div(st, a, b)))
}

func (I *Interp) convert(st *State, v Val, from, to types.Type, pos string) Val {
	return I.dist(st, v, func(v Val) Val {
		ft, _ := under(from).(*types.Basic)
		tt, _ := under(to).(*types.Basic)
		switch x := v.(type) {
		case *Num:
			if tt != nil && tt.Info()&types.IsFloat != 0 {
				return &Sym{t: "f:" + x.key(), nn: true}
			}
			if tt != nil && tt.Info()&types.IsString != 0 {
				return strAtom("rune(" + x.key() + ")")
			}
			if tt != nil && ft != nil && tt.Info()&types.IsInteger != 0 {
				if intBits(tt) < intBits(ft) {
					if c, ok := x.p.isConst(); ok {
						m := new(big.Int).And(c, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(intBits(tt))), big.NewInt(1)))
						if tt.Info()&types.IsUnsigned != 0 {
							return &Num{polyConst(m)}
						}
					} else {
						return numAtom(fmt.Sprintf("%s(%s)", tt.Name(), x.key()))
					}
				}
			}
			return x
		case *Sym:
			if tt != nil && tt.Info()&types.IsInteger != 0 && ft != nil && ft.Info()&types.IsFloat != 0 {
				return numAtom("int(" + x.t + ")")
			}
			return x
		}
		return v
	})
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (I *Interp) typeAssert(st *State, v Val, x *ssa.TypeAssert, pos string) Val {
	return I.dist(st, v, func(v Val) Val {
		mk := func(val Val, ok Val) Val {
			if x.CommaOk {
				return &Tuple{[]Val{val, ok}}
			}
			return val
		}
		if i, ok := v.(*Iface); ok {
			if types.IsInterface(x.AssertedType) {
				if types.Implements(i.t, under(x.AssertedType).(*types.Interface)) {
					return mk(v, VBool(true))
				}
				return mk(VNil{}, VBool(false))
			}
			if types.Identical(i.t, x.AssertedType) {
				return mk(i.v, VBool(true))
			}
			if !x.CommaOk {
				I.panicNow(st, "failed type assertion", pos)
			}
			return mk(I.zero(x.AssertedType), VBool(false))
		}
		if isNilV(v) {
			if !x.CommaOk {
				I.panicNow(st, "failed type assertion", pos)
			}
			return mk(I.zero(x.AssertedType), VBool(false))
		}
		nm := "assert(" + v.key() + "," + types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() }) + ")"
		if i, ok := I.init[nm]; ok {
			return mk(i, VBool(true))
		}
		return mk(I.symVal(nm, x.AssertedType), I.decide(st, &Cond{t: "is" + nm}))
	})
}

// ---- slices

func (I *Interp) elemPath(path string, i int) string { return fmt.Sprintf("%s[%d]", path, i) }

func (I *Interp) indexAddr(st *State, a, idx Val, t types.Type, pos string) Val {
	return I.dist(st, a, func(a Val) Val {
		n, _ := idx.(*Num)
		switch p := a.(type) {
		case *SliceV:
			if n != nil {
				if k, ok := n.int(); ok {
					if k < 0 || k >= p.len {
						I.panicNow(st, "index out of range", pos)
						return VNil{}
					}
					ptr := &Ptr{p.o, I.elemPath(p.path, p.off+k)}
					if _, isSeg := st.cells[cellKey{p.o, ptr.path}].(*SegV); isSeg {
						I.note(st, "index into an unknown list segment", pos)
					}
					return ptr
				}
				if I.mask(st, n.p)&^mNeg == 0 {
					I.panicNow(st, "index out of range", pos)
					return VNil{}
				}
			}
			I.note(st, "undecided slice index "+idx.key(), pos)
			return &Ptr{I.symObj(p.key()+"["+idx.key()+"]", nil), ""}
		case *Ptr: // pointer to array
			if n != nil {
				if k, ok := n.int(); ok {
					if L, ok := byteArr(deref(t)); ok {
						if k < 0 || k >= L {
							I.panicNow(st, "index out of range", pos)
							return VNil{}
						}
						return &Ptr{p.o, byteSlot(p.path, k, L)}
					}
					return &Ptr{p.o, I.elemPath(p.path, k)}
				}
			}
			I.note(st, "undecided array index "+idx.key(), pos)
			return &Ptr{I.symObj(p.key()+"["+idx.key()+"]", nil), ""}
		case *Str: // element of a byte sequence
			if n != nil {
				if k, ok := n.int(); ok {
					if L, ok := p.length(); ok && (k < 0 || k >= L) {
						I.panicNow(st, "index out of range", pos)
						return VNil{}
					}
					if p.back != nil {
						if L, ok := byteArr(deref(p.back.typeOf(I))); ok {
							return &Ptr{p.back.o, byteSlot(p.back.path, p.boff+k, L)}
						}
					}
					o := I.newObj(st, types.Typ[types.Uint8], "byte")
					o.ro = true
					st.cells[cellKey{o, ""}] = I.byteAt(p, k)
					return &Ptr{o, ""}
				}
			}
			return &Ptr{I.symObj(p.key()+"["+idx.key()+"]", nil), ""}
		case *Sym:
			return &Ptr{I.symObj(p.t+"["+idx.key()+"]", nil), ""}
		case VNil:
			I.panicNow(st, "index out of range", pos)
			return VNil{}
		}
		I.note(st, "index of "+a.key(), pos)
		return &Ptr{I.symObj(a.key()+"["+idx.key()+"]", nil), ""}
	})
}

var subAtom = regexp.MustCompile(`^(.*)\[(\d+):(\d+)\]$`)

// byteSlot addresses one byte of a byte array, which is kept as a whole
func byteSlot(path string, k, n int) string { return fmt.Sprintf("%s\x01%d/%d", path, k, n) }
func isByteSlot(path string) (base string, k, n int, ok bool) {
	i := strings.LastIndexByte(path, 1)
	if i < 0 {
		return "", 0, 0, false
	}
	_, err := fmt.Sscanf(path[i+1:], "%d/%d", &k, &n)
	return path[:i], k, n, err == nil
}

// setByte replaces byte k
func (I *Interp) setByte(s *Str, k int, v Val) *Str {
	L, ok := s.length()
	if !ok || k >= L {
		return nil
	}
	var mid *Str
	n, isN := v.(*Num)
	if !isN {
		return nil
	}
	if c, ok := n.int(); ok {
		if c < 0 || c > 255 {
			return nil
		}
		mid = strC(string([]byte{byte(c)}))
	} else if p, ok := I.bytePart[n.key()]; ok {
		mid = &Str{parts: []SPart{p}}
	} else {
		a := "byte:" + n.key()
		I.byteNum[a] = n
		mid = &Str{parts: []SPart{{atom: a, n: 1}}}
	}
	r := &Str{parts: make([]SPart, 0, len(s.parts)+2)}
	add := func(p SPart) {
		if l := len(r.parts); l > 0 && p.atom == "" && r.parts[l-1].atom == "" {
			r.parts[l-1].c += p.c
		} else if p.atom != "" || p.c != "" {
			r.parts = append(r.parts, p)
		}
	}
	off := 0
	for _, p := range s.parts {
		n := p.n
		if p.atom == "" {
			n = len(p.c)
		}
		if k < off || k >= off+n {
			add(p)
		} else {
			one := &Str{parts: []SPart{p}}
			for _, y := range [][2]int{{0, k - off}, {-1, 0}, {k - off + 1, n}} {
				q := mid
				if y[0] >= 0 {
					q = subS(one, y[0], y[1])
				}
				for _, z := range q.parts {
					add(z)
				}
			}
		}
		off += n
	}
	return r
}

func (I *Interp) byteAt(s *Str, k int) Val {
	off := 0
	for _, p := range s.parts {
		n := p.n
		if p.atom == "" {
			n = len(p.c)
		}
		if n < 0 {
			return numAtom(fmt.Sprintf("%s[%d]", s.key(), k))
		}
		if k < off+n {
			if p.atom == "" {
				return numI(int64(p.c[k-off]))
			}
			if v, ok := I.byteNum[p.atom]; ok {
				return v
			}
			at, j := p.id(), k-off
			if m := subAtom.FindStringSubmatch(at); m != nil {
				lo, _ := strconv.Atoi(m[2])
				at, j = m[1], lo+j
			}
			nm := fmt.Sprintf("%s[%d]", at, j)
			q := p
			if p.n != 1 {
				q.atom = fmt.Sprintf("%s[%d:%d]", p.atom, k-off, k-off+1)
				if m := subAtom.FindStringSubmatch(p.atom); m != nil {
					q.atom = fmt.Sprintf("%s[%d:%d]", m[1], j, j+1)
				}
				q.n = 1
			}
			I.bytePart[numAtom(nm).key()] = q
			if v, ok := I.init[nm]; ok {
				return v
			}
			I.rng[esc(nm)] = rng{big.NewInt(0), big.NewInt(255)}
			return numAtom(nm)
		}
		off += n
	}
	return numAtom(fmt.Sprintf("%s[%d]", s.key(), k))
}

func (I *Interp) index(st *State, a, idx Val, at, et types.Type, pos string) Val {
	return I.dist(st, a, func(a Val) Val {
		n, _ := idx.(*Num)
		k, ok := -1, false
		if n != nil {
			k, ok = n.int()
		}
		switch p := a.(type) {
		case *ArrV:
			if ok && k >= 0 && k < len(p.e) {
				return p.e[k]
			}
		case *Str:
			if ok {
				if L, o2 := p.length(); o2 && (k < 0 || k >= L) {
					I.panicNow(st, "index out of range", pos)
					return numI(0)
				}
				return I.byteAt(p, k)
			}
		}
		return I.symVal(a.key()+"["+idx.key()+"]", et)
	})
}

func (I *Interp) slice(st *State, fr *frame, env map[ssa.Value]Val, x *ssa.Slice, pos string) Val {
	a := I.val(st, fr, env, x.X)
	get := func(v ssa.Value, d int) (int, bool) {
		if v == nil {
			return d, true
		}
		n, ok := I.val(st, fr, env, v).(*Num)
		if !ok {
			return 0, false
		}
		return n.int()
	}
	return I.dist(st, a, func(a Val) Val {
		lo, ok1 := get(x.Low, 0)
		hi, ok2 := get(x.High, -1)
		switch p := a.(type) {
		case *SliceV:
			if ok1 && ok2 {
				if hi < 0 {
					hi = p.len
				}
				if lo > hi || hi > p.len && hi > p.capv() {
					I.panicNow(st, "slice bounds out of range", pos)
					return VNil{}
				}
				return &SliceV{o: p.o, off: p.off + lo, len: hi - lo, path: p.path, capn: p.capv() - lo}
			}
		case *Ptr: // array
			if n, ok := byteArr(deref(x.X.Type())); ok {
				s, _ := I.load(st, p, deref(x.X.Type()), pos).(*Str)
				if s != nil && ok1 && ok2 {
					if hi < 0 {
						hi = n
					}
					if r := subS(s, lo, hi); r != nil {
						r2 := *r
						r2.back = p
						r2.boff = lo
						return &r2
					}
				}
				break
			}
			at, ok := under(deref(x.X.Type())).(*types.Array)
			if ok && ok1 && ok2 {
				if hi < 0 {
					hi = int(at.Len())
				}
				return &SliceV{o: p.o, off: lo, len: hi - lo, path: p.path}
			}
		case *Str:
			if ok1 && ok2 {
				if L, ok := p.length(); ok {
					if lo > L || hi > L || hi >= 0 && lo > hi {
						I.panicNow(st, "slice bounds out of range", pos)
						return strC("")
					}
				}
				if r := subS(p, lo, hi); r != nil {
					return r
				}
				k := p.key()
				return strAtom(fmt.Sprintf("%s[%d:%d]", k, lo, hi))
			}
		case VNil:
			return VNil{}
		case *Sym:
			return &Sym{t: fmt.Sprintf("%s[%v:%v]", p.t, lo, hi)}
		}
		I.note(st, "undecided slice bounds of "+a.key(), pos)
		return &Sym{t: "slice@" + pos}
	})
}

// elems lists the element values of a slice; ok=false when its length is unknown
func (I *Interp) elems(st *State, v Val, et types.Type) ([]Val, bool) {
	switch p := v.(type) {
	case VNil:
		return nil, true
	case *SliceV:
		var r []Val
		for i := 0; i < p.len; i++ {
			k := cellKey{p.o, I.elemPath(p.path, p.off+i)}
			if s, ok := st.cells[k].(*SegV); ok {
				r = append(r, s)
				continue
			}
			r = append(r, I.loadLoc(st, p.o, k.path, et))
		}
		return r, true
	}
	return nil, false
}

func (I *Interp) mkSlice(st *State, et types.Type, es []Val, site string) *SliceV {
	o := I.newObj(st, nil, site)
	o.elem = et
	for i, e := range es {
		if s, ok := e.(*SegV); ok {
			st.cells[cellKey{o, I.elemPath("", i)}] = s
			continue
		}
		I.storeLoc(st, o, I.elemPath("", i), et, e)
	}
	return &SliceV{o: o, len: len(es)}
}

func (I *Interp) appendV(st *State, a, b Val, t types.Type, pos string) Val {
	et := under(t).(*types.Slice).Elem()
	return I.dist2(st, a, b, func(a, b Val) Val {
		if byteSlice(t) {
			sa, ok1 := toStr(a)
			sb, ok2 := toStr(b)
			if ok1 && ok2 {
				return catS(sa, sb)
			}
		}
		ea, ok := I.elems(st, a, et)
		if !ok {
			ea = []Val{&SegV{a.key()}}
		}
		eb, ok := I.elems(st, b, et)
		if !ok {
			eb = []Val{&SegV{b.key()}}
		}
		if len(eb) == 0 {
			return a
		}
		// in-place growth within the capacity of a re-sliced array writes the shared backing array
		if sl, ok := a.(*SliceV); ok && sl.len+len(eb) <= sl.capv() {
			for i, e := range eb {
				I.storeLoc(st, sl.o, I.elemPath(sl.path, sl.off+sl.len+i), et, e)
			}
			return &SliceV{o: sl.o, off: sl.off, len: sl.len + len(eb), path: sl.path, capn: sl.capv()}
		}
		return I.mkSlice(st, et, append(append([]Val{}, ea...), eb...), "append")
	})
}

func toStr(v Val) (*Str, bool) {
	switch x := v.(type) {
	case *Str:
		return x, true
	case VNil:
		return &Str{}, true
	case *Sym:
		return strAtom(x.t), true
	}
	return nil, false
}

func (I *Interp) lenV(st *State, v Val) Val {
	return I.dist(st, v, func(v Val) Val {
		switch p := v.(type) {
		case VNil:
			return numI(0)
		case *SliceV:
			n := numI(0)
			for i := 0; i < p.len; i++ {
				if s, ok := st.cells[cellKey{p.o, I.elemPath(p.path, p.off+i)}].(*SegV); ok {
					n = nAdd(n, I.lenAtom(s.t))
				} else {
					n = nAdd(n, numI(1))
				}
			}
			return n
		case *Str:
			n := numI(0)
			for _, q := range p.parts {
				switch {
				case q.atom == "":
					n = nAdd(n, numI(int64(len(q.c))))
				case q.n >= 0:
					n = nAdd(n, numI(int64(q.n)))
				default:
					n = nAdd(n, I.lenAtom(q.atom))
					if I.nonEmpty[q.class()] || I.uniq[q.class()] {
						I.rng[esc("len("+q.atom+")")] = rng{big.NewInt(1), nil}
					}
				}
			}
			return n
		case *MapV:
			m, complete := I.mapOf(st, p.o)
			if !complete {
				return I.lenAtom(p.o.name)
			}
			n := Val(numI(0))
			for _, e := range m.es {
				e := e
				n = I.dist(st, n, func(x Val) Val {
					return I.dist(st, I.boolIte(st, e.pres, numI(1), numI(0)), func(y Val) Val { return nAdd(x.(*Num), y.(*Num)) })
				})
			}
			return n
		case *ArrV:
			return numI(int64(len(p.e)))
		case *Sym:
			return I.lenAtom(p.t)
		}
		return I.lenAtom(v.key())
	})
}

// boolIte builds "if c then a else b" for an arbitrary boolean value
func (I *Interp) boolIte(st *State, c Val, a, b Val) Val {
	switch x := I.decide(st, c).(type) {
	case VBool:
		if x {
			return a
		}
		return b
	case *Cond:
		if x.neg {
			return mkIte(condOf(x), b, a)
		}
		return mkIte(x, a, b)
	case *Ite:
		return mkIte(x.c, I.boolIte(st, x.a, a, b), I.boolIte(st, x.b, a, b))
	}
	return a
}

func (I *Interp) lenAtom(t string) *Num {
	a := "len(" + t + ")"
	if v, ok := I.init[a]; ok {
		return v.(*Num)
	}
	if _, ok := I.rng[esc(a)]; !ok {
		I.rng[esc(a)] = rng{big.NewInt(0), nil}
	}
	return numAtom(a)
}

// ---- maps

// mapOf gives the entries known of a map; complete=false when it may hold others
func (I *Interp) mapOf(st *State, o *Obj) (*mapC, bool) {
	if I.onMap != nil && I.depth > 0 {
		I.onMap(st, o)
	}
	m := st.maps[o]
	if m == nil {
		m = &mapC{}
		if bm, ok := I.baseMaps()[o]; ok {
			m.es = append(m.es, bm.es...)
		}
		st.maps[o] = m
	}
	return m, o.fresh || o.complete
}

func (I *Interp) baseMaps() map[*Obj]*mapC {
	if I.bmaps == nil {
		I.bmaps = map[*Obj]*mapC{}
	}
	return I.bmaps
}

func (I *Interp) lookup(st *State, m, k Val, mt types.Type, commaOk bool, pos string) Val {
	return I.dist2(st, m, k, func(m, k Val) Val {
		if s, ok := m.(*Str); ok { // string indexing
			if n, ok := k.(*Num); ok {
				if i, ok := n.int(); ok {
					if L, o2 := s.length(); o2 && (i < 0 || i >= L) {
						I.panicNow(st, "index out of range", pos)
						return numI(0)
					}
					return I.byteAt(s, i)
				}
			}
			return numAtom(s.key() + "[" + k.key() + "]")
		}
		et := types.Type(nil)
		if mm, ok := under(mt).(*types.Map); ok {
			et = mm.Elem()
		}
		fin := func(v, ok Val) Val {
			if commaOk {
				return &Tuple{[]Val{v, ok}}
			}
			return v
		}
		mv, ok := m.(*MapV)
		if !ok {
			if isNilV(m) {
				return fin(I.zero(et), VBool(false))
			}
			return fin(I.symVal(m.key()+"["+k.key()+"]", et), I.decide(st, &Cond{t: "has(" + m.key() + "," + k.key() + ")"}))
		}
		mc, complete := I.mapOf(st, mv.o)
		var rv Val
		var rok Val
		if complete {
			rv, rok = I.zero(et), VBool(false)
		} else {
			has := I.decide(st, &Cond{t: "has(" + mv.o.name + "," + k.key() + ")"})
			rv = I.boolIte(st, has, I.symVal(mv.o.name+"["+k.key()+"]", et), I.zero(et))
			rok = has
		}
		for _, e := range mc.es {
			eq := I.eqV(st, e.k, k)
			if b, ok := eq.(VBool); ok && !bool(b) {
				continue
			}
			v2 := I.boolIte(st, e.pres, e.v, I.zero(et))
			if b, ok := eq.(VBool); ok && bool(b) {
				return fin(v2, I.decide(st, e.pres))
			}
			rv = I.boolIte(st, eq, v2, rv)
			rok = I.boolIte(st, eq, e.pres, rok)
		}
		return fin(rv, I.decide(st, rok))
	})
}

func (I *Interp) mapUpdate(st *State, m, k, v Val, pos string) {
	m = I.res(st, m)
	if it, ok := m.(*Ite); ok {
		// weak update of both alternatives
		for i, alt := range []Val{it.a, it.b} {
			mv, ok := alt.(*MapV)
			if !ok {
				I.guardedPanic(st, it.c.t, "assignment to entry in nil map", pos)
				continue
			}
			c := Val(it.c)
			if i == 1 {
				c = notV(c)
			}
			mc, _ := I.mapOf(st, mv.o)
			mc.es = append(mc.es, mapEntry{k, v, c})
		}
		return
	}
	mv, ok := m.(*MapV)
	if !ok {
		if isNilV(m) {
			I.panicNow(st, "assignment to entry in nil map", pos)
			return
		}
		I.note(st, "update of unknown map "+m.key(), pos)
		return
	}
	mc, _ := I.mapOf(st, mv.o)
	for i, e := range mc.es {
		eq := I.eqV(st, e.k, k)
		if b, ok := eq.(VBool); ok {
			if b {
				mc.es[i] = mapEntry{e.k, v, VBool(true)}
				return
			}
			continue
		}
		I.note(st, "undecided map key "+e.k.key()+" / "+k.key(), pos)
	}
	mc.es = append(mc.es, mapEntry{k, v, VBool(true)})
}

func (I *Interp) mapDelete(st *State, m, k Val, pos string) {
	mv, ok := I.res(st, m).(*MapV)
	if !ok {
		return
	}
	mc, complete := I.mapOf(st, mv.o)
	if !complete {
		I.note(st, "deletion from an unknown map", pos)
	}
	for i, e := range mc.es {
		if b, ok := I.eqV(st, e.k, k).(VBool); ok {
			if b {
				mc.es = append(append([]mapEntry{}, mc.es[:i]...), mc.es[i+1:]...)
				return
			}
			continue
		}
		I.note(st, "undecided map key", pos)
	}
}

func (I *Interp) mapKeys(st *State, o *Obj) []Val {
	m, complete := I.mapOf(st, o)
	if !complete {
		I.notes = append(I.notes, "iteration over unknown map "+o.name)
	}
	var ks []Val
	for _, e := range m.es {
		ks = append(ks, e.k)
	}
	// one order of the keys themselves, whatever the order of insertion (which may
	// itself come from a map), or the opposite one
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].key() < ks[j].key() })
	if I.reverse != I.flip {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

func (I *Interp) rangeOver(st *State, v Val, pos string) Val {
	v = I.res(st, v)
	o := I.newObj(st, types.Typ[types.Int], "iter")
	st.cells[cellKey{o, ""}] = numI(0)
	switch p := v.(type) {
	case *MapV:
		return &iterV{m: p.o, keys: I.mapKeys(st, p.o), pos: o}
	case *Str:
		return &iterV{str: p, pos: o}
	case VNil:
		return &iterV{pos: o}
	}
	I.note(st, "iteration over "+v.key(), pos)
	return &iterV{pos: o}
}

func (I *Interp) next(st *State, v Val, x *ssa.Next, pos string) Val {
	it, ok := v.(*iterV)
	tt := x.Type().(*types.Tuple)
	zero := func() Val {
		z := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return VNil{}
			}
			return I.zero(t)
		}
		return &Tuple{[]Val{VBool(false), z(tt.At(1).Type()), z(tt.At(2).Type())}}
	}
	if !ok {
		I.note(st, "unknown iterator", pos)
		return zero()
	}
	pk := cellKey{it.pos, ""}
	n, okn := st.cells[pk].(*Num)
	if !okn {
		I.note(st, "undecided iterator position", pos)
		return zero()
	}
	i, _ := n.int()
	if x.IsString {
		if it.str == nil {
			return zero()
		}
		L, ok := it.str.length()
		if !ok {
			I.note(st, "iteration over a string of unknown length", pos)
			return zero()
		}
		if i >= L {
			return zero()
		}
		st.cells[pk] = numI(int64(i + 1))
		return &Tuple{[]Val{VBool(true), numI(int64(i)), I.byteAt(it.str, i)}}
	}
	for i < len(it.keys) {
		k := it.keys[i]
		i++
		st.cells[pk] = numI(int64(i))
		m, _ := I.mapOf(st, it.m)
		for _, e := range m.es {
			if e.k.key() == k.key() {
				p := I.decide(st, e.pres)
				if b, ok := p.(VBool); ok {
					if b {
						return &Tuple{[]Val{VBool(true), e.k, e.v}}
					}
				} else {
					I.note(st, "iteration over an entry whose presence is undecided", pos)
					return &Tuple{[]Val{VBool(true), e.k, e.v}}
				}
			}
		}
	}
	return zero()
}

// ---- calls

func (I *Interp) callee(st *State, fr *frame, env map[ssa.Value]Val, c *ssa.CallCommon, pos string) (Val, []Val, string) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, I.val(st, fr, env, a))
	}
	if c.IsInvoke() {
		recv := I.val(st, fr, env, c.Value)
		return recv, args, "invoke:" + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args, "builtin:" + b.Name()
	}
	f := I.val(st, fr, env, c.Value)
	nm := f.key()
	if fv, ok := f.(*FuncV); ok {
		nm = fv.fn.String()
	}
	return f, args, nm
}

func (I *Interp) call(st *State, fr *frame, env map[ssa.Value]Val, c *ssa.CallCommon, pos string) Val {
	f, args, nm := I.callee(st, fr, env, c, pos)
	return I.invoke(st, fr.fn, f, args, nm, c, pos)
}

func (I *Interp) invoke(st *State, caller *ssa.Function, f Val, args []Val, nm string, c *ssa.CallCommon, pos string) Val {
	if b, ok := strings.CutPrefix(nm, "builtin:"); ok {
		return I.builtin(st, b, args, c, pos)
	}
	if c.IsInvoke() {
		return I.dist(st, f, func(f Val) Val {
			if st.dead {
				return I.zeroResults(c.Signature())
			}
			if isNilV(f) {
				I.panicNow(st, "nil dereference", pos)
				return I.zeroResults(c.Signature())
			}
			if i, ok := f.(*Iface); ok {
				if m := I.P.SSA.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name()); m != nil {
					return I.callFn(st, caller, &FuncV{fn: m}, append([]Val{i.v}, args...), pos)
				}
			}
			full := c.Method.FullName()
			return I.external(&Call{I: I, st: st, name: full, args: append([]Val{f}, args...), sig: c.Signature(), pos: pos, in: caller})
		})
	}
	f = I.res(st, f)
	switch fv := f.(type) {
	case *FuncV:
		return I.callFn(st, caller, fv, args, pos)
	case *Ite:
		if a, ok := fv.a.(*FuncV); ok {
			if b, ok := fv.b.(*FuncV); ok {
				sT, sF := st.clone(), st.clone()
				I.assume(sT, fv.c, true)
				I.assume(sF, fv.c, false)
				n := len(st.trace)
				va := I.callFn(sT, caller, a, args, pos)
				vb := I.callFn(sF, caller, b, args, pos)
				r := mergeRet(I, fv.c, n, &retv{sT, va}, &retv{sF, vb})
				if r == nil || r.st.dead {
					st.dead = true
					return I.zeroResults(c.Signature())
				}
				*st = *r.st
				return r.v
			}
		}
	case VNil:
		I.panicNow(st, "call of nil function", pos)
		return I.zeroResults(c.Signature())
	}
	return I.external(&Call{I: I, st: st, name: "dynamic:" + f.key(), args: args, sig: c.Signature(), pos: pos, in: caller})
}

func (I *Interp) callFn(st *State, caller *ssa.Function, fv *FuncV, args []Val, pos string) Val {
	fn := fv.fn
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	c := &Call{I: I, st: st, name: name, args: args, sig: fn.Signature, pos: pos, fn: fn, in: caller}
	if I.hook != nil {
		if v, ok := I.hook(c); ok {
			return v
		}
	}
	if fn.Blocks != nil && (inStdSyntax(fn) && !modelledStd[name] || inModule(fn) && (I.bindings || fnPkg(fn) != modPath+"/contract") || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && wrapsModule(fn)) {
		return I.run(st, fn, args, fv.free, pos)
	}
	return I.external(c)
}

// functions of the packages in stdSyntax that have a model
var modelledStd = map[string]bool{"slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Sort": true}

// synthetic wrappers (bound methods, promoted methods) with a body
func wrapsModule(fn *ssa.Function) bool {
	return fn.Synthetic != ""
}

func (I *Interp) builtin(st *State, b string, args []Val, c *ssa.CallCommon, pos string) Val {
	switch b {
	case "len", "cap":
		return I.lenV(st, args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return I.appendV(st, args[0], args[1], c.Args[0].Type(), pos)
	case "copy":
		dt := c.Args[0].Type()
		if byteSlice(dt) {
			s, ok := toStr(I.res(st, args[1]))
			d, ok2 := I.res(st, args[0]).(*Str)
			if ok && ok2 && d.back != nil {
				L, k1 := d.length()
				n, k2 := s.length()
				if k1 && k2 {
					if n > L {
						s = subS(s, 0, L)
						n = L
					}
					arr := deref(d.back.typeOf(I))
					full, _ := I.load(st, d.back, arr, pos).(*Str)
					tot, okT := full.length()
					if okT && s != nil {
						I.store(st, d.back, arr, catS(catS(subS(full, 0, d.boff), s), subS(full, d.boff+n, tot)), pos)
						return numI(int64(n))
					}
				} else if k1 { // unknown length of the source
					arr := deref(d.back.typeOf(I))
					I.store(st, d.back, arr, &Str{[]SPart{{atom: fmt.Sprintf("copy%d(%s)", L, s.key()), n: L}}, nil, 0}, pos)
					return I.lenV(st, s)
				}
			}
			I.note(st, "copy into a byte slice", pos)
			return I.lenV(st, args[1])
		}
		et := under(dt).(*types.Slice).Elem()
		src, ok := I.elems(st, I.res(st, args[1]), et)
		d, ok2 := I.res(st, args[0]).(*SliceV)
		if ok && ok2 {
			n := 0
			for i := 0; i < d.len && i < len(src); i++ {
				I.storeLoc(st, d.o, I.elemPath(d.path, d.off+i), et, src[i])
				n++
			}
			return numI(int64(n))
		}
		if sy, ok := I.res(st, args[1]).(*Sym); ok {
			_ = sy
			I.note(st, "copy of a list of unknown length", pos)
		}
		return I.lenV(st, args[1])
	case "delete":
		I.mapDelete(st, args[0], args[1], pos)
		return &Tuple{}
	case "print", "println", "close", "clear":
		st.trace = append(st.trace, Event{kind: "call", name: b, args: args, pos: pos})
		return &Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := I.binop(st, token.LSS, r, a, c.Args[0].Type(), pos)
			if b == "min" {
				r = I.boolIte(st, lt, r, a)
			} else {
				r = I.boolIte(st, lt, a, r)
			}
		}
		return r
	case "recover":
		return VNil{}
	case "ssa:wrapnilchk":
		if isNilV(I.res(st, args[0])) {
			I.panicNow(st, "nil dereference", pos)
		}
		return args[0]
	}
	panic(undecided("builtin " + b + " at " + pos))
}

// hookless runs f without the scenario's model of the outside
func (I *Interp) hookless(f func()) {
	h := I.hook
	I.hook = nil
	f()
	I.hook = h
}
