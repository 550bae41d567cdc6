package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type cellKey struct {
	o    *Obj
	path string
}

type mapEntry struct {
	k, v Val
	pres Val // VBool(true), or the condition under which the entry exists
}
type mapC struct{ es []mapEntry }

// Event is one observable step (call to an external function, stop of the
// process, ...), in program order, with the conditions it is control-dependent on.
type Event struct {
	kind string // call, fatal, panic, go, defer, note
	name string
	args []Val
	pos  string
	gd   []string // undecided conditions guarding it
}

func (e Event) String() string {
	a := make([]string, len(e.args))
	for i, v := range e.args {
		if v != nil {
			a[i] = v.key()
		}
	}
	s := e.kind + " " + e.name + "(" + strings.Join(a, ", ") + ") @" + e.pos
	if len(e.gd) > 0 {
		s += " when " + strings.Join(e.gd, "&")
	}
	return s
}

const (
	mNeg  = 1
	mZero = 2
	mPos  = 4
)

type State struct {
	cells map[cellKey]Val
	maps  map[*Obj]*mapC
	facts map[string]bool
	signs map[string]int
	trace []Event
	defs  map[int][]func(*State) // deferred calls per frame
	dead  bool
}

func newState() *State {
	return &State{cells: map[cellKey]Val{}, maps: map[*Obj]*mapC{}, facts: map[string]bool{}, signs: map[string]int{}, defs: map[int][]func(*State){}}
}

func (s *State) clone() *State {
	r := &State{cells: make(map[cellKey]Val, len(s.cells)), maps: make(map[*Obj]*mapC, len(s.maps)), facts: make(map[string]bool, len(s.facts)), signs: make(map[string]int, len(s.signs)), defs: make(map[int][]func(*State), len(s.defs)), dead: s.dead}
	for k, v := range s.cells {
		r.cells[k] = v
	}
	for k, v := range s.maps {
		r.maps[k] = &mapC{append([]mapEntry{}, v.es...)}
	}
	for k, v := range s.facts {
		r.facts[k] = v
	}
	for k, v := range s.signs {
		r.signs[k] = v
	}
	for k, v := range s.defs {
		r.defs[k] = append([]func(*State){}, v...)
	}
	r.trace = s.trace[:len(s.trace):len(s.trace)]
	return r
}

type rng struct{ lo, hi *big.Int }

// interval of a polynomial from the declared ranges of its atoms
func (I *Interp) interval(p *Poly) (lo, hi *big.Int) {
	lo, hi = big.NewInt(0), big.NewInt(0)
	for mono, c := range p.m {
		l, h := big.NewInt(1), big.NewInt(1)
		if mono != "" {
			for _, a := range strings.Split(mono, "*") {
				r, ok := I.rng[a]
				if !ok {
					r = rng{}
				}
				l, h = mulRange(l, h, r.lo, r.hi)
			}
		}
		if c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(l, c))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(h, c))
			}
		}
	}
	return
}

// lower replaces quotients with a negative coefficient by their upper bounds: a polynomial
// that is never larger than p
func (I *Interp) lower(p *Poly) *Poly {
	r := &Poly{m: map[string]*big.Int{}}
	hit := false
	for k, c := range p.m {
		t := &Poly{m: map[string]*big.Int{"": c}}
		for _, f := range strings.Split(k, "*") {
			if f == "" {
				continue
			}
			if g, ok := I.rng[f]; !ok || g.lo == nil || g.lo.Sign() < 0 {
				return nil
			}
			if u := I.ub[f]; u != nil && c.Sign() < 0 {
				t = t.mul(u)
				hit = true
			} else {
				t = t.mul(&Poly{m: map[string]*big.Int{f: big.NewInt(1)}})
			}
		}
		r = r.add(t, 1)
	}
	if !hit {
		return nil
	}
	return r
}

func mulRange(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	// only non-negative ranges are combined precisely
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		var h *big.Int
		if ah != nil && bh != nil {
			h = new(big.Int).Mul(ah, bh)
		}
		return new(big.Int).Mul(al, bl), h
	}
	return nil, nil
}

func (I *Interp) mask(st *State, p *Poly) int {
	lo, hi := I.interval(p)
	m := mNeg | mZero | mPos
	if (lo == nil || lo.Sign() < 0) && len(I.ub) > 0 {
		if q := I.lower(p); q != nil {
			if l, _ := I.interval(q); l != nil && (lo == nil || l.Cmp(lo) > 0) {
				lo = l
			}
		}
	}
	if lo != nil {
		if lo.Sign() >= 0 {
			m &^= mNeg
		}
		if lo.Sign() > 0 {
			m &^= mZero
		}
	}
	if hi != nil {
		if hi.Sign() <= 0 {
			m &^= mPos
		}
		if hi.Sign() < 0 {
			m &^= mZero
		}
	}
	if st == nil {
		return m
	}
	c, neg := p.canonSign()
	if f, ok := st.signs[c]; ok {
		if neg {
			f = flip(f)
		}
		m &= f
	}
	if m == 0 {
		return mNeg | mZero | mPos
	}
	// facts that differ from p by a constant: p = q + k
	if m&(m-1) != 0 {
		if k, ok := p.m[""]; !ok || k.Sign() != 0 {
			for fc, fm := range st.signs {
				q := I.polyOf[fc]
				if q == nil {
					continue
				}
				for _, sg := range []int64{1, -1} {
					d := p.add(q, -sg) // p - sg*q
					kc, ok := d.isConst()
					if !ok {
						continue
					}
					fmm := fm
					if sg < 0 {
						fmm = flip(fm)
					}
					// p = sq + kc with sign mask fmm on sq
					if fmm&mNeg == 0 && kc.Sign() > 0 {
						m &= mPos
					} else if fmm == mPos && kc.Sign() >= 0 {
						m &= mPos
					} else if fmm == mPos && kc.Cmp(big.NewInt(-1)) == 0 {
						m &^= mNeg
					}
					if fmm&mPos == 0 && kc.Sign() < 0 {
						m &= mNeg
					} else if fmm == mNeg && kc.Sign() <= 0 {
						m &= mNeg
					} else if fmm == mNeg && kc.Cmp(big.NewInt(1)) == 0 {
						m &^= mPos
					}
				}
			}
		}
	}
	if m == 0 {
		return mNeg | mZero | mPos
	}
	return m
}

func flip(m int) int {
	r := m & mZero
	if m&mNeg != 0 {
		r |= mPos
	}
	if m&mPos != 0 {
		r |= mNeg
	}
	return r
}

func (I *Interp) addSign(st *State, p *Poly, m int) {
	if _, ok := p.isConst(); ok {
		return
	}
	c, neg := p.canonSign()
	q := p
	if neg {
		m = flip(m)
		q = p.scale(big.NewInt(-1))
	}
	I.polyOf[c] = q
	if o, ok := st.signs[c]; ok {
		m &= o
	}
	st.signs[c] = m
}

// ---- conditions

func condPos(p *Poly) *Cond { return &Cond{t: "pos(" + p.String() + ")", p: p, op: '>'} }
func condZero(p *Poly) *Cond {
	s, neg := p.canonSign()
	if neg {
		p = p.scale(big.NewInt(-1))
	}
	return &Cond{t: "zero(" + s + ")", p: p, op: '='}
}

// decide a boolean value under the facts of st: VBool when decided
func (I *Interp) decide(st *State, v Val) Val {
	switch x := v.(type) {
	case *Cond:
		r, ok := I.decideAtom(st, x)
		if !ok {
			return x
		}
		return VBool(r != x.neg)
	case *Ite:
		if r, ok := I.decideAtom(st, x.c); ok {
			if r {
				return I.decide(st, x.a)
			}
			return I.decide(st, x.b)
		}
		if f, ok := st.facts[x.key()]; ok {
			return VBool(f)
		}
		a, b := I.decide(st, x.a), I.decide(st, x.b)
		return mkIte(x.c, a, b)
	case *Sym:
		if f, ok := st.facts[x.t]; ok {
			return VBool(f)
		}
		return &Cond{t: x.t}
	}
	return v
}

func (I *Interp) decideAtom(st *State, c *Cond) (bool, bool) {
	if f, ok := st.facts[c.t]; ok {
		return f, true
	}
	if f, ok := I.facts[c.t]; ok {
		return f, true
	}
	if c.p != nil {
		m := I.mask(st, c.p)
		if c.op == '>' {
			if m == mPos {
				return true, true
			}
			if m&mPos == 0 {
				return false, true
			}
		} else {
			if m == mZero {
				return true, true
			}
			if m&mZero == 0 {
				return false, true
			}
		}
	}
	return false, false
}

func (I *Interp) assume(st *State, v Val, truth bool) {
	switch x := v.(type) {
	case VBool:
		if bool(x) != truth {
			st.dead = true
		}
	case *Cond:
		t := truth != x.neg
		st.facts[x.t] = t
		if x.p != nil {
			switch {
			case x.op == '>' && t:
				I.addSign(st, x.p, mPos)
			case x.op == '>':
				I.addSign(st, x.p, mNeg|mZero)
			case t:
				I.addSign(st, x.p, mZero)
			default:
				I.addSign(st, x.p, mNeg|mPos)
			}
		}
	case *Ite:
		st.facts[x.key()] = truth
		if b, ok := x.b.(VBool); ok && bool(b) != truth {
			I.assume(st, x.c, true)
			I.assume(st, x.a, truth)
		} else if a, ok := x.a.(VBool); ok && bool(a) != truth {
			I.assume(st, x.c, false)
			I.assume(st, x.b, truth)
		}
	default:
		st.facts[v.key()] = truth
	}
}

// res resolves gated joins that the current facts decide.
func (I *Interp) res(st *State, v Val) Val {
	for {
		x, ok := v.(*Ite)
		if !ok {
			return v
		}
		r, ok := I.decideAtom(st, x.c)
		if !ok {
			return v
		}
		if r {
			v = x.a
		} else {
			v = x.b
		}
	}
}

// dist applies f to every alternative of a gated value.
func (I *Interp) dist(st *State, v Val, f func(Val) Val) Val {
	v = I.res(st, v)
	if x, ok := v.(*Ite); ok {
		if I.ndist++; I.ndist > 3000000 {
			panic(undecided("too many open conditions: " + trunc(x.c.t, 300)))
		}
		a, b := I.dist(st, x.a, f), I.dist(st, x.b, f)
		return mkIte(x.c, a, b)
	}
	return f(v)
}

func (I *Interp) dist2(st *State, a, b Val, f func(a, b Val) Val) Val {
	return I.dist(st, a, func(x Val) Val { return I.dist(st, b, func(y Val) Val { return f(x, y) }) })
}

// ---- join

func condOf(v Val) *Cond {
	switch x := v.(type) {
	case *Cond:
		if x.neg {
			return &Cond{t: x.t, p: x.p, op: x.op}
		}
		return x
	}
	return &Cond{t: v.key()}
}

func (I *Interp) merge(v Val, forkLen int, a, b *State) *State {
	if a == nil || a.dead {
		return b
	}
	if b == nil || b.dead {
		return a
	}
	c := condOf(v)
	if x, ok := v.(*Cond); ok && x.neg {
		a, b = b, a
	}
	r := newState()
	for k, va := range a.cells {
		vb, ok := b.cells[k]
		if !ok {
			if k.o.fresh && !b.hasObj(k.o) {
				r.cells[k] = va // allocated on one side only
				continue
			}
			vb = I.defaultCell(k, va)
		}
		r.cells[k] = mkIte(c, va, vb)
	}
	for k, vb := range b.cells {
		if _, ok := a.cells[k]; !ok {
			if k.o.fresh && !a.hasObj(k.o) {
				r.cells[k] = vb
				continue
			}
			r.cells[k] = mkIte(c, I.defaultCell(k, vb), vb)
		}
	}
	for o, ma := range a.maps {
		mb := b.maps[o]
		if mb == nil {
			r.maps[o] = &mapC{append([]mapEntry{}, ma.es...)}
			continue
		}
		m := &mapC{}
		used := map[string]bool{}
		for _, e := range ma.es {
			f := (*mapEntry)(nil)
			for i := range mb.es {
				if mb.es[i].k.key() == e.k.key() {
					f = &mb.es[i]
				}
			}
			used[e.k.key()] = true
			if f == nil {
				m.es = append(m.es, mapEntry{e.k, e.v, mkIte(c, e.pres, VBool(false))})
			} else {
				m.es = append(m.es, mapEntry{e.k, mkIte(c, e.v, f.v), mkIte(c, e.pres, f.pres)})
			}
		}
		for _, e := range mb.es {
			if !used[e.k.key()] {
				m.es = append(m.es, mapEntry{e.k, e.v, mkIte(c, VBool(false), e.pres)})
			}
		}
		r.maps[o] = m
	}
	for o, mb := range b.maps {
		if a.maps[o] == nil {
			r.maps[o] = &mapC{append([]mapEntry{}, mb.es...)}
		}
	}
	for k, f := range a.facts {
		if g, ok := b.facts[k]; ok && f == g {
			r.facts[k] = f
		}
	}
	for k, f := range a.signs {
		if g, ok := b.signs[k]; ok {
			r.signs[k] = f | g
		}
	}
	for k, d := range a.defs {
		r.defs[k] = d
		if len(b.defs[k]) > len(d) {
			r.defs[k] = b.defs[k]
		}
	}
	for k, d := range b.defs {
		if _, ok := r.defs[k]; !ok {
			r.defs[k] = d
		}
	}
	r.trace = append([]Event{}, a.trace[:forkLen]...)
	for _, e := range a.trace[forkLen:] {
		e.gd = append([]string{c.t}, e.gd...)
		r.trace = append(r.trace, e)
	}
	for _, e := range b.trace[forkLen:] {
		e.gd = append([]string{"!" + c.t}, e.gd...)
		r.trace = append(r.trace, e)
	}
	return r
}

func (s *State) hasObj(o *Obj) bool {
	if o.born == 0 {
		return true
	}
	_, ok := s.cells[cellKey{o, "\x00live"}]
	return ok
}

func (I *Interp) defaultCell(k cellKey, like Val) Val {
	t := I.cellTyp[k]
	if t == nil {
		return like
	}
	if k.o.fresh {
		return I.zero(t)
	}
	return I.symVal(k.o.name+k.path, t)
}

// ---- memory

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}
func isBig(t types.Type) bool { return isNamed(t, "math/big", "Int") }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// byteArr: [N]byte
func byteArr(t types.Type) (int, bool) {
	a, ok := under(t).(*types.Array)
	if !ok || !isByte(a.Elem()) {
		return 0, false
	}
	return int(a.Len()), true
}
func byteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "time", "regexp", "math/big", "bytes", "os", "reflect", "sync/atomic", "github.com/holiman/uint256", "net/http", "github.com/txaty/go-merkletree":
		if n.Obj().Pkg().Path() == "net/http" && (n.Obj().Name() == "Response" || n.Obj().Name() == "Request" || n.Obj().Name() == "Server") {
			return false
		}
		if n.Obj().Pkg().Path() == "github.com/txaty/go-merkletree" && n.Obj().Name() != "MerkleTree" {
			return false
		}
		return !isBig(t)
	}
	return false
}

func isStructT(t types.Type) (*types.Struct, bool) {
	if isBig(t) || opaqueStruct(t) {
		return nil, false
	}
	s, ok := under(t).(*types.Struct)
	return s, ok
}
func isArrT(t types.Type) (*types.Array, bool) {
	if _, ok := byteArr(t); ok {
		return nil, false
	}
	a, ok := under(t).(*types.Array)
	if ok && a.Len() > 64 {
		return nil, false
	}
	return a, ok
}

func (I *Interp) newObj(st *State, t types.Type, site string) *Obj {
	I.nobj++
	o := &Obj{id: I.nobj, name: fmt.Sprintf("%s#%d", site, I.nobj), fresh: true, typ: t, site: site, born: I.nobj}
	if st != nil {
		st.cells[cellKey{o, "\x00live"}] = VBool(true)
	}
	return o
}

func (I *Interp) symObj(name string, t types.Type) *Obj {
	if o, ok := I.syms[name]; ok {
		return o
	}
	I.nobj++
	o := &Obj{id: I.nobj, name: name, typ: t}
	I.syms[name] = o
	return o
}

func (I *Interp) zero(t types.Type) Val {
	if isBig(t) {
		return numI(0)
	}
	if n, ok := byteArr(t); ok {
		return strC(strings.Repeat("\x00", n))
	}
	if opaqueStruct(t) {
		return &Sym{t: "zero:" + types.TypeString(t, nil)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return numI(0)
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsString != 0:
			return strC("")
		case u.Info()&types.IsFloat != 0:
			return &Sym{t: "f:0"}
		}
		return VNil{}
	case *types.Struct:
		s := &Struct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			return &Sym{t: "zero:" + types.TypeString(t, nil)}
		}
		s := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			s.e = append(s.e, I.zero(u.Elem()))
		}
		return s
	}
	return VNil{}
}

var maxU64 = new(big.Int).SetUint64(^uint64(0))

// symVal is the unknown value of type t named name.
func (I *Interp) symVal(name string, t types.Type) Val {
	if v, ok := I.init[name]; ok {
		return v
	}
	if isBig(t) {
		return numAtom(name)
	}
	if n, ok := byteArr(t); ok {
		return &Str{parts: []SPart{{atom: name, n: n}}}
	}
	if opaqueStruct(t) {
		return &Sym{t: name, nn: true}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				if _, ok := I.rng[esc(name)]; !ok {
					I.rng[esc(name)] = rng{big.NewInt(0), maxU64}
				}
			}
			return numAtom(name)
		case u.Info()&types.IsBoolean != 0:
			return &Cond{t: name}
		case u.Info()&types.IsString != 0:
			return strAtom(name)
		}
		return &Sym{t: name, nn: true}
	case *types.Pointer:
		return &Ptr{I.symObj(name, u.Elem()), ""}
	case *types.Map:
		return &MapV{I.symObj(name, t)}
	case *types.Slice:
		if isByte(u.Elem()) {
			return strAtom(name)
		}
		return &Sym{t: name}
	case *types.Struct:
		s := &Struct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, I.symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			return &Sym{t: name}
		}
		s := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			s.e = append(s.e, I.symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
		}
		return s
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return &Sym{t: name, err: true}
		}
		return &Sym{t: name, nn: true}
	}
	return &Sym{t: name, nn: true}
}

func (I *Interp) loadLoc(st *State, o *Obj, path string, t types.Type) Val {
	if s, ok := isStructT(t); ok {
		r := &Struct{t: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, I.loadLoc(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return r
	}
	if a, ok := isArrT(t); ok {
		r := &ArrV{}
		for i := int64(0); i < a.Len(); i++ {
			r.e = append(r.e, I.loadLoc(st, o, fmt.Sprintf("%s[%d]", path, i), a.Elem()))
		}
		return r
	}
	if base, i, n, ok := isByteSlot(path); ok {
		return I.dist(st, I.loadLoc(st, o, base, types.NewArray(types.Typ[types.Uint8], int64(n))), func(v Val) Val {
			if s, _ := v.(*Str); s != nil {
				return I.byteAt(s, i)
			}
			return I.symVal(v.key()+fmt.Sprintf("[%d]", i), t)
		})
	}
	k := cellKey{o, path}
	if v, ok := st.cells[k]; ok {
		return I.res(st, v)
	}
	if v, ok := I.base[k]; ok {
		return v
	}
	I.cellTyp[k] = t
	if o.fresh {
		return I.zero(t)
	}
	v := I.symVal(o.name+path, t)
	return v
}

func (I *Interp) storeLoc(st *State, o *Obj, path string, t types.Type, v Val) {
	if s, ok := isStructT(t); ok {
		if x, ok := v.(*Struct); ok && len(x.f) == s.NumFields() {
			for i := 0; i < s.NumFields(); i++ {
				I.storeLoc(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type(), x.f[i])
			}
			return
		}
		if x, ok := v.(*Ite); ok {
			for i := 0; i < s.NumFields(); i++ {
				i := i
				fv := I.dist(st, x, func(y Val) Val {
					if z, ok := y.(*Struct); ok {
						return z.f[i]
					}
					return &Sym{t: y.key() + "." + s.Field(i).Name()}
				})
				I.storeLoc(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type(), fv)
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			I.storeLoc(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type(), I.symVal(v.key()+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return
	}
	if a, ok := isArrT(t); ok {
		for i := int64(0); i < a.Len(); i++ {
			var ev Val
			if x, ok := v.(*ArrV); ok {
				ev = x.e[i]
			} else {
				ev = I.symVal(fmt.Sprintf("%s[%d]", v.key(), i), a.Elem())
			}
			I.storeLoc(st, o, fmt.Sprintf("%s[%d]", path, i), a.Elem(), ev)
		}
		return
	}
	if base, i, n, ok := isByteSlot(path); ok {
		at := types.NewArray(types.Typ[types.Uint8], int64(n))
		nv := I.dist(st, I.loadLoc(st, o, base, at), func(old Val) Val {
			return I.dist(st, v, func(v Val) Val {
				if s, _ := old.(*Str); s != nil {
					if r := I.setByte(s, i, v); r != nil {
						return r
					}
				}
				I.note(st, "write of one byte of "+o.name, "-")
				return old
			})
		})
		I.storeLoc(st, o, base, at, nv)
		return
	}
	if o.ro {
		I.note(st, "write of one byte of a byte sequence", "-")
	}
	k := cellKey{o, path}
	I.cellTyp[k] = t
	st.cells[k] = v
}

// load through an address value (gated addresses give gated values)
func (I *Interp) load(st *State, addr Val, t types.Type, pos string) Val {
	addr = I.res(st, addr)
	switch p := addr.(type) {
	case *Ptr:
		return I.loadLoc(st, p.o, p.path, t)
	case *Ite:
		a, b := p.a, p.b
		if _, ok := a.(VNil); ok {
			I.guardedPanic(st, p.c.t, "nil dereference", pos)
			I.assume(st, p.c, false)
			return I.load(st, b, t, pos)
		}
		if _, ok := b.(VNil); ok {
			I.guardedPanic(st, "!"+p.c.t, "nil dereference", pos)
			I.assume(st, p.c, true)
			return I.load(st, a, t, pos)
		}
		return mkIte(p.c, I.load(st, a, t, pos), I.load(st, b, t, pos))
	case VNil:
		I.panicNow(st, "nil dereference", pos)
		return I.zero(t)
	case *Sym:
		return I.symVal("*"+p.t, t)
	}
	I.note(st, "load through "+fmt.Sprintf("%T", addr), pos)
	return I.symVal("*"+addr.key(), t)
}

func (I *Interp) store(st *State, addr Val, t types.Type, v Val, pos string) {
	addr = I.res(st, addr)
	switch p := addr.(type) {
	case *Ptr:
		I.storeLoc(st, p.o, p.path, t, v)
	case *Ite:
		if _, ok := p.a.(VNil); ok {
			I.guardedPanic(st, p.c.t, "nil dereference", pos)
			I.assume(st, p.c, false)
			I.store(st, p.b, t, v, pos)
			return
		}
		if _, ok := p.b.(VNil); ok {
			I.guardedPanic(st, "!"+p.c.t, "nil dereference", pos)
			I.assume(st, p.c, true)
			I.store(st, p.a, t, v, pos)
			return
		}
		oa := I.load(st, p.a, t, pos)
		ob := I.load(st, p.b, t, pos)
		I.store(st, p.a, t, mkIte(p.c, v, oa), pos)
		I.store(st, p.b, t, mkIte(p.c, ob, v), pos)
	case VNil:
		I.panicNow(st, "nil dereference", pos)
	default:
		I.note(st, "store through unknown address "+addr.key(), pos)
	}
}

func (I *Interp) note(st *State, msg, pos string) {
	I.notes = append(I.notes, msg+" @"+pos)
	st.trace = append(st.trace, Event{kind: "note", name: msg, pos: pos})
}
func (I *Interp) panicNow(st *State, msg, pos string) {
	st.trace = append(st.trace, Event{kind: "panic", name: msg, pos: pos})
	I.ends = append(I.ends, End{"panic", msg, pos, st.guardKeys(), st})
	st.dead = true
}
func (I *Interp) guardedPanic(st *State, g, msg, pos string) {
	I.ends = append(I.ends, End{"panic", msg, pos, append(st.guardKeys(), g), nil})
}
func (I *Interp) fatal(st *State, msg, pos string) {
	st.trace = append(st.trace, Event{kind: "fatal", name: msg, pos: pos})
	I.ends = append(I.ends, End{"fatal", msg, pos, st.guardKeys(), st})
	st.dead = true
}

func (s *State) guardKeys() []string {
	var r []string
	for k, v := range s.facts {
		if v {
			r = append(r, k)
		} else {
			r = append(r, "!"+k)
		}
	}
	sort.Strings(r)
	return r
}

// End is a point where the process (or goroutine) stops.
type End struct {
	kind, msg, pos string
	gd             []string
	st             *State
}

// ---- equality of values

// eqV compares two values: VBool when decided, otherwise a condition
func (I *Interp) eqV(st *State, a, b Val) Val {
	return I.dist2(st, a, b, func(a, b Val) Val { return I.eq1(st, a, b) })
}

func isNilV(v Val) bool { _, ok := v.(VNil); return ok }

func (I *Interp) eq1(st *State, a, b Val) Val {
	if i, ok := a.(*Iface); ok {
		a = i.v
	}
	if i, ok := b.(*Iface); ok {
		b = i.v
	}
	if isNilV(a) && isNilV(b) {
		return VBool(true)
	}
	if isNilV(b) {
		a, b = b, a
	}
	if isNilV(a) {
		switch x := b.(type) {
		case *Ptr, *MapV, *FuncV, *SliceV, *Struct, *Num, *Str, VBool:
			if s, ok := x.(*SliceV); ok && s.nilable {
				return I.decide(st, &Cond{t: "isnil(" + s.key() + ")"})
			}
			if s, ok := x.(*Str); ok { // byte slice
				if len(s.parts) == 0 {
					return VBool(true)
				}
				return VBool(false)
			}
			return VBool(false)
		case *Sym:
			if x.nn {
				return VBool(false)
			}
			return I.decide(st, &Cond{t: "isnil(" + x.t + ")"})
		}
		return I.decide(st, &Cond{t: "isnil(" + b.key() + ")"})
	}
	if na, ok := a.(*Num); ok {
		if nb, ok := b.(*Num); ok {
			return I.decide(st, zeroV(nSub(na, nb).p))
		}
	}
	if sa, ok := a.(*Str); ok {
		if sb, ok := b.(*Str); ok {
			return I.eqStr(st, sa, sb)
		}
	}
	if pa, ok := a.(*Ptr); ok {
		if pb, ok := b.(*Ptr); ok {
			return VBool(pa.o == pb.o && pa.path == pb.path)
		}
	}
	switch ab := a.(type) {
	case VBool:
		if ab {
			return I.decide(st, b)
		}
		return I.decide(st, notV(b))
	case *Cond:
		if bb, ok := b.(VBool); ok {
			return I.eq1(st, bb, a)
		}
		if a.key() == b.key() {
			return VBool(true)
		}
		return mkIte(condOf(ab), I.eq1(st, VBool(!ab.neg), b), I.eq1(st, VBool(ab.neg), b))
	}
	if sa, ok := a.(*Struct); ok {
		if sb, ok := b.(*Struct); ok && len(sa.f) == len(sb.f) {
			var r Val = VBool(true)
			for i := range sa.f {
				r = I.andV(st, r, I.eqV(st, sa.f[i], sb.f[i]))
			}
			return r
		}
	}
	ka, kb := a.key(), b.key()
	if ka == kb {
		return VBool(true)
	}
	if kb < ka {
		ka, kb = kb, ka
	}
	if strings.HasPrefix(kb, "global:") && (strings.HasPrefix(ka, "global:") || strings.HasPrefix(ka, "error(")) {
		if x, ok := a.(*Sym); ok && x.err && x.nn {
			if y, ok := b.(*Sym); ok && y.err && y.nn { // different error values
				return VBool(false)
			}
		}
	}
	return I.decide(st, &Cond{t: "eq(" + ka + "," + kb + ")"})
}

func (I *Interp) andV(st *State, a, b Val) Val {
	switch x := a.(type) {
	case VBool:
		if x {
			return b
		}
		return a
	case *Cond:
		if x.neg {
			return mkIte(condOf(x), VBool(false), b)
		}
		return mkIte(x, b, VBool(false))
	case *Ite:
		return &Ite{x.c, I.andV(st, x.a, b), I.andV(st, x.b, b)}
	}
	return b
}

func zeroV(p *Poly) Val {
	if c, ok := p.isConst(); ok {
		return VBool(c.Sign() == 0)
	}
	return condZero(p)
}
func posV(p *Poly) Val {
	if c, ok := p.isConst(); ok {
		return VBool(c.Sign() > 0)
	}
	return condPos(p)
}

func (I *Interp) eqStr(st *State, a, b *Str) Val {
	if a.key() == b.key() {
		return VBool(true)
	}
	ca, oka := a.konst()
	cb, okb := b.konst()
	if oka && okb {
		return VBool(ca == cb)
	}
	la, ka := a.length()
	lb, kb := b.length()
	if ka && kb && la != lb {
		return VBool(false)
	}
	// strip equal prefixes/suffixes
	pa, pb := append([]SPart{}, a.parts...), append([]SPart{}, b.parts...)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := &pa[0], &pb[0]
		if x.atom == "" && y.atom == "" {
			n := len(x.c)
			if len(y.c) < n {
				n = len(y.c)
			}
			if x.c[:n] != y.c[:n] {
				return VBool(false)
			}
			x.c, y.c = x.c[n:], y.c[n:]
			if x.c == "" {
				pa = pa[1:]
			}
			if y.c == "" {
				pb = pb[1:]
			}
			continue
		}
		if x.atom != "" && x.id() == y.id() {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := &pa[len(pa)-1], &pb[len(pb)-1]
		if x.atom == "" && y.atom == "" {
			n := len(x.c)
			if len(y.c) < n {
				n = len(y.c)
			}
			if x.c[len(x.c)-n:] != y.c[len(y.c)-n:] {
				return VBool(false)
			}
			x.c, y.c = x.c[:len(x.c)-n], y.c[:len(y.c)-n]
			if x.c == "" {
				pa = pa[:len(pa)-1]
			}
			if y.c == "" {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		if x.atom != "" && x.id() == y.id() {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return VBool(true)
	}
	ra, rb := &Str{parts: pa}, &Str{parts: pb}
	if len(pa) == 0 || len(pb) == 0 {
		// one side is empty: equal only if the other is empty
		o := ra
		if len(pa) == 0 {
			o = rb
		}
		for _, p := range o.parts {
			if p.atom == "" || p.n > 0 {
				return VBool(false)
			}
			if I.nonEmpty[p.class()] {
				return VBool(false)
			}
		}
	}
	if len(pa) == 1 && len(pb) == 1 {
		if pa[0].atom != "" && pb[0].atom != "" {
			if I.uniq[pa[0].class()] && I.uniq[pb[0].class()] && pa[0].class() != pb[0].class() {
				return VBool(false)
			}
			if da, ok := decAtom(pa[0].atom); ok {
				if db, ok := decAtom(pb[0].atom); ok {
					na, nb := I.decOf[da], I.decOf[db]
					if na != nil && nb != nil {
						return I.decide(st, zeroV(nSub(na, nb).p))
					}
				}
			}
		} else {
			at, c := pa[0], pb[0].c
			if at.atom == "" {
				at, c = pb[0], pa[0].c
			}
			if at.atom != "" && c != "" {
				if I.uniq[at.class()] { // a symbolic unique thing never equals a literal
					return VBool(false)
				}
				if da, ok := decAtom(at.atom); ok && I.decOf[da] != nil {
					if n, ok := new(big.Int).SetString(c, 10); ok {
						return I.decide(st, zeroV(nSub(I.decOf[da], &Num{polyConst(n)}).p))
					}
					return VBool(false)
				}
			}
		}
	}
	x, y := ra.key(), rb.key()
	if y < x {
		x, y = y, x
	}
	return I.decide(st, &Cond{t: "eq(" + x + "," + y + ")"})
}

func decAtom(a string) (string, bool) {
	if strings.HasPrefix(a, "dec(") && strings.HasSuffix(a, ")") {
		return a, true
	}
	return "", false
}
