package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals interprets the package initialisers, so that package-level tables
// have the values the source gives them. Variables assigned elsewhere stay unknown.
func (I *Interp) initGlobals() {
	st := newState()
	var pkgs []*ssa.Package
	for _, p := range I.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, "/contract") {
			continue
		}
		pkgs = append(pkgs, I.P.ByPth[p.PkgPath])
	}
	for _, sp := range pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				I.storeLoc(st, I.globalObj(g), "", deref(g.Type()), I.zero(deref(g.Type())))
			}
		}
	}
	hk := I.hook
	I.hook = nil
	for _, sp := range pkgs {
		if f := sp.Func("init"); f != nil {
			I.run(st, f, nil, nil, "init")
			st.dead = false
		}
	}
	I.hook = hk
	mut := I.P.mutatedGlobals()
	I.mutInit = map[cellKey]Val{}
	skip := map[*Obj]bool{}
	for g := range mut {
		skip[I.globalObj(g)] = true
	}
	for k, v := range st.cells {
		if k.path != "\x00live" {
			if !skip[k.o] {
				I.base[k] = v
			} else {
				I.mutInit[k] = v
			}
		}
		k.o.born = 0
	}
	I.baseMaps()
	for o, m := range st.maps {
		I.bmaps[o] = m
		o.born = 0
	}
	I.ends, I.notes, I.ncall = nil, nil, map[string]int{}
}

func (p *Prog) mutatedGlobals() map[*ssa.Global]bool {
	if p.mutG != nil {
		return p.mutG
	}
	p.mutG = map[*ssa.Global]bool{}
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X)
		case *ssa.IndexAddr:
			return root(x.X)
		case *ssa.UnOp: // what a variable refers to
			if x.Op == token.MUL {
				return root(x.X)
			}
		}
		return nil
	}
	for _, f := range p.Funcs {
		if strings.HasPrefix(f.Synthetic, "package init") || f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g := root(s.Addr); g != nil {
						p.mutG[g] = true
					}
				}
				if s, ok := i.(*ssa.MapUpdate); ok {
					if g := root(s.Map); g != nil {
						p.mutG[g] = true
					}
				}
				if s, ok := i.(*ssa.Call); ok {
					if b, ok := s.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
						if g := root(s.Call.Args[0]); g != nil {
							p.mutG[g] = true
						}
					}
				}
			}
		}
	}
	return p.mutG
}

// ---- access by path: ".state.Validators[7].AccumulatedRewardsWei"

type loc struct {
	addr Val // address, when it is a memory cell
	val  Val // value, when it is not
	t    types.Type
}

func splitPath(p string) []string {
	var r []string
	for i := 0; i < len(p); {
		switch p[i] {
		case '.':
			j := i + 1
			for j < len(p) && p[j] != '.' && p[j] != '[' {
				j++
			}
			r = append(r, p[i:j])
			i = j
		case '[':
			d, j := 0, i
			for ; j < len(p); j++ {
				if p[j] == '[' {
					d++
				}
				if p[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			r = append(r, p[i:j+1])
			i = j + 1
		default:
			panic("bad path " + p)
		}
	}
	return r
}

func (I *Interp) get(st *State, l loc) Val {
	if l.addr != nil {
		return I.res(st, I.load(st, l.addr, l.t, "path"))
	}
	return I.res(st, l.val)
}

func (I *Interp) walk(st *State, root Val, t types.Type, path string) (loc, error) {
	l := loc{val: root, t: t}
	for _, s := range splitPath(path) {
		// auto-dereference
		if pt, ok := under(l.t).(*types.Pointer); ok {
			v := I.get(st, l)
			if isNilV(v) {
				return l, fmt.Errorf("nil pointer before %s in %s", s, path)
			}
			l = loc{addr: v, t: pt.Elem()}
		}
		if s[0] == '.' {
			su, ok := under(l.t).(*types.Struct)
			if !ok {
				return l, fmt.Errorf("%s: %s is not a struct", path, l.t)
			}
			idx := -1
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == s[1:] {
					idx = i
				}
			}
			if idx < 0 {
				return l, fmt.Errorf("%s: no field %s in %s", path, s, l.t)
			}
			ft := su.Field(idx).Type()
			if l.addr != nil {
				l = loc{addr: I.fieldAddr(st, l.addr, s[1:], "path"), t: ft}
			} else if sv, ok := I.res(st, l.val).(*Struct); ok {
				l = loc{val: sv.f[idx], t: ft}
			} else {
				return l, fmt.Errorf("%s: field of %s", path, l.val.key())
			}
			continue
		}
		k := s[1 : len(s)-1]
		v := I.get(st, l)
		switch u := under(l.t).(type) {
		case *types.Map:
			m, ok := v.(*MapV)
			if !ok {
				return l, fmt.Errorf("%s: map is %s", path, v.key())
			}
			mc, _ := I.mapOf(st, m.o)
			found := false
			for _, e := range mc.es {
				if e.k.key() == k || e.k.key() == "\""+k+"\"" || e.k.key() == "\"{"+k+"}\"" {
					if p, ok := I.decide(st, e.pres).(VBool); ok && !bool(p) {
						continue
					} else if !ok {
						return l, fmt.Errorf("%s: presence of %s depends on %s", path, k, e.pres.key())
					}
					l = loc{val: e.v, t: u.Elem()}
					found = true
				}
			}
			if !found {
				return l, fmt.Errorf("%s: no entry %s", path, k)
			}
		case *types.Slice:
			n, err := strconv.Atoi(k)
			if err != nil {
				return l, err
			}
			sl, ok := v.(*SliceV)
			if !ok || n >= sl.len || n < 0 && -n > sl.len {
				return l, fmt.Errorf("%s: no element %s in %s", path, k, v.key())
			}
			if n < 0 {
				n += sl.len
			}
			l = loc{addr: &Ptr{sl.o, I.elemPath(sl.path, sl.off+n)}, t: u.Elem()}
			if _, seg := st.cells[cellKey{sl.o, I.elemPath(sl.path, sl.off+n)}].(*SegV); seg {
				return l, fmt.Errorf("%s: element %s is an unknown segment", path, k)
			}
		case *types.Array:
			if l.addr == nil {
				return l, fmt.Errorf("array value")
			}
			p := l.addr.(*Ptr)
			n, _ := strconv.Atoi(k)
			l = loc{addr: &Ptr{p.o, I.elemPath(p.path, n)}, t: u.Elem()}
		default:
			return l, fmt.Errorf("%s: index of %s", path, l.t)
		}
	}
	return l, nil
}

// Get reads the value at path, following a final pointer to a number.
func (I *Interp) Get(st *State, root Val, t types.Type, path string) (Val, error) {
	l, err := I.walk(st, root, t, path)
	if err != nil {
		return nil, err
	}
	v := I.get(st, l)
	if pt, ok := under(l.t).(*types.Pointer); ok && isBig(pt.Elem()) {
		if isNilV(v) {
			return v, nil
		}
		return I.bigOf(st, v, "path"), nil
	}
	return v, nil
}

// Put sets the value at path; a number put into a *big.Int location makes a new number.
func (I *Interp) Put(st *State, root Val, t types.Type, path string, v Val) {
	l, err := I.walk(st, root, t, path)
	if err != nil {
		panic(undecided(err.Error()))
	}
	if l.addr == nil {
		panic(undecided("not assignable: " + path))
	}
	if pt, ok := under(l.t).(*types.Pointer); ok && isBig(pt.Elem()) {
		if n, ok := v.(*Num); ok {
			v = I.newBig(st, n, "entry"+path)
		}
	}
	I.store(st, l.addr, l.t, v, "path")
}

// List of elements at a path
func (I *Interp) List(st *State, root Val, t types.Type, path string) ([]Val, types.Type, error) {
	l, err := I.walk(st, root, t, path)
	if err != nil {
		return nil, nil, err
	}
	v := I.get(st, l)
	et := under(l.t).(*types.Slice).Elem()
	es, ok := I.elems(st, v, et)
	if !ok {
		return nil, et, fmt.Errorf("%s has unknown length: %s", path, v.key())
	}
	return es, et, nil
}

func (I *Interp) Keys(st *State, root Val, t types.Type, path string) ([]string, error) {
	l, err := I.walk(st, root, t, path)
	if err != nil {
		return nil, err
	}
	m, ok := I.get(st, l).(*MapV)
	if !ok {
		return nil, nil
	}
	mc, _ := I.mapOf(st, m.o)
	var r []string
	for _, e := range mc.es {
		if p, ok := I.decide(st, e.pres).(VBool); ok && !bool(p) {
			continue
		} else if !ok {
			return nil, fmt.Errorf("presence of %s depends on %s", e.k.key(), e.pres.key())
		}
		r = append(r, e.k.key())
	}
	return r, nil
}

// NewMap makes a map with exactly the given entries
func (I *Interp) NewMap(st *State, t types.Type, kv ...Val) Val {
	o := I.newObj(st, t, "entrymap")
	m := &mapC{}
	for i := 0; i+1 < len(kv); i += 2 {
		m.es = append(m.es, mapEntry{kv[i], kv[i+1], VBool(true)})
	}
	st.maps[o] = m
	return &MapV{o}
}

// atoms

// Uniq declares string class names distinct from each other and from literals.
func (I *Interp) Uniq(names ...string) {
	for i, n := range names {
		I.uniq[n] = true
		I.nonEmpty[n] = true
		if _, ok := I.rank[n]; !ok {
			I.rank[n] = len(I.rank) + i
		}
	}
}

// addrStr is the 0x-prefixed text of the address of class cls in some letter case
func addrStr(cls, variant string) *Str {
	return catS(strC("0x"), &Str{parts: []SPart{{atom: variant + ":" + cls, fold: cls, n: 40}}})
}
func addrBytes(cls string) *Str { return &Str{parts: []SPart{{atom: "b:" + cls, n: 20}}} }
func keyStr(cls string) *Str {
	return catS(strC("0x"), &Str{parts: []SPart{{atom: "cs:" + cls, fold: cls, n: 96, lower: true}}})
}
func keyBytes(cls string) *Str { return &Str{parts: []SPart{{atom: "b:" + cls, n: 48}}} }

func (I *Interp) Range(atom string, lo int64, hi *big.Int) *Num {
	I.rng[esc(atom)] = rng{big.NewInt(lo), hi}
	return numAtom(atom)
}
