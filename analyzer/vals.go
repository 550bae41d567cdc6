package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value of the value-numbering domain.
type Val interface{ key() string }

// ---- integers (all integer kinds and the contents of big.Int): polynomials over atoms

type Poly struct {
	m map[string]*big.Int // monomial ("" = constant) -> coefficient
}

type Num struct{ p *Poly }

func (n *Num) key() string { return n.p.String() }

func polyConst(v *big.Int) *Poly {
	p := &Poly{m: map[string]*big.Int{}}
	if v.Sign() != 0 {
		p.m[""] = new(big.Int).Set(v)
	}
	return p
}
func numI(v int64) *Num      { return &Num{polyConst(big.NewInt(v))} }
func numAtom(a string) *Num  { return &Num{&Poly{m: map[string]*big.Int{esc(a): big.NewInt(1)}}} }
func esc(a string) string    { return strings.ReplaceAll(a, "*", "★") }
func (p *Poly) clone() *Poly { return p.scale(big.NewInt(1)) }
func (p *Poly) scale(k *big.Int) *Poly {
	r := &Poly{m: map[string]*big.Int{}}
	if k.Sign() == 0 {
		return r
	}
	for a, c := range p.m {
		r.m[a] = new(big.Int).Mul(c, k)
	}
	return r
}
func (p *Poly) add(q *Poly, k int64) *Poly {
	r := p.clone()
	for a, c := range q.m {
		x := new(big.Int).Mul(c, big.NewInt(k))
		if o, ok := r.m[a]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.m, a)
		} else {
			r.m[a] = x
		}
	}
	return r
}
func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	l := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(l)
	return strings.Join(l, "*")
}
func (p *Poly) mul(q *Poly) *Poly {
	r := &Poly{m: map[string]*big.Int{}}
	for a, c := range p.m {
		for b, d := range q.m {
			k := mulMono(a, b)
			x := new(big.Int).Mul(c, d)
			if o, ok := r.m[k]; ok {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(r.m, k)
			} else {
				r.m[k] = x
			}
		}
	}
	return r
}
func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.m) == 0 {
		return big.NewInt(0), true
	}
	if len(p.m) == 1 {
		if c, ok := p.m[""]; ok {
			return c, true
		}
	}
	return nil, false
}
func (p *Poly) String() string {
	if len(p.m) == 0 {
		return "0"
	}
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		c := p.m[k]
		if i > 0 || c.Sign() < 0 {
			if c.Sign() < 0 {
				b.WriteString("-")
			} else {
				b.WriteString("+")
			}
		}
		a := new(big.Int).Abs(c)
		if k == "" {
			b.WriteString(a.String())
		} else if a.Cmp(big.NewInt(1)) == 0 {
			b.WriteString(k)
		} else {
			b.WriteString(a.String() + "*" + k)
		}
	}
	return b.String()
}

// normalised by sign: returns canonical poly string and whether it was negated
func (p *Poly) canonSign() (string, bool) {
	s := p.String()
	n := p.scale(big.NewInt(-1)).String()
	if n < s {
		return n, true
	}
	return s, false
}

func nAdd(a, b *Num) *Num { return &Num{a.p.add(b.p, 1)} }
func nSub(a, b *Num) *Num { return &Num{a.p.add(b.p, -1)} }
func nMul(a, b *Num) *Num { return &Num{a.p.mul(b.p)} }

// floor division of non-negative quantities
func nDiv(a, b *Num) *Num {
	ca, oka := a.p.isConst()
	cb, okb := b.p.isConst()
	if oka && okb && cb.Sign() != 0 {
		return &Num{polyConst(new(big.Int).Quo(ca, cb))}
	}
	if okb && cb.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if oka && ca.Sign() == 0 {
		return numI(0)
	}
	if a.key() == b.key() {
		return numI(1)
	}
	return numAtom("div(" + intern(a.key()+","+b.key()) + ")")
}

// long terms are named by a number, so that nested terms stay short
var internTab = map[string]string{}

func intern(k string) string {
	if len(k) < 200 {
		return k
	}
	n, ok := internTab[k]
	if !ok {
		n = fmt.Sprintf("#%d", len(internTab)+1)
		internTab[k] = n
	}
	return n
}
func nMod(a, b *Num) *Num { return nSub(a, nMul(b, nDiv(a, b))) }

func (n *Num) int() (int, bool) {
	c, ok := n.p.isConst()
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return int(c.Int64()), true
}

// ---- booleans

type VBool bool

func (b VBool) key() string {
	if b {
		return "true"
	}
	return "false"
}

// Cond is an undecided condition: an atom, possibly negated.
type Cond struct {
	t   string
	neg bool
	p   *Poly // for pos(p) / zero(p)
	op  byte  // '>' or '=' when p is set
}

func (c *Cond) key() string {
	if c.neg {
		return "!" + c.t
	}
	return c.t
}
func notV(v Val) Val {
	switch x := v.(type) {
	case VBool:
		return VBool(!x)
	case *Cond:
		return &Cond{x.t, !x.neg, x.p, x.op}
	case *Ite:
		return &Ite{x.c, notV(x.a), notV(x.b)}
	}
	return &Cond{t: v.key(), neg: true}
}

// ---- strings: concatenation of constant parts and atoms

type SPart struct {
	c     string // constant text, when atom == ""
	atom  string
	n     int    // length of the atom's text, -1 unknown
	fold  string // case-insensitive class of the atom ("" = its own name)
	lower bool   // the atom is the lower-case form of its class
}
type Str struct {
	parts []SPart
	back  *Ptr // the array a byte slice was cut from
	boff  int
}

func strC(s string) *Str {
	if s == "" {
		return &Str{}
	}
	return &Str{parts: []SPart{{c: s}}}
}
func strAtom(a string) *Str { return &Str{parts: []SPart{{atom: a, n: -1}}} }
func (s *Str) key() string {
	var b strings.Builder
	b.WriteString("\"")
	for _, p := range s.parts {
		if p.atom == "" {
			b.WriteString(p.c)
		} else {
			b.WriteString("{" + p.id() + "}")
		}
	}
	b.WriteString("\"")
	return b.String()
}
func (p SPart) id() string {
	if p.lower {
		return "lc:" + p.class()
	}
	return p.atom
}
func (p SPart) class() string {
	if p.fold != "" {
		return p.fold
	}
	return p.atom
}
func (s *Str) konst() (string, bool) {
	r := ""
	for _, p := range s.parts {
		if p.atom != "" {
			return "", false
		}
		r += p.c
	}
	return r, true
}
func (s *Str) length() (int, bool) {
	n := 0
	for _, p := range s.parts {
		if p.atom == "" {
			n += len(p.c)
		} else if p.n >= 0 {
			n += p.n
		} else {
			return 0, false
		}
	}
	return n, true
}
func catS(a, b *Str) *Str {
	r := &Str{}
	for _, p := range append(append([]SPart{}, a.parts...), b.parts...) {
		if p.atom == "" && p.c == "" {
			continue
		}
		if l := len(r.parts); l > 0 && p.atom == "" && r.parts[l-1].atom == "" {
			r.parts[l-1].c += p.c
			continue
		}
		r.parts = append(r.parts, p)
	}
	return r
}
func lowerS(s *Str) *Str {
	r := &Str{}
	for _, p := range s.parts {
		if p.atom == "" {
			p.c = strings.ToLower(p.c)
		} else if !strings.HasPrefix(p.atom, "dec(") {
			p.lower = true
		}
		r.parts = append(r.parts, p)
	}
	return r
}

// substring by known offsets; nil when it cannot be expressed
func subS(s *Str, lo, hi int) *Str {
	r := &Str{}
	off := 0
	for _, p := range s.parts {
		n := p.n
		if p.atom == "" {
			n = len(p.c)
		}
		if n < 0 {
			if hi < 0 && off <= lo { // open-ended tail after an unknown part
				if off == lo {
					r = catS(r, &Str{parts: []SPart{p}})
					lo = off
					off = lo
					continue
				}
				return nil
			}
			return nil
		}
		a, b := lo-off, n
		if hi >= 0 && hi-off < b {
			b = hi - off
		}
		if a < 0 {
			a = 0
		}
		if a < b {
			if p.atom == "" {
				r = catS(r, strC(p.c[a:b]))
			} else if a == 0 && b == n {
				r = catS(r, &Str{parts: []SPart{p}})
			} else {
				q := p
				q.atom = fmt.Sprintf("%s[%d:%d]", p.atom, a, b)
				q.n = b - a
				if p.fold != "" {
					q.fold = fmt.Sprintf("%s[%d:%d]", p.fold, a, b)
				}
				r = catS(r, &Str{parts: []SPart{q}})
			}
		}
		off += n
	}
	return r
}

// ---- references

// Obj is a memory region: freshly allocated (zero-initialised) or symbolic
// (part of the entry state, named by its access path).
type Obj struct {
	id       int
	name     string
	fresh    bool
	born     int
	elem     types.Type
	complete bool
	typ      types.Type
	site     string
	ro       bool // stands for one element of an immutable value
}

type VNil struct{}

func (VNil) key() string { return "nil" }

type Ptr struct {
	o    *Obj
	path string
}

func (p *Ptr) typeOf(I *Interp) types.Type {
	if p.path == "" && p.o.typ != nil {
		return types.NewPointer(p.o.typ)
	}
	return types.NewPointer(I.cellTyp[cellKey{p.o, p.path}])
}
func (p *Ptr) key() string { return "&" + p.o.name + p.path }

type SliceV struct {
	o        *Obj
	off, len int
	path     string // path of the backing array inside o
	nilable  bool
	capn     int // capacity when it exceeds len
}

func (s *SliceV) capv() int {
	if s.capn > s.len {
		return s.capn
	}
	return s.len
}
func (s *SliceV) key() string {
	return fmt.Sprintf("slice(%s%s,%d,%d)", s.o.name, s.path, s.off, s.len)
}

// SegV marks a symbolic list segment of unknown length inside a slice.
type SegV struct{ t string }

func (s *SegV) key() string { return "seg(" + s.t + ")" }

type MapV struct{ o *Obj }

func (m *MapV) key() string { return "map(" + m.o.name + ")" }

type Struct struct {
	t types.Type
	f []Val
}

func (s *Struct) key() string {
	r := make([]string, len(s.f))
	for i, f := range s.f {
		r[i] = f.key()
	}
	return "{" + strings.Join(r, ",") + "}"
}

type ArrV struct{ e []Val }

func (s *ArrV) key() string {
	r := make([]string, len(s.e))
	for i, f := range s.e {
		r[i] = f.key()
	}
	return "[" + strings.Join(r, ",") + "]"
}

type Tuple struct{ v []Val }

func (s *Tuple) key() string {
	r := make([]string, len(s.v))
	for i, f := range s.v {
		r[i] = f.key()
	}
	return "(" + strings.Join(r, ",") + ")"
}

type Iface struct {
	t types.Type
	v Val
}

func (s *Iface) key() string { return s.v.key() }

type FuncV struct {
	fn   *ssa.Function
	free []Val
	meth bool
}

func (f *FuncV) key() string { return "func(" + f.fn.String() + ")" }

// Sym is an opaque value identified by its term (value number).
type Sym struct {
	t   string
	err bool // known non-nil error
	nn  bool // known non-nil
	ref Val  // snapshot carried by an encoded value
}

func (s *Sym) key() string { return s.t }

// Ite is a gated join of two values (gated SSA).
type Ite struct {
	c    *Cond // condition atom (never negated)
	a, b Val
}

func (i *Ite) key() string { return "ite(" + i.c.t + "," + i.a.key() + "," + i.b.key() + ")" }

type iterV struct {
	m    *Obj
	keys []Val
	pos  *Obj // cell "" holds the position
	str  *Str
}

func (*iterV) key() string { return "iter" }

func mkIte(c *Cond, a, b Val) Val {
	if c.neg {
		return mkIte(&Cond{t: c.t, p: c.p, op: c.op}, b, a)
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.key() == b.key() {
		return a
	}
	if ab, ok := a.(VBool); ok {
		if bb, ok := b.(VBool); ok && bool(ab) != bool(bb) {
			return &Cond{c.t, !bool(ab), c.p, c.op}
		}
	}
	if sa, ok := a.(*Struct); ok {
		if sb, ok := b.(*Struct); ok && len(sa.f) == len(sb.f) {
			r := &Struct{t: sa.t, f: make([]Val, len(sa.f))}
			for i := range sa.f {
				r.f[i] = mkIte(c, sa.f[i], sb.f[i])
			}
			return r
		}
	}
	if sa, ok := a.(*Tuple); ok {
		if sb, ok := b.(*Tuple); ok && len(sa.v) == len(sb.v) {
			r := &Tuple{v: make([]Val, len(sa.v))}
			for i := range sa.v {
				r.v[i] = mkIte(c, sa.v[i], sb.v[i])
			}
			return r
		}
	}
	return &Ite{c, a, b}
}
