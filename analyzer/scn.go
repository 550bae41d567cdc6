package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scn is one abstract entry state (a class of concrete situations), the function
// analysed on it, and the effects the property demands there.
type Scn struct {
	c    *Ctx
	I    *Interp
	st   *State // current state
	exp  *State // entry state with the demanded effects applied
	or   *Ptr
	orT  types.Type
	name string
	fn   *ssa.Function
	ret  Val
	bad  bool
	seg  int
	args []Val
}

func (c *Ctx) anchor(pkg, recv, name string) *ssa.Function {
	f := c.P.Fn(pkg, recv, name)
	if f == nil || f.Blocks == nil {
		panic(undecided(fmt.Sprintf("anchor %s.%s.%s not found in the repository", pkg, recv, name)))
	}
	c.Touch(f)
	return f
}

func (c *Ctx) scn(name string) *Scn {
	I := NewInterp(c.P)
	I.initGlobals()
	I.flip = c.flip
	s := &Scn{c: c, I: I, st: newState(), name: name}
	s.orT = c.named("oracle", "Oracle")
	s.or = &Ptr{I.symObj("or", s.orT), ""}
	for _, a := range []string{"or.state.PoolAccumulatedFees", "or.state.CollateralInWei", "or.cfg.CollateralInWei"} {
		s.nonneg(a)
	}
	return s
}

func (c *Ctx) named(pkg, name string) types.Type {
	n := c.P.Named(pkg, name)
	if n == nil {
		panic(undecided("type " + pkg + "." + name + " not found"))
	}
	return n
}

func (s *Scn) nonneg(a string) *Num { return s.I.Range(a, 0, nil) }
func (s *Scn) positive(a string) *Num {
	return s.I.Range(a, 1, nil)
}
func (s *Scn) u64(a string) *Num { return s.I.Range(a, 0, maxU64) }

// fact: the sign of n
func (s *Scn) sign(n *Num, m int) { s.I.addSign(s.st, n.p, m) }
func (s *Scn) less(a, b *Num)     { s.sign(nSub(b, a), mPos) }

func (s *Scn) put(path string, v Val)    { s.I.Put(s.st, s.or, types.NewPointer(s.orT), path, v) }
func (s *Scn) get(path string) Val       { return s.mustGet(s.st, path) }
func (s *Scn) expPut(path string, v Val) { s.I.Put(s.exp, s.or, types.NewPointer(s.orT), path, v) }
func (s *Scn) expGet(path string) *Num {
	v := s.mustGet(s.exp, path)
	n, ok := v.(*Num)
	if !ok {
		panic(undecided(path + " is not a number: " + v.key()))
	}
	return n
}
func (s *Scn) mustGet(st *State, path string) Val {
	v, err := s.I.Get(st, s.or, types.NewPointer(s.orT), path)
	if err != nil {
		panic(undecided(s.name + ": " + err.Error()))
	}
	return v
}
func (s *Scn) expAdd(path string, d *Num) { s.expPut(path, nAdd(s.expGet(path), d)) }

// expAppend appends values to the list at path in the expected state.
func (s *Scn) expAppend(path string, vs ...Val) {
	l, err := s.I.walk(s.exp, s.or, types.NewPointer(s.orT), path)
	if err != nil {
		panic(undecided(err.Error()))
	}
	et := under(l.t).(*types.Slice).Elem()
	old := s.I.get(s.exp, l)
	nv := s.I.appendV(s.exp, old, s.I.mkSlice(s.exp, et, vs, "expect"), l.t, "expect")
	s.I.store(s.exp, l.addr, l.t, nv, "expect")
}

// network fixes the network name everywhere.
func (s *Scn) network(n string) {
	s.I.init["or.cfg.Network"] = strC(n)
	s.I.init["or.state.Network"] = strC(n)
}

// pointer to a new struct of type pkg.name with the given fields
func (s *Scn) mk(pkg, name string, f map[string]Val) *Ptr {
	t := s.c.named(pkg, name)
	return s.mkT(t, name, f)
}
func (s *Scn) mkT(t types.Type, name string, f map[string]Val) *Ptr {
	o := s.I.newObj(s.st, t, "entry:"+name)
	p := &Ptr{o, ""}
	for k, v := range f {
		s.I.Put(s.st, p, types.NewPointer(t), k, v)
	}
	return p
}
func (s *Scn) big(n *Num) Val { return s.I.newBig(s.st, n, "entrybig") }

// val is a tracked validator named v: all its quantities are unknown numbers.
func (s *Scn) val(v string, status int64) *Ptr {
	var stv Val = numI(status)
	if status < 0 {
		stv = s.I.Range(v+".status", 0, big.NewInt(255))
	}
	s.I.Uniq("w:"+v, "k:"+v)
	p := s.mk("oracle", "ValidatorInfo", map[string]Val{
		".ValidatorStatus":       stv,
		".AccumulatedRewardsWei": s.nonneg(v + ".acc"),
		".PendingRewardsWei":     s.nonneg(v + ".pend"),
		".CollateralWei":         s.nonneg(v + ".coll"),
		".WithdrawalAddress":     addrStr("w:"+v, "db"),
		".ValidatorIndex":        s.u64(v),
		".ValidatorKey":          keyStr("k:" + v),
		".SubscriptionType":      s.I.Range(v+".sub", 0, big.NewInt(255)),
	})
	return p
}

// validators tracked: name -> status (status<0: unknown). Indices are unknown but
// pairwise distinct and ordered as listed.
type vst struct {
	n  string
	st int64
}

func (s *Scn) validators(vs ...vst) {
	var kv []Val
	for i, v := range vs {
		kv = append(kv, s.u64(v.n), s.val(v.n, v.st))
		for j := 0; j < i; j++ {
			s.less(numAtom(vs[j].n), numAtom(v.n))
		}
	}
	m := s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(s.c.named("oracle", "ValidatorInfo"))), kv...)
	s.put(".state.Validators", m)
}

// other distinct index not tracked
func (s *Scn) untracked(v string, than ...string) *Num {
	n := s.u64(v)
	for _, t := range than {
		s.less(numAtom(t), n)
	}
	return n
}

// begin fixes the entry state: expected effects are applied to a copy of it.
func (s *Scn) begin() { s.exp = s.st.clone() }

// call analyses fn on the current state.
func (s *Scn) call(fn *ssa.Function, args ...Val) Val {
	if trace {
		println(s.name)
	}
	if s.exp == nil {
		s.begin()
	}
	s.fn = fn
	s.I.ends, s.I.notes = nil, nil
	s.ret = s.I.run(s.st, fn, args, nil, s.name)
	for f := range s.I.visited {
		s.c.Touch(f)
	}
	s.args = args
	if s.c.onCall != nil {
		s.c.onCall(s)
	}
	return s.ret
}

func (s *Scn) pos() string {
	if s.fn == nil {
		return "-"
	}
	return s.c.P.pos(s.fn.Pos())
}

// fail reports a violated demand of this scenario
func (s *Scn) fail(rule, format string, a ...interface{}) {
	s.bad = true
	s.c.Fail(rule, s.name, s.pos(), format, a...)
}

// clean: the call returns, without stopping the process, and nothing was left undecided
func (s *Scn) clean(rule string) bool {
	if len(s.I.notes) > 0 {
		s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
		return false
	}
	if s.c.only != nil && len(s.I.ends) > 0 {
		return false
	}
	if len(s.I.ends) > 0 {
		e := s.I.ends[0]
		s.fail(rule, "%s may stop here: %s %q at %s when %s", shortName(s.fn), e.kind, trunc(e.msg, 160), e.pos, strings.Join(e.gd, " & "))
		return false
	}
	if s.st.dead {
		s.fail(rule, "%s does not return", shortName(s.fn))
		return false
	}
	return true
}

// stops: every path ends in a fatal stop or panic of the given kinds
func (s *Scn) stops(rule string) bool {
	if len(s.I.notes) > 0 {
		s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
		return false
	}
	if !s.st.dead {
		s.fail(rule, "%s goes on; it must stop the process here", shortName(s.fn))
		return false
	}
	s.c.Ok(rule, 1)
	return true
}

func uniqStrs(a []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range a {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

// effects compares the whole state reachable from the oracle (or the given root paths)
// with the expected one.
func (s *Scn) effects(rule string, ignore ...string) bool {
	if !s.clean(rule) {
		return false
	}
	got, want := map[string]string{}, map[string]string{}
	s.I.leafs(s.st, s.or, types.NewPointer(s.orT), "", got, 0)
	s.I.leafs(s.exp, s.or, types.NewPointer(s.orT), "", want, 0)
	return s.diff(rule, got, want, ignore...)
}

func (s *Scn) diff(rule string, got, want map[string]string, ignore ...string) bool {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var d []string
	n := 0
loop:
	for _, k := range ks {
		for _, i := range ignore {
			if strings.HasPrefix(k, i) {
				continue loop
			}
		}
		if s.c.only != nil && !s.c.only(s, k) {
			continue
		}
		n++
		g, ok1 := got[k]
		w, ok2 := want[k]
		if !ok1 {
			g = "<absent>"
		}
		if !ok2 {
			w = "<absent>"
		}
		if g != w {
			d = append(d, fmt.Sprintf("%s is %s, the property demands %s", k, trunc(g, 300), trunc(w, 300)))
		}
	}
	if len(d) > 0 {
		if len(d) > 6 {
			d = append(d[:6], fmt.Sprintf("... %d more", len(d)-6))
		}
		s.fail(rule, "after %s: %s", shortName(s.fn), strings.Join(d, "; "))
		return false
	}
	s.c.Check(true, rule, s.name, s.pos(), "")
	return true
}

// expectRet compares the result
func (s *Scn) expectRet(rule string, want Val) bool {
	if !s.clean(rule) {
		return false
	}
	if s.ret.key() != want.key() {
		s.fail(rule, "%s gives %s, the property demands %s", shortName(s.fn), trunc(s.ret.key(), 300), trunc(want.key(), 300))
		return false
	}
	s.c.Check(true, rule, s.name, s.pos(), "")
	return true
}

// retErr: is the last result a (definitely) non-nil error / nil?
func (s *Scn) lastErr() (nonNil, isNil bool) {
	v := s.ret
	if t, ok := v.(*Tuple); ok {
		if len(t.v) == 0 {
			return false, false
		}
		v = t.v[len(t.v)-1]
	}
	v = s.I.res(s.st, v)
	if isNilV(v) {
		return false, true
	}
	return nonNilErr(v), false
}

func nonNilErr(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return x.nn || x.err
	case *Iface:
		return true
	case *Ptr:
		return true
	case *Ite:
		return nonNilErr(x.a) && nonNilErr(x.b)
	}
	return false
}

func (s *Scn) retAt(i int) Val {
	if t, ok := s.ret.(*Tuple); ok {
		return s.I.res(s.st, t.v[i])
	}
	return s.I.res(s.st, s.ret)
}

// leafs lists the scalar contents of the value graph reachable from v.
func (I *Interp) leafs(st *State, v Val, t types.Type, path string, out map[string]string, d int) {
	v = I.res(st, v)
	if d > 14 {
		out[path] = "…"
		return
	}
	switch x := v.(type) {
	case *Iface:
		I.leafs(st, x.v, x.t, path, out, d)
		return
	case *Ptr:
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			break
		}
		if isBig(pt.Elem()) {
			out[path] = I.bigOf(st, x, "leaf").key()
			return
		}
		if !x.o.fresh && x.path == "" {
			if p := fnPkgOf(pt.Elem()); !strings.HasPrefix(p, modPath) {
				break
			}
		}
		I.leafs(st, I.loadLoc(st, x.o, x.path, pt.Elem()), pt.Elem(), path, out, d+1)
		return
	case *Struct:
		s, ok := under(t).(*types.Struct)
		if !ok || s.NumFields() != len(x.f) {
			break
		}
		for i := range x.f {
			I.leafs(st, x.f[i], s.Field(i).Type(), path+"."+s.Field(i).Name(), out, d+1)
		}
		return
	case *SliceV:
		s, ok := under(t).(*types.Slice)
		if !ok {
			break
		}
		es, _ := I.elems(st, x, s.Elem())
		out[path+".#"] = fmt.Sprint(len(es))
		for i, e := range es {
			I.leafs(st, e, s.Elem(), fmt.Sprintf("%s[%d]", path, i), out, d+1)
		}
		return
	case *ArrV:
		for i, e := range x.e {
			out[fmt.Sprintf("%s[%d]", path, i)] = e.key()
		}
		return
	case *MapV:
		m, ok := under(t).(*types.Map)
		if !ok {
			break
		}
		mc, complete := I.mapOf(st, x.o)
		if !complete {
			out[path+"[*]"] = x.o.name
		}
		for _, e := range mc.es {
			p := I.decide(st, e.pres)
			if b, ok := p.(VBool); ok && !bool(b) {
				continue
			} else if !ok {
				out[path+"["+e.k.key()+"]?"] = p.key()
			}
			I.leafs(st, e.v, m.Elem(), path+"["+e.k.key()+"]", out, d+1)
		}
		return
	case *Ite:
		out[path] = I.dump(st, x, t)
		return
	case nil:
		out[path] = "<none>"
		return
	}
	if isNilV(v) {
		switch under(t).(type) {
		case *types.Slice:
			out[path+".#"] = "0"
			return
		}
	}
	out[path] = v.key()
}
