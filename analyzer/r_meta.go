package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sub runs another rule's analyses for the observer only.
func (c *Ctx) sub(id string, flip bool, onCall func(s *Scn)) {
	r := rules[id]
	if r == nil {
		panic(undecided("no rule " + id))
	}
	x := newCtx(c.P, id, c.tier)
	x.flip = flip
	x.onCall = onCall
	r.run(x)
	for f := range x.fns {
		c.fns[f] = true
	}
}

// updatedFields: struct fields holding a *big.Int that some code of the module changes in
// place (a mutating method called on the number itself).
func (c *Ctx) updatedFields() map[string]string {
	out := map[string]string{}
	var origin func(v ssa.Value, seen map[ssa.Value]bool, f func(field, where string))
	origin = func(v ssa.Value, seen map[ssa.Value]bool, f func(field, where string)) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			origin(x.X, seen, f)
		case *ssa.FieldAddr:
			t := deref(x.X.Type())
			f(shortType(t)+"."+under(t).(*types.Struct).Field(x.Field).Name(), "")
		case *ssa.Field:
			f(shortType(x.X.Type())+"."+under(x.X.Type()).(*types.Struct).Field(x.Field).Name(), "")
		case *ssa.Phi:
			for _, e := range x.Edges {
				origin(e, seen, f)
			}
		case *ssa.Call:
			// x.Add(x, y) gives x
			if callee := x.Call.StaticCallee(); callee != nil && bigMutator(callee) {
				origin(x.Call.Args[0], seen, f)
			}
		case *ssa.Parameter:
			// what callers pass
			for _, g := range c.P.Funcs {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						ci, ok := ins.(ssa.CallInstruction)
						if !ok || ci.Common().StaticCallee() != x.Parent() {
							continue
						}
						for i, p := range x.Parent().Params {
							if p == x && i < len(ci.Common().Args) {
								origin(ci.Common().Args[i], seen, f)
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if strings.HasSuffix(fnPkg(fn), "/contract") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				callee := x.Call.StaticCallee()
				if callee == nil || !bigMutator(callee) {
					continue
				}
				origin(x.Call.Args[0], map[ssa.Value]bool{}, func(f, _ string) {
					if out[f] == "" {
						out[f] = c.P.posOf(ins)
					}
				})
			}
		}
	}
	return out
}

func shortType(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	return s[strings.LastIndex(s, ".")+1:]
}

func bigMutator(fn *ssa.Function) bool {
	n, ok := strings.CutPrefix(fn.String(), "(*math/big.Int).")
	if !ok {
		return false
	}
	switch n {
	case "Add", "Sub", "Mul", "Div", "Quo", "Rem", "Mod", "DivMod", "QuoRem", "Set", "SetUint64", "SetInt64", "SetString", "SetBytes", "SetBit", "SetBits", "Neg", "Abs", "Exp", "Sqrt", "Lsh", "Rsh", "And", "Or", "Xor", "Not", "AndNot", "MulRange", "Binomial", "GCD", "ModInverse", "ModSqrt", "Rand", "GobDecode", "UnmarshalJSON", "UnmarshalText", "Scan":
		return true
	}
	return false
}

// bigsOf collects where each number object is reachable from v.
func (s *Scn) bigsOf(v Val, t types.Type, path, field, home string, at map[string][][3]string, d int) {
	v = s.I.res(s.st, v)
	if d > 14 {
		return
	}
	switch x := v.(type) {
	case *Iface:
		s.bigsOf(x.v, x.t, path, field, home, at, d)
	case *Ite:
		s.bigsOf(x.a, t, path, field, home, at, d+1)
		s.bigsOf(x.b, t, path, field, home, at, d+1)
	case *Ptr:
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			return
		}
		if isBig(pt.Elem()) {
			for _, o := range at[x.key()] {
				if o[2] == home { // the same place, reached by two ways
					return
				}
			}
			at[x.key()] = append(at[x.key()], [3]string{path, field, home})
			return
		}
		if opaqueStruct(pt.Elem()) || !x.o.fresh && x.path == "" && !strings.HasPrefix(fnPkgOf(pt.Elem()), modPath) {
			return
		}
		s.bigsOf(s.I.loadLoc(s.st, x.o, x.path, pt.Elem()), pt.Elem(), path, field, x.key(), at, d+1)
	case *Struct:
		st, ok := under(t).(*types.Struct)
		if !ok {
			return
		}
		for i := range x.f {
			s.bigsOf(x.f[i], st.Field(i).Type(), path+"."+st.Field(i).Name(), shortType(t)+"."+st.Field(i).Name(), home+"."+st.Field(i).Name(), at, d+1)
		}
	case *SliceV:
		sl, ok := under(t).(*types.Slice)
		if !ok {
			return
		}
		es, _ := s.I.elems(s.st, x, sl.Elem())
		for i, e := range es {
			s.bigsOf(e, sl.Elem(), fmt.Sprintf("%s[%d]", path, i), field, fmt.Sprintf("%s%s[%d]", x.o.name, x.path, x.off+i), at, d+1)
		}
	case *MapV:
		m, ok := under(t).(*types.Map)
		if !ok {
			return
		}
		mc, _ := s.I.mapOf(s.st, x.o)
		for _, e := range mc.es {
			if b, ok := s.I.decide(s.st, e.pres).(VBool); ok && !bool(b) {
				continue
			}
			s.bigsOf(e.v, m.Elem(), path+"["+e.k.key()+"]", field, x.o.name+"["+e.k.key()+"]", at, d+1)
		}
	}
}

// cone: functions of the module reachable by static calls and closures
func (c *Ctx) cone(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var q []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && (inModule(f) || f.Synthetic != "") {
			seen[f] = true
			q = append(q, f)
		}
	}
	for _, r := range roots {
		add(r)
	}
	for i := 0; i < len(q); i++ {
		for _, b := range q[i].Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						add(x)
					case *ssa.MakeClosure:
						add(x.Fn.(*ssa.Function))
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					// in-module implementations
					for _, m := range c.implementers(ci.Common()) {
						add(m)
					}
				}
			}
		}
	}
	return q
}

// implementers: methods of module types an interface call may reach
func (c *Ctx) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := under(cc.Value.Type()).(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range c.P.Pkgs {
		if strings.HasSuffix(p.PkgPath, "/contract") {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					if m := c.P.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
						out = append(out, m)
					}
				}
			}
		}
	}
	return out
}

func init() {
	register(&Rule{id: "C38", title: "aliasing of balances", minOblig: 1500,
		explain: "First, on the SSA of the whole module, the struct fields whose number is changed in place (receiver of a mutating big.Int method, traced through locals, results and parameters) are found. Then the abstract interpretations of the state-changing operations (slot processing, subscriptions, unsubscriptions, bans, cleanup, freezing, tree building, loading) are repeated and after each analysed call the heap reachable from the oracle, the call's arguments and its results is walked: no number reachable under such a field may be reachable anywhere else.",
		assume:  []string{"the entry states of the repeated analyses hold no shared numbers (they are built that way), so sharing found at the exit was made by the code"},
		run: func(c *Ctx) {
			upd := c.updatedFields()
			var fs []string
			for f, p := range upd {
				fs = append(fs, f+" ("+p+")")
			}
			sort.Strings(fs)
			for _, f := range []string{"ValidatorInfo.PendingRewardsWei", "ValidatorInfo.AccumulatedRewardsWei", "OracleState.PoolAccumulatedFees"} {
				if upd[f] == "" {
					// not updated in place (any more): sharing is harmless, but keep it apart anyway
					upd[f] = "balance"
				}
				c.Ok("balance fields", 1)
			}
			c.smp = append(c.smp, "numbers changed in place: "+strings.Join(fs, ", "))
			n := 0
			for _, id := range []string{"C03", "C05", "C06", "C07", "C08", "C09", "C12", "C15", "C16"} {
				c.sub(id, false, func(s *Scn) {
					if s.st.dead {
						return
					}
					at := map[string][][3]string{}
					s.bigsOf(s.or, types.NewPointer(s.orT), "", "", "oracle", at, 0)
					for i, p := range s.fn.Params {
						if i < len(s.args) && !types.Identical(p.Type(), types.NewPointer(s.orT)) {
							s.bigsOf(s.args[i], p.Type(), "argument "+p.Name(), "", "argument "+p.Name(), at, 0)
						}
					}
					if s.ret != nil {
						if t, ok := s.ret.(*Tuple); ok {
							for i := 0; i < s.fn.Signature.Results().Len() && i < len(t.v); i++ {
								s.bigsOf(t.v[i], s.fn.Signature.Results().At(i).Type(), fmt.Sprintf("result %d", i), "", fmt.Sprintf("result %d", i), at, 0)
							}
						} else if s.fn.Signature.Results().Len() == 1 {
							s.bigsOf(s.ret, s.fn.Signature.Results().At(0).Type(), "result", "", "result", at, 0)
						}
					}
					var bad []string
					cons := ""
					for _, ps := range at {
						if len(ps) < 2 {
							continue
						}
						hit := ""
						for _, p := range ps {
							if upd[p[1]] != "" && (hit == "" || p[1] < hit) {
								hit = p[1]
							}
						}
						if hit == "" {
							continue
						}
						sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
						var l []string
						for _, p := range ps {
							l = append(l, p[0])
						}
						bad = append(bad, strings.Join(l, " and ")+" are one number")
						if cons == "" || hit < cons {
							cons = hit
						}
					}
					n++
					sort.Strings(bad)
					c.Check(len(bad) == 0, "balances share no storage", shortName(s.fn)+": "+cons, s.pos(), "%s: %s (changed in place at %s)", s.name, trunc(strings.Join(bad, "; "), 500), upd[cons])
				})
			}
			c.Check(n > 1000, "calls observed", "analyses", "-", "only %d calls observed", n)
		}})

	register(&Rule{id: "C28", title: "independence of iteration order", minOblig: 1500,
		explain: "The abstract interpretations of slot processing, reward distribution, subscriptions, unsubscriptions, bans, cleanup, freezing and tree building are run twice, visiting every map in opposite orders; the complete symbolic state of the oracle and the result after every analysed call must be the same term by term. In addition no function reachable from these operations may use another source of nondeterminism (clock, random numbers, goroutines, select, environment).",
		assume:  []string{"an order dependence shows between two opposite visiting orders of up to seven entries"},
		run: func(c *Ctx) {
			type res struct {
				m    map[string]string
				name string
				fn   string
				pos  string
			}
			n := 0
			for _, id := range []string{"C03", "C05", "C06", "C07", "C08", "C09", "C15", "C16"} {
				var runs [2][]res
				for k := 0; k < 2; k++ {
					c.sub(id, k == 1, func(s *Scn) {
						m := map[string]string{}
						if s.st.dead {
							m["stopped"] = "true"
						} else {
							s.I.leafs(s.st, s.or, types.NewPointer(s.orT), "", m, 0)
							r := s.ret
							if t, ok := r.(*Tuple); ok {
								for i := 0; i < s.fn.Signature.Results().Len() && i < len(t.v); i++ {
									s.I.leafs(s.st, t.v[i], s.fn.Signature.Results().At(i).Type(), fmt.Sprintf("result %d", i), m, 0)
								}
							} else if r != nil && s.fn.Signature.Results().Len() == 1 {
								s.I.leafs(s.st, r, s.fn.Signature.Results().At(0).Type(), "result", m, 0)
							}
						}
						runs[k] = append(runs[k], res{m, s.name, shortName(s.fn), s.pos()})
					})
				}
				if len(runs[0]) != len(runs[1]) {
					c.Fail("analyses repeat", id, "-", "%d and %d calls analysed in the two orders", len(runs[0]), len(runs[1]))
					continue
				}
				for i := range runs[0] {
					a, b := runs[0][i], runs[1][i]
					var d []string
					for k, v := range a.m {
						if w, ok := b.m[k]; !ok || noID(w) != noID(v) {
							d = append(d, fmt.Sprintf("%s is %s in one order and %s in the other", k, trunc(v, 200), trunc(w, 200)))
						}
					}
					for k, v := range b.m {
						if _, ok := a.m[k]; !ok {
							d = append(d, fmt.Sprintf("%s is absent in one order and %s in the other", k, trunc(v, 200)))
						}
					}
					sort.Strings(d)
					n++
					c.Check(len(d) == 0, "same outcome in every order", a.fn+": "+a.name, a.pos, "%s", trunc(strings.Join(d, "; "), 600))
				}
			}
			c.Check(n > 1000, "calls observed", "analyses", "-", "only %d calls observed", n)
			// other sources
			var roots []*ssa.Function
			for _, a := range []string{"AdvanceStateToNextSlot", "FreezeCheckpoint", "ValidatorCleanup", "IsCheckpoint", "LatestCommitedSlot", "LatestCommitedState", "RunOffchainReconciliation", "RunOnchainReconciliation", "GetUniqueWithdrawalAddresses"} {
				roots = append(roots, c.anchor("oracle", "*Oracle", a))
			}
			for _, fn := range c.cone(roots...) {
				c.Touch(fn)
				bad := ""
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.Go:
							bad = "starts a goroutine at " + c.P.posOf(ins)
						case *ssa.Select:
							bad = "selects at " + c.P.posOf(ins)
						case ssa.CallInstruction:
							if f := x.Common().StaticCallee(); f != nil && nondet(f.String()) && usedOutsideLog(x) {
								bad = "calls " + f.String() + " at " + c.P.posOf(ins)
							}
						}
					}
				}
				c.Check(bad == "", "no other nondeterminism", shortName(fn), c.P.pos(fn.Pos()), "%s %s", shortName(fn), bad)
			}
			c.Min("no other nondeterminism", 25)
		}})
}

// noID removes allocation counters from terms
func noID(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j > i+1 {
				i = j - 1
				b.WriteByte('#')
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func nondet(n string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "math/rand", "crypto/rand", "os.Get", "os.Hostname", "os.Environ", "runtime.", "(*math/rand", "math/rand/v2", "hash/maphash", "github.com/google/uuid"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// usedOutsideLog: does the result flow anywhere but into logging or metrics?
func usedOutsideLog(ci ssa.CallInstruction) bool {
	v, ok := ci.(ssa.Value)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var used func(v ssa.Value) bool
	used = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				f := x.Common().StaticCallee()
				if f != nil && (strings.Contains(f.String(), "sirupsen/logrus") || strings.Contains(f.String(), "prometheus")) {
					continue
				}
				if f != nil && (strings.HasPrefix(f.String(), "time.") || strings.HasPrefix(f.String(), "(time.") || strings.HasPrefix(f.String(), "fmt.Sprint")) {
					if rv, ok := x.(ssa.Value); ok && !used(rv) {
						continue
					}
				}
				return true
			case *ssa.MakeInterface:
				if used(x) {
					return true
				}
			case *ssa.Extract:
				if used(x) {
					return true
				}
			case *ssa.Convert:
				if used(x) {
					return true
				}
			case *ssa.ChangeType:
				if used(x) {
					return true
				}
			case *ssa.BinOp:
				if used(x) {
					return true
				}
			case *ssa.Store:
				// variadic argument or a local: follow the object
				var base ssa.Value = x.Addr
				if ia, ok := base.(*ssa.IndexAddr); ok {
					base = ia.X
				}
				if a, ok := base.(*ssa.Alloc); ok {
					if used(a) {
						return true
					}
					continue
				}
				return true
			case *ssa.Slice:
				if used(x) {
					return true
				}
			case *ssa.IndexAddr:
			case *ssa.UnOp:
				if used(x) {
					return true
				}
			case *ssa.MapUpdate:
				// log.Fields
				if strings.HasSuffix(types.TypeString(x.Map.Type(), nil), "logrus.Fields") {
					continue
				}
				return true
			default:
				return true
			}
		}
		return false
	}
	return used(v)
}
