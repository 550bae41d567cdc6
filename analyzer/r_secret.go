package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// what a value gives away
const (
	sRaw = 1 << iota // it is, or contains in clear, the secret
	sFmt             // printing it prints the secret
	sJsn             // encoding it as JSON does
)

// secretFlow follows the keystore password and the private key through the whole program,
// all calling contexts of a function together.
type secretFlow struct {
	c       *Ctx
	val     map[ssa.Value]int
	field   map[string]int // "type.field" -> what it holds
	mem     map[ssa.Value]int
	ret     map[*ssa.Function]map[int]int
	lf      *lockFlow // resolves calls
	changed bool
	origins []string
	callers map[*ssa.Function][]ssa.CallInstruction
	judged  map[string]bool
	final   bool
	sinks   int
	uses    map[string]bool
}

func fieldKey(x ssa.Value, k int) string {
	st := types.Unalias(deref(x.Type()))
	s, ok := under(st).(*types.Struct)
	if !ok {
		return ""
	}
	return types.TypeString(st, nil) + "." + s.Field(k).Name()
}

func (s *secretFlow) set(m map[ssa.Value]int, v ssa.Value, b int) {
	if b != 0 && m[v]|b != m[v] {
		m[v] |= b
		s.changed = true
	}
}

func (s *secretFlow) setField(k string, b int) {
	if k != "" && s.field[k]|b != s.field[k] {
		s.field[k] |= b
		s.changed = true
	}
}

// typeBits: what printing or encoding a value of the type gives away
func (s *secretFlow) typeBits(t types.Type, depth int, seen map[types.Type]bool) int {
	t = types.Unalias(t)
	if isNamed(t, "crypto/ecdsa", "PrivateKey") {
		return sFmt | sJsn
	}
	if isNamed(t, gethPkg+"/accounts/keystore", "Key") {
		return sJsn
	}
	if isNamed(t, "flag", "Flag") || isNamed(t, "flag", "Value") || isNamed(t, "flag", "FlagSet") {
		return sFmt | sJsn // shows the value the flag was given
	}
	if p, ok := t.(*types.Pointer); ok {
		b := s.typeBits(p.Elem(), depth+1, seen)
		if depth > 0 {
			b &^= sFmt // fmt prints the address of a pointer inside a value
		}
		return b
	}
	if seen[t] {
		return 0
	}
	sn := map[types.Type]bool{t: true}
	for k := range seen {
		sn[k] = true
	}
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				if _, ok := o.(*types.Func); ok && !inModulePath(n.Obj().Pkg()) {
					return 0
				}
			}
		}
	}
	b := 0
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fb := s.typeBits(f.Type(), depth+1, sn)
			h := s.field[types.TypeString(t, nil)+"."+f.Name()]
			if h&sRaw != 0 {
				if _, isPtr := under(f.Type()).(*types.Pointer); !isPtr {
					fb |= sFmt
				}
				fb |= sJsn
			}
			fb |= h & (sFmt | sJsn)
			if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag == "-" || !f.Exported() && !f.Embedded() {
				fb &^= sJsn
			}
			b |= fb
		}
	case *types.Slice:
		b = s.typeBits(u.Elem(), depth+1, sn)
	case *types.Array:
		b = s.typeBits(u.Elem(), depth+1, sn)
	case *types.Map:
		b = s.typeBits(u.Elem(), depth+1, sn) | s.typeBits(u.Key(), depth+1, sn)
	}
	return b
}

// bits: what a value gives away, its type included when it is boxed
func (s *secretFlow) bits(v ssa.Value) int {
	b := s.val[v]
	if m, ok := v.(*ssa.MakeInterface); ok {
		b |= s.bits(m.X) | s.typeBits(m.X.Type(), 0, nil)
	}
	return b
}

// carries: values of the type can hold the secret in clear
func carries(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsUntyped) != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32
	case *types.Signature, *types.Chan:
		return false
	case *types.Tuple:
		return u.Len() > 0
	}
	return !isErrT(t)
}

func (s *secretFlow) origin(v ssa.Value, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			k := fieldKey(a.X, a.Field)
			if s.field[k]&sRaw == 0 {
				s.origins = append(s.origins, "field "+k)
				s.setField(k, sRaw)
			}
			for _, st := range s.stores(k) {
				s.origin(st, seen)
			}
		default:
			s.origins = append(s.origins, "variable at "+s.c.P.posOf(x))
			s.set(s.mem, a, sRaw)
			if cl, ok := a.(*ssa.Call); ok {
				s.flagDefault(cl, 1)
			}
			if a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if cl, ok := r.(*ssa.Call); ok && (strings.HasPrefix(callName(cl.Common()), "flag.") || strings.HasPrefix(callName(cl.Common()), "(*flag.FlagSet).")) {
						s.flagDefault(cl, 2)
					}
				}
			}
			if al, ok := a.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						s.origin(st.Val, seen)
					}
				}
			}
		}
	case *ssa.Field:
		k := fieldKey(x.X, x.Field)
		s.setField(k, sRaw)
		for _, st := range s.stores(k) {
			s.origin(st, seen)
		}
	case *ssa.Parameter:
		s.set(s.val, x, sRaw)
		for _, c := range s.callers[x.Parent()] {
			for k, p := range x.Parent().Params {
				if p == x && k < len(c.Common().Args) {
					s.origin(c.Common().Args[k], seen)
				}
			}
		}
	case *ssa.Call:
		s.set(s.val, x, sRaw)
		f := x.Call.StaticCallee()
		if f != nil && (strings.HasPrefix(f.String(), "strings.") || strings.HasPrefix(f.String(), "bytes.") || strings.HasPrefix(f.String(), "fmt.S")) {
			for _, a := range x.Call.Args {
				if carries(a.Type()) {
					s.origin(a, seen)
				}
			}
		} else if f != nil && f.Blocks != nil && inModule(f) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					s.origin(r.Results[0], seen)
				}
			}
		}
	case *ssa.Extract:
		s.set(s.val, x, sRaw)
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(r.Results) {
						s.origin(r.Results[x.Index], seen)
					}
				}
			}
		}
	case *ssa.Convert:
		s.origin(x.X, seen)
	case *ssa.ChangeType:
		s.origin(x.X, seen)
	case *ssa.Slice:
		s.origin(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.origin(e, seen)
		}
	}
}

// flagDefault: the usage text shows the default of a flag
func (s *secretFlow) flagDefault(cl *ssa.Call, k int) {
	if strings.HasPrefix(callName(cl.Common()), "(") {
		k++
	}
	if n := callName(cl.Common()); (n == "flag.String" || n == "flag.StringVar" || n == "(*flag.FlagSet).String" || n == "(*flag.FlagSet).StringVar") && len(cl.Call.Args) > k {
		_, ok := cl.Call.Args[k].(*ssa.Const)
		s.c.Check(ok, secRule, "default of the password's flag", s.c.P.posOf(cl), "the flag's default, which its usage text shows, is not a constant")
	}
}

// stores: the values put into a field anywhere
func (s *secretFlow) stores(key string) []ssa.Value {
	var r []ssa.Value
	for _, f := range s.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X, fa.Field) == key {
						r = append(r, st.Val)
					}
				}
			}
		}
	}
	return r
}

// what may be done with the secret
var secretUse = []string{
	gethPkg + "/accounts/keystore.DecryptKey",
	gethPkg + "/accounts/abi/bind.NewKeyedTransactor",
	gethPkg + "/crypto.Sign", gethPkg + "/crypto.PubkeyToAddress", gethPkg + "/core/types.SignTx", gethPkg + "/core/types.SignNewTx",
	"(*crypto/ecdsa.PrivateKey).Public", "(crypto/ecdsa.PrivateKey).Public", "(*crypto/ecdsa.PrivateKey).Equal", "crypto/subtle.ConstantTimeCompare", "reflect.DeepEqual", "(*flag.FlagSet).",
}

// what passes it on
var secretPass = []string{"fmt.Sprint", "fmt.Append", "strings.", "(*strings.", "strconv.", "bytes.", "(*bytes.", "encoding/hex.", gethPkg + "/common/hexutil.", "(*encoding/base64.", "encoding/json.Marshal", "(*math/big.", gethPkg + "/crypto.FromECDSA", gethPkg + "/common.", "(" + gethPkg + "/common.", "unicode", "maps.", "slices.", "sort."}

func hasAny(n string, l []string) bool {
	for _, p := range l {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func root0(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

func isArgs(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.String() == "os.Args"
}

func (s *secretFlow) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				bb := s.mem[x.X] | s.val[x.X]&sRaw
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					bb |= s.field[fieldKey(a.X, a.Field)]
					if isNamed(deref(a.X.Type()), "crypto/ecdsa", "PrivateKey") && under(deref(a.X.Type())).(*types.Struct).Field(a.Field).Name() == "D" {
						bb |= sRaw
					}
				case *ssa.IndexAddr:
					if k, ok := a.Index.(*ssa.Const); ok && k.Int64() == 0 && isArgs(a.X) {
						break // the program's own name
					}
					bb |= s.val[a.X] | s.mem[root0(a)]
				case *ssa.Global:
					if a.String() == "os.Args" {
						bb |= sRaw
					}
				}
				if carries(x.Type()) {
					s.set(s.val, x, bb)
				}
			case *ssa.Field:
				bb := s.field[fieldKey(x.X, x.Field)]
				if isNamed(x.X.Type(), "crypto/ecdsa", "PrivateKey") && under(x.X.Type()).(*types.Struct).Field(x.Field).Name() == "D" {
					bb |= sRaw
				}
				s.set(s.val, x, bb)
			case *ssa.Store:
				bb := s.bits(x.Val)
				if bb == 0 {
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					s.setField(fieldKey(fa.X, fa.Field), bb)
					continue
				}
				s.set(s.mem, x.Addr, bb)
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					s.set(s.mem, root0(ia), bb)
					s.set(s.val, ia.X, bb)
				}
			case *ssa.Slice:
				s.set(s.val, x, s.val[x.X]|s.mem[x.X]|s.mem[root0(x.X)])
			case *ssa.MapUpdate:
				bb := s.bits(x.Value) | s.bits(x.Key)
				s.set(s.val, x.Map, bb)
				if u, ok := x.Map.(*ssa.UnOp); ok {
					s.set(s.mem, u.X, bb)
				}
			case *ssa.Lookup:
				if carries(x.Type()) {
					s.set(s.val, x, s.val[x.X])
				}
			case *ssa.Index:
				s.set(s.val, x, s.val[x.X])
			case *ssa.Range:
				s.set(s.val, x, s.val[x.X])
			case *ssa.Next:
				s.set(s.val, x, s.val[x.Iter])
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if m := s.callRet(f, c); carries(x.Type()) {
						s.set(s.val, x, m[x.Index])
					}
					continue
				}
				if carries(x.Type()) {
					s.set(s.val, x, s.val[x.Tuple])
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					s.set(s.val, x, s.bits(e))
				}
			case *ssa.Convert:
				s.set(s.val, x, s.val[x.X])
			case *ssa.ChangeType:
				s.set(s.val, x, s.bits(x.X))
			case *ssa.ChangeInterface:
				s.set(s.val, x, s.bits(x.X)|s.typeBits(x.X.Type(), 0, nil))
			case *ssa.MakeInterface:
				s.set(s.val, x, s.bits(x))
			case *ssa.TypeAssert:
				s.set(s.val, x, s.val[x.X]&sRaw)
			case *ssa.BinOp:
				if x.Op == token.ADD && carries(x.Type()) {
					s.set(s.val, x, s.val[x.X]|s.val[x.Y])
				}
			case *ssa.Return:
				for k, v := range x.Results {
					m := s.ret[f]
					if m == nil {
						m = map[int]int{}
						s.ret[f] = m
					}
					if bb := s.bits(v); m[k]|bb != m[k] {
						m[k] |= bb
						s.changed = true
					}
				}
			case *ssa.MakeClosure:
				t := x.Fn.(*ssa.Function)
				for k, bd := range x.Bindings {
					if k < len(t.FreeVars) {
						s.set(s.val, t.FreeVars[k], s.val[bd])
						s.set(s.mem, t.FreeVars[k], s.mem[bd])
						s.set(s.mem, bd, s.mem[t.FreeVars[k]])
					}
				}
			case *ssa.Panic:
				s.judge(f, i, "panic", s.bits(x.X)&(sRaw|sFmt))
			case *ssa.Send:
				s.judge(f, i, "a channel", s.bits(x.X)&sRaw)
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				s.call(f, ci)
			}
		}
	}
}

// callRet: what the results of a call give away
func (s *secretFlow) callRet(f *ssa.Function, c *ssa.Call) map[int]int {
	r := map[int]int{}
	for _, t := range s.lf.targets(&c.Call, f) {
		for k, b := range s.ret[t] {
			r[k] |= b
		}
	}
	for k := 0; k < c.Call.Signature().Results().Len(); k++ {
		r[k] |= s.val[c] & sRaw
	}
	return r
}

func (s *secretFlow) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	ts := s.lf.targets(c, f)
	if len(ts) > 0 {
		for _, t := range ts {
			for k, p := range t.Params {
				if k < len(args) {
					s.set(s.val, p, s.bits(args[k]))
					s.set(s.mem, p, s.mem[args[k]])
				}
			}
			if v := ci.Value(); v != nil && carries(v.Type()) && c.Signature().Results().Len() == 1 {
				s.set(s.val, v, s.ret[t][0])
			}
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				s.set(s.val, ci.Value(), s.val[a])
			}
		case "copy":
			s.set(s.val, args[0], s.val[args[1]])
			s.set(s.mem, root0(args[0]), s.val[args[1]])
		case "print", "println":
			for _, a := range args {
				s.judge(f, ci, b.Name(), s.bits(a)&(sRaw|sFmt))
			}
		}
		return
	}
	n := callName(c)
	all := 0
	for k, a := range args {
		if c.IsInvoke() && k == 0 {
			all |= s.val[a] & sRaw
			continue
		}
		b := s.bits(a)
		// a private key or its bytes handed over as such
		if pt := types.Unalias(a.Type()); isNamed(deref(pt), "crypto/ecdsa", "PrivateKey") || isNamed(deref(pt), gethPkg+"/accounts/keystore", "Key") {
			b |= sRaw
		}
		all |= b
	}
	// the value of a command line flag
	if n == "(flag.Value).String" || n == "(flag.Getter).Get" || n == "os.Environ" {
		if v := ci.Value(); v != nil {
			s.set(s.val, v, sRaw)
		}
		return
	}
	if all == 0 {
		return
	}
	if n == "dynamic call" || hasAny(n, secretUse) {
		if s.final && n != "dynamic call" {
			s.uses[n] = true
			s.c.Ok("the secret is used where it must be", 1)
		}
		if n != "dynamic call" {
			return
		}
	}
	if hasAny(n, secretPass) {
		b := all & sRaw
		if strings.HasPrefix(n, "fmt.") && all&sFmt != 0 || strings.HasPrefix(n, "encoding/json.") && all&sJsn != 0 {
			b |= sRaw
		}
		if strings.HasPrefix(n, "maps.") || strings.HasPrefix(n, "slices.") {
			b = all
		}
		if v := ci.Value(); v != nil && carries(v.Type()) {
			s.set(s.val, v, b)
		}
		if len(args) > 0 && (strings.HasPrefix(n, "(*")) { // a builder or buffer now holds it
			s.set(s.val, args[0], b)
			s.set(s.mem, args[0], b)
		}
		return
	}
	bad := all & sRaw
	switch {
	case strings.Contains(n, "logrus") || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "github.com/pkg/errors.") || strings.Contains(n, "zerolog"):
		bad = all & (sRaw | sFmt)
		// WithFields and the like pass it on to what prints it
		if v := ci.Value(); v != nil && bad == 0 {
			s.set(s.val, v, all)
		}
	case strings.HasPrefix(n, "(*encoding/json.Encoder).") || strings.HasPrefix(n, "encoding/json."):
		bad = all & (sRaw | sJsn)
	case strings.HasPrefix(n, "context.WithValue"):
		return
	case n == "encoding/gob.Encoder.Encode", n == "(*encoding/gob.Encoder).Encode":
		bad = all & sRaw
	}
	s.judge(f, ci, n, bad)
}

const secRule = "the secret does not leave"

func (s *secretFlow) judge(f *ssa.Function, i ssa.Instruction, to string, bad int) {
	if !s.final || bad == 0 {
		return
	}
	k := s.c.P.posOf(i)
	if s.judged[k] {
		return
	}
	s.judged[k] = true
	s.c.Fail(secRule, shortName(f)+" to "+to, k, "the updater's password or private key reaches %s", to)
}

func runC21(c *Ctx) {
	s := &secretFlow{c: c, val: map[ssa.Value]int{}, field: map[string]int{}, mem: map[ssa.Value]int{}, ret: map[*ssa.Function]map[int]int{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, judged: map[string]bool{}, uses: map[string]bool{}}
	s.lf = newLockFlow(c)
	dec := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if t := ci.Common().StaticCallee(); t != nil {
						s.callers[t] = append(s.callers[t], ci)
					}
				}
			}
		}
	}
	// the password is what the keystore is decrypted with, wherever it comes from
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || callName(ci.Common()) != gethPkg+"/accounts/keystore.DecryptKey" {
					continue
				}
				dec++
				c.Touch(f)
				s.origin(ci.Common().Args[1], map[ssa.Value]bool{})
			}
		}
	}
	if p := c.P.Named("config", "CliConfig"); p != nil {
		st := under(p).(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == "UpdaterKeyPass" {
				s.setField(types.TypeString(p, nil)+".UpdaterKeyPass", sRaw)
			}
		}
	}
	c.Check(dec >= 1, "coverage", "decryption", "-", "no decryption of a keystore found: the analysis lost its subject")
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Blocks != nil && fnPkg(f) != modPath+"/contract" {
			fs = append(fs, f)
		}
	}
	for r := 0; ; r++ {
		s.changed = false
		for _, f := range fs {
			s.flow(f)
		}
		if !s.changed {
			break
		}
		if r > 200 {
			panic(undecided("secret flow does not settle"))
		}
	}
	s.final = true
	// every place where something leaves the program is looked at
	for _, f := range fs {
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if _, blt := ci.Common().Value.(*ssa.Builtin); !blt && len(s.lf.targets(ci.Common(), f)) == 0 {
						n++
					}
				}
				if _, ok := i.(*ssa.Panic); ok {
					n++
				}
			}
		}
		if n > 0 {
			c.Ok(secRule, n)
			c.Touch(f)
		}
	}
	for _, f := range fs {
		s.flow(f)
	}
	var fl []string
	for k, b := range s.field {
		if b&sRaw != 0 {
			fl = append(fl, strings.TrimPrefix(k, modPath+"/"))
		}
	}
	c.Check(len(fl) >= 1, "coverage", "fields holding the secret", "-", "no field holds the password: the analysis lost its subject")
	c.Check(len(s.uses) >= 2, "coverage", "uses", "-", "the password and key are not seen to be used: the analysis lost its subject")
	for _, k := range fl {
		c.smp = append(c.smp, "holds the secret: "+k)
	}
	if c.dbg {
		fmt.Println(fl, s.origins, s.uses)
	}
}

func init() {
	register(&Rule{id: "C21", title: "the updater's key and password are never disclosed",
		explain: "taint analysis over the SSA of the whole program. Sources: whatever reaches the password argument of keystore.DecryptKey, traced back through calls, fields and variables to the flag it is read from; the decrypted key and every private key by type; os.Args and the values of flags. Every value computed from a source is followed through variables, fields, maps, slices, calls, results, closures, string building and encoding. No such value, and no value whose printing (fmt follows embedded values but not inner pointers) or JSON encoding (exported fields without the tag \"-\") would contain one, may reach a call outside the module other than keystore decryption, transaction signing and derivation of the public key; nor panic or an error's text.",
		run:     runC21, minOblig: 300,
		assume: []string{"go-ethereum's keystore and transactor keep what they are given to themselves, error texts included", "what a branch on the secret reveals (that it is empty) is no disclosure"}})
}
