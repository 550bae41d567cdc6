package main

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func errSym(msg string) *Sym { return &Sym{t: msg, err: true, nn: true} }

// failResults: zero values and a non-nil error
func (I *Interp) failResults(sig *types.Signature, name string) Val {
	t := &Tuple{}
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		if types.Identical(ty, errType) {
			t.v = append(t.v, errSym("err("+name+")"))
		} else {
			t.v = append(t.v, I.zero(ty))
		}
	}
	if len(t.v) == 1 {
		return t.v[0]
	}
	return t
}

func hasErrResult(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), errType) {
			return true
		}
	}
	return false
}

func (I *Interp) variadic(st *State, v Val) []Val {
	es, _ := I.elems(st, I.res(st, v), types.NewInterfaceType(nil, nil))
	var r []Val
	for _, e := range es {
		if i, ok := I.res(st, e).(*Iface); ok {
			r = append(r, i.v)
		} else {
			r = append(r, e)
		}
	}
	return r
}

func (I *Interp) asStr(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case *Num:
		return I.decS(x)
	case *Iface:
		return I.asStr(x.v)
	case VNil:
		return strC("<nil>")
	}
	return strAtom("fmt(" + v.key() + ")")
}

func (I *Interp) decS(n *Num) *Str {
	if c, ok := n.p.isConst(); ok {
		return strC(c.String())
	}
	a := "dec(" + n.key() + ")"
	I.decOf[a] = n
	I.nonEmpty[a] = true
	return strAtom(a)
}

// numeric value of a number argument (big.Int pointer or integer)
func (I *Interp) bigOf(st *State, v Val, pos string) Val {
	return I.dist(st, v, func(v Val) Val {
		switch x := v.(type) {
		case *Num:
			return x
		case *Ptr:
			return I.load(st, x, I.bigT(), pos)
		case VNil:
			I.panicNow(st, "nil dereference", pos)
			return numI(0)
		}
		return numAtom("*" + v.key())
	})
}

func (I *Interp) bigT() types.Type {
	n := I.P.Named("math/big", "Int")
	return n
}

func (I *Interp) newBig(st *State, v Val, site string) Val {
	o := I.newObj(st, I.bigT(), site)
	st.cells[cellKey{o, ""}] = v
	I.cellTyp[cellKey{o, ""}] = I.bigT()
	return &Ptr{o, ""}
}

func num2(f func(a, b *Num) Val) func(a, b Val) Val {
	return func(a, b Val) Val {
		x, ok1 := a.(*Num)
		y, ok2 := b.(*Num)
		if ok1 && ok2 {
			return f(x, y)
		}
		return numAtom("?" + a.key() + "," + b.key())
	}
}

func (I *Interp) sprintf(st *State, f *Str, args []Val, pos string) *Str {
	fc, ok := f.konst()
	if !ok {
		k := ""
		for _, a := range args {
			k += "," + a.key()
		}
		return strAtom("sprintf(" + f.key() + k + ")")
	}
	r := &Str{}
	ai := 0
	for i := 0; i < len(fc); i++ {
		if fc[i] != '%' {
			r = catS(r, strC(fc[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(fc) && strings.IndexByte("+-# 0123456789.*", fc[j]) >= 0 {
			j++
		}
		if j >= len(fc) {
			break
		}
		verb := fc[j]
		spec := fc[i : j+1]
		i = j
		if verb == '%' {
			r = catS(r, strC("%"))
			continue
		}
		if ai >= len(args) {
			r = catS(r, strAtom("missing"+spec))
			continue
		}
		a := I.res(st, args[ai])
		ai++
		switch x := a.(type) {
		case *Num:
			if spec == "%d" || spec == "%v" {
				r = catS(r, I.decS(x))
				continue
			}
		case *Str:
			if spec == "%s" || spec == "%v" {
				r = catS(r, x)
				continue
			}
		case *Ptr: // *big.Int
			if v, ok := st.cells[cellKey{x.o, x.path}].(*Num); ok && (spec == "%d" || spec == "%v" || spec == "%s") {
				r = catS(r, I.decS(v))
				continue
			}
		case *Sym:
			if x.err {
				r = catS(r, strAtom("msg("+x.t+")"))
				continue
			}
		}
		r = catS(r, strAtom(spec+"("+a.key()+")"))
	}
	return r
}

// ---- hex text <-> bytes

func hexOf(s *Str, lower bool) *Str {
	r := &Str{}
	for _, p := range s.parts {
		if p.atom == "" {
			r = catS(r, strC(hex.EncodeToString([]byte(p.c))))
			continue
		}
		cl, ok := strings.CutPrefix(p.atom, "b:")
		if !ok {
			cl = "h:" + p.atom
		}
		n := -1
		if p.n >= 0 {
			n = 2 * p.n
		}
		q := SPart{atom: "cs:" + cl, fold: cl, n: n, lower: lower}
		r = catS(r, &Str{parts: []SPart{q}})
	}
	return r
}

func unhex(s *Str) (*Str, bool) {
	r := &Str{}
	for _, p := range s.parts {
		if p.atom == "" {
			b, err := hex.DecodeString(p.c)
			if err != nil {
				return nil, false
			}
			r = catS(r, strC(string(b)))
			continue
		}
		if p.n >= 0 && p.n%2 == 1 {
			return nil, false
		}
		n := -1
		if p.n >= 0 {
			n = p.n / 2
		}
		cl := p.class()
		a := "b:" + cl
		if y, ok := strings.CutPrefix(cl, "h:"); ok {
			a = y
		}
		r = catS(r, &Str{parts: []SPart{{atom: a, n: n}}})
	}
	return r, true
}

func strip0x(s *Str) *Str {
	if len(s.parts) > 0 && s.parts[0].atom == "" && (strings.HasPrefix(s.parts[0].c, "0x") || strings.HasPrefix(s.parts[0].c, "0X")) {
		return subS(s, 2, -1)
	}
	return s
}

func fitLeft(s *Str, n int) *Str {
	L, ok := s.length()
	if !ok {
		return &Str{parts: []SPart{{atom: fmt.Sprintf("fit%d(%s)", n, s.key()), n: n}}}
	}
	if L > n {
		return subS(s, L-n, L)
	}
	if L < n {
		return catS(strC(strings.Repeat("\x00", n-L)), s)
	}
	return s
}

func (I *Interp) checksum(s *Str) *Str {
	if c, ok := s.konst(); ok {
		return strC(eip55(c))
	}
	return hexOf(s, false)
}

func (I *Interp) strFn(st *State, a, b Val, f func(a, b *Str) Val) Val {
	return I.dist2(st, a, b, func(a, b Val) Val {
		x, _ := toStr(a)
		y, _ := toStr(b)
		if x == nil {
			x = strAtom(a.key())
		}
		if y == nil {
			y = strAtom(b.key())
		}
		return f(x, y)
	})
}

func (I *Interp) hasPrefix(st *State, s, p *Str) Val {
	// compare part by part
	if len(p.parts) == 0 {
		return VBool(true)
	}
	if pc, ok := p.konst(); ok {
		if len(s.parts) == 0 {
			return VBool(false)
		}
		if s.parts[0].atom == "" {
			c := s.parts[0].c
			if len(c) >= len(pc) {
				return VBool(strings.HasPrefix(c, pc))
			}
			if !strings.HasPrefix(pc, c) {
				return VBool(false)
			}
			if len(s.parts) == 1 {
				return VBool(false)
			}
		} else if I.uniq[s.parts[0].class()] && strings.HasPrefix(pc, "0x") {
			return VBool(false) // hex digits never contain an x
		}
		if L, ok := s.length(); ok && L < len(pc) {
			return VBool(false)
		}
	} else if k := subS(s, 0, plen(p)); k != nil && k.key() == p.key() {
		return VBool(true)
	}
	return I.decide(st, &Cond{t: "prefix(" + s.key() + "," + p.key() + ")"})
}
func plen(s *Str) int { n, _ := s.length(); return n }

func tup(vs ...Val) Val { return &Tuple{vs} }

var noopPkgs = []string{"github.com/sirupsen/logrus", "github.com/prometheus/client_golang"}

// external models a call whose body is outside the module.
func (I *Interp) external(c *Call) Val {
	st := c.st
	if c.fn == nil && I.hook != nil {
		if v, ok := I.hook(c); ok {
			return v
		}
	}
	n := c.name
	a := c.args
	arg := func(i int) Val {
		v := I.res(st, a[i])
		if f, ok := v.(*Iface); ok {
			return f.v
		}
		return v
	}
	// a compiled expression is known by its text
	if n == "regexp.MustCompile" || n == "regexp.Compile" {
		if p, ok := arg(0).(*Str); ok {
			if k, ok := p.konst(); ok {
				if _, err := regexp.Compile(k); err != nil {
					if n == "regexp.Compile" {
						return I.failResults(c.sig, n)
					}
					I.panicNow(st, "regexp.MustCompile", c.pos)
					return I.zeroResults(c.sig)
				}
				v := &Sym{t: "regexp:" + k, nn: true}
				if n == "regexp.Compile" {
					return tup(v, VNil{})
				}
				return v
			}
		}
	}
	// logging
	if strings.Contains(n, "github.com/sirupsen/logrus") {
		base := n[strings.LastIndex(n, ".")+1:]
		switch {
		case strings.HasPrefix(base, "Fatal"), base == "Exit":
			msg := ""
			if len(a) > 0 {
				for _, v := range I.variadic(st, a[len(a)-1]) {
					msg += I.asStr(I.res(st, v)).key()
				}
			}
			I.fatal(st, msg, c.pos)
			return I.zeroResults(c.sig)
		case strings.HasPrefix(base, "Panic"):
			I.panicNow(st, "log.Panic", c.pos)
			return I.zeroResults(c.sig)
		case strings.HasPrefix(base, "With"):
			return &Ptr{I.symObj("logentry", nil), ""}
		}
		return I.results(st, c.sig, "log")
	}
	if strings.HasPrefix(n, "os.Exit") {
		I.fatal(st, "os.Exit", c.pos)
		return &Tuple{}
	}
	if strings.HasPrefix(n, "(*math/big.Int).") {
		if v, ok := I.bigModel(c, strings.TrimPrefix(n, "(*math/big.Int).")); ok {
			return v
		}
	}
	if strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") {
		if v, ok := I.stringsModel(c, n[strings.Index(n, ".")+1:], arg); ok {
			return v
		}
	}
	I.ncall[n]++
	fails := I.fail[n] || I.fail[fmt.Sprintf("%s#%d", n, I.ncall[n])]
	if I.failSite != "" && I.failSite == n+"@"+c.pos {
		fails = true
	}
	if fails && hasErrResult(c.sig) {
		st.trace = append(st.trace, Event{kind: "call", name: n, args: a, pos: c.pos})
		return I.failResults(c.sig, n)
	}
	str := func(i int) *Str {
		s, _ := toStr(arg(i))
		if s == nil {
			s = strAtom(arg(i).key())
		}
		return s
	}
	switch n {
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).IsActive":
		return I.inSet(st, a[0], 3, 4, 5)
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).IsPending":
		return I.inSet(st, a[0], 1, 2)
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).IsExited":
		return I.inSet(st, a[0], 6, 7)
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).HasExited":
		return I.inSet(st, a[0], 6, 7, 8, 9)
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).IsAttesting":
		return I.inSet(st, a[0], 3, 4)
	case "(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).HasActivated":
		return I.inSet(st, a[0], 3, 4, 5, 6, 7, 8, 9)
	case "math/big.NewInt":
		return I.newBig(st, a[0], "big")
	case "errors.New", "github.com/pkg/errors.New":
		return errSym("error(" + a[0].key() + ")")
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		return errSym("error(" + I.sprintf(st, str(0), I.variadic(st, a[1]), c.pos).key() + ")")
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		return I.dist(st, a[0], func(e Val) Val {
			if isNilV(e) {
				return VNil{}
			}
			if s, ok := e.(*Sym); ok {
				return &Sym{t: s.t, err: true, nn: s.nn}
			}
			return e
		})
	case "github.com/pkg/errors.Cause", "errors.Unwrap":
		return a[0]
	case "fmt.Sprintf":
		return I.sprintf(st, str(0), I.variadic(st, a[1]), c.pos)
	case "fmt.Sprint", "fmt.Sprintln":
		r := &Str{}
		prevStr := true
		for _, v := range I.variadic(st, a[0]) {
			v = I.res(st, v)
			_, isS := v.(*Str)
			if len(r.parts) > 0 && !isS && !prevStr {
				r = catS(r, strC(" "))
			}
			prevStr = isS
			if p, ok := v.(*Ptr); ok {
				if k, ok := st.cells[cellKey{p.o, p.path}].(*Num); ok {
					v = k
				}
			}
			r = catS(r, I.asStr(v))
		}
		return r
	case "strconv.Itoa":
		return I.dist(st, a[0], func(v Val) Val { return I.asStr(v) })
	case "strconv.FormatUint", "strconv.FormatInt":
		return I.dist(st, a[0], func(v Val) Val { return I.asStr(v) })
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		s := str(0)
		base, bits := int64(10), int64(64)
		if len(a) == 3 {
			b1, ok1 := I.res(st, a[1]).(*Num)
			b2, ok2 := I.res(st, a[2]).(*Num)
			if !ok1 || !ok2 {
				break
			}
			i1, ok1 := b1.int()
			i2, ok2 := b2.int()
			if !ok1 || !ok2 {
				break
			}
			base, bits = int64(i1), int64(i2)
		}
		if bits == 0 {
			bits = 64
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		if n != "strconv.ParseUint" {
			max.Rsh(max, 1)
		}
		if len(s.parts) == 1 && s.parts[0].atom != "" && (base == 10 || base == 0) {
			if m, ok := I.decOf[s.parts[0].atom]; ok {
				lo, hi := I.interval(m.p)
				if lo != nil && lo.Sign() >= 0 && (hi != nil && hi.Cmp(max) <= 0 || max.Cmp(maxU64) == 0) {
					return tup(m, VNil{})
				}
			}
		}
		if k, ok := s.konst(); ok {
			var r *big.Int
			var err error
			if n == "strconv.ParseUint" {
				var x uint64
				x, err = strconv.ParseUint(k, int(base), int(bits))
				r = new(big.Int).SetUint64(x)
			} else {
				var x int64
				x, err = strconv.ParseInt(k, int(base), int(bits))
				r = big.NewInt(x)
			}
			if err != nil {
				return tup(&Num{polyConst(r)}, errSym("parse error"))
			}
			return tup(&Num{polyConst(r)}, VNil{})
		}
		nm := "uint(" + s.key() + ")"
		if base != 10 || bits != 64 || n != "strconv.ParseUint" {
			nm = fmt.Sprintf("%s(%s,%d,%d)", n[len("strconv."):], s.key(), base, bits)
		}
		e := I.decide(st, &Cond{t: "isnum(" + nm + ")"})
		if n == "strconv.ParseUint" {
			I.rng[esc(nm)] = rng{big.NewInt(0), max}
		}
		return tup(I.boolIte(st, e, numAtom(nm), numI(0)), I.boolIte(st, e, VNil{}, errSym("parse error")))
	case "encoding/hex.EncodeToString", "github.com/ethereum/go-ethereum/common.Bytes2Hex":
		return hexOf(str(0), true)
	case "github.com/ethereum/go-ethereum/common/hexutil.Encode":
		return catS(strC("0x"), hexOf(str(0), true))
	case "encoding/hex.DecodeString":
		s, ok := unhex(str(0))
		if !ok {
			return tup(strC(""), errSym("hex error"))
		}
		return tup(s, VNil{})
	case "github.com/ethereum/go-ethereum/common.Hex2Bytes":
		s, ok := unhex(str(0))
		if !ok {
			return strC("")
		}
		return s
	case "github.com/ethereum/go-ethereum/common.FromHex":
		s, ok := unhex(strip0x(str(0)))
		if !ok {
			return strC("")
		}
		return s
	case "github.com/ethereum/go-ethereum/common.HexToAddress", "github.com/ethereum/go-ethereum/common.HexToHash":
		k := 20
		if strings.HasSuffix(n, "HexToHash") {
			k = 32
		}
		return I.dist(st, a[0], func(v Val) Val {
			s, _ := toStr(v)
			b, ok := unhex(strip0x(s))
			if !ok {
				b = strC("")
			}
			return fitLeft(b, k)
		})
	case "github.com/ethereum/go-ethereum/common.BytesToAddress":
		return fitLeft(str(0), 20)
	case "github.com/ethereum/go-ethereum/common.BytesToHash":
		return fitLeft(str(0), 32)
	case "net.JoinHostPort":
		if h, ok := str(0).konst(); ok && !strings.ContainsAny(h, ":%") {
			return catS(strC(h+":"), str(1))
		}
	case "net/url.Parse", "net/url.ParseRequestURI":
		if k, ok := str(0).konst(); ok {
			u, err := url.Parse(k)
			if n == "net/url.ParseRequestURI" {
				u, err = url.ParseRequestURI(k)
			}
			if err != nil {
				return I.failResults(c.sig, n)
			}
			t := I.P.Named("net/url", "URL")
			p := &Ptr{I.newObj(st, t, "url"), ""}
			for f, v := range map[string]string{".Scheme": u.Scheme, ".Opaque": u.Opaque, ".Host": u.Host, ".Path": u.Path, ".RawQuery": u.RawQuery, ".Fragment": u.Fragment} {
				I.Put(st, p, types.NewPointer(t), f, strC(v))
			}
			return tup(p, VNil{})
		}
	case "github.com/ethereum/go-ethereum/common.IsHexAddress":
		if k, ok := str(0).konst(); ok {
			k = strings.TrimPrefix(strings.TrimPrefix(k, "0x"), "0X")
			_, err := hex.DecodeString(k)
			return VBool(err == nil && len(k) == 40)
		}
		s := strip0x(str(0))
		if L, ok := s.length(); ok {
			return VBool(L == 40)
		}
		return I.decide(st, &Cond{t: "isaddr(" + s.key() + ")"})
	case "(github.com/attestantio/go-eth2-client/spec/bellatrix.ExecutionAddress).String", "(github.com/ethereum/go-ethereum/common.Address).Hex", "(github.com/ethereum/go-ethereum/common.Address).String", "(*github.com/ethereum/go-ethereum/common.Address).Hex", "(*github.com/ethereum/go-ethereum/common.Address).String":
		return I.dist(st, a[0], func(v Val) Val {
			if p, ok := v.(*Ptr); ok {
				v = I.load(st, p, I.P.Named("github.com/ethereum/go-ethereum/common", "Address"), c.pos)
			}
			if s, ok := v.(*Str); ok {
				return catS(strC("0x"), I.checksum(s))
			}
			return strAtom("hex(" + v.key() + ")")
		})
	case "(github.com/ethereum/go-ethereum/common.Hash).Hex", "(github.com/ethereum/go-ethereum/common.Hash).String", "(github.com/attestantio/go-eth2-client/spec/phase0.BLSPubKey).String", "(github.com/attestantio/go-eth2-client/spec/phase0.Hash32).String", "(github.com/attestantio/go-eth2-client/spec/phase0.Root).String":
		return I.dist(st, a[0], func(v Val) Val {
			if s, ok := v.(*Str); ok {
				return catS(strC("0x"), hexOf(s, true))
			}
			return strAtom("hex(" + v.key() + ")")
		})
	case "(github.com/ethereum/go-ethereum/common.Address).Bytes", "(github.com/ethereum/go-ethereum/common.Hash).Bytes":
		return a[0]
	case "crypto/sha256.Sum256":
		cl := "sha256(" + str(0).key() + ")"
		I.Uniq(cl) // collision-free: different content, different hash
		return &Str{parts: []SPart{{atom: "b:" + cl, n: 32}}}
	case "crypto/sha256.New":
		o := I.newObj(st, nil, "hasher(sha256)")
		st.cells[cellKey{o, ".hashed"}] = strC("")
		return &Ptr{o, ""}
	case "(io.Writer).Write", "(hash.Hash).Write", "(hash.Hash).Sum", "(hash.Hash).Reset":
		p, ok := I.res(st, a[0]).(*Ptr)
		if !ok {
			break
		}
		h, ok := st.cells[cellKey{p.o, ".hashed"}].(*Str)
		if !ok {
			break
		}
		switch {
		case strings.HasSuffix(n, "Write"):
			x, ok := I.res(st, a[1]).(*Str)
			if !ok {
				panic(undecided("hashed data unknown at " + c.pos))
			}
			st.cells[cellKey{p.o, ".hashed"}] = catS(h, x)
			return &Tuple{[]Val{I.lenV(st, a[1]), VNil{}}}
		case strings.HasSuffix(n, "Reset"):
			st.cells[cellKey{p.o, ".hashed"}] = strC("")
			return &Tuple{}
		}
		if pre := I.res(st, a[1]); !isNilV(pre) {
			if x, ok := pre.(*Str); !ok || len(x.parts) > 0 {
				panic(undecided("hash appended to other data at " + c.pos))
			}
		}
		cl := "sha256(" + h.key() + ")"
		I.Uniq(cl)
		return &Str{parts: []SPart{{atom: "b:" + cl, n: 32}}}
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		var jt types.Type
		jv := a[0]
		for { // pointers and values marshal alike
			if f, ok := jv.(*Iface); ok {
				jv, jt = I.res(st, f.v), f.t
				continue
			}
			if p, ok := jv.(*Ptr); ok && jt != nil {
				if pt, ok := under(jt).(*types.Pointer); ok && !isBig(pt.Elem()) {
					jt = pt.Elem()
					jv = I.res(st, I.loadLoc(st, p.o, p.path, jt))
					continue
				}
			}
			break
		}
		nm := "json("
		for _, x := range a[1:] {
			nm += x.key() + ","
		}
		nm += I.dump(st, jv, jt) + ")"
		I.snap(nm, st, a[0])
		st.trace = append(st.trace, Event{kind: "json", name: nm, pos: c.pos})
		return tup(strAtom(nm), VNil{})
	case "encoding/json.Unmarshal":
		I.decodeInto(st, str(0), a[1], c.pos)
		return VNil{}
	case "(*encoding/json.Encoder).Encode":
		st.trace = append(st.trace, Event{kind: "call", name: n, args: append([]Val{a[0], a[1]}, strAtom(I.dump(st, a[1], nil))), pos: c.pos})
		return VNil{}
	case "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "encoding/json.NewEncoder", "encoding/json.NewDecoder":
		return &Ptr{I.symObj("coder("+arg(0).key()+")", nil), ""}
	case "(*encoding/gob.Encoder).Encode":
		k := strings.TrimSuffix(strings.TrimPrefix(arg(0).key(), "&coder("), ")")
		nm := "gob(" + k + ")"
		I.snap(nm, st, a[1])
		return VNil{}
	case "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode":
		k := strings.TrimSuffix(strings.TrimPrefix(arg(0).key(), "&coder("), ")")
		I.decodeInto(st, strAtom("gob("+k+")"), a[1], c.pos)
		return VNil{}
	case "bytes.NewBuffer", "bytes.NewReader":
		s := str(0)
		if len(s.parts) == 1 {
			if b, ok := strings.CutPrefix(s.parts[0].atom, "bufbytes("); ok {
				return &Ptr{I.bufs[strings.TrimSuffix(b, ")")], ""}
			}
		}
		return &Ptr{I.newObj(st, nil, "buffer"), ""}
	case "(*bytes.Buffer).Bytes":
		if p, ok := arg(0).(*Ptr); ok {
			if I.bufs == nil {
				I.bufs = map[string]*Obj{}
			}
			I.bufs[p.o.name] = p.o
			return strAtom("bufbytes(" + p.o.name + ")")
		}
	case "github.com/avast/retry-go/v4.Do":
		st.trace = append(st.trace, Event{kind: "call", name: n, pos: c.pos})
		if f, ok := arg(0).(*FuncV); ok {
			k := I.attempts
			if len(a) > 1 {
				for _, o := range I.variadic(st, a[1]) {
					if t, ok := strings.CutPrefix(o.key(), "retryattempts("); ok {
						if v, err := strconv.Atoi(strings.TrimSuffix(t, ")")); err == nil {
							k = v
							if v <= 0 || v > 4 {
								k = 4 // any number, or without end
							}
						}
					}
				}
			}
			for {
				v := I.res(st, I.callFn(st, c.in, f, nil, c.pos))
				if k--; k <= 0 || st.dead || !nonNilErr(v) {
					return v
				}
				if _, ite := v.(*Ite); ite {
					return v
				}
			}
		}
	case "github.com/avast/retry-go/v4.Attempts", "github.com/avast/retry-go/v4.UntilSucceeded":
		if len(a) > 0 {
			return &Sym{t: "retryattempts(" + a[0].key() + ")", nn: true}
		}
		return &Sym{t: "retryattempts(0)", nn: true}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Strings", "sort.Ints",
		"golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc", "golang.org/x/exp/slices.Sort":
		I.sortModel(c, n)
		return &Tuple{}
	case "maps.clone", "golang.org/x/exp/maps.Clone":
		v := arg(0)
		var t types.Type
		if len(c.args) > 0 {
			t = c.sig.Params().At(0).Type()
		}
		f, boxed := v.(*Iface)
		if boxed {
			v, t = I.res(st, f.v), f.t
		}
		if isNilV(v) {
			return arg(0)
		}
		if m, ok := v.(*MapV); ok {
			if mc, all := I.mapOf(st, m.o); all {
				o := I.newObj(st, t, "clone")
				st.maps[o] = &mapC{es: append([]mapEntry(nil), mc.es...)}
				if boxed {
					return &Iface{t: t, v: &MapV{o}}
				}
				return &MapV{o}
			}
		}
	case "golang.org/x/exp/maps.Values", "golang.org/x/exp/maps.Keys":
		if m, ok := arg(0).(*MapV); ok {
			mt := under(c.sig.Params().At(0).Type())
			et := c.sig.Results().At(0).Type()
			et = under(et).(*types.Slice).Elem()
			_ = mt
			var es []Val
			for _, k := range I.mapKeys(st, m.o) {
				for _, e := range st.maps[m.o].es {
					if e.k.key() == k.key() {
						if strings.HasSuffix(n, "Keys") {
							es = append(es, e.k)
						} else {
							es = append(es, e.v)
						}
					}
				}
			}
			st.trace = append(st.trace, Event{kind: "maporder", name: n, pos: c.pos})
			return I.mkSlice(st, et, es, "values")
		}
		if isNilV(arg(0)) {
			return VNil{}
		}
	case "(time.Duration).String":
		return strAtom("dur(" + a[0].key() + ")")
	case "path/filepath.Join", "path.Join":
		var r *Str
		for _, v := range I.variadicStr(st, a[0]) {
			if r == nil {
				r = v
			} else {
				r = catS(catS(r, strC("/")), v)
			}
		}
		return r
	case "invoke:Error", "(error).Error":
		return strAtom("msg(" + arg(0).key() + ")")
	case "errors.As", "github.com/pkg/errors.As":
		pt, ok := a[1].(*Iface)
		if !ok {
			break
		}
		tt := deref(pt.t)
		return I.dist(st, a[0], func(v Val) Val {
			if x, ok := v.(*Iface); ok && types.Identical(x.t, tt) {
				I.store(st, pt.v, tt, x.v, c.pos)
				return VBool(true)
			}
			if y, ok := v.(*Sym); ok && y.err && y.nn || isNilV(v) || ok && v != nil && !y.err {
				return VBool(false)
			}
			return &Cond{t: "as(" + v.key() + "," + types.TypeString(tt, nil) + ")"}
		})
	case "errors.Is", "github.com/pkg/errors.Is":
		return I.eqV(st, a[0], a[1])
	}
	if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(sync.") {
		st.trace = append(st.trace, Event{kind: "lock", name: n, args: a, pos: c.pos})
		if c.sig.Results().Len() > 0 {
			return I.results(st, c.sig, n)
		}
		return &Tuple{}
	}
	// uninterpreted
	nm := I.termName(n, c)
	st.trace = append(st.trace, Event{kind: "call", name: n, args: a, pos: c.pos})
	return I.results(st, c.sig, nm)
}

// termName: method calls are named by their receiver, functions by their arguments
func (I *Interp) termName(n string, c *Call) string {
	base := n
	if i := strings.LastIndex(n, "/"); i >= 0 {
		base = n[i+1:]
	}
	var ks []string
	args := c.args
	if strings.HasPrefix(n, "(") && len(args) > 0 {
		m := n[strings.LastIndex(n, ".")+1:]
		base = strings.TrimPrefix(args[0].key(), "&") + "." + m
		args = args[1:]
	}
	for _, a := range args {
		if f, ok := a.(*Iface); ok && strings.Contains(types.TypeString(f.t, nil), "context") {
			continue
		}
		k := a.key()
		if p, ok := a.(*Ptr); ok {
			if v, ok := c.st.cells[cellKey{p.o, p.path}].(*Num); ok {
				k = v.key()
			}
		}
		if strings.HasPrefix(k, "slice(") || strings.Contains(k, "#") && strings.HasPrefix(k, "&") || strings.HasPrefix(k, "context.") {
			continue
		}
		ks = append(ks, k)
	}
	return base + "(" + strings.Join(ks, ",") + ")"
}

func (I *Interp) variadicStr(st *State, v Val) []*Str {
	es, _ := I.elems(st, I.res(st, v), types.Typ[types.String])
	var r []*Str
	for _, e := range es {
		s, ok := I.res(st, e).(*Str)
		if !ok {
			s = strAtom(e.key())
		}
		r = append(r, s)
	}
	return r
}

func (I *Interp) bigModel(c *Call, m string) (Val, bool) {
	st := c.st
	a := c.args
	set := func(v Val) Val {
		I.store(st, a[0], I.bigT(), v, c.pos)
		return a[0]
	}
	x := func(i int) Val { return I.bigOf(st, a[i], c.pos) }
	bin := func(f func(p, q *Num) Val) (Val, bool) {
		p := x(1)
		q := x(2)
		if st.dead {
			return a[0], true
		}
		v := I.dist2(st, p, q, num2(f))
		if st.dead {
			return a[0], true
		}
		return set(v), true
	}
	div0 := func(q *Num) bool {
		k := I.mask(st, q.p)
		if k == mZero {
			I.panicNow(st, "division by zero", c.pos)
			return true
		}
		if k&mZero != 0 {
			I.guardedPanic(st, "zero("+q.key()+")", "division by zero", c.pos)
		}
		return false
	}
	switch m {
	case "Add":
		return bin(func(p, q *Num) Val { return nAdd(p, q) })
	case "Sub":
		return bin(func(p, q *Num) Val { return nSub(p, q) })
	case "Mul":
		return bin(func(p, q *Num) Val { return nMul(p, q) })
	case "Div", "Quo":
		return bin(func(p, q *Num) Val {
			if div0(q) {
				return numI(0)
			}
			return I.div(st, p, q)
		})
	case "Mod", "Rem":
		return bin(func(p, q *Num) Val {
			if div0(q) {
				return numI(0)
			}
			return I.mod(st, p, q)
		})
	case "DivMod", "QuoRem":
		p, q := x(1), x(2)
		if st.dead {
			return tup(a[0], a[3]), true
		}
		dv := I.dist2(st, p, q, num2(func(p, q *Num) Val {
			if div0(q) {
				return numI(0)
			}
			return I.div(st, p, q)
		}))
		mv := I.dist2(st, p, q, num2(func(p, q *Num) Val { return I.mod(st, p, q) }))
		if st.dead {
			return tup(a[0], a[3]), true
		}
		set(dv)
		I.store(st, a[3], I.bigT(), mv, c.pos)
		return tup(a[0], a[3]), true
	case "Neg":
		return set(I.dist(st, x(1), func(v Val) Val { return nSub(numI(0), v.(*Num)) })), true
	case "Set":
		v := x(1)
		if st.dead {
			return a[0], true
		}
		return set(v), true
	case "SetUint64", "SetInt64":
		return set(a[1]), true
	case "SetBytes":
		s, _ := toStr(I.res(st, a[1]))
		if s == nil {
			s = strAtom(a[1].key())
		}
		k := "num(" + s.key() + ")"
		if v, ok := I.init[k]; ok {
			return set(v), true
		}
		I.rng[esc(k)] = rng{big.NewInt(0), nil}
		return set(numAtom(k)), true
	case "SetString":
		s, _ := toStr(I.res(st, a[1]))
		if k, ok := s.konst(); ok {
			if v, ok := new(big.Int).SetString(k, 10); ok {
				set(&Num{polyConst(v)})
				return tup(a[0], VBool(true)), true
			}
			return tup(VNil{}, VBool(false)), true
		}
		if len(s.parts) == 1 {
			if d, ok := I.decOf[s.parts[0].atom]; ok {
				set(d)
				return tup(a[0], VBool(true)), true
			}
		}
		k := "num(" + s.key() + ")"
		set(numAtom(k))
		return tup(a[0], I.decide(st, &Cond{t: "isnum(" + s.key() + ")"})), true
	case "Cmp":
		p, q := x(0), x(1)
		return I.dist2(st, p, q, num2(func(p, q *Num) Val { return I.cmp(st, nSub(p, q)) })), true
	case "Sign":
		return I.dist(st, x(0), func(v Val) Val { return I.cmp(st, v.(*Num)) }), true
	case "Abs":
		return set(I.dist(st, x(1), func(v Val) Val { return I.abs(st, v.(*Num)) })), true
	case "CmpAbs":
		p, q := x(0), x(1)
		return I.dist2(st, p, q, num2(func(p, q *Num) Val {
			d, ok := I.abs(st, p).(*Num)
			e, ok2 := I.abs(st, q).(*Num)
			if !ok || !ok2 {
				return numAtom("cmpabs(" + p.key() + "," + q.key() + ")")
			}
			return I.cmp(st, nSub(d, e))
		})), true
	case "BitLen":
		// only whether it is zero is known of a number that is not
		return I.dist(st, x(0), func(v Val) Val {
			n := v.(*Num)
			if k, ok := n.p.isConst(); ok {
				return numI(int64(k.BitLen()))
			}
			k := "bitlen(" + n.key() + ")"
			I.rng[esc(k)] = rng{big.NewInt(1), nil}
			switch I.mask(st, n.p) & mZero {
			case 0:
				return numAtom(k)
			default:
				return I.boolIte(st, I.decide(st, zeroV(n.p)), numI(0), numAtom(k))
			}
		}), true
	case "Lsh", "Rsh":
		k, ok := a[2].(*Num)
		if !ok {
			return nil, false
		}
		by, ok := k.p.isConst()
		if !ok || !by.IsInt64() || by.Int64() < 0 || by.Int64() > 4096 {
			return nil, false
		}
		two := &Num{polyConst(new(big.Int).Lsh(big.NewInt(1), uint(by.Int64())))}
		return set(I.dist(st, x(1), func(v Val) Val {
			if m == "Lsh" {
				return nMul(v.(*Num), two)
			}
			return I.div(st, v.(*Num), two)
		})), true
	case "Exp":
		if !isNilV(I.res(st, a[3])) {
			return nil, false
		}
		b, ok1 := x(1).(*Num)
		e, ok2 := x(2).(*Num)
		if !ok1 || !ok2 {
			return nil, false
		}
		bk, ok1 := b.p.isConst()
		ek, ok2 := e.p.isConst()
		if !ok1 || !ok2 || ek.Sign() < 0 || ek.BitLen() > 10 {
			return nil, false
		}
		return set(&Num{polyConst(new(big.Int).Exp(bk, ek, nil))}), true
	case "Uint64", "Int64":
		return I.dist(st, x(0), func(v Val) Val {
			n := v.(*Num)
			if I.fits64(n) {
				return n
			}
			return numAtom(strings.ToLower(m) + "(" + n.key() + ")")
		}), true
	case "IsUint64", "IsInt64":
		return I.dist(st, x(0), func(v Val) Val {
			if I.fits64(v.(*Num)) {
				return VBool(true)
			}
			return I.decide(st, &Cond{t: strings.ToLower(m) + "(" + v.key() + ")"})
		}), true
	case "String":
		if isNilV(I.res(st, a[0])) {
			return strC("<nil>"), true
		}
		return I.dist(st, x(0), func(v Val) Val { return I.asStr(v) }), true
	}
	return nil, false
}

// fits64: the number is known to fit 64 bits
func (I *Interp) fits64(n *Num) bool {
	lo, hi := I.interval(n.p)
	return lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))) >= 0 && hi.Cmp(maxU64) <= 0
}

// abs gives |d|, gated on an undecided sign
func (I *Interp) abs(st *State, d *Num) Val {
	neg := nSub(numI(0), d)
	switch m := I.mask(st, d.p); {
	case m&mNeg == 0:
		return d
	case m&mPos == 0:
		return neg
	}
	return I.boolIte(st, I.decide(st, posV(neg.p)), neg, d)
}

// cmp gives -1, 0 or 1 for the sign of d, gated on the undecided comparisons
func (I *Interp) cmp(st *State, d *Num) Val {
	m := I.mask(st, d.p)
	switch m {
	case mPos:
		return numI(1)
	case mZero:
		return numI(0)
	case mNeg:
		return numI(-1)
	}
	var r Val
	add := func(bit int, v int64, cnd Val) {
		if m&bit == 0 {
			return
		}
		if r == nil {
			r = numI(v)
			return
		}
		r = I.boolIte(st, cnd, numI(v), r)
	}
	add(mZero, 0, VBool(true))
	add(mPos, 1, I.decide(st, posV(d.p)))
	add(mNeg, -1, I.decide(st, posV(nSub(numI(0), d).p)))
	return r
}

func (I *Interp) stringsModel(c *Call, m string, arg func(int) Val) (Val, bool) {
	st := c.st
	switch m {
	case "ToLower":
		return I.dist(st, arg(0), func(v Val) Val {
			s, ok := toStr(v)
			if !ok {
				return v
			}
			return lowerS(s)
		}), true
	case "EqualFold":
		return I.strFn(st, arg(0), arg(1), func(a, b *Str) Val { return I.eqStr(st, lowerS(a), lowerS(b)) }), true
	case "Equal":
		return I.strFn(st, arg(0), arg(1), func(a, b *Str) Val { return I.eqStr(st, a, b) }), true
	case "HasPrefix":
		return I.strFn(st, arg(0), arg(1), func(a, b *Str) Val { return I.hasPrefix(st, a, b) }), true
	case "HasSuffix", "Contains", "ContainsAny", "Compare", "Index":
		return I.strFn(st, arg(0), arg(1), func(a, b *Str) Val {
			x, ok1 := a.konst()
			y, ok2 := b.konst()
			if ok1 && ok2 {
				switch m {
				case "HasSuffix":
					return VBool(strings.HasSuffix(x, y))
				case "Contains":
					return VBool(strings.Contains(x, y))
				case "Index":
					return numI(int64(strings.Index(x, y)))
				case "Compare":
					return numI(int64(strings.Compare(x, y)))
				}
			}
			if m == "Contains" && ok2 {
				for _, p := range a.parts {
					if p.atom == "" && strings.Contains(p.c, y) {
						return VBool(true)
					}
				}
			}
			// digits only, or a named text taken to be free of separators
			plain := func(p SPart, y string) bool {
				return p.atom != "" && y != "" && strings.Trim(y, ",;:/ |") == "" && (I.decOf[p.atom] != nil || I.nonEmpty[p.class()])
			}
			if m == "HasSuffix" && ok2 && y != "" && len(a.parts) > 0 {
				l := a.parts[len(a.parts)-1]
				if l.atom == "" && len(l.c) >= len(y) {
					return VBool(strings.HasSuffix(l.c, y))
				}
				if plain(l, y) {
					return VBool(false)
				}
			}
			if m == "Contains" && ok2 && len(y) == 1 {
				no := true
				for _, p := range a.parts {
					no = no && (p.atom == "" || plain(p, y))
				}
				if no {
					return VBool(false)
				}
			}
			if m == "Compare" {
				one := func(v Val, t, e Val) Val { return I.boolIte(st, v, t, e) }
				return one(I.eqStr(st, a, b), numI(0), one(I.strLess(st, a, b), numI(-1), numI(1)))
			}
			if m == "Index" {
				return numAtom(m + "(" + a.key() + "," + b.key() + ")")
			}
			return I.decide(st, &Cond{t: strings.ToLower(m) + "(" + a.key() + "," + b.key() + ")"})
		}), true
	case "TrimPrefix":
		return I.strFn(st, arg(0), arg(1), func(a, b *Str) Val {
			if d, ok := I.hasPrefix(st, a, b).(VBool); ok {
				if !d {
					return a
				}
				return subS(a, plen(b), -1)
			}
			return strAtom("trimprefix(" + a.key() + "," + b.key() + ")")
		}), true
	case "Split", "Count":
		s, ok1 := arg(0).(*Str)
		sep, ok2 := arg(1).(*Str)
		if ok1 && ok2 {
			if y, ok := sep.konst(); ok && y != "" {
				cur := &Str{}
				var out []Val
				unk := false
				for _, p := range s.parts {
					if p.atom != "" {
						if !I.uniq[p.class()] && !I.nonEmpty[p.class()] {
							unk = true
						}
						cur = catS(cur, &Str{parts: []SPart{p}})
						continue
					}
					fs := strings.Split(p.c, y)
					for i, f := range fs {
						if i > 0 {
							out = append(out, cur)
							cur = &Str{}
						}
						cur = catS(cur, strC(f))
					}
				}
				out = append(out, cur)
				if !unk && m == "Count" {
					return numI(int64(len(out) - 1)), true
				}
				if !unk {
					return I.mkSlice(st, types.Typ[types.String], out, "split"), true
				}
			}
		}
		if m == "Count" {
			return I.Range("count("+arg(0).key()+","+arg(1).key()+")", 0, nil), true
		}
		return &Sym{t: "split(" + arg(0).key() + ")", nn: true}, true
	case "CutPrefix":
		s, ok1 := toStr(arg(0))
		y, ok2 := toStr(arg(1))
		if ok1 && ok2 {
			if d, ok := I.hasPrefix(st, s, y).(VBool); ok {
				if !d {
					return tup(s, VBool(false)), true
				}
				return tup(subS(s, plen(y), -1), VBool(true)), true
			}
		}
	case "Repeat":
		if y, ok := I.res(st, arg(0)).(*Str); ok {
			if k, ok := I.res(st, arg(1)).(*Num); ok {
				if n, ok := k.int(); ok && n >= 0 && n <= 4096 {
					r := &Str{}
					for i := 0; i < n; i++ {
						r = catS(r, y)
					}
					return r, true
				}
			}
		}
	case "ToUpper", "TrimSpace", "TrimSuffix", "Trim", "TrimLeft", "TrimRight", "ReplaceAll", "LastIndex", "IndexByte", "ContainsRune", "Cut", "Fields", "Title":
		var k []string
		var num int64
		for i := range c.args {
			switch x := I.res(st, c.args[i]).(type) {
			case *Str:
				y, ok := x.konst()
				if !ok {
					return nil, false
				}
				k = append(k, y)
			case *Num:
				y, ok := x.int()
				if !ok {
					return nil, false
				}
				num = int64(y)
			default:
				return nil, false
			}
		}
		b := map[string]func() Val{
			"ToUpper":      func() Val { return strC(strings.ToUpper(k[0])) },
			"TrimSpace":    func() Val { return strC(strings.TrimSpace(k[0])) },
			"TrimSuffix":   func() Val { return strC(strings.TrimSuffix(k[0], k[1])) },
			"Trim":         func() Val { return strC(strings.Trim(k[0], k[1])) },
			"TrimLeft":     func() Val { return strC(strings.TrimLeft(k[0], k[1])) },
			"TrimRight":    func() Val { return strC(strings.TrimRight(k[0], k[1])) },
			"ReplaceAll":   func() Val { return strC(strings.ReplaceAll(k[0], k[1], k[2])) },
			"LastIndex":    func() Val { return numI(int64(strings.LastIndex(k[0], k[1]))) },
			"IndexByte":    func() Val { return numI(int64(strings.IndexByte(k[0], byte(num)))) },
			"ContainsRune": func() Val { return VBool(strings.ContainsRune(k[0], rune(num))) },
			"Title":        func() Val { return strC(strings.Title(k[0])) },
			"Cut": func() Val {
				x, y, ok := strings.Cut(k[0], k[1])
				return tup(strC(x), strC(y), VBool(ok))
			},
			"Fields": func() Val {
				var out []Val
				for _, f := range strings.Fields(k[0]) {
					out = append(out, strC(f))
				}
				return I.mkSlice(st, types.Typ[types.String], out, "fields")
			},
		}[m]
		return b(), true
	case "Join":
		if es, ok := I.elems(st, arg(0), types.Typ[types.String]); ok {
			r := &Str{}
			sep, _ := toStr(arg(1))
			for i, e := range es {
				if i > 0 {
					r = catS(r, sep)
				}
				s, ok := I.res(st, e).(*Str)
				if !ok {
					s = strAtom(e.key())
				}
				r = catS(r, s)
			}
			return r, true
		}
	}
	return nil, false
}

func (I *Interp) sortModel(c *Call, n string) {
	st := c.st
	v := I.res(st, c.args[0])
	if f, ok := v.(*Iface); ok {
		v = I.res(st, f.v)
	}
	s, ok := v.(*SliceV)
	var less *FuncV
	ok2 := false
	if len(c.args) > 1 {
		less, ok2 = I.res(st, c.args[1]).(*FuncV)
	}
	st.trace = append(st.trace, Event{kind: "sort", name: n, args: []Val{v}, pos: c.pos})
	if !ok || !ok2 && len(c.args) > 1 {
		if !isNilV(v) {
			I.note(st, "sorting a list of unknown length", c.pos)
		}
		return
	}
	et := s.o.elem
	if et == nil {
		if f, ok := c.args[0].(*Iface); ok {
			et = under(f.t).(*types.Slice).Elem()
		} else {
			et = c.sig.Params().At(0).Type()
			et = under(et).(*types.Slice).Elem()
		}
	}
	cmpIdx := strings.HasPrefix(n, "sort.Slice")
	natural := !ok2
	isLess := func(i, j int) bool { // element i < element j
		var r Val
		if natural {
			es, _ := I.elems(st, s, et)
			r = I.binop(st, token.LSS, es[i], es[j], types.Typ[types.Bool], c.pos)
		} else if cmpIdx {
			r = I.callFn(st, c.in, less, []Val{numI(int64(i)), numI(int64(j))}, c.pos)
		} else {
			es, _ := I.elems(st, s, et)
			r = I.callFn(st, c.in, less, []Val{es[i], es[j]}, c.pos)
			if n, ok := r.(*Num); ok {
				r = I.decide(st, posV(nSub(numI(0), n).p))
			}
		}
		d, ok := I.decide(st, r).(VBool)
		if !ok {
			I.note(st, "undecided comparison "+r.key(), c.pos)
			return false
		}
		return bool(d)
	}
	swap := func(i, j int) {
		es, _ := I.elems(st, s, et)
		I.storeLoc(st, s.o, I.elemPath(s.path, s.off+i), et, es[j])
		I.storeLoc(st, s.o, I.elemPath(s.path, s.off+j), et, es[i])
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0 && !st.dead && isLess(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

// ---- snapshots (encodings of a value graph)

type snapshot struct {
	st *State
	v  Val
}

func (I *Interp) snap(nm string, st *State, v Val) {
	if I.snaps == nil {
		I.snaps = map[string]snapshot{}
	}
	I.snaps[nm] = snapshot{st.clone(), v}
}

func (I *Interp) decodeInto(st *State, data *Str, dst Val, pos string) {
	dst = I.res(st, dst)
	var t types.Type
	if f, ok := dst.(*Iface); ok {
		t = deref(f.t)
		dst = I.res(st, f.v)
	}
	if t == nil {
		I.note(st, "decode into unknown target", pos)
		return
	}
	st.trace = append(st.trace, Event{kind: "decode", name: data.key(), args: []Val{dst}, pos: pos})
	if len(data.parts) == 1 {
		if s, ok := I.snaps[data.parts[0].atom]; ok {
			v := s.v
			vt := t
			if f, ok := v.(*Iface); ok {
				vt = f.t
				v = f.v
			}
			if p, ok := v.(*Ptr); ok && !types.Identical(vt, t) {
				v = I.load(s.st, p, t, pos)
			}
			memo := map[string]Val{}
			I.store(st, dst, t, I.deepCopy(st, s.st, v, t, memo), pos)
			return
		}
	}
	I.store(st, dst, t, I.symVal("decoded("+data.key()+")", t), pos)
}

// deepCopy rebuilds in dst the value graph v of src (pointers, maps, slices are new)
func (I *Interp) deepCopy(dst, src *State, v Val, t types.Type, memo map[string]Val) Val {
	v = I.res(src, v)
	switch x := v.(type) {
	case *Ptr:
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			return v
		}
		if r, ok := memo[x.key()]; ok {
			return r
		}
		o := I.newObj(dst, pt.Elem(), "copy("+x.o.name+x.path+")")
		r := &Ptr{o, ""}
		memo[x.key()] = r
		I.storeLoc(dst, o, "", pt.Elem(), I.deepCopy(dst, src, I.loadLoc(src, x.o, x.path, pt.Elem()), pt.Elem(), memo))
		return r
	case *Struct:
		s, ok := under(t).(*types.Struct)
		if !ok {
			return v
		}
		r := &Struct{t: x.t}
		for i := range x.f {
			r.f = append(r.f, I.deepCopy(dst, src, x.f[i], s.Field(i).Type(), memo))
		}
		return r
	case *SliceV:
		s, ok := under(t).(*types.Slice)
		if !ok {
			return v
		}
		es, _ := I.elems(src, x, s.Elem())
		for i := range es {
			es[i] = I.deepCopy(dst, src, es[i], s.Elem(), memo)
		}
		return I.mkSlice(dst, s.Elem(), es, "copy")
	case *ArrV:
		s, ok := under(t).(*types.Array)
		if !ok {
			return v
		}
		r := &ArrV{}
		for _, e := range x.e {
			r.e = append(r.e, I.deepCopy(dst, src, e, s.Elem(), memo))
		}
		return r
	case *MapV:
		m, ok := under(t).(*types.Map)
		if !ok {
			return v
		}
		mc, complete := I.mapOf(src, x.o)
		o := I.newObj(dst, t, "copy("+x.o.name+")")
		if !complete {
			o.fresh = false
			o.name = "copyof(" + x.o.name + ")" + o.name
		}
		n := &mapC{}
		for _, e := range mc.es {
			n.es = append(n.es, mapEntry{e.k, I.deepCopy(dst, src, e.v, m.Elem(), memo), e.pres})
		}
		dst.maps[o] = n
		return &MapV{o}
	case *Ite:
		return mkIte(x.c, I.deepCopy(dst, src, x.a, t, memo), I.deepCopy(dst, src, x.b, t, memo))
	}
	return v
}

// dump renders the value graph reachable from v (type t) canonically.
func (I *Interp) dump(st *State, v Val, t types.Type) string {
	var b strings.Builder
	I.dumpTo(&b, st, v, t, 0, "")
	return b.String()
}

func (I *Interp) dumpTo(b *strings.Builder, st *State, v Val, t types.Type, d int, ind string) {
	v = I.res(st, v)
	if d > 12 {
		b.WriteString("…")
		return
	}
	switch x := v.(type) {
	case *Iface:
		I.dumpTo(b, st, x.v, x.t, d, ind)
	case *Ptr:
		if t == nil {
			b.WriteString(x.key())
			return
		}
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			b.WriteString(x.key())
			return
		}
		if !x.o.fresh && !isBig(pt.Elem()) && fnPkgOf(pt.Elem()) != "" && !strings.HasPrefix(fnPkgOf(pt.Elem()), modPath) {
			b.WriteString(x.key())
			return
		}
		b.WriteString("&")
		I.dumpTo(b, st, I.loadLoc(st, x.o, x.path, pt.Elem()), pt.Elem(), d+1, ind)
	case *Struct:
		s, ok := under(x.t).(*types.Struct)
		b.WriteString("{")
		for i := range x.f {
			if i > 0 {
				b.WriteString(" ")
			}
			if ok {
				b.WriteString(s.Field(i).Name() + ":")
				I.dumpTo(b, st, x.f[i], s.Field(i).Type(), d+1, ind)
			} else {
				b.WriteString(x.f[i].key())
			}
		}
		b.WriteString("}")
	case *SliceV:
		var et types.Type = x.o.elem
		if t != nil {
			if s, ok := under(t).(*types.Slice); ok {
				et = s.Elem()
			}
		}
		b.WriteString("[")
		if et != nil {
			es, _ := I.elems(st, x, et)
			for i, e := range es {
				if i > 0 {
					b.WriteString(" ")
				}
				I.dumpTo(b, st, e, et, d+1, ind)
			}
		} else {
			b.WriteString(x.key())
		}
		b.WriteString("]")
	case *ArrV:
		b.WriteString("[")
		for i, e := range x.e {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(e.key())
		}
		b.WriteString("]")
	case *MapV:
		m, complete := I.mapOf(st, x.o)
		var et types.Type
		if t != nil {
			if mm, ok := under(t).(*types.Map); ok {
				et = mm.Elem()
			}
		}
		if et == nil {
			if x.o.typ != nil {
				if mm, ok := under(x.o.typ).(*types.Map); ok {
					et = mm.Elem()
				}
			}
		}
		var rows []string
		for _, e := range m.es {
			var bb strings.Builder
			bb.WriteString(e.k.key() + "→")
			if p, ok := I.decide(st, e.pres).(VBool); !ok {
				bb.WriteString("(if " + e.pres.key() + ")")
			} else if !bool(p) {
				continue
			}
			I.dumpTo(&bb, st, e.v, et, d+1, ind)
			rows = append(rows, bb.String())
		}
		sort.Strings(rows)
		b.WriteString("map{" + strings.Join(rows, "; "))
		if !complete {
			b.WriteString("; rest of " + x.o.name)
		}
		b.WriteString("}")
	case *Ite:
		b.WriteString("ite(" + x.c.t + ",")
		I.dumpTo(b, st, x.a, t, d+1, ind)
		b.WriteString(",")
		I.dumpTo(b, st, x.b, t, d+1, ind)
		b.WriteString(")")
	case nil:
		b.WriteString("<none>")
	default:
		b.WriteString(v.key())
	}
}

func fnPkgOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

var _ = token.ADD
var _ *ssa.Function

// ---- EIP-55 checksum casing of constant addresses

func eip55(b string) string {
	h := hex.EncodeToString([]byte(b))
	if len(b) != 20 {
		return h
	}
	k := keccak256([]byte(h))
	out := []byte(h)
	for i := range out {
		n := k[i/2] >> 4
		if i%2 == 1 {
			n = k[i/2] & 15
		}
		if out[i] >= 'a' && n >= 8 {
			out[i] -= 32
		}
	}
	return string(out)
}

func keccak256(in []byte) [32]byte {
	var rc = [24]uint64{0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A, 0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008}
	rot := [25]uint{0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14}
	rl := func(x uint64, n uint) uint64 {
		if n == 0 {
			return x
		}
		return x<<n | x>>(64-n)
	}
	var a [25]uint64
	perm := func() {
		for r := 0; r < 24; r++ {
			var c [5]uint64
			for x := 0; x < 5; x++ {
				c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
			}
			for x := 0; x < 5; x++ {
				d := c[(x+4)%5] ^ rl(c[(x+1)%5], 1)
				for y := 0; y < 25; y += 5 {
					a[x+y] ^= d
				}
			}
			var b [25]uint64
			for x := 0; x < 5; x++ {
				for y := 0; y < 5; y++ {
					b[y+5*((2*x+3*y)%5)] = rl(a[x+5*y], rot[x+5*y])
				}
			}
			for y := 0; y < 25; y += 5 {
				for x := 0; x < 5; x++ {
					a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
				}
			}
			a[0] ^= rc[r]
		}
	}
	const rate = 136
	p := append(append([]byte{}, in...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for off := 0; off < len(p); off += rate {
		for i := 0; i < rate/8; i++ {
			var w uint64
			for j := 7; j >= 0; j-- {
				w = w<<8 | uint64(p[off+i*8+j])
			}
			a[i] ^= w
		}
		perm()
	}
	var out [32]byte
	for i := 0; i < 32; i++ {
		out[i] = byte(a[i/8] >> (8 * (i % 8)))
	}
	return out
}

// inSet: the value is one of the constants
func (I *Interp) inSet(st *State, v Val, cs ...int64) Val {
	return I.dist(st, v, func(v Val) Val {
		var r Val = VBool(false)
		for _, c := range cs {
			e := I.eqV(st, v, numI(c))
			if b, ok := e.(VBool); ok {
				if b {
					return VBool(true)
				}
				continue
			}
			r = I.boolIte(st, e, VBool(true), r)
		}
		return r
	})
}
