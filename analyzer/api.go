package main

import (
	"fmt"
	"go/types"
	"reflect"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiRun analyses request handlers: the router builder is interpreted to find the
// handler registered for each path, and a handler is interpreted on an abstract
// request, state and set of node answers; what it writes to the response is recorded.
type apiRun struct {
	s        *Scn
	n        *node
	obj      Val
	routes   map[string]*FuncV
	order    []string
	vars     map[string]Val // path variables of the request
	status   []apiResp
	bodies   []map[string]string
	deny     map[string]bool // "address", "pubkey", "index": the request's input has not that format
	encErr   bool
	parse    func(c *Call) Val   // outcome of parsing the request's number
	handling bool                // a request is being handled
	methods  map[string][]string // by path, the methods its route is restricted to
	rts      map[string]*apiRoute
	mws      []Val
	served   []Val // handlers given to servers
	passed   int   // requests passed on
}

type apiRoute struct {
	prefix, path string
	methods      []string
	f            *FuncV
}

type apiResp struct {
	code Val
	gd   []string
}

const muxPkg = "github.com/gorilla/mux"

// apiFn finds functions of package api by what they call
func (c *Ctx) apiCaller(callee string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.P.pkgFns(modPath + "/api") {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(ssa.CallInstruction); ok {
					if sc := cl.Common().StaticCallee(); sc != nil && sc.String() == callee {
						r = append(r, f)
					}
				}
			}
		}
	}
	return r
}

func (p *Prog) pkgFns(path string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if fnPkg(f) == path {
			r = append(r, f)
		}
	}
	return r
}

// api builds the API service over the oracle, the client object and the configuration.
func (s *Scn) api(n *node) *apiRun {
	a := &apiRun{s: s, n: n, routes: map[string]*FuncV{}, vars: map[string]Val{}, deny: map[string]bool{}, methods: map[string][]string{}, rts: map[string]*apiRoute{}}
	n.more = a.hook
	oc := s.onchain()
	cli := &Ptr{s.I.symObj("cli", s.c.named("config", "CliConfig")), ""}
	cfg := s.get(".cfg")
	nw := s.c.anchor("api", "", "NewApiService")
	var args []Val
	for i := 0; i < nw.Signature.Params().Len(); i++ {
		switch types.TypeString(deref(nw.Signature.Params().At(i).Type()), func(p *types.Package) string { return p.Name() }) {
		case "oracle.Config":
			args = append(args, cfg)
		case "config.CliConfig":
			args = append(args, cli)
		case "oracle.Oracle":
			args = append(args, s.or)
		case "oracle.Onchain":
			args = append(args, oc)
		default:
			panic(undecided("unknown parameter of NewApiService"))
		}
	}
	a.obj = s.call(nw, args...)
	rs := s.c.apiCaller(muxPkg + ".NewRouter")
	if len(rs) != 1 {
		panic(undecided(fmt.Sprintf("%d functions build a router", len(rs))))
	}
	var ra []Val
	for range rs[0].Params {
		ra = append(ra, a.obj)
	}
	s.call(rs[0], ra...)
	if len(s.I.notes)+len(s.I.ends) > 0 || len(a.routes) == 0 {
		panic(undecided("the router cannot be read"))
	}
	return a
}

func (a *apiRun) hook(c *Call) (Val, bool) {
	I := a.s.I
	nm := c.name
	switch {
	case nm == muxPkg+".NewRouter":
		return &Sym{t: "router", nn: true}, true
	case nm == "(*"+muxPkg+".Router).Use":
		for _, v := range I.variadic(c.st, c.args[1]) {
			a.mws = append(a.mws, a.n.val(c, v))
		}
		return &Tuple{}, true
	case strings.HasPrefix(nm, "(*"+muxPkg+".Router).ServeHTTP"), nm == "(net/http.Handler).ServeHTTP":
		a.passed++
		c.st.trace = append(c.st.trace, Event{kind: "passed", name: nm, args: []Val{a.n.val(c, c.args[0]), I.res(c.st, c.args[1]), I.res(c.st, c.args[2])}, pos: c.pos})
		return &Tuple{}, true
	case nm == "(net/http.HandlerFunc).ServeHTTP":
		if f, ok := a.n.val(c, c.args[0]).(*FuncV); ok {
			return I.callFn(c.st, c.in, f, c.args[1:], c.pos), true
		}
	case nm == "(*net/http.Server).ListenAndServe":
		h, err := I.Get(c.st, I.res(c.st, c.args[0]), types.NewPointer(a.s.c.named("net/http", "Server")), ".Handler")
		if err != nil {
			panic(undecided(err.Error()))
		}
		a.served = append(a.served, h)
		return VNil{}, true
	case nm == "net/http.ListenAndServe":
		a.served = append(a.served, I.res(c.st, c.args[1]))
		return VNil{}, true
	case strings.HasPrefix(nm, "(*"+muxPkg+".Route)."), strings.HasPrefix(nm, "(*"+muxPkg+".Router)."):
		if v := a.routing(c); v != nil {
			return v, true
		}
		return I.results(c.st, c.sig, "mux"), true
	case nm == muxPkg+".CORSMethodMiddleware":
		return &Sym{t: "mux's CORS middleware", nn: true}, true
	case nm == muxPkg+".Vars":
		var kv []Val
		for _, k := range sortedKeys(a.vars) {
			kv = append(kv, strC(k), a.vars[k])
		}
		return I.NewMap(c.st, types.NewMap(types.Typ[types.String], types.Typ[types.String]), kv...), true
	case nm == "(net/http.ResponseWriter).Header":
		return &Sym{t: "header", nn: true}, true
	case strings.HasPrefix(nm, "(net/http.Header)."):
		return I.results(c.st, c.sig, "header"), true
	case nm == "(net/http.ResponseWriter).WriteHeader":
		c.st.trace = append(c.st.trace, Event{kind: "http", name: "status", args: []Val{I.res(c.st, c.args[1])}, pos: c.pos})
		return &Tuple{}, true
	case nm == "net/http.Error":
		c.st.trace = append(c.st.trace, Event{kind: "http", name: "status", args: []Val{I.res(c.st, c.args[2])}, pos: c.pos})
		a.body(c.st, c.args[1], types.Typ[types.String], c.pos)
		return &Tuple{}, true
	case nm == "encoding/json.NewEncoder":
		if a.n.val(c, c.args[0]).key() == "w" {
			return &Sym{t: "encoder(w)", nn: true}, true
		}
	case nm == "(*encoding/json.Encoder).Encode":
		if a.n.val(c, c.args[0]).key() == "encoder(w)" {
			a.body(c.st, c.args[1], c.sig.Params().At(0).Type(), c.pos)
			if a.encErr {
				return errSym("broken connection"), true
			}
			return VNil{}, true
		}
	case nm == "(net/http.ResponseWriter).Write":
		b, ok := toStr(a.n.val(c, c.args[1]))
		if !ok {
			panic(undecided("bytes written to the response at " + c.pos))
		}
		if sn, ok := I.snaps[b.parts[0].atom]; len(b.parts) == 1 && ok {
			x, ok := sn.v.(*Iface)
			if !ok {
				panic(undecided("response written at " + c.pos))
			}
			out := map[string]string{}
			I.jsonView(sn.st, x.v, x.t, "", out, 0)
			c.st.trace = append(c.st.trace, Event{kind: "http", name: fmt.Sprintf("body %d", len(a.bodies)), args: []Val{x.v}, pos: c.pos})
			a.bodies = append(a.bodies, out)
		} else {
			a.body(c.st, b, types.Typ[types.String], c.pos)
		}
		if a.encErr {
			return tup(numI(0), errSym("broken connection")), true
		}
		return tup(I.lenV(c.st, b), VNil{}), true
	case strings.HasPrefix(nm, "fmt.Fprint"):
		panic(undecided("response written with " + nm + " at " + c.pos))
	case nm == "regexp.MustCompile", nm == "regexp.Compile":
		if p, ok := a.n.val(c, c.args[0]).(*Str); ok {
			if k, ok := p.konst(); ok {
				v := &Sym{t: "regexp:" + k, nn: true}
				if nm == "regexp.Compile" {
					return tup(v, VNil{}), true
				}
				return v, true
			}
		}
	case nm == "(*regexp.Regexp).MatchString", nm == "(*regexp.Regexp).Match":
		if p, ok := strings.CutPrefix(a.n.val(c, c.args[0]).key(), "regexp:"); ok {
			if v := a.match(c, p, c.args[1]); v != nil {
				return v, true
			}
		}
	case nm == "regexp.MatchString":
		if p, ok := a.n.val(c, c.args[0]).(*Str); ok {
			if k, ok := p.konst(); ok {
				if v := a.match(c, k, c.args[1]); v != nil {
					return tup(v, VNil{}), true
				}
			}
		}
	case nm == "strconv.ParseUint":
		if s, ok := a.n.val(c, c.args[0]).(*Str); ok && a.parse != nil && isReq(s) {
			return a.parse(c), true
		}
		if s, ok := a.n.val(c, c.args[0]).(*Str); ok && a.deny["index"] && isReq(s) {
			return I.failResults(c.sig, "ParseUint"), true
		}
	}
	// the format predicates themselves are decided separately (see C33)
	if c.fn != nil && fnPkg(c.fn) == modPath+"/api" && len(c.args) == 1 {
		k := map[string]string{"IsValidAddress": "address", "IsValidPubkey": "pubkey", "IsValidIndex": "index"}[c.fn.Name()]
		if s, ok := a.n.val(c, c.args[0]).(*Str); ok && k != "" && a.deny[k] && isReq(s) {
			I.visited[c.fn] = true
			if k == "index" {
				return tup(numI(0), VBool(false)), true
			}
			return VBool(false), true
		}
		if s, ok := a.n.val(c, c.args[0]).(*Str); ok && a.handling && k != "" && k != "index" {
			if v, ok := reClass(reSpec[k], s).(VBool); ok {
				I.visited[c.fn] = true
				return v, true
			}
		}
	}
	return nil, false
}

// routing follows the building of routes
func (a *apiRun) routing(c *Call) Val {
	I := a.s.I
	recv := a.n.val(c, c.args[0]).key()
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	text := func(v Val) string {
		if p, ok := a.n.val(c, v).(*Str); ok {
			if k, ok := p.konst(); ok {
				return k
			}
		}
		panic(undecided("route registered at " + c.pos))
	}
	var r *apiRoute
	if strings.Contains(c.name, ".Router).") {
		if m == "NewRoute" || m == "Handle" || m == "HandleFunc" || m == "Path" || m == "PathPrefix" || m == "Methods" {
			r = &apiRoute{}
			if at := a.rts[recv]; at != nil {
				r.prefix, r.methods = at.prefix, at.methods
			}
		}
	} else {
		r = a.rts[recv]
	}
	if r == nil {
		return nil
	}
	k := recv
	if strings.Contains(c.name, ".Router).") {
		k = fmt.Sprintf("route %d", len(a.rts))
	}
	switch m {
	case "NewRoute", "Name":
	case "Methods":
		r.methods = nil
		for _, v := range I.variadic(c.st, c.args[1]) {
			r.methods = append(r.methods, strings.ToUpper(text(v)))
		}
	case "Path":
		r.path = text(c.args[1])
	case "PathPrefix":
		r.prefix += text(c.args[1])
	case "Subrouter":
	case "HandleFunc", "Handle", "HandlerFunc", "Handler":
		h := a.n.val(c, c.args[len(c.args)-1])
		f, ok := h.(*FuncV)
		if !ok {
			panic(undecided("route registered at " + c.pos))
		}
		r.f = f
		if m == "HandleFunc" || m == "Handle" {
			r.path = text(c.args[1])
		}
	default:
		return nil
	}
	a.rts[k] = r
	if p := r.prefix + r.path; r.f != nil && r.path != "" {
		if a.routes[p] == nil {
			a.order = append(a.order, p)
		}
		a.routes[p] = r.f
		a.methods[p] = r.methods
	}
	return &Sym{t: k, nn: true}
}

// isReq: the unknown text sent by the client, unchanged
func isReq(s *Str) bool {
	return len(s.parts) == 1 && s.parts[0].atom == "req" && !s.parts[0].lower
}

func (a *apiRun) match(c *Call, pat string, v Val) Val {
	s, ok := toStr(a.n.val(c, v))
	if !ok {
		return nil
	}
	for k, want := range reSpec {
		if a.deny[k] && isReq(s) && reEqual(pat, want) == "" {
			return VBool(false)
		}
	}
	if v := reClass(pat, s); v != nil {
		return v
	}
	return &Cond{t: "match(" + pat + "\x02" + s.key() + ")"}
}

func (a *apiRun) body(st *State, v Val, t types.Type, pos string) {
	out := map[string]string{}
	a.s.I.jsonView(st, v, t, "", out, 0)
	st.trace = append(st.trace, Event{kind: "http", name: fmt.Sprintf("body %d", len(a.bodies)), args: []Val{a.s.I.res(st, v)}, pos: pos})
	a.bodies = append(a.bodies, out)
}

// get analyses one request to the path
func (a *apiRun) get(path string) {
	f := a.routes[path]
	if f == nil {
		panic(undecided("no handler registered for " + path))
	}
	a.s.st.trace = nil
	a.handling = true
	w := &Sym{t: "w", nn: true}
	req := &Ptr{a.s.I.symObj("httpreq", a.s.c.named("net/http", "Request")), ""}
	a.s.callF(f, w, req)
}

// callF analyses a function value
func (s *Scn) callF(f *FuncV, args ...Val) Val {
	if trace {
		println(s.name)
	}
	if s.exp == nil {
		s.begin()
	}
	s.fn = f.fn
	if f.fn.Synthetic != "" {
		for _, b := range f.fn.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(ssa.CallInstruction); ok {
					if sc := cl.Common().StaticCallee(); sc != nil {
						s.fn = sc
					}
				}
			}
		}
	}
	s.I.ends, s.I.notes = nil, nil
	s.ret = s.I.callFn(s.st, nil, f, args, s.name)
	for g := range s.I.visited {
		s.c.Touch(g)
	}
	s.args = args
	if s.c.onCall != nil {
		s.c.onCall(s)
	}
	return s.ret
}

// answer gives the only response written, undecided branches excluded
func (a *apiRun) answer() (code int, body map[string]string, problem string) {
	ns, nb := 0, 0
	for _, e := range a.s.st.trace {
		if e.kind != "http" {
			continue
		}
		if len(e.gd) > 0 {
			return 0, nil, "the response depends on " + strings.Join(e.gd, " & ")
		}
		if e.name == "status" {
			if nb > 0 {
				return 0, nil, "a status after the body at " + e.pos
			}
			ns++
			x, ok := e.args[0].(*Num)
			if !ok {
				return 0, nil, "unknown status at " + e.pos
			}
			code, ok = x.int()
			if !ok {
				return 0, nil, "unknown status at " + e.pos
			}
		} else {
			if ns == 0 {
				ns, code = 1, 200
			}
			nb++
			i := 0
			fmt.Sscanf(e.name, "body %d", &i)
			body = a.bodies[i]
		}
	}
	if ns != 1 || nb != 1 {
		return code, body, fmt.Sprintf("%d status lines and %d bodies are written", ns, nb)
	}
	return code, body, ""
}

// nodeCalls lists what the handler asked the outside world
func (a *apiRun) nodeCalls() []string {
	var r []string
	for _, e := range a.s.st.trace {
		if e.kind == "node" {
			r = append(r, e.name)
		}
	}
	return r
}

// jsonView lists what encoding/json would show of v, by JSON names.
func (I *Interp) jsonView(st *State, v Val, t types.Type, path string, out map[string]string, d int) {
	v = I.res(st, v)
	if d > 14 {
		out[path] = "…"
		return
	}
	switch x := v.(type) {
	case *Iface:
		I.jsonView(st, x.v, x.t, path, out, d)
		return
	case *Ptr:
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			break
		}
		if isBig(pt.Elem()) {
			out[path] = I.bigOf(st, x, "json").key()
			return
		}
		if d == 0 && !x.o.fresh {
			out["&"] = x.key()
			if x.key() == "&or.state" {
				I.leafs(st, x, t, "", map[string]string{}, 0) // all of it is read
				return
			}
		}
		I.jsonView(st, I.loadLoc(st, x.o, x.path, pt.Elem()), pt.Elem(), path, out, d+1)
		return
	case *Struct:
		s, ok := under(t).(*types.Struct)
		if !ok || s.NumFields() != len(x.f) {
			break
		}
		for i := range x.f {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			nm := f.Name()
			if tag, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ","); tag == "-" {
				continue
			} else if tag != "" {
				nm = tag
			} else if f.Embedded() {
				nm = ""
			}
			p := path
			if nm != "" {
				p += "." + nm
			}
			I.jsonView(st, x.f[i], f.Type(), p, out, d+1)
		}
		return
	case *SliceV:
		s, ok := under(t).(*types.Slice)
		if !ok {
			break
		}
		es, known := I.elems(st, x, s.Elem())
		if !known {
			break
		}
		out[path+".#"] = fmt.Sprint(len(es))
		for i, e := range es {
			I.jsonView(st, e, s.Elem(), fmt.Sprintf("%s[%d]", path, i), out, d+1)
		}
		return
	case *MapV:
		m, ok := under(t).(*types.Map)
		if !ok {
			break
		}
		mc, complete := I.mapOf(st, x.o)
		if !complete {
			out[path+"[*]"] = x.o.name
		}
		for _, e := range mc.es {
			p := I.decide(st, e.pres)
			if b, ok := p.(VBool); ok && !bool(b) {
				continue
			} else if !ok {
				out[path+"["+e.k.key()+"]?"] = p.key()
			}
			I.jsonView(st, e.v, m.Elem(), path+"["+e.k.key()+"]", out, d+1)
		}
		return
	case nil:
		out[path] = "<none>"
		return
	}
	if isNilV(v) {
		if _, ok := under(t).(*types.Slice); ok {
			out[path+".#"] = "0"
			return
		}
	}
	if t != nil && isString(t) {
		out[path] = I.asStr(v).key()
		return
	}
	out[path] = v.key()
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- regular expressions

// the exact formats, as regular languages
var reSpec = map[string]string{
	"address": "^0x[0-9a-fA-F]{40}$",
	"pubkey":  "^0x[0-9a-fA-F]{96}$",
}

// reRun determinises a pattern lazily. A state is the set of program counters before
// consuming a symbol; matching is unanchored as in MatchString. Assertions ^ and $ are
// taken as text boundaries (no (?m)).
type reRun struct {
	p   *syntax.Prog
	err string
}

func newRe(pat string) *reRun {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return &reRun{err: err.Error()}
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return &reRun{err: err.Error()}
	}
	r := &reRun{p: p}
	for _, i := range p.Inst {
		if i.Op == syntax.InstEmptyWidth && syntax.EmptyOp(i.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			r.err = "line or word boundary"
		}
	}
	return r
}

// closure of pcs; atStart/atEnd tell which assertions hold. Returns the consuming pcs
// and whether a match is reached.
func (r *reRun) closure(pcs map[uint32]bool, atStart, atEnd bool) (map[uint32]bool, bool) {
	out := map[uint32]bool{}
	seen := map[uint32]bool{}
	match := false
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := r.p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(i.Out)
			walk(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(i.Out)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(i.Arg)
			if e&syntax.EmptyBeginText != 0 && !atStart {
				// cannot hold later either; drop
				return
			}
			if e&syntax.EmptyEndText != 0 && !atEnd {
				out[pc] = true // may hold when the text ends here
				return
			}
			walk(i.Out)
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out[pc] = true
		}
	}
	for pc := range pcs {
		walk(pc)
	}
	return out, match
}

type reState struct {
	pcs  map[uint32]bool
	done bool // matched already: everything that follows is accepted
}

func (r *reRun) start() *reState {
	c, m := r.closure(map[uint32]bool{uint32(r.p.Start): true}, true, false)
	return &reState{c, m}
}

func (r *reRun) step(s *reState, x rune) *reState {
	if s.done {
		return s
	}
	nx := map[uint32]bool{uint32(r.p.Start): true} // unanchored: a match may begin here
	for pc := range s.pcs {
		i := r.p.Inst[pc]
		switch i.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if i.MatchRune(x) {
				nx[i.Out] = true
			}
		}
	}
	c, m := r.closure(nx, false, false)
	return &reState{c, m}
}

func (r *reRun) accepts(s *reState, first bool) bool {
	if s.done {
		return true
	}
	_, m := r.closure(s.pcs, first, true)
	return m
}

func (s *reState) key() string {
	if s.done {
		return "done"
	}
	return fmt.Sprint(sortedKeys2(s.pcs))
}

func sortedKeys2(m map[uint32]bool) []int {
	var r []int
	for i := 0; i < 1<<16 && len(r) < len(m); i++ {
		if m[uint32(i)] {
			r = append(r, i)
		}
	}
	return r
}

// representatives of the rune classes two programs distinguish
func reReps(rs ...*reRun) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, 0x10FFFF: true}
	for _, r := range rs {
		for _, i := range r.p.Inst {
			if i.Op != syntax.InstRune && i.Op != syntax.InstRune1 {
				continue
			}
			for k, x := range i.Rune {
				if len(i.Rune) == 1 || k%2 == 0 {
					cut[x] = true
				}
				if len(i.Rune) == 1 || k%2 == 1 {
					cut[x+1] = true
				}
			}
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				for x := rune(0); x < 0x250; x++ {
					cut[x] = true
				}
			}
		}
	}
	var r []rune
	for x := range cut {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// reEqual compares the languages of two patterns exactly, by the product of their
// determinised automata; "" when they are equal, otherwise a text telling them apart.
func reEqual(a, b string) string {
	ra, rb := newRe(a), newRe(b)
	if ra.err != "" || rb.err != "" {
		return "pattern not understood: " + ra.err + rb.err
	}
	reps := reReps(ra, rb)
	type node struct {
		x, y  *reState
		text  string
		first bool
	}
	seen := map[string]bool{}
	work := []node{{ra.start(), rb.start(), "", true}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		k := fmt.Sprint(n.first) + n.x.key() + "|" + n.y.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return "automata too large"
		}
		if p, q := ra.accepts(n.x, n.first), rb.accepts(n.y, n.first); p != q {
			return fmt.Sprintf("%q is accepted by only one of them", n.text)
		}
		for _, x := range reps {
			work = append(work, node{ra.step(n.x, x), rb.step(n.y, x), n.text + string(x), false})
		}
	}
	return ""
}

// reClass decides a match on an abstract text: constants and hexadecimal parts of
// known length. nil when not decided.
func reClass(pat string, s *Str) Val {
	r := newRe(pat)
	if r.err != "" {
		return nil
	}
	cur := map[string]*reState{}
	st := r.start()
	cur[st.key()] = st
	first := true
	step := func(xs []rune) {
		nx := map[string]*reState{}
		for _, c := range cur {
			for _, x := range xs {
				t := r.step(c, x)
				nx[t.key()] = t
			}
		}
		cur, first = nx, false
	}
	for _, p := range s.parts {
		if p.atom == "" {
			for _, x := range p.c {
				step([]rune{x})
			}
			continue
		}
		if !(p.n == 40 || p.n == 96) {
			return nil
		}
		hex := []rune("0123456789abcdef")
		if !p.lower {
			hex = []rune("0123456789abcdefABCDEF")
		}
		for i := 0; i < p.n; i++ {
			step(hex)
		}
	}
	yes, no := 0, 0
	for _, c := range cur {
		if r.accepts(c, first) {
			yes++
		} else {
			no++
		}
	}
	switch {
	case no == 0:
		return VBool(true)
	case yes == 0:
		return VBool(false)
	}
	return nil
}

// matchKey takes an undecided match apart
func matchKey(v Val) (pat, text string, neg, ok bool) {
	c, isC := v.(*Cond)
	if !isC {
		return
	}
	t := c.t
	if r, is := strings.CutPrefix(t, "match("); is {
		if i := strings.LastIndex(r, "\x02"); i >= 0 {
			return r[:i], strings.TrimSuffix(r[i+1:], ")"), c.neg, true
		}
	}
	return
}
