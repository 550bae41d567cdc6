package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&Rule{id: "C33", title: "API inputs are validated before they are used",
		explain: "the address and key predicates are interpreted on an unknown text; where their result is the match of one regular expression, its language is compared exactly with the demanded one by the product of the determinised automata, otherwise they are interpreted on constant texts at every boundary of the format; the index predicate must hold exactly when the text parses as a decimal 64-bit number; every handler with an input is interpreted on texts that have the format and texts that have not (and on index lists of 0, 1, 2, 100, 101 entries with an invalid one at each place): in the latter case it must answer with an error, and have asked nobody anything but the finalized head.",
		run:     runC33, minOblig: 60})
}

func runC33(c *Ctx) {
	const r1, r2, r3, r4 = "format predicate is exact", "invalid input: error and nothing else", "valid input is accepted", "index list bounds"
	c.formats(r1)
	for _, path := range c.apiRoutes(c.apiScn("routes"), r2) {
		in := apiPaths[path]
		if in.input == "" {
			continue
		}
		type cas struct {
			name string
			v    func(w *apiWorld) Val
			ok   bool
		}
		var cs []cas
		req := func(w *apiWorld) Val { return strAtom("req") }
		if in.input != "list" {
			cs = []cas{{"invalid", req, false}, {"valid", nil, true}}
			if in.input == "address" {
				cs = append(cs, cas{"valid but of no account", func(w *apiWorld) Val { w.s.I.Uniq("nobody"); return addrStr("nobody", "req") }, true})
			}
		} else {
			list := func(n, badAt int) func(w *apiWorld) Val {
				return func(w *apiWorld) Val {
					r := &Str{}
					for i := 0; i < n; i++ {
						if i > 0 {
							r = catS(r, strC(","))
						}
						if i == badAt {
							w.s.I.nonEmpty["req"] = true // without a comma: the list is split at every comma
							r = catS(r, strAtom("req"))
						} else {
							k := fmt.Sprintf("q%d", i)
							w.s.u64(k)
							for _, v := range w.vals {
								w.s.less(numAtom(v), numAtom(k))
							}
							r = catS(r, w.s.I.decS(numAtom(k)))
						}
					}
					return r
				}
			}
			for _, n := range []int{1, 2, 3, 100, 101, 150} {
				cs = append(cs, cas{fmt.Sprintf("%d valid entries", n), list(n, -1), n <= 100})
			}
			for _, b := range [][2]int{{1, 0}, {2, 0}, {2, 1}, {3, 1}, {100, 99}, {100, 50}} {
				cs = append(cs, cas{fmt.Sprintf("%d entries, entry %d invalid", b[0], b[1]), list(b[0], b[1]), false})
			}
			k := func(x string) func(w *apiWorld) Val { return func(w *apiWorld) Val { return strC(x) } }
			for _, x := range []string{"", ",", "1,", ",1", "1,,2", " 1", "1 ,2", "-1", "+1", "0x1", "1_0", "18446744073709551616", "1;2", "1,2,a", "1.0"} {
				cs = append(cs, cas{fmt.Sprintf("%q", x), k(x), false})
			}
			for _, x := range []string{"0", "18446744073709551615", "007", "1,2,3"} {
				cs = append(cs, cas{fmt.Sprintf("%q", x), k(x), true})
			}
		}
		for _, k := range cs {
			w := c.apiScn(fmt.Sprintf("GET %s, input %s", path, k.name))
			w.relays(2)
			w.request(path, "")
			if k.v != nil {
				w.vars[in.vr] = k.v(w)
			}
			if !k.ok {
				kind := in.input
				if kind == "list" {
					kind = "index"
				}
				w.deny[kind] = true
			}
			if in.input == "list" && strings.HasPrefix(k.name, "\"") {
				w.s.put(".state.Validators", w.s.I.NewMap(w.s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(c.named("oracle", "ValidatorInfo")))))
			}
			w.s.begin()
			w.get(path)
			rule := r2
			if k.ok {
				rule = r3
			}
			if in.input == "list" {
				rule = r4
			}
			if !w.s.clean(rule) {
				continue
			}
			code, body, prob := w.answer()
			if prob != "" {
				w.s.fail(rule, "%s", prob)
				continue
			}
			if k.ok {
				msg := body[".message"]
				c.Check(code < 400 || !strings.Contains(strings.ToLower(msg), "invalid") && !strings.Contains(strings.ToLower(msg), "limit"), rule, w.s.name, w.s.pos(), "valid input is refused: %d %s", code, msg)
				continue
			}
			c.Check(code >= 400, rule, w.s.name, w.s.pos(), "invalid input is answered with %d", code)
			for f, v := range body {
				t := strings.NewReplacer("{req}", "", "{lc:req}", "").Replace(v)
				c.Check((f == ".code" || f == ".message") && !strings.Contains(t, "{"), rule, w.s.name+": "+f, w.s.pos(), "the error answer carries %s = %s", f, v)
			}
			for _, q := range w.nodeCalls() {
				c.Check(q == "BeaconBlockHeader", rule, w.s.name+": "+q, w.s.pos(), "%s is asked for an invalid input", q)
			}
			w.s.effects(rule)
		}
	}
	c.Min(r2, 8)
	c.Min(r3, 4)
	c.Min(r4, 30)
}

// relays gives the configuration k relay endpoints; each answers a registration
func (w *apiWorld) relays(k int) {
	var es []Val
	for i := 0; i < k; i++ {
		es = append(es, strAtom(fmt.Sprintf("relay%d", i)))
	}
	I := w.s.I
	ct := w.s.c.named("config", "CliConfig")
	I.Put(w.s.st, &Ptr{I.symObj("cli", ct), ""}, types.NewPointer(ct), ".RelayersEndpoints", I.mkSlice(w.s.st, types.Typ[types.String], es, "relays"))
	I.Uniq("b:feerec", "feerec")
	w.n.ans["http.Get"] = func(c *Call) Val {
		t := w.s.c.named("net/http", "Response")
		p := w.n.newAt(c.st, t, "relay response", map[string]Val{".StatusCode": numI(200), ".Body": &Sym{t: "relaybody", nn: true}})
		return tup(p, VNil{})
	}
	old := w.n.more
	w.n.more = func(c *Call) (Val, bool) {
		switch {
		case c.name == "io.ReadAll" || c.name == "io/ioutil.ReadAll":
			if w.n.val(c, c.args[0]).key() == "relaybody" {
				return tup(strAtom("relaytext"), VNil{}), true
			}
		case c.name == "(io.Closer).Close" || c.name == "(io.ReadCloser).Close":
			return VNil{}, true
		case c.name == "encoding/json.Unmarshal":
			if w.n.str(c, c.args[0]) == `"{relaytext}"` {
				w.register(c)
				return VNil{}, true
			}
		}
		return old(c)
	}
}

const builderPkg = "github.com/attestantio/go-builder-client/api/v1"

// register fills the registration decoded from a relay's answer; its decoder refuses
// answers without a message
func (w *apiWorld) register(c *Call) {
	rt := w.s.c.named(builderPkg, "SignedValidatorRegistration")
	mt := w.s.c.named(builderPkg, "ValidatorRegistration")
	I := w.s.I
	dst, ok := w.n.val(c, c.args[1]).(*Ptr)
	if !ok {
		panic(undecided("relay answer decoded at " + c.pos))
	}
	m := w.n.newAt(c.st, mt, "registration", map[string]Val{".FeeRecipient": addrBytes("feerec"), ".Timestamp": &Sym{t: "registrationtime"}})
	I.Put(c.st, dst, types.NewPointer(rt), ".Message", m)
}

// formats decides the three format predicates
func (c *Ctx) formats(rule string) {
	for _, k := range []struct{ fn, kind string }{{"IsValidAddress", "address"}, {"IsValidPubkey", "pubkey"}} {
		f := c.anchor("api", "", k.fn)
		w := c.apiScn(k.fn + " on an unknown text")
		w.s.begin()
		w.s.call(f, strAtom("req"))
		if pat, text, neg, ok := matchKey(w.s.ret); ok && !neg && text == `"{req}"` && len(w.s.I.notes)+len(w.s.I.ends) == 0 {
			d := reEqual(pat, reSpec[k.kind])
			c.Check(d == "", rule, k.fn+" accepts exactly "+reSpec[k.kind], c.P.pos(f.Pos()), "the pattern %q is not the format: %s", pat, d)
			continue
		}
		for _, t := range boundaryTexts(k.kind) {
			w := c.apiScn(fmt.Sprintf("%s(%q)", k.fn, t))
			w.s.begin()
			w.s.call(f, strC(t))
			w.s.expectRet(rule, VBool(reClass(reSpec[k.kind], strC(t)) == VBool(true)))
		}
	}
	f := c.anchor("api", "", "IsValidIndex")
	for _, ok := range []bool{true, false} {
		w := c.apiScn(fmt.Sprintf("IsValidIndex: the text is a decimal 64-bit number: %v", ok))
		w.parse = func(cl *Call) Val {
			if cl.args[1].key() != "10" || cl.args[2].key() != "64" {
				panic(undecided("IsValidIndex parses base " + cl.args[1].key() + ", " + cl.args[2].key() + " bits"))
			}
			if ok {
				return tup(w.s.u64("parsed"), VNil{})
			}
			return w.s.I.failResults(cl.sig, "ParseUint")
		}
		w.s.begin()
		w.s.call(f, strAtom("req"))
		if !w.s.clean(rule) {
			continue
		}
		if ok {
			w.s.expectRet(rule, tup(numAtom("parsed"), VBool(true)))
		} else {
			c.Check(w.s.retAt(1).key() == "false", rule, w.s.name, w.s.pos(), "accepted: %s", w.s.ret.key())
		}
	}
	for _, t := range []string{"", "0", "1", "-1", "+1", " 1", "1 ", "0x10", "1_000", "00", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1e3", "a", "١"} {
		w := c.apiScn(fmt.Sprintf("IsValidIndex(%q)", t))
		w.s.begin()
		w.s.call(f, strC(t))
		if w.s.clean(rule) {
			want := len(t) > 0 && len(t) <= 20 && strings.Trim(t, "0123456789") == "" && !(len(t) == 20 && t > "18446744073709551615")
			c.Check(w.s.retAt(1).key() == VBool(want).key(), rule, w.s.name, w.s.pos(), "gives %s", w.s.ret.key())
		}
	}
}

// boundaryTexts: constant texts on both sides of every boundary of the format
func boundaryTexts(kind string) []string {
	n := 40
	if kind == "pubkey" {
		n = 96
	}
	body := func(n int) string {
		return strings.Repeat("0123456789abcdefABCDEF", 1+n/22)[:n]
	}
	var r []string
	for _, l := range []int{0, 1, n - 1, n, n + 1, 2 * n} {
		for _, p := range []string{"0x", "", "0X", "x", "0", "1x", " 0x"} {
			r = append(r, p+body(l), p+body(l)+"\n", p+body(l)+" ")
		}
	}
	good := "0x" + body(n)
	for i := 0; i < len(good); i++ {
		for _, b := range "/0x:@AFGZ[_`afgz\x00\n é" {
			r = append(r, good[:i]+string(b)+good[i+1:])
		}
	}
	return r
}
