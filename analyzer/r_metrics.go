package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "C48", title: "the metrics show where the oracle stands",
		explain: "The initialiser of package metrics is interpreted to learn under which name and labels each metric is registered, against the published table. The processing loop is then interpreted on scripted rounds (finalized head ahead, level, behind; nodes out of sync in between; checkpoints frozen or not) with unknown slots and blocks: every value set on a gauge must be the one its name says, computed from the state and the finalized head of that round, every processed slot must be followed by an update of all three gauges before the next round, and every frozen checkpoint by its slot and root. The middleware that counts requests is interpreted with every way of a handler to answer: exactly one request is counted and timed under the status answered, the method in lower case and the template of the route. main is interpreted from the command line to the release version shown.",
		run:     runC48, minOblig: 60})
}

const promPkg = "github.com/prometheus/client_golang/prometheus"

// metricLabels: every metric and its labels in order, as dashboards use them
var metricLabels = map[string]string{
	"oracle_distance_from_finalized_slot":  "",
	"oracle_latest_processed_slot":         "",
	"oracle_latest_processed_block":        "",
	"oracle_known_root_and_slot":           "merkle_root,slot",
	"oracle_version":                       "version",
	"oracle_http_requests_total":           "code,method,path",
	"oracle_http_request_duration_seconds": "code,method,path",
}

type metrics struct {
	c      *Ctx
	labels map[string][]string
	kind   map[string]string
	objs   map[*Obj]string
}

// model of the metrics library: which metric, which labels, which value
func (x *metrics) hook(I *Interp, c *Call, set func(st *State, how, metric string, v Val, pos string)) (Val, bool) {
	if !strings.Contains(c.name, promPkg) {
		return nil, false
	}
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	args := c.args
	text := func(v Val) string {
		v = I.res(c.st, v)
		if s, ok := v.(*Str); ok {
			if k, ok := s.konst(); ok {
				return k
			}
			return "\x01" + s.key()
		}
		panic(undecided("metric text " + v.key() + " at " + c.pos))
	}
	recv := func() string {
		v := I.res(c.st, args[0])
		if f, ok := v.(*Iface); ok {
			v = I.res(c.st, f.v)
		}
		if p, ok := v.(*Ptr); ok && x.objs[p.o] != "" {
			return x.objs[p.o]
		}
		k, ok := strings.CutPrefix(v.key(), "metric:")
		if !ok {
			panic(undecided("metric " + v.key() + " at " + c.pos))
		}
		return k
	}
	switch {
	case strings.HasPrefix(m, "New") && !strings.HasSuffix(m, "Registry") && len(args) > 0:
		k := ""
		switch {
		case strings.HasPrefix(m, "NewGauge"):
			k = "gauge"
		case strings.HasPrefix(m, "NewCounter"):
			k = "counter"
		case strings.HasPrefix(m, "NewHistogram"):
			k = "histogram"
		case strings.HasPrefix(m, "NewSummary"):
			k = "summary"
		default:
			return nil, false
		}
		a := args
		if c.sig.Recv() != nil && len(a) == c.sig.Params().Len()+1 {
			a = a[1:]
		}
		ot := c.sig.Params().At(0).Type()
		var parts []string
		for _, f := range []string{".Namespace", ".Subsystem", ".Name"} {
			v, err := I.Get(c.st, a[0], ot, f)
			if err != nil {
				panic(undecided("metric options: " + err.Error()))
			}
			if t := text(v); t != "" {
				parts = append(parts, t)
			}
		}
		name := strings.Join(parts, "_")
		var ls []string
		if len(a) > 1 {
			es, ok := I.elems(c.st, I.res(c.st, a[1]), types.Typ[types.String])
			if !ok {
				panic(undecided("labels of " + name))
			}
			for _, e := range es {
				ls = append(ls, text(e))
			}
		}
		if x.labels[name] != nil {
			x.c.Fail("metrics are named as published", name, c.pos, "registered twice")
		}
		x.labels[name] = append([]string{}, ls...)
		x.kind[name] = k
		o := I.newObj(c.st, nil, "metric")
		x.objs[o] = name
		return &Ptr{o, ""}, true
	case m == "WithLabelValues", m == "GetMetricWithLabelValues":
		n := recv()
		ls := x.labels[n]
		es := I.variadic(c.st, args[1])
		if len(es) != len(ls) {
			panic(undecided(fmt.Sprintf("%d labels of %s at %s", len(es), n, c.pos)))
		}
		var kv []string
		for i, l := range ls {
			kv = append(kv, l+"="+text(es[i]))
		}
		sort.Strings(kv)
		v := &Sym{t: "metric:" + n + "{" + strings.Join(kv, ",") + "}", nn: true}
		if m != "WithLabelValues" {
			return tup(v, VNil{}), true
		}
		return v, true
	case m == "With", m == "GetMetricWith":
		n := recv()
		mp, ok := I.res(c.st, args[1]).(*MapV)
		if !ok {
			panic(undecided("labels of " + n + " at " + c.pos))
		}
		var kv []string
		for _, k := range I.mapKeys(c.st, mp.o) {
			v := I.lookup(c.st, mp, k, c.sig.Params().At(0).Type(), false, c.pos)
			kv = append(kv, text(k)+"="+text(v))
		}
		sort.Strings(kv)
		v := &Sym{t: "metric:" + n + "{" + strings.Join(kv, ",") + "}", nn: true}
		if m != "With" {
			return tup(v, VNil{}), true
		}
		return v, true
	case m == "Set", m == "Observe", m == "Add", m == "Sub":
		set(c.st, m, recv(), I.res(c.st, args[1]), c.pos)
		return &Tuple{}, true
	case m == "Inc", m == "Dec", m == "SetToCurrentTime":
		set(c.st, m, recv(), &Sym{t: "f:1", nn: true}, c.pos)
		return &Tuple{}, true
	}
	return nil, false
}

// ready interprets the initialiser of package metrics
func (x *metrics) ready(s *Scn) {
	I := s.I
	p := x.c.P.ByPth[modPath+"/metrics"]
	if p == nil {
		panic(undecided("package metrics not found"))
	}
	x.labels, x.kind, x.objs = map[string][]string{}, map[string]string{}, map[*Obj]string{}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			I.storeLoc(s.st, I.globalObj(g), "", deref(g.Type()), I.zero(deref(g.Type())))
		}
	}
	was := I.hook
	I.hook = func(c *Call) (Val, bool) {
		return x.hook(I, c, func(*State, string, string, Val, string) {})
	}
	I.run(s.st, p.Func("init"), nil, nil, "init")
	I.hook = was
	s.st.dead = false
}

// num is the value of a gauge
func gaugeKey(v Val) string {
	switch x := v.(type) {
	case *Num:
		return x.key()
	case *Sym:
		return strings.TrimPrefix(x.t, "f:")
	}
	return v.key()
}

func runC48(c *Ctx) {
	c.metricNames()
	c.metricGauges()
	c.metricRequests()
	c.metricVersion()
}

func (c *Ctx) metricNames() {
	const rule = "metrics are named as published"
	s := c.scn("names of the metrics")
	s.freshGlobals()
	x := &metrics{c: c}
	x.ready(s)
	for _, n := range sortedKeys(metricLabels) {
		ls := append([]string{}, x.labels[n]...)
		sort.Strings(ls)
		if !c.Check(x.labels[n] != nil, rule, n, "-", "not registered, only %v", sortedKeys(x.labels)) {
			continue
		}
		c.Check(strings.Join(ls, ",") == metricLabels[n], rule, n+" labels", "-", "labels %v, wanted %s", ls, metricLabels[n])
		k := "gauge"
		if strings.HasSuffix(n, "_total") {
			k = "counter"
		} else if strings.HasSuffix(n, "_seconds") {
			k = "histogram"
		}
		c.Check(x.kind[n] == k, rule, n+" kind", "-", "is a %s, wanted a %s", x.kind[n], k)
	}
	c.Min(rule, 20)
}

// metricGauges: the processing loop
func (c *Ctx) metricGauges() {
	const r1, r2, r3 = "a gauge is set to what it is named for", "every processed slot is shown", "every frozen checkpoint is shown"
	f := c.mainLoopFn()
	gauges := []string{"oracle_distance_from_finalized_slot", "oracle_latest_processed_block", "oracle_latest_processed_slot"}
	run := func(name string, m *mainRun, ph ...world) {
		m.s.name = name
		m.ph = ph
		x := &metrics{c: c}
		m.setup = func() {
			x.ready(m.s)
			I := m.s.I
			more := m.n.more
			m.n.more = func(cl *Call) (Val, bool) {
				v, ok := x.hook(I, cl, func(st *State, how, metric string, v Val, pos string) {
					n, lab, _ := strings.Cut(strings.TrimSuffix(metric, "}"), "{")
					m.log(st, "metric "+n, pos)
					L := m.numAt(st, ".state.LatestProcessedSlot")
					want, alt := "", ""
					switch n {
					case gauges[0]:
						var head *Num
						for _, e := range st.trace {
							if e.kind == "main" && e.name == "finalized" {
								head, _ = e.args[0].(*Num)
							}
						}
						if head == nil {
							want = "unknown head"
						} else {
							want = nSub(head, L).key()
							alt = "(f:" + head.key() + "-f:" + L.key() + ")"
						}
					case gauges[1]:
						want = m.numAt(st, ".state.LatestProcessedBlock").key()
					case gauges[2]:
						want = L.key()
					case "oracle_known_root_and_slot":
						want = "1"
						sl := "slot=\x01" + I.decS(L).key()
						rt := "merkle_root=\x01" + rootText("root@"+L.key()).key()
						if k, ok := I.decS(L).konst(); ok {
							sl = "slot=" + k
						}
						m.checkC48(lab == rt+","+sl, r3, pos, "shown is %q", lab)
					default:
						return
					}
					m.checkC48(how == "Set" && (gaugeKey(v) == want || v.key() == alt), r1, pos, "%s: %s %s, wanted %s", n, how, gaugeKey(v), want)
				})
				if ok {
					return v, ok
				}
				if nodeCall(cl.name) == "SyncProgress" {
					m.shown(cl.st, gauges, r2, r3, cl.pos)
				}
				return more(cl)
			}
		}
		m.run(f)
		m.clean("rounds")
	}
	for _, h := range []string{"0", "1", "64", "5000"} {
		w := world{head: h}
		m := c.mainScn("", "C48")
		m.dry = true
		run("rounds with the finalized slot at "+h, m, w, w, w, w)
	}
	w := world{head: "64"}
	for _, v := range []world{{exec: "syncing", head: "64"}, {cons: "behind", head: "64"}, {head: "err"}, {head: "-1"}, {head: "1"}} {
		m := c.mainScn("", "C48")
		m.dry = true
		run(fmt.Sprintf("rounds with [exec %q cons %q finalized %s] in between", v.exec, v.cons, v.head), m, w, v, w, v, w, w)
	}
	for _, dry := range []bool{true, false} {
		for _, frz := range []bool{true, false} {
			for _, at := range []string{"N-S", "N"} {
				a := world{head: "1", cs: at, root: "old"}
				if at == "N" {
					a.root = "R"
				}
				d := world{head: "1", cs: "N", root: "R"}
				m := c.mainScn("", "C48")
				m.dry, m.chk, m.frz, m.once = dry, "yes", frz, true
				run(fmt.Sprintf("checkpoint, contract at %s, frozen %v, dry run %v", at, frz, dry), m, a, a, d, d, d)
			}
		}
	}
	c.Min(r1, 20)
	c.Min(r2, 15)
	c.Min(r3, 5)
}

func (m *mainRun) checkC48(ok bool, rule, pos, format string, a ...interface{}) {
	m.check("C48", ok, rule, pos, format, a...)
}

// shown: when a round begins, what the last one did has been shown
func (m *mainRun) shown(st *State, gauges []string, r2, r3, pos string) {
	need := map[string]bool{}
	frozen, slot, last := false, false, ""
	for _, e := range st.trace {
		if e.kind != "main" {
			continue
		}
		switch {
		case e.name == "advance":
			slot, last = true, e.args[0].key()
			for _, g := range gauges {
				need[g] = true
			}
		case e.name == "frozen":
			frozen = true
		case strings.HasPrefix(e.name, "metric ") && len(e.gd) == 0:
			delete(need, e.name[len("metric "):])
			if e.name == "metric oracle_known_root_and_slot" {
				frozen = false
			}
		}
	}
	if !slot {
		return
	}
	m.checkC48(len(need) == 0, r2, pos, "after slot %s the next round begins without %s having been updated", last, strings.Join(sortedKeys(need), ", "))
	m.checkC48(!frozen, r3, pos, "after slot %s the next round begins without the frozen checkpoint having been shown", last)
}

// metricRequests: the middleware
func (c *Ctx) metricRequests() {
	const rule = "every request is counted once, as answered"
	w := c.apiScn("routing")
	counted := 0
	for i, mw := range w.mws {
		if mw.key() == "mux's CORS middleware" {
			continue
		}
		for _, how := range []string{"status", "status and body", "body only", "status 200 and body", "status 404"} {
			for _, method := range []string{"GET", "Get", "OPTIONS"} {
				w := c.apiScn(fmt.Sprintf("%s request through middleware %d, answered with %s", method, i, how))
				s := w.s
				I := s.I
				x := &metrics{c: c}
				x.ready(s)
				f, ok := w.mws[i].(*FuncV)
				if !ok {
					panic(undecided("middleware " + w.mws[i].key()))
				}
				code := I.Range("status code", 200, big.NewInt(599))
				if how == "body only" || how == "status 200 and body" {
					code = numI(200)
				} else if how == "status 404" {
					code = numI(404)
				}
				writer := func(st *State, wr Val, m string, args ...Val) {
					y, ok := wr.(*Iface)
					if !ok {
						if wr.key() == "w" { // the server's own
							return
						}
						panic(undecided("writer " + wr.key()))
					}
					g := I.P.SSA.LookupMethod(y.t, nil, m)
					if g == nil {
						panic(undecided("method " + m + " of the writer"))
					}
					I.callFn(st, nil, &FuncV{fn: g}, append([]Val{y.v}, args...), "handler")
				}
				nc, nl, passed := 0, 0, 0
				tmpl := strAtom("template")
				lab := "code=\x01" + I.decS(code).key()
				if k, ok := I.decS(code).konst(); ok {
					lab = "code=" + k
				}
				lab += ",method=" + strings.ToLower(method) + ",path=\x01" + tmpl.key()
				record := func(st *State, m, metric string, v Val, pos string) {
					n, l, _ := strings.Cut(strings.TrimSuffix(metric, "}"), "{")
					switch n {
					case "oracle_http_requests_total":
						nc++
						one := m == "Inc" || m == "Add" && gaugeKey(v) == "1"
						c.Check(one && len(st.guardKeys()) == 0, rule, s.name+": counted", pos, "%s %s when %v", m, gaugeKey(v), st.guardKeys())
					case "oracle_http_request_duration_seconds":
						nl++
						c.Check(m == "Observe" && len(st.guardKeys()) == 0, rule, s.name+": timed", pos, "%s when %v", m, st.guardKeys())
					default:
						return
					}
					c.Check(l == lab, rule, s.name+": labels of "+n, pos, "counted as {%s}, wanted {%s}", plain(l), plain(lab))
					c.Check(passed == 1, rule, s.name+": "+n+" after the answer", pos, "counted before the request was answered")
				}
				more := w.n.more
				model := func(cl *Call) (Val, bool) {
					if v, ok := x.hook(I, cl, record); ok {
						return v, true
					}
					switch {
					case cl.name == "(net/http.Handler).ServeHTTP", cl.name == "(net/http.HandlerFunc).ServeHTTP" && I.res(cl.st, cl.args[0]).key() == "next":
						passed++
						wr := I.res(cl.st, cl.args[1])
						if strings.Contains(how, "status") {
							writer(cl.st, wr, "WriteHeader", code)
						}
						if strings.Contains(how, "body") {
							writer(cl.st, wr, "Write", strAtom("text"))
						}
						return &Tuple{}, true
					case cl.name == muxPkg+".CurrentRoute":
						return &Sym{t: "current route", nn: true}, true
					case cl.name == "(*"+muxPkg+".Route).GetPathTemplate":
						return tup(tmpl, VNil{}), true
					}
					return more(cl)
				}
				w.n.more = model
				I.onGo = func(st *State, fv Val, name string, args []Val, pos string) {
					if g, ok := fv.(*FuncV); ok {
						I.callFn(st, nil, g, args, pos)
						return
					}
					if m, ok := strings.CutPrefix(name, "invoke:"); ok {
						name, args = promPkg+"."+m, append([]Val{fv}, args...)
					}
					if _, ok := x.hook(I, &Call{st: st, name: name, args: args, pos: pos}, record); !ok {
						panic(undecided("goroutine " + name + " at " + pos))
					}
				}
				s.callF(f, &Sym{t: "next", nn: true})
				h := I.res(s.st, s.ret)
				if y, ok := h.(*Iface); ok {
					h = I.res(s.st, y.v)
				}
				g, ok := h.(*FuncV)
				if !ok {
					panic(undecided("handler " + h.key()))
				}
				rt := c.named("net/http", "Request")
				req := &Ptr{I.symObj("httpreq", rt), ""}
				I.Put(s.st, req, types.NewPointer(rt), ".Method", strC(method))
				s.callF(g, &Sym{t: "w", nn: true}, req)
				if !s.clean(rule) {
					continue
				}
				if nc+nl == 0 {
					continue // not the one that counts
				}
				counted++
				c.Check(nc == 1, rule, s.name+": once", s.pos(), "counted %d times", nc)
				c.Check(nl == 1, rule, s.name+": timed once", s.pos(), "timed %d times", nl)
			}
		}
	}
	c.Check(counted == 15, rule, "requests counted", "-", "%d of 15 kinds of request are counted", counted)
	c.Min(rule, 60)
}

func plain(s string) string { return strings.ReplaceAll(s, "\x01", "") }

// metricVersion: the version shown is the release's
func (c *Ctx) metricVersion() {
	const rule = "the release is shown"
	pk := c.P.ByPth[modPath+"/config"]
	if pk == nil || pk.Var("ReleaseVersion") == nil {
		panic(undecided("config.ReleaseVersion not found"))
	}
	rel := pk.Var("ReleaseVersion")
	ver := strAtom("release")
	o := newCtx(c.P, c.id, c.tier)
	k := map[string]int{}
	o.start = func(s *Scn) func(cl *Call) (Val, bool) {
		x := &metrics{c: c}
		x.ready(s)
		I := s.I
		I.storeLoc(s.st, I.globalObj(rel), "", types.Typ[types.String], ver)
		k[s.name] = 0
		return func(cl *Call) (Val, bool) {
			return x.hook(I, cl, func(st *State, how, metric string, v Val, pos string) {
				if strings.HasPrefix(metric, "oracle_version") {
					k[s.name]++
					c.Check(metric == "oracle_version{version=\x01"+ver.key()+"}" && how == "Set" && gaugeKey(v) == "1" && len(st.guardKeys()) == 0, rule, s.name+": version", pos, "%s %s to %s", how, plain(metric), gaugeKey(v))
				}
			})
		}
	}
	o.cliUsed()
	for f := range o.fns {
		c.fns[f] = true
	}
	for _, n := range sortedKeys(k) {
		if !strings.Contains(n, "does not exist") {
			c.Check(k[n] == 1, rule, n, "-", "the version is set %d times", k[n])
		}
	}
	c.Min(rule, 4)
}
