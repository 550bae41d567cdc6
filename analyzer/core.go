package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A violated (or undecided) obligation. Key identifies it by rule and construct, not by line.
type Viol struct {
	Rule, Construct, Pos, Msg string
}

func (v Viol) key() string { return v.Rule + " " + v.Construct }

// Ctx collects the obligations of one property.
type Ctx struct {
	P    *Prog
	id   string
	tier string
	viol []Viol
	obl  int
	disc int
	rule map[string]int
	fns  map[string]bool
	seen map[string]bool
	smp  []string
	dbg  bool

	flip   bool                                    // visit maps in the opposite order
	onCall func(s *Scn)                            // observes every analysed call
	only   func(s *Scn, key string) bool           // compare only these parts of the state
	start  func(s *Scn) func(cl *Call) (Val, bool) // observes the start of the process
}

func newCtx(P *Prog, id, tier string) *Ctx {
	return &Ctx{P: P, id: id, tier: tier, rule: map[string]int{}, fns: map[string]bool{}, seen: map[string]bool{}}
}

// Ok records discharged obligations of a rule.
func (c *Ctx) Ok(rule string, n int) {
	c.obl += n
	c.disc += n
	c.rule[rule] += n
}

// Fail records a violated obligation.
func (c *Ctx) Fail(rule, construct, pos, format string, a ...interface{}) {
	c.obl++
	c.rule[rule]++
	v := Viol{rule, construct, pos, fmt.Sprintf(format, a...)}
	if c.seen[v.key()] {
		return
	}
	c.seen[v.key()] = true
	c.viol = append(c.viol, v)
}

// Check discharges or violates one obligation.
func (c *Ctx) Check(ok bool, rule, construct, pos, format string, a ...interface{}) bool {
	if ok {
		c.Ok(rule, 1)
		if len(c.smp) < 60 && !c.seen["s:"+rule+construct] {
			c.seen["s:"+rule+construct] = true
			c.smp = append(c.smp, rule+": "+construct)
		}
	} else {
		c.Fail(rule, construct, pos, format, a...)
	}
	return ok
}

// Min fails the check when a rule met fewer instances than the repository is known to hold.
func (c *Ctx) Min(rule string, n int) {
	if c.rule[rule] < n {
		c.Fail("coverage", rule, "-", "rule %q met %d instances, at least %d expected: the analysis lost its subject", rule, c.rule[rule], n)
	}
}

// include adds the obligations of the named rules of another property
func (c *Ctx) include(id string, want ...string) { c.includeOnly(id, nil, want...) }

// includeOnly adds them for a part of the state only: an unexpected stop is not this property's
func (c *Ctx) includeOnly(id string, only func(s *Scn, key string) bool, want ...string) {
	sub := newCtx(c.P, id, c.tier)
	sub.dbg = c.dbg
	sub.only = only
	rules[id].run(sub)
	w := map[string]bool{}
	for _, r := range want {
		w[r] = true
		if sub.rule[r] == 0 {
			c.Fail("coverage", id+": "+r, "-", "no obligation %q of %s: the analysis lost its subject", r, id)
		}
	}
	bad := map[string]int{}
	for _, v := range sub.viol {
		if w[v.Rule] {
			bad[v.Rule]++
			c.Fail(v.Rule, v.Construct, v.Pos, "%s", v.Msg)
		}
	}
	for r := range w {
		if n := sub.rule[r] - bad[r]; n > 0 {
			c.Ok(r, n)
		}
	}
	for f := range sub.fns {
		c.fns[f] = true
	}
}

func (c *Ctx) Touch(fn *ssa.Function) {
	if fn != nil {
		c.fns[shortName(fn)] = true
	}
}

type Rule struct {
	id       string
	title    string
	method   string
	explain  string
	run      func(c *Ctx)
	assume   []string
	minOblig int
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.id] = r }

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Violations  int                    `json:"violations"`
}

type finding struct {
	prop, key, text string
}

// known findings: lines "property=<id> key=<rule construct> :: <what fails>"
func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		l = strings.TrimPrefix(l, "property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		r = append(r, finding{l[:i], l[i+5 : j], l[j+4:]})
	}
	return r
}

var loaded = map[string]*Prog{}

// loadOnce: one process deciding several properties reads the repository once
func loadOnce(repo string) (*Prog, error) {
	if p := loaded[repo]; p != nil {
		return p, nil
	}
	p, err := Load(repo)
	if err == nil {
		loaded[repo] = p
	}
	return p, err
}

func runRule(r *Rule, repo, verif, tier string, dbg bool) (code int) {
	t0 := time.Now()
	c := newCtx(nil, r.id, tier)
	c.dbg = dbg
	P, err := loadOnce(repo)
	if err != nil {
		c.Fail("load", "repository", "-", "%v", err)
	} else {
		c.P = P
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(undecided); ok {
						c.Fail("undecided", "analysis", "-", "%s", string(u))
						return
					}
					if dbg {
						panic(e)
					}
					c.Fail("undecided", "analysis", "-", "internal: %v", e)
				}
			}()
			r.run(c)
			if c.obl < r.minOblig {
				c.Fail("coverage", "obligations", "-", "%d obligations, at least %d expected", c.obl, r.minOblig)
			}
		}()
	}
	known := loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var open []Viol
	for _, v := range c.viol {
		k := false
		for _, f := range known {
			if f.prop == r.id && f.key == v.key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, f.text)
				k = true
				break
			}
		}
		if !k {
			open = append(open, v)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rl := map[string]interface{}{}
	for k, n := range c.rule {
		rl[k] = n
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := evidence{Property: r.id, Tier: tier, Seed: seed, Level: "other", WallS: time.Since(t0).Seconds(), Violations: len(open), Assumptions: r.assume,
		Coverage: map[string]interface{}{
			"explanation":        r.explain,
			"obligations":        c.obl,
			"discharged":         c.disc,
			"known_findings":     len(c.viol) - len(open),
			"rules":              rl,
			"functions_analysed": fns,
			"samples":            c.smp,
			"executions":         0,
		}}
	if len(open) > 0 {
		var vs []string
		for _, v := range open {
			vs = append(vs, fmt.Sprintf("%s | %s | %s | %s", v.Rule, v.Construct, v.Pos, v.Msg))
		}
		ev.Coverage["violations"] = vs
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s (%s): %d obligations, %d discharged, %d functions analysed, %.1fs\n", r.id, r.title, c.obl, c.disc, len(fns), time.Since(t0).Seconds())
	if len(open) == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.id+".violations.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "rule:      %s\nconstruct: %s\nat:        %s\n%s\n\n", v.Rule, v.Construct, v.Pos, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i == 8 {
			fmt.Printf("  ... %d more\n", len(open)-8)
			break
		}
		fmt.Printf("  %s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, trunc(v.Msg, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
