package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errSweep fails every call to a node or the contract that an exported method of Onchain
// makes, in turn: the method must then report an error or stop the process.
func (c *Ctx) errSweep() {
	const rule = "a failed request is an error"
	fs := c.onchainFns()
	n := 0
	for _, f := range fs {
		f := f
		run := func(label, fail string, cut string) (*Scn, *node, []string) {
			return c.sweepRun(f, label, fail, cut, nil)
		}
		s, _, keys := run("", "", "")
		if len(s.I.notes) > 0 {
			s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
		}
		iter := false
		for _, k := range keys {
			nm := k[:strings.Index(k, "#")]
			if strings.HasSuffix(nm, ".Next") {
				iter = true
			}
			if strings.HasSuffix(nm, ".Next") || strings.HasSuffix(nm, ".Error") || strings.HasSuffix(nm, ".Close") || nm == "Address" || strings.HasPrefix(nm, "http") {
				continue
			}
			n++
			s, _, _ := run(", failing: "+k, k, "")
			s.reports(rule)
		}
		if iter {
			for _, cut := range []string{"0", "1", "2"} {
				n++
				s, _, _ := run(", iteration breaks after "+cut+" events", "", cut)
				s.reports(rule)
			}
		}
	}
	c.Check(n >= 60, rule, "coverage", "-", "only %d failures of exported methods of Onchain could be injected", n)
}

// onchainFns: the exported methods of Onchain that can report an error
func (c *Ctx) onchainFns() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Blocks == nil || fnPkg(f) != modPath+"/oracle" || f.Parent() != nil || !f.Object().Exported() {
			continue
		}
		if p, ok := r.Type().(*types.Pointer); !ok || p.Elem().(*types.Named).Obj().Name() != "Onchain" {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isErrT(rs.At(rs.Len()-1).Type()) || f.Name() == "UpdateContractMerkleRoot" {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// sweepRun interprets a method of Onchain, one of its requests failing if wanted
func (c *Ctx) sweepRun(f *ssa.Function, label, fail, cut string, more func(*node, *Scn) func(*Call) (Val, bool)) (*Scn, *node, []string) {
	s := c.scn("(*Onchain)." + f.Name() + label)
	s.freshGlobals()
	n := s.node()
	args := []Val{s.onchain()}
	e := s.I.Range("e", 4, nil)
	sl := nAdd(nMul(numI(32), e), numI(3))
	n.slot, n.pslot, n.block, n.fork = sl, sl, s.I.Range("N", 1, maxU64), "Deneb"
	n.fee = addrBytes("pool")
	s.I.init["oc.ChainId"] = numI(560048)
	n.addTx("t0", 2, addrBytes("to0"), addrBytes("from0"))
	n.addTx("t1", 2, addrBytes("to1"), addrBytes("from1"))
	n.ans["GetAllOracleMembers"] = func(cl *Call) Val {
		return tup(s.I.mkSlice(cl.st, s.c.named(gethPkg+"/common", "Address"), []Val{addrBytes("m1"), addrBytes("m2")}, "members"), VNil{})
	}
	s.I.Uniq("m1", "b:m1", "m2", "b:m2")
	n.known = []string{"zz", "v0"}
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		p := ps.At(i)
		args = append(args, c.sweepArg(s, n, p, f.Signature.Variadic() && i == ps.Len()-1))
	}
	for _, k := range kinds9 {
		t := c.named("contract", "Contract"+k)
		n.evs[k] = []Val{s.mkT(t, "event0 "+k, map[string]Val{".Raw.BlockNumber": n.block}), s.mkT(t, "event1 "+k, map[string]Val{".Raw.BlockNumber": n.block})}
	}
	if more != nil {
		n.more = more(n, s)
	}
	if fail != "" {
		nm := fail[:strings.Index(fail, "#")]
		n.ans[nm] = failFrom(n, nm, fail)
	}
	if cut != "" {
		for _, k := range kinds9 {
			n.cut[k] = int(cut[0] - '0')
		}
	}
	s.call(f, args...)
	var keys []string
	cnt := map[string]int{}
	for _, k := range n.calls {
		cnt[k.name]++
		keys = append(keys, fmt.Sprintf("%s#%d", k.name, cnt[k.name]))
	}
	return s, n, uniqStrs(keys)
}

// reports: the call gives an error or ends the process
func (s *Scn) reports(rule string) {
	if len(s.I.notes) > 0 {
		s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
		return
	}
	if s.st.dead {
		s.c.Ok(rule, 1)
		return
	}
	nn, _ := s.lastErr()
	if !nn {
		s.fail(rule, "%s may return without an error", shortName(s.fn))
		return
	}
	s.c.Ok(rule, 1)
}

func (c *Ctx) sweepArg(s *Scn, n *node, p *types.Var, variadic bool) Val {
	if variadic {
		return VNil{}
	}
	t := types.Unalias(p.Type())
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if strings.Contains(strings.ToLower(p.Name()), "slot") || u.Kind() == types.Uint64 && !strings.Contains(strings.ToLower(p.Name()), "val") && !strings.Contains(strings.ToLower(p.Name()), "block") {
				return n.slot
			}
			return s.u64(p.Name())
		}
		if u.Info()&types.IsString != 0 {
			if strings.Contains(strings.ToLower(p.Name()), "address") {
				s.I.Uniq("w", "b:w")
				return addrStr("w", "arg")
			}
			return strAtom(p.Name())
		}
	case *types.Array:
		s.I.Uniq("acc", "b:acc")
		return addrBytes("acc")
	case *types.Slice:
		switch e := types.Unalias(u.Elem()).Underlying().(type) {
		case *types.Basic:
			if e.Info()&types.IsString != 0 {
				s.I.Uniq("w0", "b:w0", "w1", "b:w1")
				return s.I.mkSlice(s.st, u.Elem(), []Val{addrStr("w0", "arg"), addrStr("w1", "arg")}, "args")
			}
			if e.Kind() != types.Uint8 && e.Info()&types.IsInteger != 0 {
				s.sign(nSub(s.u64("v0"), s.u64("v1")), mPos|mNeg)
				return s.I.mkSlice(s.st, u.Elem(), []Val{s.u64("v0"), s.u64("v1")}, "arg")
			}
		case *types.Slice: // raw transactions
			return s.I.mkSlice(s.st, u.Elem(), []Val{strAtom("tx:t0"), strAtom("tx:t1")}, "args")
		}
	case *types.Pointer:
		if isBig(u.Elem()) {
			return s.I.newBig(s.st, n.block, "number")
		}
		if nt, ok := types.Unalias(u.Elem()).(*types.Named); ok && nt.Obj().Name() == "Oracle" {
			return s.or
		}
	}
	_ = t
	return s.I.symVal(p.Name(), t)
}

// errAPI: a handler that could not get what it asked for does not answer as if it had
func (c *Ctx) errAPI() {
	const rule = "a failed question is not answered as success"
	n := 0
	for _, p := range c.apiRoutes(c.apiScn("routes"), rule) {
		for _, k := range c.questions(p) {
			k := k
			if strings.Contains(k, ".Next#") || strings.Contains(k, ".Close#") {
				continue
			}
			w := c.safeWorld(safeCase{p, "failing " + k, func(w *apiWorld) { w.n.fail[k] = -1 }})
			w.s.begin()
			w.get(p)
			if !w.s.clean(rule) {
				continue
			}
			n++
			code, _, problem := w.answer()
			c.Check(problem == "" && code >= 400, rule, w.s.name, w.s.pos(), "answered with status %d %s", code, problem)
		}
	}
	c.Check(n >= 10, rule, "coverage", "-", "only %d failures of questions of handlers could be injected", n)
}

// errStart: connecting to nodes that fail or disagree is an error
func (c *Ctx) errStart() {
	const rule = "connecting to failing or disagreeing nodes is an error"
	run := func(name, fail string, cl, el int64) (*Scn, []string) {
		return c.connectScn(name, fail, cl, el, func(*Call, string) {})
	}
	for _, id := range []int64{1, 17000, 560048} {
		s, keys := run(fmt.Sprintf("both on chain %d", id), "", id, id)
		if s.clean(rule) {
			_, isNil := s.lastErr()
			c.Check(isNil, rule, s.name, s.pos(), "an error although nothing failed")
		}
		for _, k := range keys {
			s, _ := run("failing: "+k, k, id, id)
			s.reports(rule)
		}
		for _, other := range []int64{1, 5, 17000, 560048, 100} {
			if other != id {
				s, _ := run(fmt.Sprintf("nodes on chains %d and %d", id, other), "", id, other)
				s.reports(rule)
			}
		}
	}
	c.Min(rule, 20)
}

// connectScn analyses NewOnchain against nodes on chains cl and el, of which
// the named call fails; at is told the address of every contract bound.
func (c *Ctx) connectScn(name, fail string, cl, el int64, at func(*Call, string)) (*Scn, []string) {
	fn := c.anchor("oracle", "", "NewOnchain")
	s := c.scn("NewOnchain, " + name)
	s.freshGlobals()
	n := s.node()
	n.more = func(cl *Call) (Val, bool) {
		if strings.HasSuffix(cl.name, "crypto.PubkeyToAddress") {
			return &Str{parts: []SPart{{atom: "b:updater", n: 20}}}, true
		}
		return nil, false
	}
	n.slot, n.block, n.fork = s.u64("slot"), s.u64("N"), "Deneb"
	for k, f := range n.connects(cl, el) {
		n.ans[k] = f
	}
	n.ans["NewContract"] = func(cl *Call) Val {
		at(cl, s.I.res(cl.st, cl.args[0]).key())
		t := s.c.named("contract", "Contract")
		return tup(n.newAt(cl.st, t, "pool contract", nil), VNil{})
	}
	if fail != "" {
		nm := fail[:strings.Index(fail, "#")]
		old := n.ans[nm]
		ff := failFrom(n, nm, fail)
		n.ans[nm] = func(c *Call) Val {
			if v := ff(c); v != nil || old == nil {
				return v
			}
			return old(c)
		}
	}
	cli := s.mk("config", "CliConfig", map[string]Val{".NumRetries": numI(3), ".PoolAddress": addrStr("pool", "cfg")})
	kt := c.named("crypto/ecdsa", "PrivateKey")
	s.call(fn, cli, &Ptr{s.I.symObj("updater key", kt), ""})
	var keys []string
	cnt := map[string]int{}
	for _, k := range n.calls {
		cnt[k.name]++
		keys = append(keys, fmt.Sprintf("%s#%d", k.name, cnt[k.name]))
	}
	return s, uniqStrs(keys)
}

// errCopy: a copy of the validators that failed is not used
func (c *Ctx) errCopy() {
	const rule = "a failed copy is not used"
	for _, k := range []string{"(*encoding/gob.Encoder).Encode", "(*encoding/gob.Decoder).Decode"} {
		w := c.safeWorld(safeCase{"/memory/validators/{withdrawalAddress}", "failing " + k, func(w *apiWorld) { w.s.I.fail[k] = true }})
		w.s.begin()
		w.get("/memory/validators/{withdrawalAddress}")
		if w.s.clean(rule) {
			if w.s.I.ncall[k] > 0 {
				code, _, problem := w.answer()
				c.Check(problem == "" && code >= 400, rule, w.s.name, w.s.pos(), "answered with status %d %s", code, problem)
			}
		}
	}
	// FreezeCheckpoint with a copy, a tree or a proof that fails
	fz := c.anchor("oracle", "*Oracle", "FreezeCheckpoint")
	for _, p := range treePops(false) {
		for _, k := range []string{"(*encoding/gob.Encoder).Encode", "(*encoding/gob.Decoder).Decode", "merkletree.New", "MerkleTree).Proof"} {
			s, f := c.treeScn("freeze: "+p.name+", failing: "+k, p.vs)
			if len(s.wantLeaves(p.vs)) < 2 {
				continue
			}
			s.I.fail[k] = true
			hit := false
			s.I.hook = func(cl *Call) (Val, bool) {
				if strings.HasSuffix(cl.name, k) && strings.Contains(cl.name, "merkletree") && hasErrResult(cl.sig) {
					hit = true
					return s.I.failResults(cl.sig, k), true
				}
				return f.hook(cl)
			}
			s.call(fz, s.or)
			if s.I.ncall[k] == 0 && !hit {
				continue
			}
			s.stops(rule)
		}
	}
	c.Min(rule, 10)
}

// connects: what two nodes in sync on chains cl and el answer at start
func (n *node) connects(cl, el int64) map[string]func(c *Call) Val {
	ans := map[string]func(c *Call) Val{}
	ht := types.NewPointer(n.s.c.named(clPkg+"/http", "Service"))
	et := types.NewPointer(n.s.c.named(gethPkg+"/ethclient", "Client"))
	ans["http.New"] = func(c *Call) Val {
		return tup(&Iface{ht, &Ptr{n.s.I.symObj("beacon client", ht.Elem()), ""}}, VNil{})
	}
	for _, d := range []string{"Dial", "DialContext"} {
		ans[d] = func(c *Call) Val { return tup(&Ptr{n.s.I.symObj("execution client", et.Elem()), ""}, VNil{}) }
	}
	ans["ChainID"] = func(c *Call) Val { return n.bigRet(c, numI(el)) }
	ans["NetworkID"] = ans["ChainID"]
	ans["DepositContract"] = func(c *Call) Val {
		return n.response(c, func(p *Ptr, t types.Type) {
			n.s.I.Put(c.st, p, t, ".Data", n.newAt(c.st, n.s.c.named(v1pkg, "DepositContract"), "deposit contract", map[string]Val{".ChainID": numI(cl)}))
		})
	}
	ans["SyncProgress"] = func(c *Call) Val { return tup(VNil{}, VNil{}) }
	ans["NodeSyncing"] = func(c *Call) Val {
		return n.response(c, func(p *Ptr, t types.Type) {
			n.s.I.Put(c.st, p, t, ".Data", n.newAt(c.st, n.s.c.named(v1pkg, "SyncState"), "sync state", map[string]Val{".SyncDistance": numI(0)}))
		})
	}
	ans["NewContract"] = func(cl *Call) Val {
		return tup(n.newAt(cl.st, n.s.c.named("contract", "Contract"), "pool contract", nil), VNil{})
	}
	return ans
}
