package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// startCase is one course of events at start-up; "" is the good outcome
type startCase struct {
	dry, cli, key, onchain, members, balance, src, chain, reload, cfg string
}

func (k startCase) String() string {
	return fmt.Sprintf("dry %q cli %q key %q client %q members %q balance %q state %q contract %q reload %q", k.dry, k.cli, k.key, k.onchain, k.members, k.balance, k.src, k.chain, k.reload)
}

// may the oracle start?
func (k startCase) may() bool {
	if k.cli != "" || k.onchain != "" {
		return false
	}
	switch k.src {
	case "", "none", "url":
	default:
		return false
	}
	if k.dry != "" {
		return true
	}
	if k.key != "" || k.members != "" && k.members != "only" || k.balance != "" {
		return false
	}
	switch k.chain {
	case "", "behind":
		return true
	case "ahead", "ahead 1", "ahead far", "ahead of nothing":
		return k.src == "none" || k.reload == ""
	}
	return false
}

func runC36(c *Ctx) {
	var cases []startCase
	dev := map[string][]string{
		"cli": {"err"}, "key": {"err"}, "onchain": {"err"}, "members": {"only", "absent", "none", "err"}, "balance": {"zero", "err"},
		"src": {"none", "err", "found+err", "url", "url err", "url 500", "url 404", "url read", "url load"}, "chain": {"behind", "ahead", "ahead 1", "ahead far", "ahead of nothing", "slot err", "root err"}, "reload": {"missing", "err", "found+err"},
	}
	fs := []string{"cli", "key", "onchain", "members", "balance", "src", "chain", "reload"}
	set := func(k *startCase, f, v string) {
		switch f {
		case "cli":
			k.cli = v
		case "key":
			k.key = v
		case "onchain":
			k.onchain = v
		case "members":
			k.members = v
		case "balance":
			k.balance = v
		case "src":
			k.src = v
		case "chain":
			k.chain = v
		case "reload":
			k.reload = v
		}
	}
	for _, dry := range []string{"", "dry"} {
		k0 := startCase{dry: dry}
		cases = append(cases, k0)
		for i, a := range fs {
			for _, va := range dev[a] {
				k := k0
				set(&k, a, va)
				cases = append(cases, k)
				for _, b := range fs[i+1:] {
					for _, vb := range dev[b] {
						k2 := k
						set(&k2, b, vb)
						cases = append(cases, k2)
						if a != "chain" && b != "chain" && b != "reload" {
							k3 := k2
							k3.chain = "ahead"
							cases = append(cases, k3)
						}
					}
				}
			}
		}
	}
	started := 0
	for _, k := range cases {
		if c.startup(k, nil) {
			started++
		}
	}
	c.reloads()
	c.Check(started >= 10, "coverage", "start reached", "-", "the oracle starts in %d cases: the analysis lost its subject", started)
}

// reloads: an older state is looked for in the files of the slot given and of checkpoints before it
func (c *Ctx) reloads() {
	const rule = "only saved states up to the slot given are reloaded"
	f := c.anchor("oracle", "*Oracle", "LoadGivenState")
	for _, k := range []string{"no file exists", "the slot's own file exists", "the file of the checkpoint before exists", "the slot's own file cannot be opened", "every file cannot be loaded", "the file of the checkpoint before cannot be loaded"} {
		s := c.scn("reload when " + k)
		n := s.node()
		S := s.I.Range("S", 2, big.NewInt(1<<18))
		X := s.I.Range("X", 1<<40, big.NewInt(1<<60))
		cfg := s.mk("oracle", "Config", map[string]Val{".CheckPointSizeInSlots": S})
		s.put(".cfg", cfg)
		name := func(i int64) string {
			return catS(catS(strC("oracle-data/state_"), s.I.decS(nSub(X, nMul(numI(i), S)))), strC(".json")).key()
		}
		at := -1
		own := false
		n.more = func(cl *Call) (Val, bool) {
			notexist := &Sym{t: "err:notexist", err: true, nn: true}
			switch cl.name {
			case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "os.Stat", "os.Lstat":
				at = -1
				p := n.str(cl, cl.args[0])
				for i := int64(0); i < 64; i++ {
					if p == name(i) {
						at = int(i)
					}
				}
				own = own || at == 0
				if at < 0 {
					s.bad = true
					c.Fail(rule, s.name, cl.pos, "%s is loaded although the newest state wanted is that of slot %s", p, X.key())
				}
				ok := true
				err := notexist
				switch k {
				case "no file exists":
					ok = false
				case "the slot's own file exists":
					ok = at == 0
				case "the file of the checkpoint before exists", "the file of the checkpoint before cannot be loaded":
					ok = at == 1
				case "the slot's own file cannot be opened":
					if at == 0 {
						ok, err = false, &Sym{t: "err:open", err: true, nn: true}
					}
				}
				if !ok {
					return tup(VNil{}, err), true
				}
				if strings.HasSuffix(cl.name, "ReadFile") {
					return tup(strAtom(rawFile), VNil{}), true
				}
				return tup(&Ptr{s.I.symObj("file", nil), ""}, VNil{}), true
			case "io.ReadAll", "io/ioutil.ReadAll":
				return tup(strAtom(rawFile), VNil{}), true
			case "(*" + modPath + "/oracle.Oracle).LoadFromBytes":
				if strings.HasSuffix(k, "cannot be loaded") {
					return tup(VBool(false), errSym("load error")), true
				}
				return tup(VBool(true), VNil{}), true
			case "(*os.File).Close":
				return VNil{}, true
			}
			return (&files{s: s}).hook2(cl)
		}
		s.call(f, s.or, X)
		if !s.clean(rule) {
			continue
		}
		nonNil, isNil := s.lastErr()
		found := s.retAt(0).key()
		switch k {
		case "no file exists":
			c.Check(found == "false" && own, rule, s.name, s.pos(), "reports found %s, own file looked for: %v", found, own)
		case "the slot's own file exists", "the file of the checkpoint before exists":
			c.Check(found == "true" && isNil, rule, s.name, s.pos(), "reports found %s, error %v", found, nonNil)
		default:
			c.Check(found == "false" || nonNil || k == "the slot's own file cannot be opened", rule, s.name, s.pos(), "reports success although nothing was loaded")
		}
	}
}

// startExt looks at a start-up for another property than C36
type startExt struct {
	s      *Scn
	starts func(st *State, what, pos string)
	recv   func(st *State, chans []Val, pos string) (int, Val, bool)
	more   func(cl *Call) (Val, bool)
	others []func(st *State) // goroutines started that neither process nor serve
}

func (c *Ctx) startup(k startCase, x *startExt) bool {
	const rule = "started only when entitled and not ahead"
	f := c.anchor("", "", "main")
	adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
	srv := c.anchor("api", "*ApiService", "StartHTTPServer")
	s := c.scn(k.String())
	check := c.Check
	if x != nil {
		x.s = s
		check = func(bool, string, string, string, string, ...interface{}) bool { return true }
	}
	n := s.node()
	s.network("mainnet")
	s.freshGlobals()
	s.I.Uniq("updater", "m1", "m2", "pool", "b:updater", "b:m1", "b:m2", "b:pool")
	s.I.Range("S", 2, nil)
	L := s.I.Range("L", 1<<30, nil)
	S := numAtom("S")
	s.less(S, L)
	var chain *Num
	switch k.chain {
	case "ahead":
		chain = nSub(L, S)
	case "ahead 1":
		chain = nSub(L, numI(1))
	case "ahead far":
		chain = nSub(nSub(L, S), S)
		s.sign(chain, mPos)
	case "ahead of nothing":
		chain = numI(0)
	case "behind":
		chain = nAdd(L, S)
	default:
		chain = L
	}
	dry := VBool(k.dry != "")
	url := strC("")
	if strings.HasPrefix(k.src, "url") {
		url = strC("http://checkpoint/state")
	}
	cli := s.mk("config", "CliConfig", map[string]Val{".DryRun": dry, ".CheckPointSyncUrl": url, ".NumRetries": numI(3), ".LogLevel": strC("info"), ".PoolAddress": addrStr("pool", "cfg")})
	cfg := s.mk("oracle", "Config", map[string]Val{".DryRun": dry, ".NumRetries": numI(3), ".CheckPointSizeInSlots": S})
	s.put(".cfg", cfg)
	cst := c.named("oracle", "OnchainState")
	mapT := types.NewMap(types.Typ[types.Uint64], types.NewPointer(cst))
	states := func(st *State, slot *Num) Val {
		return s.I.NewMap(st, mapT, slot, n.newAt(st, cst, "checkpoint", map[string]Val{".Slot": slot, ".MerkleRoot": rootText("root@" + slot.key())}))
	}
	s.put(".state.CommitedStates", s.I.NewMap(s.st, mapT))
	s.put(".state.DeployedSlot", numI(1000))
	oc := s.onchain()
	s.I.init["oc.UpdaterAddress"] = addrBytes("updater")
	keyT := c.named(gethPkg+"/accounts/keystore", "Key")
	pkT := c.named("crypto/ecdsa", "PrivateKey")
	pk := &Ptr{s.I.symObj("privatekey", pkT), ""}
	starts := 0
	var why []string
	reloaded, loaded := false, false
	start := func(st *State, what, pos string) {
		starts++
		if x != nil {
			x.starts(st, what, pos)
			return
		}
		if !k.may() {
			s.bad = x == nil
			check(false, rule, what+" when "+s.name, pos, "the oracle starts %s", what)
			return
		}
		need := func(ok bool, format string, a ...interface{}) {
			if !ok {
				why = append(why, fmt.Sprintf(format, a...))
			}
		}
		ev := map[string]int{}
		for _, e := range st.trace {
			if e.kind == "main" && len(e.gd) == 0 {
				ev[e.name]++
			}
		}
		need(ev["state loaded"] > 0, "the state was not loaded before")
		if k.dry == "" {
			need(ev["members"] > 0, "the contract's members were not asked for before")
			need(ev["balance"] > 0, "the updater's balance was not asked for before")
			if strings.HasPrefix(k.chain, "ahead") && k.src != "none" {
				need(ev["reloaded"] > 0, "no older state was loaded although the state is ahead of the contract")
			}
		}
		check(len(why) == 0, rule, what+" when "+s.name, pos, "%s starts although %s", what, strings.Join(why, "; "))
		why = nil
	}
	s.I.onGo = func(st *State, fv Val, name string, args []Val, pos string) {
		g, ok := fv.(*FuncV)
		if !ok {
			return
		}
		if x != nil && !c.reaches(g.fn, map[*ssa.Function]bool{}, adv) && !c.reaches(g.fn, map[*ssa.Function]bool{}, srv) {
			x.others = append(x.others, func(st *State) { s.I.callFn(st, nil, g, args, pos) })
		}
		if c.reaches(g.fn, map[*ssa.Function]bool{}, adv) {
			start(st, "processing", pos)
		}
		if c.reaches(g.fn, map[*ssa.Function]bool{}, srv) {
			start(st, "serving", pos)
		}
	}
	s.I.onRecv = func(st *State, pos string) bool {
		s.I.ends = append(s.I.ends, End{"script", "waiting", pos, nil, st})
		st.dead = true
		return true
	}
	if x != nil && x.recv != nil {
		s.I.onRecvV = x.recv
	}
	log := func(st *State, nm string) { st.trace = append(st.trace, Event{kind: "main", name: nm}) }
	const or = "(*" + modPath + "/oracle.Oracle)."
	n.more = func(cl *Call) (Val, bool) {
		I, st := s.I, cl.st
		if x != nil && x.more != nil {
			if v, ok := x.more(cl); ok {
				return v, true
			}
		}
		fail := func() (Val, bool) { return I.failResults(cl.sig, cl.name[strings.LastIndex(cl.name, ".")+1:]), true }
		switch cl.name {
		case srv.String():
			start(st, "serving", cl.pos)
			return I.zeroResults(cl.sig), true
		case adv.String():
			start(st, "processing", cl.pos)
			s.I.onRecv(st, cl.pos)
			return I.zeroResults(cl.sig), true
		case modPath + "/config.NewCliConfig":
			if k.cli != "" {
				return fail()
			}
			return tup(cli, VNil{}), true
		case gethPkg + "/accounts/keystore.DecryptKey":
			if k.key != "" {
				return fail()
			}
			return tup(n.newAt(st, keyT, "key", map[string]Val{".Address": addrBytes("updater"), ".PrivateKey": pk}), VNil{}), true
		case modPath + "/oracle.NewOnchain":
			if k.onchain != "" {
				return fail()
			}
			if k.dry == "" {
				check(I.res(st, cl.args[1]).key() == pk.key(), rule, "client gets the decrypted key when "+s.name, cl.pos, "the client is given key %s", I.res(st, cl.args[1]).key())
			}
			return tup(oc, VNil{}), true
		case "(*" + modPath + "/oracle.Onchain).GetConfigFromContract":
			return cfg, true
		case modPath + "/oracle.NewOracle":
			return s.or, true
		case or + "LoadFromJson", or + "LoadFromBytes":
			bytes := strings.HasSuffix(cl.name, "Bytes")
			if bytes != strings.HasPrefix(k.src, "url") {
				check(false, rule, "state source when "+s.name, cl.pos, "the state is loaded from the wrong source")
			}
			found := true
			switch k.src {
			case "err", "url load":
				return fail()
			case "found+err":
				return tup(VBool(true), errSym("load error")), true
			case "none":
				found = false
			default:
				I.Put(st, s.or, types.NewPointer(s.orT), ".state.CommitedStates", states(st, L))
			}
			loaded = true
			log(st, "state loaded")
			return tup(VBool(found), VNil{}), true
		case or + "LoadGivenState":
			check(I.res(st, cl.args[1]).key() == chain.key(), rule, "reload of an older state when "+s.name, cl.pos, "the state reloaded is bounded by %s, not by the contract's slot %s", I.res(st, cl.args[1]).key(), chain.key())
			switch k.reload {
			case "missing":
				return tup(VBool(false), VNil{}), true
			case "err":
				return tup(VBool(false), errSym("reload error")), true
			case "found+err":
				return tup(VBool(true), errSym("reload error")), true
			}
			reloaded = true
			I.Put(st, s.or, types.NewPointer(s.orT), ".state.CommitedStates", states(st, I.res(st, cl.args[1]).(*Num)))
			log(st, "reloaded")
			return tup(VBool(true), VNil{}), true
		case "io.ReadAll", "io/ioutil.ReadAll":
			if k.src == "url read" {
				return fail()
			}
			return tup(strAtom("body"), VNil{}), true
		case "os.OpenFile":
			return tup(&Sym{t: "logfile", nn: true}, VNil{}), true
		case "github.com/sirupsen/logrus.ParseLevel":
			return tup(numI(4), VNil{}), true
		}
		switch nodeCall(cl.name) {
		case "http.Get", "http.Do":
			if k.src == "url err" {
				return fail()
			}
			t := c.named("net/http", "Response")
			code := int64(200)
			if k.src == "url 500" {
				code = 500
			}
			if k.src == "url 404" {
				code = 404
			}
			p := n.newAt(st, t, "http response", map[string]Val{".StatusCode": numI(code)})
			I.Put(st, p, types.NewPointer(t), ".Body", &Sym{t: "body", nn: true})
			return tup(p, VNil{}), true
		case "GetAllOracleMembers":
			if k.members == "err" {
				return fail()
			}
			var es []Val
			switch k.members {
			case "":
				es = []Val{addrBytes("m1"), addrBytes("updater"), addrBytes("m2")}
			case "only":
				es = []Val{addrBytes("updater")}
			case "absent":
				es = []Val{addrBytes("m1"), addrBytes("m2")}
			}
			log(st, "members")
			at := types.Unalias(cl.sig.Results().At(0).Type()).(*types.Slice).Elem()
			return tup(I.mkSlice(st, at, es, "members"), VNil{}), true
		case "BalanceAt":
			if k.balance == "err" {
				return fail()
			}
			if n.str(cl, cl.args[2]) == addrBytes("updater").key() {
				log(st, "balance")
				if k.balance == "zero" {
					return tup(I.newBig(st, numI(0), "balance"), VNil{}), true
				}
			}
			return tup(I.newBig(st, I.Range("balance", 1, nil), "balance"), VNil{}), true
		case "LastConsolidatedSlot":
			if k.chain == "slot err" {
				return fail()
			}
			return tup(chain, VNil{}), true
		case "RewardsRoot":
			if k.chain == "root err" {
				return fail()
			}
			return tup(&Str{parts: []SPart{{atom: "b:root", n: 32}}}, VNil{}), true
		}
		return nil, false
	}
	s.call(f)
	_ = loaded
	_ = reloaded
	if len(s.I.notes) > 0 {
		s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
	}
	for _, e := range s.I.ends {
		if e.kind == "panic" {
			s.fail(rule, "may panic: %s at %s", e.msg, e.pos)
		}
	}
	if starts == 0 && !k.may() {
		check(true, rule, s.name, s.pos(), "")
	}
	return starts > 0
}

func init() {
	register(&Rule{id: "C36", title: "a submitting oracle starts only when entitled and not ahead", minOblig: 400, run: runC36,
		explain: "main is analysed, callees inlined, for every single and pairwise deviation of what can go wrong at start-up (configuration, key, client, membership, balance, state file or checkpoint URL, contract's slot and root, reloading an older state; dry-run or not). At every reachable point where the state processing or the API server is started, the outcomes so far must entitle it: membership and balance of the decrypted key's address asked for and positive, state loaded, and reloaded down to the contract's slot when it was ahead of it. LoadGivenState is analysed for the files it opens (unknown slot and checkpoint size; files missing, present, not loadable): only those of the slot given and of whole checkpoints before it.",
		assume:  []string{"LoadFromJson, LoadFromBytes, LoadGivenState and NewOnchain report as their own properties demand (C11, C14, C25)."}})
}
