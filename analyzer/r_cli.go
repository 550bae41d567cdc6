package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "C45", title: "command-line settings are checked and used for what they say", minOblig: 300, run: runC45,
		explain: "the package flag is modelled (every way of defining a flag, values taking effect at Parse) and the reading of the command line is interpreted for command lines with each setting given or left out: what it returns must be, field by field, the value given or the documented default, and every contradictory or malformed command line must be refused. Then main is interpreted from the command line on, callees inlined (goroutines that serve included), and the key file and password, the two node addresses, the pool address, the number of attempts, the log level, the checkpoint URL and the two ports must each reach the one place they are meant for.",
		assume:  []string{"the configuration read from the contract is C39, what dry-run changes is C18 and C36, which relays are asked C33 and C44."}})
}

// cmdline is a command line: what is given, by flag
type cmdline map[string]Val

func (l cmdline) with(kv ...interface{}) cmdline {
	m := cmdline{}
	for k, v := range l {
		m[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		k := kv[i].(string)
		switch v := kv[i+1].(type) {
		case nil:
			delete(m, k)
		case string:
			m[k] = strC(v)
		case bool:
			m[k] = VBool(v)
		case int:
			m[k] = numI(int64(v))
		case Val:
			m[k] = v
		}
	}
	return m
}

func (l cmdline) String() string {
	var out []string
	for _, k := range sortedKeys(l) {
		if t, ok := l[k].(*Str); !ok || len(t.key()) < 60 {
			out = append(out, "--"+k+"="+l[k].key())
		}
	}
	return strings.Join(out, " ")
}

// flags models package flag on a command line
func (n *node) flags(l cmdline) func(cl *Call) (Val, bool) {
	type cell struct {
		p *Ptr
		t types.Type
	}
	cells := map[string]cell{}
	I := n.s.I
	return func(cl *Call) (Val, bool) {
		m := ""
		args := cl.args
		switch {
		case strings.HasPrefix(cl.name, "flag."):
			m = cl.name[len("flag."):]
		case strings.HasPrefix(cl.name, "(*flag.FlagSet)."):
			m, args = cl.name[len("(*flag.FlagSet)."):], args[1:]
		default:
			return nil, false
		}
		def := func(t types.Type, args []Val) *Ptr {
			nm, ok := I.res(cl.st, args[1]).(*Str)
			k, ok2 := "", false
			if ok {
				k, ok2 = nm.konst()
			}
			if !ok2 {
				panic(undecided("a flag with a computed name at " + cl.pos))
			}
			p, _ := I.res(cl.st, args[0]).(*Ptr)
			if _, dup := cells[k]; dup || p == nil {
				panic(undecided("flag " + k + " defined twice or nowhere at " + cl.pos))
			}
			I.store(cl.st, p, t, I.res(cl.st, args[2]), cl.pos)
			cells[k] = cell{p, t}
			return p
		}
		switch m {
		case "String", "Bool", "Int", "Uint", "Int64", "Uint64":
			t := types.Unalias(cl.sig.Results().At(0).Type()).(*types.Pointer).Elem()
			return def(t, append([]Val{n.newAt(cl.st, t, "flag", nil)}, args...)), true
		case "StringVar", "BoolVar", "IntVar", "UintVar", "Int64Var", "Uint64Var":
			def(types.Unalias(cl.sig.Params().At(0).Type()).(*types.Pointer).Elem(), args)
			return &Tuple{}, true
		case "Parse":
			for _, k := range sortedKeys(l) {
				c, ok := cells[k]
				if !ok {
					I.fatal(cl.st, "the program does not know --"+k, cl.pos)
					return I.zeroResults(cl.sig), true
				}
				I.store(cl.st, c.p, c.t, l[k], cl.pos)
			}
			return I.zeroResults(cl.sig), true
		case "NewFlagSet":
			return &Sym{t: "flagset", nn: true}, true
		case "Parsed":
			return VBool(true), true
		case "NArg":
			return numI(0), true
		case "Usage", "PrintDefaults", "SetOutput":
			return &Tuple{}, true
		}
		return nil, false
	}
}

const goodRelays = "https://relay0.example,https://0xac6e@relay1.example:8080/path?x=1"

// the fields of the configuration read from the command line
var cliFields = map[string]string{
	"dry-run": "DryRun", "updater-keystore-file": "UpdaterKeyFile", "updater-keystore-pass": "UpdaterKeyPass", "num-retries": "NumRetries", "consensus-endpoint": "ConsensusEndpoint",
	"execution-endpoint": "ExecutionEndpoint", "pool-address": "PoolAddress", "log-level": "LogLevel", "api-port": "ApiPort", "metrics-port": "MetricsPort", "checkpoint-sync-url": "CheckPointSyncUrl",
}

var cliDefaults = cmdline{}.with("dry-run", false, "updater-keystore-file", "", "updater-keystore-pass", "", "num-retries", 0, "consensus-endpoint", "", "execution-endpoint", "", "log-level", "info", "api-port", 7300, "metrics-port", 8008, "checkpoint-sync-url", "")

const somePool = "0x9FC3da866e7DF3a1c57adE1a97c9f00a70f010c8"

// fullLine gives every setting, with unknown values
func (s *Scn) fullLine() cmdline {
	I := s.I
	l := cmdline{"dry-run": VBool(false), "pool-address": addrStr("pool", "cfg"), "relayers-endpoints": strC(goodRelays)}
	for _, k := range []string{"updater-keystore-file", "updater-keystore-pass", "consensus-endpoint", "execution-endpoint", "log-level", "checkpoint-sync-url"} {
		I.nonEmpty["given "+k] = true
		I.Uniq("given " + k)
		l[k] = strAtom("given " + k)
	}
	for _, k := range []string{"num-retries", "api-port", "metrics-port"} {
		l[k] = I.Range("given "+k, 1, nil)
	}
	return l
}

func (c *Ctx) cliScn(name string) (*Scn, *node) {
	s := c.scn(name)
	n := s.node()
	s.freshGlobals()
	s.I.Uniq("pool", "b:pool")
	return s, n
}

func runC45(c *Ctx) {
	c.cliRead()
	c.cliUsed()
}

func (c *Ctx) cliRead() {
	const r1, r2 = "settings are those of the command line", "bad command lines are refused"
	f := c.anchor("config", "", "NewCliConfig")
	full := func(s *Scn) cmdline { return s.fullLine() }
	type lcase struct {
		name string
		l    func(s *Scn) cmdline
		rel  string
	}
	var good []lcase
	add := func(name string, l func(s *Scn) cmdline) { good = append(good, lcase{name, l, goodRelays}) }
	add("everything given", full)
	add("dry run, everything else given", func(s *Scn) cmdline {
		return full(s).with("dry-run", true, "updater-keystore-file", nil, "updater-keystore-pass", nil)
	})
	for _, k := range sortedKeys(cliFields) {
		k := k
		switch k {
		case "pool-address", "updater-keystore-file", "updater-keystore-pass":
			continue
		}
		add("all but "+k, func(s *Scn) cmdline { return full(s).with(k, nil) })
		min := func(s *Scn) cmdline {
			l := full(s)
			m := cmdline{}
			for _, x := range []string{"pool-address", "relayers-endpoints", "updater-keystore-file", "updater-keystore-pass"} {
				m[x] = l[x]
			}
			return m
		}
		add("the mandatory and "+k, func(s *Scn) cmdline { return min(s).with(k, full(s)[k]) })
		if k == "dry-run" {
			add("only the mandatory", min)
			add("only the mandatory in a dry run", func(s *Scn) cmdline {
				return min(s).with("dry-run", true, "updater-keystore-file", nil, "updater-keystore-pass", nil)
			})
		} else {
			add("dry run, the mandatory and "+k, func(s *Scn) cmdline {
				return min(s).with(k, full(s)[k], "dry-run", true, "updater-keystore-file", nil, "updater-keystore-pass", nil)
			})
		}
	}
	for _, a := range []string{somePool, strings.ToLower(somePool), "0x" + strings.ToUpper(somePool[2:])} {
		a := a
		add("pool address "+a, func(s *Scn) cmdline { return full(s).with("pool-address", a) })
	}
	for _, rel := range []string{"https://a", "https://a,https://b", "https://a,https://a", "https://b,https://a,https://c/", "https://0xpub@host:99/x"} {
		rel := rel
		good = append(good, lcase{"relays " + rel, func(s *Scn) cmdline { return full(s).with("relayers-endpoints", rel) }, rel})
	}
	for _, k := range good {
		s, n := c.cliScn("command line with " + k.name)
		l := k.l(s)
		n.more = n.flags(l)
		s.call(f)
		if !s.clean(r1) {
			continue
		}
		t := c.named("config", "CliConfig")
		want := map[string]string{}
		for fl, fd := range cliFields {
			if v, ok := l[fl]; ok {
				want["."+fd] = v.key()
			} else {
				want["."+fd] = cliDefaults[fl].key()
			}
		}
		for i, u := range strings.Split(k.rel, ",") {
			want[fmt.Sprintf(".RelayersEndpoints[%d]", i)] = q(u)
		}
		want[".RelayersEndpoints.#"] = fmt.Sprint(len(strings.Split(k.rel, ",")))
		got := map[string]string{}
		_, isNil := s.lastErr()
		if !c.Check(isNil, r1, s.name, s.pos(), "refused although it is in order: %s", l) {
			continue
		}
		p := s.I.res(s.st, s.retAt(0))
		for fl, fd := range cliFields {
			v, err := s.I.Get(s.st, p, types.NewPointer(t), "."+fd)
			if err != nil {
				got["."+fd] = fmt.Sprintf("%s: %v", fl, err)
				continue
			}
			got["."+fd] = s.I.res(s.st, v).key()
		}
		es, _, err := s.I.List(s.st, p, types.NewPointer(t), ".RelayersEndpoints")
		if err == nil {
			got[".RelayersEndpoints.#"] = fmt.Sprint(len(es))
			for i, e := range es {
				got[fmt.Sprintf(".RelayersEndpoints[%d]", i)] = s.I.res(s.st, e).key()
			}
		}
		for _, fd := range sortedKeys(want) {
			c.Check(got[fd] == want[fd], r1, s.name+": "+fd[1:], s.pos(), "%s is %s, wanted %s (%s)", fd[1:], got[fd], want[fd], l)
		}
	}
	type bad struct {
		name string
		kv   []interface{}
	}
	var bads []bad
	b := func(name string, kv ...interface{}) { bads = append(bads, bad{name, kv}) }
	b("no keystore file", "updater-keystore-file", nil)
	b("an empty keystore file", "updater-keystore-file", "")
	b("no keystore password", "updater-keystore-pass", nil)
	b("an empty keystore password", "updater-keystore-pass", "")
	b("neither keystore file nor password", "updater-keystore-file", nil, "updater-keystore-pass", nil)
	b("a dry run with a key", "dry-run", true)
	b("a dry run with a keystore file", "dry-run", true, "updater-keystore-pass", nil)
	b("a dry run with a keystore password", "dry-run", true, "updater-keystore-file", nil)
	for _, a := range []string{"", "0x", "0x1234", somePool[:41], somePool + "0", strings.Replace(somePool, "3d", "3g", 1), "pool.eth"} {
		b("pool address "+q(a), "pool-address", a)
	}
	b("no pool address", "pool-address", nil)
	for _, r := range []string{"", ",", "https://a,", ",https://a", "https://a,,https://b", "http://a", "https://a,http://b", "http://b,https://a", "https://a,https://b,ftp://c", "relay", "https:/a", "https://a,b", "https://exa mple", "https://a,https://[::1", "wss://a", " "} {
		b("relays "+q(r), "relayers-endpoints", r)
	}
	b("no relays", "relayers-endpoints", nil)
	for _, k := range bads {
		for _, dry := range []bool{false, true} {
			s, n := c.cliScn("command line with " + k.name)
			l := full(s)
			if dry {
				if strings.Contains(k.name, "keystore") || strings.Contains(k.name, "dry run") {
					continue
				}
				s.name += ", dry run"
				l = l.with("dry-run", true, "updater-keystore-file", nil, "updater-keystore-pass", nil)
			}
			l = l.with(k.kv...)
			n.more = n.flags(l)
			s.call(f)
			if len(s.I.notes) > 0 {
				s.fail(r2, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
				continue
			}
			ok := true
			for _, e := range s.I.ends {
				if e.kind == "panic" {
					s.fail(r2, "may panic: %s at %s", e.msg, e.pos)
					ok = false
				}
			}
			if !s.st.dead {
				nonNil, _ := s.lastErr()
				ok = c.Check(nonNil, r2, s.name, s.pos(), "accepted: %s", l) && ok
			} else if ok {
				c.Check(true, r2, s.name, s.pos(), "")
			}
		}
	}
	c.Min(r1, 200)
	c.Min(r2, 40)
}

// cliUsed: from the command line to where each setting takes effect
func (c *Ctx) cliUsed() {
	const rule = "settings reach what they are for"
	f := c.anchor("", "", "main")
	adv := c.anchor("oracle", "*Oracle", "AdvanceStateToNextSlot")
	srv := c.anchor("api", "*ApiService", "StartHTTPServer")
	for _, name := range []string{"everything given", "no checkpoint URL", "dry run", "dry run without checkpoint URL", "defaults", "defaults in a dry run", "a log level that does not exist"} {
		s, n := c.cliScn("started with " + name)
		s.network("mainnet")
		I := s.I
		l := s.fullLine()
		dry := strings.Contains(name, "dry run")
		if dry {
			l = l.with("dry-run", true, "updater-keystore-file", nil, "updater-keystore-pass", nil)
		}
		if strings.Contains(name, "checkpoint") || strings.HasPrefix(name, "defaults") {
			l = l.with("checkpoint-sync-url", nil)
		}
		if strings.HasPrefix(name, "defaults") {
			l = l.with("num-retries", nil, "log-level", nil, "api-port", nil, "metrics-port", nil)
		}
		val := func(k string) string {
			if v, ok := l[k]; ok {
				return v.key()
			}
			return cliDefaults[k].key()
		}
		used := map[string]int{}
		use := func(cl *Call, setting, got string, want ...string) {
			used[setting]++
			ok := false
			for _, w := range want {
				ok = ok || got == w
			}
			c.Check(ok, rule, s.name+": "+setting, cl.pos, "%s is %s, wanted %s", setting, got, want)
		}
		con := n.connects(1, 1)
		for k, a := range con {
			n.ans[k] = a
		}
		n.slot, n.block, n.fork = s.u64("slot"), s.u64("N"), "Deneb"
		pk := &Ptr{I.symObj("privatekey", c.named("crypto/ecdsa", "PrivateKey")), ""}
		S := I.Range("S", 2, nil)
		cfg := s.mk("oracle", "Config", map[string]Val{".DryRun": VBool(dry), ".CheckPointSizeInSlots": S, ".Network": strC("mainnet")})
		s.put(".cfg", cfg)
		s.put(".state.CommitedStates", I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(c.named("oracle", "OnchainState")))))
		s.put(".state.DeployedSlot", numI(1000))
		serving := false
		listens := func(cl *Call, addr Val) {
			k := "metrics-port"
			if serving {
				k = "api-port"
			}
			a, _ := I.res(cl.st, addr).(*Str)
			d, _ := cliDefaults[k].(*Num)
			if v, ok := l[k]; ok {
				d = v.(*Num)
			}
			got := "unknown"
			var want []string
			for _, h := range []string{"", "0.0.0.0", "[::]"} {
				want = append(want, catS(strC(h+":"), I.decS(d)).key())
			}
			if a != nil {
				got = a.key()
			}
			use(cl, k, got, want...)
		}
		s.I.onGo = func(st *State, fv Val, _ string, args []Val, pos string) {
			g, ok := fv.(*FuncV)
			if !ok || c.reaches(g.fn, map[*ssa.Function]bool{}, adv) {
				return
			}
			was := serving
			serving = serving || c.reaches(g.fn, map[*ssa.Function]bool{}, srv)
			I.callFn(st, nil, g, args, pos)
			serving = was
		}
		s.I.onRecv = func(st *State, pos string) bool {
			s.I.ends = append(s.I.ends, End{"script", "waiting", pos, nil, st})
			st.dead = true
			return true
		}
		flags := n.flags(l)
		const or = "(*" + modPath + "/oracle.Oracle)."
		var watch func(cl *Call) (Val, bool)
		if c.start != nil {
			watch = c.start(s)
		}
		n.more = func(cl *Call) (Val, bool) {
			st := cl.st
			if watch != nil {
				if v, ok := watch(cl); ok {
					return v, true
				}
			}
			if v, ok := flags(cl); ok {
				return v, true
			}
			if len(cl.name) > len(modPath) && cl.fn == srv {
				serving = true
				v := I.run(st, srv, cl.args, nil, cl.pos)
				serving = false
				return v, true
			}
			switch cl.name {
			case adv.String():
				s.I.onRecv(st, cl.pos)
				return I.zeroResults(cl.sig), true
			case "os.ReadFile", "io/ioutil.ReadFile":
				use(cl, "updater-keystore-file", n.str(cl, cl.args[0]), val("updater-keystore-file"))
				return tup(strAtom("keyfile"), VNil{}), true
			case gethPkg + "/accounts/keystore.DecryptKey":
				use(cl, "updater-keystore-pass", n.str(cl, cl.args[1]), val("updater-keystore-pass"))
				c.Check(n.str(cl, cl.args[0]) == strAtom("keyfile").key(), rule, s.name+": file decrypted", cl.pos, "what is decrypted is %s, not the keystore file", n.str(cl, cl.args[0]))
				return tup(n.newAt(st, c.named(gethPkg+"/accounts/keystore", "Key"), "key", map[string]Val{".Address": addrBytes("updater"), ".PrivateKey": pk}), VNil{}), true
			case clPkg + "/http.WithAddress":
				use(cl, "consensus-endpoint", n.str(cl, cl.args[0]), val("consensus-endpoint"))
				return &Sym{t: "consensus address", nn: true}, true
			case clPkg + "/http.WithTimeout", clPkg + "/http.WithLogLevel":
				return &Sym{t: "another option", nn: true}, true
			case gethPkg + "/ethclient.Dial", gethPkg + "/ethclient.DialContext":
				use(cl, "execution-endpoint", n.str(cl, cl.args[len(cl.args)-1]), val("execution-endpoint"))
			case clPkg + "/http.New":
				has := false
				for _, o := range I.variadic(st, cl.args[len(cl.args)-1]) {
					if strings.Contains(o.key(), "consensus address") {
						has = true
					}
				}
				c.Check(has, rule, s.name+": consensus client", cl.pos, "the consensus client is made without the address given")
			case modPath + "/contract.NewContract":
				use(cl, "pool-address", n.str(cl, cl.args[0]), addrBytes("pool").key())
			case "github.com/avast/retry-go/v4.Attempts":
				use(cl, "num-retries", n.val(cl, cl.args[0]).key(), val("num-retries"))
			case "github.com/sirupsen/logrus.ParseLevel":
				use(cl, "log-level", n.str(cl, cl.args[0]), val("log-level"))
				if strings.HasPrefix(name, "a log level") {
					return I.failResults(cl.sig, "ParseLevel"), true
				}
				return tup(I.Range("the level", 0, big.NewInt(6)), VNil{}), true
			case "github.com/sirupsen/logrus.SetLevel":
				use(cl, "level set", n.val(cl, cl.args[0]).key(), numAtom("the level").key())
				return &Tuple{}, true
			case "net/http.Get", "(*net/http.Client).Get":
				if u := n.str(cl, cl.args[len(cl.args)-1]); l["checkpoint-sync-url"] == nil {
					c.Fail(rule, s.name+": checkpoint", cl.pos, "%s is fetched although no checkpoint was asked for", u)
				} else {
					use(cl, "checkpoint-sync-url", u, val("checkpoint-sync-url"))
				}
				t := c.named("net/http", "Response")
				return tup(n.newAt(st, t, "http response", map[string]Val{".StatusCode": numI(200), ".Body": &Sym{t: "checkpoint body", nn: true}}), VNil{}), true
			case "io.ReadAll", "io/ioutil.ReadAll":
				return tup(strAtom("checkpoint"), VNil{}), true
			case or + "LoadFromBytes":
				c.Check(n.str(cl, cl.args[1]) == strAtom("checkpoint").key(), rule, s.name+": checkpoint loaded", cl.pos, "the state loaded is %s, not what the checkpoint URL answered", n.str(cl, cl.args[1]))
				return tup(VBool(true), VNil{}), true
			case or + "LoadFromJson":
				used["state file"]++
				return tup(VBool(false), VNil{}), true
			case "os.OpenFile":
				return tup(&Sym{t: "logfile", nn: true}, VNil{}), true
			case "(*" + modPath + "/oracle.Onchain).GetConfigFromContract":
				t := types.NewPointer(c.named("config", "CliConfig"))
				got, err := I.Get(st, I.res(st, cl.args[1]), t, ".PoolAddress")
				c.Check(err == nil && I.res(st, got).key() == l["pool-address"].key(), rule, s.name+": configuration", cl.pos, "the contract's configuration is read with other settings than those given")
				return cfg, true
			case modPath + "/oracle.NewOracle":
				return s.or, true
			case "net/http.ListenAndServe":
				listens(cl, cl.args[0])
				return VNil{}, true
			case "(*net/http.Server).ListenAndServe":
				a, err := I.Get(st, I.res(st, cl.args[0]), types.NewPointer(c.named("net/http", "Server")), ".Addr")
				if err != nil {
					a = strAtom(err.Error())
				}
				listens(cl, a)
				return VNil{}, true
			}
			switch nodeCall(cl.name) {
			case "GetAllOracleMembers":
				at := types.Unalias(cl.sig.Results().At(0).Type()).(*types.Slice).Elem()
				return tup(I.mkSlice(st, at, []Val{addrBytes("updater")}, "members"), VNil{}), true
			case "BalanceAt":
				return tup(I.newBig(st, I.Range("balance", 1, nil), "balance"), VNil{}), true
			case "LastConsolidatedSlot":
				return tup(numI(0), VNil{}), true
			case "RewardsRoot":
				return tup(&Str{parts: []SPart{{atom: "b:root", n: 32}}}, VNil{}), true
			}
			return nil, false
		}
		s.call(f)
		if len(s.I.notes) > 0 {
			s.fail(rule, "undecided: %s", strings.Join(uniqStrs(s.I.notes), "; "))
		}
		if strings.HasPrefix(name, "a log level") {
			c.Check(s.st.dead && used["api-port"] == 0 && used["execution-endpoint"] == 0, rule, s.name+": refused", s.pos(), "the oracle starts with a log level that does not exist")
			continue
		}
		waits := false
		for _, e := range s.I.ends {
			switch e.kind {
			case "script":
				waits = true
			default:
				s.fail(rule, "ends: %s %s at %s", e.kind, e.msg, e.pos)
			}
		}
		c.Check(waits, rule, s.name+": running", s.pos(), "the oracle does not start")
		need := []string{"consensus-endpoint", "execution-endpoint", "pool-address", "num-retries", "log-level", "level set", "api-port", "metrics-port"}
		if !dry {
			need = append(need, "updater-keystore-file", "updater-keystore-pass")
		} else {
			c.Check(used["updater-keystore-file"]+used["updater-keystore-pass"] == 0, rule, s.name+": no key", s.pos(), "a key is read in a dry run")
		}
		if l["checkpoint-sync-url"] != nil {
			need = append(need, "checkpoint-sync-url")
			c.Check(used["state file"] == 0, rule, s.name+": state", s.pos(), "the state file is loaded although a checkpoint was asked for")
		} else {
			need = append(need, "state file")
		}
		for _, k := range need {
			c.Check(used[k] > 0, rule, s.name+": "+k+" used", s.pos(), "%s is not used", k)
		}
	}
	c.Min(rule, 80)
}
