package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "C47", title: "the pool contract is addressed by its own interface", minOblig: 250, run: runC47,
		explain: "every method of the generated bindings that the rest of the module calls is interpreted, with the library below it (BoundContract, abi.ConvertType, log decoding, log subscription) modelled by its documented meaning: a reading method must ask the contract for the function it is named for, with its arguments in order and with the options given, and hand back each output in its place, or the error; a sending method likewise; an event iterator must ask for the event it is named for, and its steps are interpreted against scripted logs (one after another, all there before the end, an error, an undecodable log) and must hand over each log once, in order, decoded field by field and with its raw log, and stop with the error if there was one. Decoding follows the library's rules for placing the fields of an event, applied to the ABI text in the source. That text must hold the functions and events of the deployed contract that are used, with their types in order, and NewContract must bind it to the address and node it is given.",
		assume:  []string{"go-ethereum's BoundContract, ABI coder and log subscription do what they document; the signatures of the deployed contract are those of contract/abi.abi at the pinned commit, repeated in the rule."}})
}

// the used part of the deployed contract's interface: these texts decide selectors and topics
var poolInterface = map[string][2]string{
	"EtherReceived":                {"address sender,uint256 donationAmount", ""},
	"SubscribeValidator":           {"address sender,uint256 subscriptionCollateral,uint64 validatorID", ""},
	"UnsubscribeValidator":         {"address sender,uint64 validatorID", ""},
	"BanValidator":                 {"uint64 validatorID", ""},
	"UnbanValidator":               {"uint64 validatorID", ""},
	"UpdatePoolFee":                {"uint256 newPoolFee", ""},
	"UpdatePoolFeeRecipient":       {"address newPoolFeeRecipient", ""},
	"UpdateCheckpointSlotSize":     {"uint64 newCheckpointSlotSize", ""},
	"UpdateSubscriptionCollateral": {"uint256 newSubscriptionCollateral", ""},
	"InitSmoothingPool":            {"uint64 initialSmoothingPoolSlot", ""},
	"UpdateQuorum":                 {"uint64 newQuorum", ""},
	"AddOracleMember":              {"address newOracleMember", ""},
	"RemoveOracleMember":           {"address oracleMemberRemoved", ""},
	"SetRewardRecipient":           {"address withdrawalAddress,address poolRecipient", ""},
	"ClaimRewards":                 {"address withdrawalAddress,address rewardAddress,uint256 claimableBalance", ""},
	"SubmitReport":                 {"uint256 slotNumber,bytes32 newRewardsRoot,address oracleMember", ""},
	"ReportConsolidated":           {"uint256 slotNumber,bytes32 newRewardsRoot", ""},
	"TransferGovernance":           {"address newPendingGovernance", ""},
	"AcceptGovernance":             {"address newGovernance", ""},

	"addressToVotedReportHash": {"address", "bytes32"},
	"checkpointSlotSize":       {"", "uint64"},
	"claimedBalance":           {"address", "uint256"},
	"deploymentBlockNumber":    {"", "uint256"},
	"getAllOracleMembers":      {"", "address[]"},
	"lastConsolidatedSlot":     {"", "uint64"},
	"poolFee":                  {"", "uint256"},
	"poolFeeRecipient":         {"", "address"},
	"quorum":                   {"", "uint64"},
	"reportHashToReport":       {"bytes32", "uint64 slot,uint64 votes"},
	"rewardsRoot":              {"", "bytes32"},
	"rewardRecipient":          {"address", "address"},
	"subscriptionCollateral":   {"", "uint256"},
	"submitReport":             {"uint64 slotNumber,bytes32 proposedRewardsRoot", ""},
	"initialize":               {"address _governance,uint256 _subscriptionCollateral,uint256 _poolFee,address _poolFeeRecipient,uint64 _checkpointSlotSize,uint64 _quorum", ""},
}

type abiArg struct {
	Name    string `json:"name"`
	Type    string `json:"type"`
	Indexed bool   `json:"indexed"`
}
type abiEntry struct {
	Type      string   `json:"type"`
	Name      string   `json:"name"`
	Inputs    []abiArg `json:"inputs"`
	Outputs   []abiArg `json:"outputs"`
	Anonymous bool     `json:"anonymous"`
}

func camel(s string) string {
	ps := strings.Split(s, "_")
	for i, p := range ps {
		if p != "" {
			ps[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(ps, "")
}

// goName of the Go type the library decodes an ABI type to
func goName(t string) string {
	switch t {
	case "uint64", "uint32", "uint16", "uint8", "bool", "string":
		return t
	case "uint256", "uint128":
		return "*math/big.Int"
	case "address":
		return gethPkg + "/common.Address"
	case "address[]":
		return "[]" + gethPkg + "/common.Address"
	case "bytes32":
		return "[32]uint8"
	}
	return "?" + t
}

func tname(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := under(t).(*types.Array); ok {
		if _, isN := t.(*types.Named); !isN {
			return fmt.Sprintf("[%d]%s", b.Len(), tname(b.Elem()))
		}
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "uint8"
	}
	return types.TypeString(t, nil)
}

type binding struct {
	c       *Ctx
	entries map[string]*abiEntry // functions and events by name
}

func runC47(c *Ctx) {
	b := &binding{c: c, entries: map[string]*abiEntry{}}
	text, pos := b.bound()
	if text == "" {
		return
	}
	used := c.usedBindings()
	need := map[string]bool{"initialize": true} // the pool fee is read from the arguments of initialize
	for _, f := range used {
		need[strings.TrimPrefix(strings.TrimPrefix(f.Name(), "Filter"), "Parse")] = true
	}
	b.iface(text, pos, need)
	nm := map[string]bool{}
	for _, f := range used {
		recv := ""
		if f.Signature.Recv() != nil {
			recv = typeName(f.Signature.Recv().Type())
		}
		switch {
		case strings.HasSuffix(recv, "Iterator"):
			nm[recv] = true
		case strings.HasPrefix(f.Name(), "Filter"):
			b.events(f)
		case strings.HasPrefix(f.Name(), "Parse") && strings.HasSuffix(recv, "Filterer"):
			b.parse(f)
		case recv == "" || strings.HasSuffix(recv, "Raw"), strings.HasPrefix(f.Name(), "Watch"):
		default:
			b.method(f)
		}
	}
	c.Min(bindCall, 20)
	c.Min(bindEvent, 60)
	c.Min(bindIface, 30)
}

const (
	bindIface = "the ABI is the deployed contract's"
	bindTo    = "the contract is bound where it was asked for"
	bindCall  = "a method asks for the function it is named for"
	bindEvent = "every log of its event is handed over, decoded"
)

func typeName(t types.Type) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// usedBindings are the functions of the contract package called from the rest of the module
func (c *Ctx) usedBindings() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if fnPkg(f) == modPath+"/contract" {
			continue
		}
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				var ops [12]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if g.Synthetic != "" && g.Object() != nil {
						if fo, ok := g.Object().(*types.Func); ok {
							if d := c.P.SSA.FuncValue(fo); d != nil {
								g = d
							}
						}
					}
					if fnPkg(g) == modPath+"/contract" && g.Blocks != nil && !seen[g] {
						seen[g] = true
						out = append(out, g)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// scenario that interprets the bindings themselves
func (b *binding) scn(name string, hook func(cl *Call, m string) (Val, bool)) *Scn {
	s := b.c.scn(name)
	I := s.I
	I.bindings = true
	I.hook = func(cl *Call) (Val, bool) {
		if strings.HasPrefix(cl.name, modPath) || strings.HasPrefix(cl.name, "(*"+modPath) || strings.HasPrefix(cl.name, "("+modPath) {
			return nil, false
		}
		m := cl.name[strings.LastIndex(cl.name, ".")+1:]
		if cl.name == "strings.NewReader" || cl.name == "bytes.NewReader" || cl.name == "bytes.NewBufferString" {
			return hook(cl, m)
		}
		if strings.HasPrefix(cl.name, gethPkg) || strings.HasPrefix(cl.name, "(*"+gethPkg) || strings.HasPrefix(cl.name, "("+gethPkg) {
			if v, ok := hook(cl, m); ok {
				return v, true
			}
			if m == "ConvertType" {
				return b.convert(s, cl), true
			}
		}
		return nil, false
	}
	return s
}

// convert models abi.ConvertType: the value, as the type of the prototype
func (b *binding) convert(s *Scn, cl *Call) Val {
	in, ok := s.I.res(cl.st, cl.args[0]).(*Iface)
	pr, ok2 := s.I.res(cl.st, cl.args[1]).(*Iface)
	if !ok || !ok2 {
		panic(undecided("conversion of unknown values at " + cl.pos))
	}
	pt, ok := types.Unalias(pr.t).(*types.Pointer)
	if !ok || tname(pt.Elem()) != tname(in.t) {
		s.I.panicNow(cl.st, "abi: cannot convert "+tname(in.t)+" to "+tname(pr.t), cl.pos)
		return VNil{}
	}
	s.I.store(cl.st, pr.v, pt.Elem(), in.v, cl.pos)
	return pr
}

// bound: what NewContract binds; gives the ABI text
func (b *binding) bound() (string, string) {
	c := b.c
	f := c.P.Fn("contract", "", "NewContract")
	if f == nil {
		c.Fail(bindTo, "NewContract", "-", "not found")
		return "", ""
	}
	pos := c.P.pos(f.Pos())
	text := ""
	type made struct {
		addr, abiArg string
		backs        []string
	}
	for _, abiErr := range []bool{false, true} {
		name := "binding the contract"
		bound := map[string]made{}
		readers := map[string]Val{}
		if abiErr {
			name += ", the ABI not parsable"
		}
		var s *Scn
		s = b.scn(name, func(cl *Call, m string) (Val, bool) {
			switch m {
			case "NewReader", "NewBufferString":
				if _, ok := s.I.res(cl.st, cl.args[0]).(*Str); !ok {
					return nil, false
				}
				r := &Sym{t: fmt.Sprintf("reader%d", len(readers)), nn: true}
				readers[r.key()] = cl.args[0]
				return r, true
			case "GetAbi", "ParseABI", "JSON":
				var v Val
				if m == "JSON" {
					r := s.I.res(cl.st, cl.args[0])
					if i, ok := r.(*Iface); ok {
						r = s.I.res(cl.st, i.v)
					}
					if v = readers[r.key()]; v == nil {
						panic(undecided("ABI parsed from " + r.key()))
					}
				} else {
					var err error
					if v, err = s.I.Get(cl.st, cl.args[0], cl.sig.Recv().Type(), ".ABI"); err != nil {
						panic(undecided("ABI text: " + err.Error()))
					}
				}
				t, ok := s.I.res(cl.st, v).(*Str)
				k := ""
				if ok {
					k, ok = t.konst()
				}
				if !ok {
					panic(undecided("the ABI text is not constant"))
				}
				text = k
				if abiErr {
					return tup(s.I.zero(cl.sig.Results().At(0).Type()), &Sym{t: "abi error", err: true, nn: true}), true
				}
				rt := types.Unalias(cl.sig.Results().At(0).Type())
				return tup(s.I.symVal("parsedABI", rt), VNil{}), true
			case "NewBoundContract":
				m := made{addr: cl.args[0].key(), abiArg: cl.args[1].key()}
				for _, a := range cl.args[2:] {
					m.backs = append(m.backs, s.I.res(cl.st, a).key())
				}
				v := s.I.symVal(fmt.Sprintf("boundContract%d", len(bound)), cl.sig.Results().At(0).Type())
				bound[v.key()] = m
				return v, true
			}
			return nil, false
		})
		ct := c.P.ByPth[modPath+"/contract"]
		for _, m := range ct.Members {
			if g, ok := m.(*ssa.Global); ok {
				s.I.storeLoc(s.st, s.I.globalObj(g), "", deref(g.Type()), s.I.zero(deref(g.Type())))
			}
		}
		s.I.hookless(func() { s.I.run(s.st, ct.Func("init"), nil, nil, "init") })
		s.st.dead = false
		a := s.I.symVal("address", f.Signature.Params().At(0).Type())
		be := &Sym{t: "backend", nn: true}
		s.call(f, a, be)
		if !s.clean(bindTo) {
			return "", ""
		}
		nonNil, isNil := s.lastErr()
		if abiErr {
			c.Check(nonNil, bindTo, name, pos, "no error")
			continue
		}
		if !c.Check(isNil, bindTo, name, pos, "reports an error") {
			return "", ""
		}
		for i, p := range []string{".ContractCaller.contract", ".ContractTransactor.contract", ".ContractFilterer.contract"} {
			v, err := s.I.Get(s.st, s.retAt(0), f.Signature.Results().At(0).Type(), p)
			m, ok := made{}, false
			if err == nil {
				m, ok = bound[s.I.res(s.st, v).key()]
			}
			if !c.Check(ok, bindTo, name+": "+p[1:], pos, "%s, not a bound contract", showV(v, err)) {
				continue
			}
			c.Check(m.addr == a.key(), bindTo, name+": "+p[1:]+": address", pos, "bound to %s, not to the address given", m.addr)
			c.Check(strings.Contains(m.abiArg, "parsedABI"), bindTo, name+": "+p[1:]+": interface", pos, "bound with %s, not with the parsed ABI", trunc(m.abiArg, 100))
			c.Check(len(m.backs) == 3 && m.backs[i] == "backend", bindTo, name+": "+p[1:]+": node", pos, "talks to %v, not to the node given", m.backs)
		}
	}
	return text, pos
}

// iface: the ABI text holds what is used, as deployed
func (b *binding) iface(text, pos string, need map[string]bool) {
	c := b.c
	var es []*abiEntry
	if err := json.Unmarshal([]byte(text), &es); err != nil {
		c.Fail(bindIface, "ABI text", pos, "not parsable: %v", err)
		return
	}
	dup := map[string]int{}
	for _, e := range es {
		if e.Type == "event" || e.Type == "function" {
			dup[e.Type+e.Name]++
			if b.entries[e.Name] == nil {
				b.entries[e.Name] = e
			}
		}
	}
	list := func(as []abiArg) string {
		var r []string
		for _, a := range as {
			x := strings.TrimSpace(a.Type + " " + a.Name)
			if a.Indexed {
				x = "indexed " + x
			}
			r = append(r, x)
		}
		return strings.Join(r, ",")
	}
	for _, k := range sortedKeys(poolInterface) {
		e := b.entries[k]
		w := poolInterface[k]
		if !need[camel(k)] && !need[k] {
			continue
		}
		kind := "function"
		if strings.ToUpper(k[:1]) == k[:1] {
			kind = "event"
		}
		if !c.Check(e != nil && e.Type == kind, bindIface, kind+" "+k, pos, "not in the ABI") {
			continue
		}
		c.Check(!e.Anonymous && dup[kind+k] == 1, bindIface, kind+" "+k+" is one", pos, "anonymous or several")
		c.Check(list(e.Inputs) == w[0], bindIface, kind+" "+k+": inputs", pos, "(%s), deployed is (%s)", list(e.Inputs), w[0])
		if kind == "function" {
			c.Check(list(e.Outputs) == w[1], bindIface, kind+" "+k+": outputs", pos, "(%s), deployed is (%s)", list(e.Outputs), w[1])
		}
	}
}

// entry of the ABI a Go method is named for
func (b *binding) entry(kind, goN string) *abiEntry {
	for _, k := range sortedKeys(b.entries) {
		if e := b.entries[k]; e.Type == kind && camel(e.Name) == goN {
			return e
		}
	}
	return nil
}

// method: a reading or sending method
func (b *binding) method(f *ssa.Function) {
	c := b.c
	pos := c.P.pos(f.Pos())
	who := shortName(f)
	e := b.entry("function", f.Name())
	if !c.Check(e != nil, bindCall, who, pos, "no function of the ABI is named so") {
		return
	}
	for _, fail := range []bool{false, true} {
		name := who
		if fail {
			name += ", the call failing"
		}
		n := 0
		var asked, opts string
		var got []string
		sent := false
		var s *Scn
		s = b.scn(name, func(cl *Call, m string) (Val, bool) {
			if !strings.Contains(cl.name, "BoundContract)") {
				return nil, false
			}
			var params Val
			switch m {
			case "Call":
				n++
				opts = s.I.res(cl.st, cl.args[1]).key()
				asked = s.I.res(cl.st, cl.args[3]).key()
				params = cl.args[4]
			case "Transact":
				n++
				sent = true
				opts = s.I.res(cl.st, cl.args[1]).key()
				asked = s.I.res(cl.st, cl.args[2]).key()
				params = cl.args[3]
			default:
				panic(undecided("a binding using " + cl.name + " at " + cl.pos))
			}
			got = nil
			if v := s.I.res(cl.st, params); !isNilV(v) {
				sl := cl.sig.Params().At(cl.sig.Params().Len() - 1).Type().(*types.Slice)
				es, ok := s.I.elems(cl.st, v, sl.Elem())
				if !ok {
					panic(undecided("arguments of unknown number at " + cl.pos))
				}
				for _, x := range es {
					x = s.I.res(cl.st, x)
					if i, ok := x.(*Iface); ok {
						x = s.I.res(cl.st, i.v)
					}
					got = append(got, x.key())
				}
			}
			if m == "Transact" {
				if fail {
					return tup(VNil{}, &Sym{t: "send error", err: true, nn: true}), true
				}
				return tup(&Sym{t: "transaction", nn: true}, VNil{}), true
			}
			if fail {
				return &Sym{t: "call error", err: true, nn: true}, true
			}
			var outs []Val
			for i, o := range e.Outputs {
				t := b.goType(o.Type)
				outs = append(outs, &Iface{t, s.I.symVal(fmt.Sprintf("output%d", i), t)})
			}
			st := cl.sig.Params().At(1).Type().(*types.Pointer).Elem()
			s.I.store(cl.st, s.I.res(cl.st, cl.args[2]), st, s.I.mkSlice(cl.st, st.(*types.Slice).Elem(), outs, "outputs"), cl.pos)
			return VNil{}, true
		})
		var args []Val
		sig := f.Signature
		args = append(args, s.I.symVal("binding", sig.Recv().Type()))
		var want []string
		wantOpts := ""
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v := s.I.symVal(fmt.Sprintf("arg%d", i), p.Type())
			args = append(args, v)
			if i == 0 && strings.HasSuffix(tname(p.Type()), "Opts") {
				wantOpts = v.key()
				continue
			}
			want = append(want, v.key())
			k := len(want) - 1
			c.Check(k < len(e.Inputs) && goName(e.Inputs[k].Type) == tname(p.Type()), bindCall, name+": type of argument "+fmt.Sprint(k), pos, "%s", tname(p.Type()))
		}
		s.call(f, args...)
		if !s.clean(bindCall) {
			continue
		}
		c.Check(n == 1, bindCall, name+": one call", pos, "%d calls", n)
		c.Check(asked == q(e.Name), bindCall, name+": function", pos, "asks the contract for %s, not for %s", asked, q(e.Name))
		c.Check(strings.Join(got, ", ") == strings.Join(want, ", "), bindCall, name+": arguments", pos, "passes (%s), not (%s)", strings.Join(got, ", "), strings.Join(want, ", "))
		if wantOpts != "" {
			c.Check(opts == wantOpts, bindCall, name+": options", pos, "calls with %s, not with the options given", opts)
		}
		nonNil, isNil := s.lastErr()
		if fail {
			c.Check(nonNil, bindCall, name+": error", pos, "the failure is not reported")
			continue
		}
		c.Check(isNil, bindCall, name+": no error", pos, "an error is reported")
		if sent {
			c.Check(s.retAt(0).key() == "transaction", bindCall, name+": transaction", pos, "hands back %s", s.retAt(0).key())
			continue
		}
		rt := sig.Results().At(0).Type()
		if len(e.Outputs) == 1 {
			c.Check(s.retAt(0).key() == s.I.symVal("output0", b.goType(e.Outputs[0].Type)).key(), bindCall, name+": output", pos, "hands back %s", s.retAt(0).key())
			continue
		}
		st, ok := under(rt).(*types.Struct)
		if !c.Check(ok && st.NumFields() == len(e.Outputs), bindCall, name+": outputs", pos, "hands back %s", rt) {
			continue
		}
		for i, o := range e.Outputs {
			v, err := s.I.Get(s.st, s.retAt(0), rt, "."+camel(o.Name))
			w := s.I.symVal(fmt.Sprintf("output%d", i), b.goType(o.Type)).key()
			c.Check(err == nil && s.I.res(s.st, v).key() == w, bindCall, name+": output "+o.Name, pos, "%s, not output %d", showV(v, err), i)
		}
	}
}

func (b *binding) goType(t string) types.Type {
	byName := func(pkg, n string) types.Type {
		p := b.c.P.Types[pkg]
		if p == nil || p.Scope().Lookup(n) == nil {
			panic(undecided(pkg + "." + n + " not found"))
		}
		return p.Scope().Lookup(n).Type()
	}
	switch t {
	case "uint64":
		return types.Typ[types.Uint64]
	case "uint8":
		return types.Typ[types.Uint8]
	case "bool":
		return types.Typ[types.Bool]
	case "uint256":
		return types.NewPointer(byName("math/big", "Int"))
	case "address":
		return byName(gethPkg+"/common", "Address")
	case "address[]":
		return types.NewSlice(byName(gethPkg+"/common", "Address"))
	case "bytes32":
		return types.NewArray(types.Typ[types.Uint8], 32)
	}
	panic(undecided("ABI type " + t))
}

// place of an event's inputs in the struct it is decoded into, by the library's rules
func (b *binding) places(e *abiEntry, t types.Type) (map[string]string, string) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil, "not a struct"
	}
	field := map[string]types.Type{}
	out := map[string]string{}
	var plain []abiArg
	for _, a := range e.Inputs {
		if a.Indexed {
			return nil, "indexed input " + a.Name
		}
		plain = append(plain, a)
	}
	tag := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		field[st.Field(i).Name()] = st.Field(i).Type()
		if v, ok := reflect.StructTag(st.Tag(i)).Lookup("abi"); ok {
			tag[v] = st.Field(i).Name()
		}
	}
	if len(e.Inputs) == 1 {
		out[e.Inputs[0].Name] = st.Field(0).Name()
	} else {
		for _, a := range plain {
			if n, ok := tag[a.Name]; ok {
				out[a.Name] = n
			} else {
				out[a.Name] = camel(a.Name)
			}
		}
	}
	for _, a := range plain {
		ft, ok := field[out[a.Name]]
		if !ok {
			return nil, "no field " + out[a.Name] + " for " + a.Name
		}
		if tname(ft) != goName(a.Type) {
			return nil, "field " + out[a.Name] + " is " + tname(ft) + ", not " + goName(a.Type)
		}
	}
	return out, ""
}

// script of what the node delivers: the choices of the receiver, in order
type evScript struct {
	name  string
	steps []string // "log": next log; "end": the subscription ended; "err": with an error; "none": nothing there
	bad   int      // this log cannot be decoded (1-based)
	mism  bool     // it is of another event
}

// events: a Filter method and its iterator
func (b *binding) events(f *ssa.Function) {
	c := b.c
	pos := c.P.pos(f.Pos())
	evn := strings.TrimPrefix(f.Name(), "Filter")
	who := shortName(f)
	e := b.entry("event", evn)
	if !c.Check(e != nil, bindEvent, who, pos, "no event of the ABI is named so") {
		return
	}
	scripts := []evScript{
		{name: "no log", steps: []string{"end", "none"}},
		{name: "an error at once", steps: []string{"err"}},
		{name: "three logs, then the end", steps: []string{"log", "log", "log", "end", "none"}},
		{name: "the end noticed before the logs", steps: []string{"end", "log", "log", "none"}},
		{name: "the end noticed between the logs", steps: []string{"log", "end", "log", "none"}},
		{name: "an error after a log", steps: []string{"log", "err"}},
		{name: "an undecodable log", steps: []string{"log", "log"}, bad: 2},
		{name: "an undecodable log after the end", steps: []string{"end", "log"}, bad: 1},
	}
	for _, k := range scripts {
		name := who + ": " + k.name
		step, logn := 0, 0
		event := ""
		optsKey := ""
		place := ""
		s := b.scn(name, nil)
		I := s.I
		res := func(st *State, v Val) Val { return I.res(st, v) }
		hook := I.hook
		I.hook = func(cl *Call) (Val, bool) {
			m := cl.name[strings.LastIndex(cl.name, ".")+1:]
			switch {
			case strings.Contains(cl.name, "BoundContract)") && m == "FilterLogs":
				optsKey = res(cl.st, cl.args[1]).key()
				event = res(cl.st, cl.args[2]).key()
				if k.name == "no log" {
					if v := res(cl.st, cl.args[3]); !isNilV(v) {
						if es, ok := I.elems(cl.st, v, types.NewSlice(types.NewInterfaceType(nil, nil))); !ok || len(es) > 0 {
							c.Fail(bindEvent, name+": query", pos, "the logs are filtered by more than the event")
						}
					}
				}
				return tup(&Sym{t: "logs", nn: true}, &Sym{t: "subscription", nn: true}, VNil{}), true
			case strings.Contains(cl.name, "BoundContract)") && m == "UnpackLog":
				if ev := res(cl.st, cl.args[2]).key(); ev != q(e.Name) {
					c.Fail(bindEvent, name+": decoded as", pos, "a log is decoded as %s, not as %s", ev, q(e.Name))
				}
				if k.bad == logn {
					return &Sym{t: "decoding error", err: true, nn: true}, true
				}
				out, ok := res(cl.st, cl.args[1]).(*Iface)
				if !ok {
					panic(undecided("decoded into an unknown value at " + cl.pos))
				}
				pt, ok := types.Unalias(out.t).(*types.Pointer)
				if !ok {
					panic(undecided("decoded into a non-pointer at " + cl.pos))
				}
				pl, why := b.places(e, pt.Elem())
				if why != "" {
					place = why
					return &Sym{t: "decoding error", err: true, nn: true}, true
				}
				for _, a := range e.Inputs {
					I.Put(cl.st, out.v, pt, "."+pl[a.Name], I.symVal(fmt.Sprintf("log%d.%s", b.logOf(s, cl.args[3]), a.Name), b.goType(a.Type)))
				}
				return VNil{}, true
			case m == "Err" && strings.Contains(cl.name, "ubscription)"):
				return &Sym{t: "ended", nn: true}, true
			case m == "Unsubscribe":
				return &Tuple{}, true
			}
			if strings.HasPrefix(cl.name, modPath) || strings.HasPrefix(cl.name, "(*"+modPath) {
				return nil, false
			}
			_ = hook
			return nil, false
		}
		var logT types.Type
		I.onRecvV = func(st *State, chs []Val, p string) (int, Val, bool) {
			if step >= len(k.steps) {
				panic(undecided("more is received than was sent at " + p))
			}
			at := map[string]int{}
			for i, ch := range chs {
				at[res(st, ch).key()] = i
			}
			w := k.steps[step]
			ch := map[string]string{"log": "logs", "end": "ended", "err": "ended"}[w]
			if w == "none" {
				if _, ok := at["ended"]; ok {
					// only a step that does not wait may be told that nothing is there: the end is noticed again
					return at["ended"], VNil{}, true
				}
				step++
				return -1, nil, true
			}
			i, ok := at[ch]
			if !ok {
				panic(undecided("nothing waits for " + w + " at " + p))
			}
			step++
			switch w {
			case "log":
				logn++
				return i, I.symVal(fmt.Sprintf("rawlog%d", logn), logT), true
			case "err":
				return i, &Sym{t: "subscription error", err: true, nn: true}, true
			}
			return i, VNil{}, true
		}
		logT = b.logType()
		recv := I.symVal("binding", f.Signature.Recv().Type())
		opts := I.symVal("options", f.Signature.Params().At(0).Type())
		args := []Val{recv, opts}
		for i := 1; i < f.Signature.Params().Len(); i++ {
			args = append(args, VNil{})
		}
		s.call(f, args...)
		if !s.clean(bindEvent) {
			continue
		}
		_, isNil := s.lastErr()
		if !c.Check(isNil, bindEvent, name+": opened", pos, "an error is reported") {
			continue
		}
		if k.name == "no log" {
			c.Check(event == q(e.Name), bindEvent, who+": event", pos, "asks for %s, not for %s", event, q(e.Name))
			c.Check(optsKey == opts.key(), bindEvent, who+": range", pos, "asks with %s, not with the range given", optsKey)
		}
		it := s.retAt(0)
		itT := f.Signature.Results().At(0).Type()
		tn := typeName(itT)
		next := c.P.Fn("contract", "*"+tn, "Next")
		errF := c.P.Fn("contract", "*"+tn, "Error")
		if next == nil || errF == nil {
			c.Fail(bindEvent, name, pos, "no Next or Error of %s", tn)
			continue
		}
		npos := c.P.pos(next.Pos())
		total := 0
		for _, w := range k.steps {
			if w == "log" {
				total++
			}
		}
		good := total
		if k.bad > 0 {
			good--
		}
		bad := k.bad > 0 || strings.Contains(strings.Join(k.steps, " "), "err")
		ok := true
		var kept []Val // the events handed over so far
		var evT types.Type
		for i := 1; i <= good && ok; i++ {
			place = ""
			s.call(next, it)
			if ok = s.clean(bindEvent); !ok {
				break
			}
			if place != "" {
				ok = c.Check(false, bindEvent, name+": fields", npos, "log %d: %s", i, place)
				break
			}
			if ok = c.Check(s.ret.key() == "true", bindEvent, fmt.Sprintf("%s: log %d", name, i), npos, "the log is not handed over (%s)", s.ret.key()); !ok {
				break
			}
			for _, a := range e.Inputs {
				v, err := I.Get(s.st, it, itT, ".Event."+camel(a.Name))
				w := I.symVal(fmt.Sprintf("log%d.%s", i, a.Name), b.goType(a.Type))
				if err == nil {
					v = I.res(s.st, v)
					if _, isN := v.(*Num); isN && isBigPtr(b.goType(a.Type)) {
						w = I.bigOf(s.st, w, "want")
					}
				}
				ok = c.Check(err == nil && v.key() == w.key(), bindEvent, fmt.Sprintf("%s: log %d, %s", name, i, a.Name), npos, "%s, not %s of log %d", showV(v, err), a.Name, i) && ok
			}
			if l, err := I.walk(s.st, it, itT, ".Event"); err == nil {
				kept, evT = append(kept, I.get(s.st, l)), l.t
			}
			raw, err := I.Get(s.st, it, itT, ".Event.Raw")
			w := I.symVal(fmt.Sprintf("rawlog%d", i), logT)
			ok = c.Check(err == nil && I.res(s.st, raw).key() == w.key(), bindEvent, fmt.Sprintf("%s: log %d, raw log", name, i), npos, "the raw log is %s", showV(raw, err)) && ok
		}
		for i, p := range kept {
			raw, err := I.Get(s.st, p, evT, ".Raw")
			w := I.symVal(fmt.Sprintf("rawlog%d", i+1), logT)
			ok = c.Check(err == nil && I.res(s.st, raw).key() == w.key(), bindEvent, fmt.Sprintf("%s: event %d is kept", name, i+1), npos, "the event handed over for log %d is overwritten by the next", i+1) && ok
		}
		if !ok {
			continue
		}
		// asking again stays at the end
		for i := 0; i < 2 && ok; i++ {
			s.call(next, it)
			if ok = s.clean(bindEvent); !ok {
				break
			}
			ok = c.Check(s.ret.key() == "false", bindEvent, name+": end", npos, "a log is handed over that is not there")
			if step == len(k.steps) && k.steps[len(k.steps)-1] == "none" {
				step--
			}
		}
		if !ok {
			continue
		}
		s.call(errF, it)
		if !s.clean(bindEvent) {
			continue
		}
		nonNil, isNil := s.lastErr()
		c.Check(nonNil == bad && isNil == !bad, bindEvent, name+": error", npos, "the iteration ends with error %s", s.ret.key())
	}
}

func isBigPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isBig(p.Elem())
}

func (b *binding) logType() types.Type {
	p := b.c.P.Types[gethPkg+"/core/types"]
	if p == nil || p.Scope().Lookup("Log") == nil {
		panic(undecided("types.Log not found"))
	}
	return p.Scope().Lookup("Log").Type()
}

// logOf: which of the scripted logs a raw log is
func (b *binding) logOf(s *Scn, v Val) int {
	k := s.I.res(s.st, v).key()
	for i := 1; i < 9; i++ {
		if k == s.I.symVal(fmt.Sprintf("rawlog%d", i), b.logType()).key() {
			return i
		}
	}
	return 0
}

// parse: decoding one log
func (b *binding) parse(f *ssa.Function) {
	c := b.c
	pos := c.P.pos(f.Pos())
	who := shortName(f)
	e := b.entry("event", strings.TrimPrefix(f.Name(), "Parse"))
	if !c.Check(e != nil, bindEvent, who, pos, "no event of the ABI is named so") {
		return
	}
	asked := ""
	var s *Scn
	s = b.scn(who, func(cl *Call, m string) (Val, bool) {
		if m == "UnpackLog" {
			asked = s.I.res(cl.st, cl.args[2]).key()
			return VNil{}, true
		}
		return nil, false
	})
	s.call(f, s.I.symVal("binding", f.Signature.Recv().Type()), s.I.symVal("rawlog1", b.logType()))
	if s.clean(bindEvent) {
		c.Check(asked == q(e.Name), bindEvent, who+": event", pos, "decoded as %s", asked)
	}
}

func showV(v Val, err error) string {
	if err != nil {
		return err.Error()
	}
	return trunc(v.key(), 120)
}
