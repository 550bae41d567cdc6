package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{id: "C39", title: "the pool configuration comes from the chain it runs on",
		explain: "GetConfigFromContract is interpreted against nodes and a contract whose answers are unknown quantities named by what was asked: every field of the resulting configuration must be the demanded answer. Every call fails in turn, chain ids and deployment blocks disagree, chains are unknown: the process must stop. decodeInitialPoolFee is interpreted over deployment blocks of each composition. NewOracle is interpreted on an unknown configuration.",
		run:     runC39, minOblig: 60})
}

type confCase struct {
	cl, el  int64 // chain ids
	blk     string
	fee     string // "decoded", "undecodable"
	fail    string
	dry     bool
	pending bool
}

var chainNames = map[int64]string{1: "mainnet", 5: "goerli", 17000: "holesky", 560048: "hoodi"}

// bigRet answers with a *big.Int
func (n *node) bigRet(c *Call, x *Num) Val { return tup(n.s.I.newBig(c.st, x, "answer"), VNil{}) }

func (c *Ctx) confScn(k confCase) (*Scn, *node) {
	s := c.scn(fmt.Sprintf("chain %d and %d, deployment block %s, initial fee %s, dry run %v%s", k.cl, k.el, k.blk, k.fee, k.dry, k.fail))
	s.freshGlobals()
	n := s.node()
	I := s.I
	I.Uniq("fees", "b:fees", "m1", "b:m1")
	ds := I.Range("ds", 1<<20, big.NewInt(1<<40))
	D := I.Range("D", 1<<10, big.NewInt(1<<60))
	G := I.Range("genesis", 1<<30, big.NewInt(1<<40))
	n.slot, n.pslot, n.block, n.fork = ds, ds, D, "Capella"
	n.fee = addrBytes("m1")
	if k.blk == "missed" {
		n.fork = ""
	}
	if k.blk == "of another number" {
		n.block = I.Range("E", 1, big.NewInt(1<<60))
		s.sign(nSub(numAtom("E"), D), mPos|mNeg)
	}
	latest := func(c *Call) string {
		at := n.at(c, 1)
		if at == "latest" {
			return ""
		}
		return "@" + at
	}
	n.ans["ChainID"] = func(c *Call) Val { return n.bigRet(c, numI(k.el)) }
	n.ans["DepositContract"] = func(c *Call) Val {
		return n.response(c, func(p *Ptr, t types.Type) {
			dt := s.c.named(v1pkg, "DepositContract")
			I.Put(c.st, p, t, ".Data", n.newAt(c.st, dt, "deposit contract", map[string]Val{".ChainID": numI(k.cl)}))
		})
	}
	n.ans["Genesis"] = func(c *Call) Val {
		return n.response(c, func(p *Ptr, t types.Type) {
			gt := s.c.named(v1pkg, "Genesis")
			I.Put(c.st, p, t, ".Data", n.newAt(c.st, gt, "genesis", map[string]Val{".GenesisTime": &Sym{t: "genesistime", nn: true}}))
		})
	}
	n.ans["DeploymentBlockNumber"] = func(c *Call) Val { return n.bigRet(c, D) }
	n.ans["SubscriptionCollateral"] = func(c *Call) Val { return n.bigRet(c, s.nonneg("collateral"+latest(c))) }
	n.ans["CheckpointSlotSize"] = func(c *Call) Val { return tup(I.Range("checkpointsize"+latest(c), 1, maxU64), VNil{}) }
	n.ans["PoolFeeRecipient"] = func(c *Call) Val { return tup(addrBytes("fees"+latest(c)), VNil{}) }
	n.ans["PoolFee"] = func(c *Call) Val { return n.bigRet(c, s.nonneg("currentfee")) }
	n.ans["Quorum"] = func(c *Call) Val { return tup(s.u64("quorum"), VNil{}) }
	n.ans["BlockByNumber"] = func(c *Call) Val {
		q := n.numKey(c, c.args[2])
		bt := s.c.named(gethPkg+"/core/types", "Block")
		p := n.newAt(c.st, bt, "execution block", nil)
		I.hidden(c.st, p.o, "num", strC(q))
		return tup(p, VNil{})
	}
	n.more = func(c *Call) (Val, bool) {
		switch c.name {
		case "(time.Time).Unix", "(*time.Time).Unix":
			if v := n.val(c, c.args[0]); v.key() == "genesistime" {
				return G, true
			}
			return nil, false
		case "(*" + gethPkg + "/core/types.Block).Time":
			p, ok := n.val(c, c.args[0]).(*Ptr)
			if !ok {
				return nil, false
			}
			q, _ := c.st.cells[cellKey{p.o, "\x00num"}].(*Str)
			if q != nil && q.key() == "\"D\"" {
				return nAdd(G, nMul(numI(12), ds)), true
			}
			return I.Range("time of another block", 0, maxU64), true
		case "(*" + gethPkg + "/core/types.Block).Header":
			return nil, false
		}
		if c.fn != nil && c.fn.Name() == "decodeInitialPoolFee" {
			bt := n.val(c, c.args[0])
			q := ""
			if p, ok := bt.(*Ptr); ok {
				if x, _ := c.st.cells[cellKey{p.o, "\x00num"}].(*Str); x != nil {
					q = x.key()
				}
			}
			ad, _ := toStr(n.val(c, c.args[1]))
			if q != "\"D\"" || ad == nil || lowerS(ad).key() != lowerS(addrStr("pool", "x")).key() {
				return tup(s.nonneg("fee of something else"), VNil{}), true
			}
			if k.fee == "undecodable" {
				return tup(numI(0), errSym("not found")), true
			}
			return tup(numAtom("initialfee"), VNil{}), true
		}
		return nil, false
	}
	I.Range("initialfee", 0, big.NewInt(10000))
	return s, n
}

func runC39(c *Ctx) {
	fn := c.anchor("oracle", "*Onchain", "GetConfigFromContract")
	const rule, stop = "configuration is what the chain says", "a failure or an unknown chain stops"
	run := func(k confCase, prep func(n *node)) (*Scn, *node, Val) {
		s, n := c.confScn(k)
		oc := s.onchain()
		cli := s.mk("config", "CliConfig", map[string]Val{".DryRun": VBool(k.dry), ".PoolAddress": addrStr("pool", "cli"), ".NumRetries": s.u64("retries"), ".ConsensusEndpoint": strAtom("clurl"), ".ExecutionEndpoint": strAtom("elurl"), ".UpdaterKeyPass": strAtom("pass"), ".UpdaterKeyFile": strAtom("keyfile")})
		if prep != nil {
			prep(n)
		}
		v := s.call(fn, oc, cli)
		return s, n, v
	}
	ct := types.NewPointer(c.named("oracle", "Config"))
	var calls []string
	for _, id := range []int64{1, 5, 17000, 560048} {
		for _, fee := range []string{"decoded", "undecodable"} {
			for _, dry := range []bool{true, false} {
				k := confCase{cl: id, el: id, fee: fee, dry: dry}
				def := map[int64]int64{1: 700, 560048: 1000}[id]
				s, n, v := run(k, nil)
				if calls == nil {
					for _, x := range n.calls {
						calls = append(calls, x.name)
					}
					calls = uniqStrs(calls)
				}
				if fee == "undecodable" && def == 0 {
					s.stops(stop)
					continue
				}
				if !s.clean(rule) {
					continue
				}
				wf := Val(numAtom("initialfee"))
				if fee == "undecodable" {
					wf = numI(def)
				}
				for _, x := range []struct {
					f string
					v Val
				}{
					{".Network", strC(chainNames[id])}, {".PoolAddress", addrStr("pool", "cli")}, {".DeployedSlot", numAtom("ds")}, {".DeployedBlock", numAtom("D")},
					{".CheckPointSizeInSlots", numAtom("checkpointsize")}, {".PoolFeesPercentOver10000", wf}, {".PoolFeesAddress", addrStr("fees", "x")},
					{".CollateralInWei", numAtom("collateral")}, {".DryRun", VBool(dry)}, {".UpdaterKeyPass", strAtom("pass")}, {".UpdaterKeyFile", strAtom("keyfile")}, {".NumRetries", numAtom("retries")},
					{".ConsensusEndpoint", strAtom("clurl")}, {".ExecutionEndpoint", strAtom("elurl")},
				} {
					g, err := s.I.Get(s.st, v, ct, x.f)
					if err != nil {
						s.fail(rule, "%s: %v", x.f, err)
						continue
					}
					gk, wk := s.I.res(s.st, g).key(), x.v.key()
					if a, ok := x.v.(*Str); ok {
						if b, _ := toStr(s.I.res(s.st, g)); b != nil && strings.Contains(x.f, "Address") {
							gk, wk = lowerS(b).key(), lowerS(a).key()
						}
					}
					if x.f == ".CollateralInWei" {
						gk = s.I.bigOf(s.st, g, "-").key()
					}
					c.Check(gk == wk, rule, s.name+" "+x.f, s.pos(), "%s is %s, the chain and the command line say %s", x.f, gk, wk)
				}
			}
		}
	}
	// disagreeing or unknown chains, other deployment blocks
	for _, k := range []confCase{{cl: 1, el: 5}, {cl: 560048, el: 1}, {cl: 1, el: 560048}, {cl: 17000, el: 560048}, {cl: 2, el: 2}, {cl: 11155111, el: 11155111}, {cl: 100, el: 100}, {cl: 0, el: 0}, {cl: 0, el: 1},
		{cl: 1, el: 1, blk: "of another number"}, {cl: 560048, el: 560048, blk: "of another number"}, {cl: 1, el: 1, blk: "missed"}} {
		k.fee = "decoded"
		s, _, _ := run(k, nil)
		s.stops(stop)
	}
	for _, nm := range calls {
		for _, how := range []string{"for good", "once"} {
			k := confCase{cl: 1, el: 1, fee: "decoded", fail: ", failing " + how + ": " + nm}
			times := -1
			if how == "once" {
				times = 1
			}
			s, _, v := run(k, func(n *node) { n.fail[nm] = times })
			if how == "for good" {
				if !s.st.dead && s.fn == fn && strings.Contains(" ChainID DepositContract Genesis DeploymentBlockNumber BlockByNumber SignedBeaconBlock CheckpointSlotSize PoolFeeRecipient SubscriptionCollateral ", " "+nm+" ") || s.st.dead {
					s.stops(stop)
				}
				continue
			}
			if s.st.dead {
				continue // not retried
			}
			if s.clean("a transient failure changes nothing") {
				g, _ := s.I.Get(s.st, v, ct, ".DeployedSlot")
				h, _ := s.I.Get(s.st, v, ct, ".CheckPointSizeInSlots")
				c.Check(g != nil && g.key() == "ds" && h != nil && h.key() == "checkpointsize", "a transient failure changes nothing", s.name, s.pos(), "deployment slot %v, checkpoint size %v", g, h)
			}
		}
	}
	c.Min(stop, 20)
	c.c39fee()
	c.c39fresh()
}

// the initial fee out of the deployment block
func (c *Ctx) c39fee() {
	const rule = "initial fee of the deployment transaction"
	fn := c.anchor("oracle", "", "decodeInitialPoolFee")
	sel := "\xa1\xb2\xc3\xd4"
	type tx struct {
		to   string // "pool", "nil", "other"
		data string // "init", "other", "short", "bad", "embedded", "embedded twice", "none"
	}
	init_ := map[string]bool{"pool/init": true, "nil/embedded": true, "nil/embedded late": true, "nil/after garbage": true}
	var blocks [][]tx
	kinds := []tx{{"pool", "init"}, {"pool", "other"}, {"pool", "short"}, {"pool", "bad"}, {"other", "init"}, {"other", "other"}, {"nil", "embedded"}, {"nil", "embedded late"}, {"nil", "after garbage"}, {"nil", "none"}, {"nil", "short"}, {"nil", "miss 0"}, {"nil", "miss 1"}, {"nil", "miss 2"}, {"nil", "miss 3"}, {"pool", "miss 0"}, {"pool", "miss 3"}}
	blocks = append(blocks, nil)
	for _, a := range kinds {
		blocks = append(blocks, []tx{a})
		for _, b := range kinds {
			if a != b && !(init_[a.to+"/"+a.data] && init_[b.to+"/"+b.data]) && a.data != "bad" && b.data != "bad" {
				blocks = append(blocks, []tx{a, b})
			}
		}
	}
	for _, b := range blocks {
		s := c.scn(fmt.Sprintf("deployment block with transactions %v", b))
		s.freshGlobals()
		n := s.node()
		n.slot, n.block = s.u64("slot"), s.u64("D")
		I := s.I
		I.Uniq("pool", "b:pool", "other", "b:other")
		var want Val
		tt := c.named(gethPkg+"/core/types", "Transaction")
		var txs []Val
		args := func(i int) *Str {
			if strings.HasPrefix(b[i].data, "miss") {
				return strC(fmt.Sprintf("args%d", i))
			}
			return &Str{parts: []SPart{{atom: fmt.Sprintf("initargs%d", i), n: 160}}}
		}
		bads := map[string]bool{}
		for i, x := range b {
			nm := fmt.Sprintf("t%d", i)
			var to Val = VNil{}
			if x.to != "nil" {
				to = addrBytes(x.to)
			}
			d := n.addTx(nm, 2, to, addrBytes("other"))
			switch x.data {
			case "init":
				d.data = catS(strC(sel), args(i))
			case "bad":
				d.data = catS(strC(sel), args(i))
				bads[args(i).key()] = true
			case "other":
				d.data = catS(strC("\x11\x22\x33\x44"), args(i))
			case "short":
				d.data = strC("\xa1\xb2\xc3")
			case "none":
				d.data = strC("\x60\x80\x60\x40\x52\xa1\xb2\xc3")
			case "embedded":
				d.data = catS(strC("\x60\x80\x60"+sel), args(i))
			case "embedded late":
				d.data = catS(strC("\x60\x80\x60\x40\xa1\xb2\x00\x01\x02\x03\xa1\xa1"+sel), args(i))
			case "miss 0", "miss 1", "miss 2", "miss 3": // all but one byte of the selector
				m := []byte(sel)
				m[x.data[5]-'0'] ^= 1
				pre := ""
				if x.to == "nil" {
					pre = "\x60"
				}
				d.data = catS(strC(pre+string(m)), args(i))
			case "after garbage": // the selector appears once before, followed by something else
				d.data = catS(strC("\x60"+sel+"\x00"+sel), args(i))
			}
			if want == nil && (init_[x.to+"/"+x.data]) {
				want = numAtom(fmt.Sprintf("fee%d", i))
				I.Range(want.key(), 0, big.NewInt(10000))
			}
			o := n.newAt(s.st, tt, "transaction", nil)
			I.hidden(s.st, o.o, "raw", strAtom(nm))
			txs = append(txs, o)
		}
		abiT := c.named(gethPkg+"/accounts/abi", "ABI")
		methT := c.named(gethPkg+"/accounts/abi", "Method")
		mkMethod := func(st *State, nm string) *Ptr {
			id := sel
			if nm != "initialize" {
				id = "\x11\x22\x33\x44"
			}
			return n.newAt(st, methT, "method "+nm, map[string]Val{".Name": strC(nm), ".RawName": strC(nm), ".ID": strC(id)})
		}
		n.more = func(cl *Call) (Val, bool) {
			switch {
			case strings.HasSuffix(cl.name, "bind.MetaData).GetAbi"):
				mm := I.NewMap(cl.st, types.NewMap(types.Typ[types.String], methT), strC("initialize"), I.load(cl.st, mkMethod(cl.st, "initialize"), methT, "-"), strC("claimRewards"), I.load(cl.st, mkMethod(cl.st, "claimRewards"), methT, "-"))
				return tup(n.newAt(cl.st, abiT, "abi", map[string]Val{".Methods": mm}), VNil{}), true
			case strings.HasSuffix(cl.name, "abi.ABI).MethodById"):
				id, _ := toStr(n.val(cl, cl.args[1]))
				if id == nil {
					return nil, false
				}
				switch id.key() {
				case strC(sel).key():
					return tup(mkMethod(cl.st, "initialize"), VNil{}), true
				case strC("\x11\x22\x33\x44").key():
					return tup(mkMethod(cl.st, "claimRewards"), VNil{}), true
				}
				return tup(VNil{}, errSym("no method")), true
			case strings.HasSuffix(cl.name, "abi.Arguments).Unpack"), strings.HasSuffix(cl.name, "abi.Arguments).UnpackValues"):
				data, _ := toStr(n.val(cl, cl.args[1]))
				for i := range b {
					if data != nil && data.key() == args(i).key() && !bads[data.key()] {
						vs := []Val{&Iface{types.Typ[types.Int], numI(0)}, &Iface{types.NewPointer(I.bigT()), I.newBig(cl.st, s.nonneg("somecollateral"), "arg")}, &Iface{types.NewPointer(I.bigT()), I.newBig(cl.st, I.Range(fmt.Sprintf("fee%d", i), 0, big.NewInt(10000)), "arg")}, &Iface{types.NewPointer(I.bigT()), I.newBig(cl.st, s.nonneg("somesize"), "arg")}}
						return tup(I.mkSlice(cl.st, types.NewInterfaceType(nil, nil), vs, "args"), VNil{}), true
					}
				}
				return tup(VNil{}, errSym("cannot unpack")), true
			case cl.name == "(*"+gethPkg+"/core/types.Block).Transactions":
				return I.mkSlice(cl.st, types.NewPointer(tt), txs, "transactions"), true
			}
			return nil, false
		}
		bt := c.named(gethPkg+"/core/types", "Block")
		blk := n.newAt(s.st, bt, "execution block", nil)
		s.call(fn, blk, addrStr("pool", "cli"))
		if !s.clean(rule) {
			continue
		}
		nn, isNil := s.lastErr()
		if want == nil {
			c.Check(nn, rule, s.name, s.pos(), "the result is %s", s.ret.key())
		} else {
			c.Check(isNil && s.retAt(0).key() == want.key(), rule, s.name, s.pos(), "the result is %s, the property demands %s", s.ret.key(), want.key())
		}
	}
	c.Min(rule, 40)
}

func (c *Ctx) c39fresh() {
	const rule = "a fresh state starts right before the deployment slot"
	fn := c.anchor("oracle", "", "NewOracle")
	s := c.scn("fresh oracle")
	s.freshGlobals()
	s.node()
	cf := map[string]Val{".Network": strAtom("network"), ".PoolAddress": strAtom("poolcase"), ".DeployedSlot": s.I.Range("ds", 1, maxU64), ".DeployedBlock": s.u64("D"), ".CheckPointSizeInSlots": s.u64("size"), ".PoolFeesPercentOver10000": s.u64("fee"), ".PoolFeesAddress": strAtom("feeaddr"), ".CollateralInWei": s.nonneg("coll"), ".DryRun": VBool(false)}
	cfg := s.mk("oracle", "Config", cf)
	ret := s.call(fn, cfg)
	if !s.clean(rule) {
		return
	}
	ot := types.NewPointer(c.named("oracle", "Oracle"))
	want := map[string]string{".cfg": cfg.key()}
	for k, v := range cf {
		if k != ".DryRun" {
			want[".state"+k] = v.key()
		}
	}
	want[".state.LatestProcessedSlot"] = nSub(numAtom("ds"), numI(1)).key()
	want[".state.NextSlotToProcess"] = "ds"
	want[".state.PoolAccumulatedFees"] = "0"
	for _, k := range sortedKeys(want) {
		g, err := s.I.Get(s.st, ret, ot, k)
		if err != nil {
			s.fail(rule, "%s: %v", k, err)
			continue
		}
		gk := s.I.res(s.st, g).key()
		if strings.HasSuffix(k, "Wei") || strings.HasSuffix(k, "Fees") {
			gk = s.I.bigOf(s.st, g, "-").key()
		}
		c.Check(gk == want[k], rule, k, s.pos(), "%s of a fresh oracle is %s, the property demands %s", k, gk, want[k])
	}
	for _, k := range []string{"SubscriptionEvents", "UnsubscriptionEvents", "EtherReceivedEvents", "Donations", "ProposedBlocks", "MissedBlocks", "WrongFeeBlocks"} {
		es, _, err := s.I.List(s.st, ret, ot, ".state."+k)
		c.Check(err == nil && len(es) == 0, rule, k, s.pos(), "%s of a fresh oracle holds %d entries (%v)", k, len(es), err)
	}
	for _, k := range []string{"Validators", "CommitedStates"} {
		es, err := s.I.Keys(s.st, ret, ot, ".state."+k)
		c.Check(err == nil && len(es) == 0, rule, k, s.pos(), "%s of a fresh oracle holds %d entries (%v)", k, len(es), err)
	}
	c.Min(rule, 15)
}

var _ *ssa.Function
