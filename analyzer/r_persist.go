package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// sameParams: every configured parameter of the state equals the configuration
func (s *Scn) sameParams(net string) {
	s.network(net)
	s.cfgState()
	s.put(".state.CollateralInWei", numAtom("or.cfg.CollateralInWei"))
	for _, f := range []string{"DeployedBlock", "DeployedSlot"} {
		n := s.u64("or.cfg." + f)
		s.I.init["or.state."+f] = n
	}
}

// someHistory: lists and checkpoints with one entry each
func (s *Scn) someHistory() {
	ev := func(kind string) *event {
		return s.ev(event{kind: kind, idx: numAtom("v1"), sender: "w:v1", amount: s.nonneg("amt:" + kind)})
	}
	s.put(".state.SubscriptionEvents", s.evs("ContractSubscribeValidator", []*event{ev("sub")}))
	s.put(".state.UnsubscriptionEvents", s.evs("ContractUnsubscribeValidator", []*event{ev("unsub")}))
	e := ev("ether")
	s.put(".state.EtherReceivedEvents", s.evs("ContractEtherReceived", []*event{e}))
	s.put(".state.Donations", s.evs("ContractEtherReceived", []*event{e}))
	bt := s.c.named("oracle", "SummarizedBlock")
	for i, f := range []string{"ProposedBlocks", "MissedBlocks", "WrongFeeBlocks"} {
		b := s.sblock(int64(i+1), numAtom("v1"), s.nonneg("R:"+f), "w:v1")
		s.put(".state."+f, s.slice(bt, b.val))
	}
	s.I.init["or.state.LatestProcessedBlock"] = s.u64("blk0")
	s.put(".state.CommitedStates", s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(s.c.named("oracle", "OnchainState")))))
}

const rawFile = "bytes of the file"

// stored makes the given content (the oracle's current state, in s.st) the content of the file
func (s *Scn) stored() {
	if s.I.snaps == nil {
		s.I.snaps = map[string]snapshot{}
	}
	t := types.NewPointer(s.c.named("oracle", "OracleState"))
	s.I.snaps[rawFile] = snapshot{s.st.clone(), &Iface{t: t, v: s.get(".state")}}
	s.I.nonEmpty[rawFile] = true
}

// alter one part of the stored content
func (s *Scn) alter(path string, v Val) {
	sn := s.I.snaps[rawFile]
	st := sn.st.clone()
	s.I.Put(st, s.or, types.NewPointer(s.orT), path, v)
	s.I.snaps[rawFile] = snapshot{st, sn.v}
}

// running replaces the running state by another one
func (s *Scn) running() {
	t := s.c.named("oracle", "OracleState")
	o := s.I.newObj(s.st, t, "entry:running")
	p := &Ptr{o, ""}
	pt := types.NewPointer(t)
	for k, v := range map[string]Val{
		".NextSlotToProcess": s.u64("run.next"), ".LatestProcessedSlot": s.u64("run.last"),
		".PoolAccumulatedFees": s.nonneg("run.fees"), ".CollateralInWei": s.nonneg("run.coll"),
		".PoolFeesPercentOver10000": s.I.Range("run.fee", 0, big.NewInt(10000)), ".StateHash": strC("running"),
		".Network": strC("mainnet"), ".PoolAddress": addrStr("w:pool", "cfg"), ".PoolFeesAddress": addrStr("w:fees", "cfg"),
		".Validators": s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(s.c.named("oracle", "ValidatorInfo"))), s.u64("r1"), s.val("r1", 1)),
	} {
		s.I.Put(s.st, p, pt, k, v)
	}
	s.put(".state", p)
}

// files models the file system of a load: how opening and reading end
type files struct {
	open  string // "", notexist, other
	read  bool   // reading fails
	wrong []string
	s     *Scn
}

func (f *files) hook(c *Call) (Val, bool) {
	nm := c.name
	opn := func(ok Val) Val {
		if p := f.s.I.res(c.st, c.args[0]); len(c.args) > 0 && p.key() != strC("oracle-data/state.json").key() && p.key() != strC("some.json").key() {
			f.wrong = append(f.wrong, "opens "+p.key()+" at "+c.pos)
		}
		switch f.open {
		case "notexist":
			return tup(VNil{}, &Sym{t: "err:notexist", err: true, nn: true})
		case "other":
			return tup(VNil{}, &Sym{t: "err:open", err: true, nn: true})
		}
		return tup(ok, VNil{})
	}
	rd := func() Val {
		if f.read {
			return tup(VNil{}, &Sym{t: "err:read", err: true, nn: true})
		}
		return tup(strAtom(rawFile), VNil{})
	}
	switch nm {
	case "os.Open", "os.OpenFile":
		return opn(&Ptr{f.s.I.symObj("file", nil), ""}), true
	case "os.Stat", "os.Lstat":
		return opn(&Sym{t: "fileinfo", nn: true}), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		v := opn(VNil{})
		if f.open != "" {
			return v, true
		}
		return rd(), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		return rd(), true
	case "os.IsNotExist":
		return VBool(strings.Contains(c.args[0].key(), "err:notexist")), true
	case "os.IsExist", "os.IsPermission", "os.IsTimeout":
		return VBool(false), true
	case "errors.Is", "github.com/pkg/errors.Is":
		if strings.Contains(c.args[0].key(), "err:") {
			return VBool(strings.Contains(c.args[0].key(), "err:notexist") && strings.Contains(c.args[1].key(), "ErrNotExist")), true
		}
	case "(*os.File).Close":
		return VNil{}, true
	}
	return nil, false
}

// hook2: only the questions about errors
func (f *files) hook2(c *Call) (Val, bool) {
	switch c.name {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout", "errors.Is", "github.com/pkg/errors.Is":
		return f.hook(c)
	}
	return nil, false
}

// loadScn: a file holding an intact state of this pool
func (c *Ctx) loadScn(name, net string, before func(s *Scn)) *Scn {
	s := c.scn(name)
	s.sameParams(net)
	s.someHistory()
	s.validators(vst{"v1", 1}, vst{"v2", 5}, vst{"v3", 4})
	if before != nil {
		before(s)
	}
	h := c.anchor("oracle", "*Oracle", "StateWithHash")
	s.call(h, s.or)
	if len(s.I.notes) > 0 || s.st.dead {
		panic(undecided("hashing the state: " + strings.Join(s.I.notes, "; ")))
	}
	s.stored()
	return s
}

func init() {
	register(&Rule{id: "C12", title: "acceptance of a persisted state", minOblig: 90,
		explain: "Abstract interpretation of LoadFromBytes, LoadFromPath and LoadFromJson. The file holds a state (all quantities unknown) whose hash was set by the repository's own hashing code, interpreted; the bytes decode to exactly that content. Classes: intact; each field of the state altered after hashing; other or missing hash; unparsable bytes; each configured parameter different (below, above, other string) in file and configuration; fee equal, scheduled up to the file's slot, scheduled later, unscheduled; file missing, not openable, not readable. Accepted classes must install exactly the decoded content (and the file's fee in the configuration); refused ones must report an error with the whole oracle, configuration included, unchanged.",
		assume:  []string{"encoding/json decodes what it encoded (C13 decides that the types make this lossless)", "sha256 has no collisions"},
		run: func(c *Ctx) {
			load := c.anchor("oracle", "*Oracle", "LoadFromBytes")
			path := c.anchor("oracle", "*Oracle", "LoadFromPath")
			js := c.anchor("oracle", "*Oracle", "LoadFromJson")
			accepted := func(s *Scn, fee *Num, args ...Val) {
				fn := load
				if len(args) == 0 {
					args = []Val{s.or, strAtom(rawFile)}
				}
				sn := s.I.snaps[rawFile]
				s.running()
				s.begin()
				s.I.storeLocExp(s, ".state", sn)
				if fee != nil {
					s.expPut(".cfg.PoolFeesPercentOver10000", fee)
				}
				s.call(fn, args...)
				// the hash is the file's own or blank
				if s.effects("accepted load installs the file's content", ".state.StateHash") {
					_, nilE := s.lastErr()
					c.Check(nilE && s.retAt(0).key() == "true", "accepted load is reported found", s.name, s.pos(), "gives %s", s.ret.key())
				}
			}
			refused := func(s *Scn) {
				s.running()
				s.begin()
				s.call(load, s.or, strAtom(rawFile))
				if s.effects("refused load changes nothing") {
					nn, _ := s.lastErr()
					c.Check(nn, "refused load is reported", s.name, s.pos(), "gives %s", s.ret.key())
				}
			}
			for _, net := range []string{"mainnet", "hoodi", "holesky"} {
				accepted(c.loadScn("intact state, "+net, net, nil), nil)
			}
			// unparsable
			s := c.loadScn("unparsable bytes", "mainnet", nil)
			s.I.fail["encoding/json.Unmarshal"] = true
			s.I.fail["(*encoding/json.Decoder).Decode"] = true
			refused(s)
			// altered content
			for _, h := range []*Str{strC(""), strC("0x00"), catS(strC("0x"), hexOf(&Str{parts: []SPart{{atom: "b:other", n: 32}}}, true))} {
				s := c.loadScn("other hash "+h.key(), "mainnet", nil)
				s.alter(".state.StateHash", h)
				s.I.Uniq("other")
				refused(s)
			}
			st := under(c.named("oracle", "OracleState")).(*types.Struct)
			n := 0
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() == "StateHash" {
					continue
				}
				s := c.loadScn("altered "+f.Name(), "mainnet", nil)
				var v Val
				switch u := under(f.Type()).(type) {
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						v = strC("altered")
					} else {
						v = nAdd(s.get(".state."+f.Name()).(*Num), numI(1))
					}
				case *types.Slice:
					v = s.slice(u.Elem())
				case *types.Map:
					v = s.I.NewMap(s.st, u)
					if f.Name() == "CommitedStates" {
						v = s.I.NewMap(s.st, u, numI(7), s.mk("oracle", "OnchainState", map[string]Val{".Slot": numI(7)}))
					}
				case *types.Pointer:
					v = nAdd(s.I.bigOf(s.st, s.get(".state."+f.Name()), "x").(*Num), numI(1))
				}
				if v == nil {
					panic(undecided("field " + f.Name() + " of the state has an unexpected type"))
				}
				n++
				s.I.snaps[rawFile] = snapshot{s.st.clone(), s.I.snaps[rawFile].v}
				s.alter(".state."+f.Name(), v)
				refused(s)
			}
			for _, p := range []string{".state.Validators[v1].PendingRewardsWei", ".state.Validators[v1].AccumulatedRewardsWei", ".state.Validators[v2].CollateralWei", ".state.Validators[v3].ValidatorIndex", ".state.Validators[v1].ValidatorStatus"} {
				s := c.loadScn("altered "+p, "mainnet", nil)
				v, ok := s.get(p).(*Num)
				if !ok {
					v = s.I.bigOf(s.st, s.get(p), "x").(*Num)
				}
				s.alter(p, nAdd(v, numI(1)))
				refused(s)
			}
			// parameters
			type pm struct {
				name string
				do   func(s *Scn)
			}
			var ps []pm
			ps = append(ps,
				pm{"network", func(s *Scn) { s.put(".cfg.Network", strC("hoodi")) }},
				pm{"network empty", func(s *Scn) { s.put(".cfg.Network", strC("")) }},
				pm{"pool address", func(s *Scn) { s.I.Uniq("w:z"); s.put(".cfg.PoolAddress", addrStr("w:z", "cfg")) }},
				pm{"fee address", func(s *Scn) { s.I.Uniq("w:z"); s.put(".cfg.PoolFeesAddress", addrStr("w:z", "cfg")) }},
			)
			for _, k := range []string{"DeployedBlock", "DeployedSlot", "CheckPointSizeInSlots"} {
				ps = append(ps,
					pm{k + " below", func(s *Scn) { v := s.get(".cfg." + k).(*Num); z := s.u64("z"); s.less(z, v); s.put(".cfg."+k, z) }},
					pm{k + " above", func(s *Scn) { v := s.get(".cfg." + k).(*Num); z := s.u64("z"); s.less(v, z); s.put(".cfg."+k, z) }})
			}
			ps = append(ps,
				pm{"collateral below", func(s *Scn) {
					z := s.nonneg("z")
					s.less(z, numAtom("or.cfg.CollateralInWei"))
					s.put(".cfg.CollateralInWei", z)
				}},
				pm{"collateral above", func(s *Scn) {
					z := s.nonneg("z")
					s.less(numAtom("or.cfg.CollateralInWei"), z)
					s.put(".cfg.CollateralInWei", z)
				}})
			for _, p := range ps {
				s := c.loadScn("different "+p.name, "mainnet", nil)
				p.do(s)
				refused(s)
				// together with a fee that would be taken over from the schedule
				s = c.loadScn("different "+p.name+" and scheduled fee", "mainnet", func(s *Scn) { feeIs(s, 500, 14082460, 0) })
				s.put(".cfg.PoolFeesPercentOver10000", numI(700))
				p.do(s)
				if strings.HasPrefix(p.name, "network") {
					// the schedule of another network does not apply anyway
					s.put(".cfg.Network", strC("hoodi"))
				}
				refused(s)
			}
			// fees
			type fc struct {
				name   string
				net    string
				file   int64
				lo, hi int64 // last processed slot of the file
				cfg    int64
				ok     bool
			}
			for _, f := range []fc{
				{"scheduled fee, at its slot", "mainnet", 500, 14082460, 14082460, 700, true},
				{"scheduled fee, after its slot", "mainnet", 500, 14082461, 0, 700, true},
				{"scheduled fee, before its slot", "mainnet", 500, 0, 14082459, 700, false},
				{"scheduled fee, just before its slot", "mainnet", 500, 14082459, 14082459, 700, false},
				{"scheduled fee, at its slot", "hoodi", 500, 2801050, 2801050, 1000, true},
				{"scheduled fee, after its slot", "hoodi", 500, 2801051, 0, 1000, true},
				{"scheduled fee, before its slot", "hoodi", 500, 0, 2801049, 1000, false},
				{"unscheduled fee after the change", "mainnet", 600, 14082460, 0, 700, false},
				{"unscheduled fee after the change", "hoodi", 700, 2801050, 0, 1000, false},
				{"unscheduled fee before the change", "mainnet", 0, 0, 14082459, 700, false},
				{"other fee", "holesky", 500, 0, 0, 700, false},
				{"other fee", "holesky", 700, 0, 0, 500, false},
			} {
				s := c.loadScn(fmt.Sprintf("%s, file %d, configured %d, %s", f.name, f.file, f.cfg, f.net), f.net, func(s *Scn) { feeIs(s, f.file, f.lo, f.hi) })
				s.put(".cfg.PoolFeesPercentOver10000", numI(f.cfg))
				if f.ok {
					accepted(s, numI(f.file))
				} else {
					refused(s)
				}
			}
			// the file itself
			for _, fn := range []struct {
				name string
				json bool
			}{{"LoadFromJson", true}, {"LoadFromPath", false}} {
				for _, k := range []string{"notexist", "other", "read", "altered", "ok"} {
					s := c.loadScn(fn.name+" of a file: "+k, "mainnet", nil)
					if k == "altered" {
						s.alter(".state.NextSlotToProcess", s.u64("altered"))
					}
					s.running()
					s.begin()
					f := &files{s: s}
					switch k {
					case "notexist", "other":
						f.open = k
					case "read":
						f.read = true
					}
					if k == "ok" {
						s.I.storeLocExp(s, ".state", s.I.snaps[rawFile])
					}
					s.I.hook = f.hook
					if fn.json {
						s.call(js, s.or)
					} else {
						s.call(path, s.or, strC("some.json"))
					}
					if !s.effects("loading a file: "+k, ".state.StateHash") {
						continue
					}
					nn, isnil := s.lastErr()
					found := s.retAt(0).key()
					switch k {
					case "notexist":
						c.Check(isnil && found == "false", "missing file is reported as not found", s.name, s.pos(), "gives %s", s.ret.key())
					case "ok":
						c.Check(isnil && found == "true", "intact file is found", s.name, s.pos(), "gives %s", s.ret.key())
					default:
						c.Check(nn, "other problems are errors", s.name, s.pos(), "gives %s", s.ret.key())
					}
					c.Check(len(f.wrong) == 0, "the state file is read", s.name, s.pos(), "%s", strings.Join(f.wrong, "; "))
				}
			}
		}})
}

// feeIs fixes the file's fee and bounds its last processed slot
func feeIs(s *Scn, fee, lo, hi int64) {
	s.I.init["or.state.PoolFeesPercentOver10000"] = numI(fee)
	h := new(big.Int).Lsh(big.NewInt(1), 60)
	if hi != 0 {
		h = big.NewInt(hi)
	}
	if lo == hi && hi != 0 {
		s.I.init["or.state.LatestProcessedSlot"] = numI(lo)
		return
	}
	s.I.Range("or.state.LatestProcessedSlot", lo, h)
}

// storeLocExp installs a snapshot as the expected content of a pointer field
func (I *Interp) storeLocExp(s *Scn, path string, sn snapshot) {
	t := s.c.named("oracle", "OracleState")
	v := sn.v
	if f, ok := v.(*Iface); ok {
		v = f.v
	}
	p := v.(*Ptr)
	memo := map[string]Val{}
	o := I.newObj(s.exp, t, "expect:loaded")
	I.storeLoc(s.exp, o, "", t, I.deepCopy(s.exp, sn.st, I.loadLoc(sn.st, p.o, p.path, t), t, memo))
	s.expPut(path, &Ptr{o, ""})
}
