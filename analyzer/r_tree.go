package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trees records how the code builds merkle trees.
type trees struct {
	s      *Scn
	made   []tree
	hashes map[string]*Str // hasher object -> data written so far
	tn     map[string]string
	fail   bool // mt.New reports an error
	pfail  bool // Proof reports an error
}

type tree struct {
	obj    *Obj
	leaves []string
	bad    string // what is wrong with the configuration
	pos    string
}

func (f *trees) str(st *State, v Val) *Str {
	v = f.s.I.res(st, v)
	if x, ok := v.(*Iface); ok {
		v = f.s.I.res(st, x.v)
	}
	if s, ok := toStr(v); ok && s != nil {
		return s
	}
	return nil
}

// leafHash is the name of keccak256(address ++ uint256(amount))
func leafHash(addr *Str, amount Val) *Str {
	return &Str{parts: []SPart{{atom: "b:leaf(" + addr.key() + "," + amount.key() + ")", n: 32}}}
}

func (f *trees) hook(c *Call) (Val, bool) {
	s := f.s
	st := c.st
	val := func(v Val) Val {
		v = s.I.res(st, v)
		if x, ok := v.(*Iface); ok {
			v = s.I.res(st, x.v)
		}
		return v
	}
	const sol = "github.com/miguelmota/go-solidity-sha3."
	const mt = "github.com/txaty/go-merkletree."
	switch c.name {
	case sol + "Address":
		a := f.str(st, c.args[0])
		if a == nil {
			panic(undecided("address of a leaf unknown at " + c.pos))
		}
		return &Str{parts: []SPart{{atom: "soladdr(" + lowerS(a).key() + ")", n: 20}}}, true
	case sol + "Uint256":
		v := val(c.args[0])
		if p, ok := v.(*Ptr); ok {
			v = s.I.bigOf(st, p, c.pos)
		}
		f.tn["soluint("+v.key()+")"] = v.key()
		return &Str{parts: []SPart{{atom: "soluint(" + v.key() + ")", n: 32}}}, true
	case sol + "SoliditySHA3", sol + "SoliditySHA3WithPrefix":
		es, ok := s.I.elems(st, s.I.res(st, c.args[0]), types.NewInterfaceType(nil, nil))
		if !ok {
			panic(undecided("arguments of SoliditySHA3 unknown at " + c.pos))
		}
		d := &Str{}
		for _, e := range es {
			x := f.str(st, e)
			if x == nil {
				panic(undecided("arguments of SoliditySHA3 unknown at " + c.pos))
			}
			d = catS(d, x)
		}
		if len(d.parts) == 2 && strings.HasPrefix(d.parts[0].atom, "soladdr(") && strings.HasPrefix(d.parts[1].atom, "soluint(") && strings.HasSuffix(c.name, "SHA3") {
			a := strings.TrimSuffix(strings.TrimPrefix(d.parts[0].atom, "soladdr("), ")")
			return &Str{parts: []SPart{{atom: "b:leaf(" + a + "," + f.tn[d.parts[1].atom] + ")", n: 32}}}, true
		}
		return &Str{parts: []SPart{{atom: "b:" + c.name[len(sol):] + "(" + d.key() + ")", n: 32}}}, true
	case "golang.org/x/crypto/sha3.NewLegacyKeccak256", "golang.org/x/crypto/sha3.New256", "crypto/sha256.New":
		o := s.I.newObj(st, nil, "hasher("+c.name[strings.LastIndex(c.name, ".")+1:]+")")
		f.hashes[o.name] = strC("")
		return &Ptr{o, ""}, true
	case "(io.Writer).Write", "(hash.Hash).Write", "(hash.Hash).Sum", "(hash.Hash).Reset":
		p, ok := s.I.res(st, c.args[0]).(*Ptr)
		if !ok {
			break
		}
		h, ok := f.hashes[p.o.name]
		if !ok {
			break
		}
		switch {
		case strings.HasSuffix(c.name, "Write"):
			x := f.str(st, c.args[1])
			if x == nil {
				panic(undecided("hashed data unknown at " + c.pos))
			}
			f.hashes[p.o.name] = catS(h, x)
			return tup(s.I.lenV(st, c.args[1]), VNil{}), true
		case strings.HasSuffix(c.name, "Reset"):
			f.hashes[p.o.name] = strC("")
			return &Tuple{}, true
		}
		if !isNilV(s.I.res(st, c.args[1])) {
			if x := f.str(st, c.args[1]); x == nil || len(x.parts) > 0 {
				break
			}
		}
		alg := p.o.name[strings.Index(p.o.name, "(")+1:]
		alg = alg[:strings.Index(alg, ")")]
		if alg == "NewLegacyKeccak256" {
			alg = "keccak"
		}
		return &Str{parts: []SPart{{atom: "b:" + alg + "(" + h.key() + ")", n: 32}}}, true
	case "github.com/ethereum/go-ethereum/crypto.Keccak256":
		d := &Str{}
		es, _ := s.I.elems(st, s.I.res(st, c.args[0]), types.NewSlice(types.Typ[types.Byte]))
		for _, e := range es {
			x := f.str(st, e)
			if x == nil {
				panic(undecided("hashed data unknown at " + c.pos))
			}
			d = catS(d, x)
		}
		return &Str{parts: []SPart{{atom: "b:keccak(" + d.key() + ")", n: 32}}}, true
	case mt + "New":
		if f.fail {
			return tup(VNil{}, &Sym{t: "err:tree", err: true, nn: true}), true
		}
		o := s.I.symObj(fmt.Sprintf("tree%d", len(f.made)), nil)
		t := tree{obj: o, pos: c.pos}
		var bad []string
		ct := s.c.named("github.com/txaty/go-merkletree", "Config")
		cfg := s.I.res(st, c.args[0])
		if isNilV(cfg) {
			bad = append(bad, "no configuration")
		} else {
			get := func(n string) Val {
				v, err := s.I.Get(st, cfg, types.NewPointer(ct), "."+n)
				if err != nil {
					return strC("?")
				}
				return v
			}
			for n, want := range map[string]string{"SortSiblingPairs": "true", "DisableLeafHashing": "true", "NoDuplicates": "false"} {
				if k := get(n).key(); k != want {
					bad = append(bad, n+" is "+k)
				}
			}
			if k := get("Mode").key(); k != "1" && k != "2" {
				bad = append(bad, "mode "+k+" builds no tree")
			}
			h := get("HashFunc")
			if fn, ok := h.(*FuncV); ok {
				r := s.I.callFn(st, c.in, fn, []Val{&Str{parts: []SPart{{atom: "b:node", n: 64}}}}, c.pos)
				if t, ok := r.(*Tuple); !ok || len(t.v) != 2 || t.v[0].key() != (&Str{parts: []SPart{{atom: "b:keccak(" + (&Str{parts: []SPart{{atom: "b:node", n: 64}}}).key() + ")", n: 32}}}).key() || !isNilV(s.I.res(st, t.v[1])) {
					bad = append(bad, "the hash function gives "+r.key())
				}
			} else {
				bad = append(bad, "hash function "+h.key())
			}
		}
		sort.Strings(bad)
		t.bad = strings.Join(bad, ", ")
		db := s.c.named("github.com/txaty/go-merkletree", "DataBlock")
		es, ok := s.I.elems(st, s.I.res(st, c.args[1]), db)
		if !ok {
			panic(undecided("leaves of the tree unknown at " + c.pos))
		}
		for _, e := range es {
			t.leaves = append(t.leaves, f.leaf(st, c.in, e))
		}
		f.made = append(f.made, t)
		return tup(&Ptr{o, ""}, VNil{}), true
	case "(*github.com/txaty/go-merkletree.MerkleTree).Proof":
		if f.pfail {
			return tup(VNil{}, &Sym{t: "err:proof", err: true, nn: true}), true
		}
		p, ok := s.I.res(st, c.args[0]).(*Ptr)
		if !ok {
			break
		}
		l := f.leaf(st, c.in, s.I.res(st, c.args[1]))
		pt := s.c.named("github.com/txaty/go-merkletree", "Proof")
		o := s.I.newObj(st, pt, "proof")
		bs := types.NewSlice(types.Typ[types.Byte])
		s.I.Put(st, &Ptr{o, ""}, types.NewPointer(pt), ".Siblings", s.I.mkSlice(st, bs, []Val{sibling(p.o.name, l, 0), sibling(p.o.name, l, 1)}, "siblings"))
		return tup(&Ptr{o, ""}, VNil{}), true
	}
	return nil, false
}

func sibling(tree, leaf string, i int) *Str {
	return &Str{parts: []SPart{{atom: fmt.Sprintf("b:sib%d(%s,%s)", i, tree, leaf), n: 32}}}
}

// leaf is the data a block serialises to
func (f *trees) leaf(st *State, in *ssa.Function, e Val) string {
	e = f.s.I.res(st, e)
	i, ok := e.(*Iface)
	if !ok {
		return "?" + e.key()
	}
	m := f.s.I.P.SSA.LookupMethod(i.t, nil, "Serialize")
	if m == nil {
		return "?" + e.key()
	}
	r := f.s.I.callFn(st, in, &FuncV{fn: m}, []Val{i.v}, "serialize")
	t, ok := r.(*Tuple)
	if !ok {
		return "?" + r.key()
	}
	x := f.str(st, t.v[0])
	if x == nil {
		return "?" + t.v[0].key()
	}
	return x.key()
}

func newTrees(s *Scn) *trees {
	return &trees{s: s, hashes: map[string]*Str{}, tn: map[string]string{}}
}

// a population of validators for trees: name -> withdrawal class and letter case
type tval struct {
	n, wc, variant string
	st             int64
	zero           bool
}

func (s *Scn) tvals(vs []tval) {
	var p []vst
	for _, v := range vs {
		p = append(p, vst{v.n, v.st})
	}
	s.validators(p...)
	for _, v := range vs {
		s.I.Uniq(v.wc)
		s.put(vp(v.n, "WithdrawalAddress"), addrStr(v.wc, v.variant))
		if v.zero {
			s.put(vp(v.n, "AccumulatedRewardsWei"), numI(0))
		}
	}
}

// wantLeaves: address (lower case) and amount, in order
type wleaf struct {
	addr *Str
	amt  *Num
}

func (s *Scn) wantLeaves(vs []tval) []wleaf {
	sum := map[string]*Num{}
	var cls []string
	for _, v := range vs {
		n := numAtom(v.n + ".acc")
		if v.zero {
			n = numI(0)
		}
		if _, ok := sum[v.wc]; !ok {
			cls = append(cls, v.wc)
			sum[v.wc] = numI(0)
		}
		sum[v.wc] = nAdd(sum[v.wc], n)
	}
	sort.Slice(cls, func(i, j int) bool { return s.I.rank[cls[i]] < s.I.rank[cls[j]] })
	r := []wleaf{{lowerS(addrStr("w:fees", "cfg")), numAtom("or.state.PoolAccumulatedFees")}}
	for _, k := range cls {
		r = append(r, wleaf{lowerS(addrStr(k, "db")), sum[k]})
	}
	return r
}

// populations of up to four validators: who shares an address, in which letter case, in which order
func treePops(thorough bool) (r []struct {
	name string
	vs   []tval
}) {
	add := func(name string, vs ...tval) {
		r = append(r, struct {
			name string
			vs   []tval
		}{name, vs})
	}
	add("no validators")
	add("one validator", tval{"v1", "w:a", "db", 1, false})
	add("one validator with zero balance", tval{"v1", "w:a", "db", 1, true})
	for st := int64(0); st <= 6; st++ {
		add("one validator "+stNames[st], tval{"v1", "w:a", "db", st, false})
	}
	add("two validators, same address in other letter case", tval{"v1", "w:a", "db", 1, false}, tval{"v2", "w:a", "cs", 4, false})
	add("two validators, two addresses", tval{"v1", "w:a", "db", 1, false}, tval{"v2", "w:b", "db", 1, false})
	add("two validators, two addresses, descending", tval{"v1", "w:b", "db", 1, false}, tval{"v2", "w:a", "cs", 1, false})
	add("three validators, first and last share", tval{"v1", "w:b", "cs", 1, false}, tval{"v2", "w:a", "db", 5, false}, tval{"v3", "w:b", "lc", 6, false})
	add("three validators, all share", tval{"v1", "w:b", "cs", 1, false}, tval{"v2", "w:b", "db", 3, false}, tval{"v3", "w:b", "lc", 6, false})
	add("three validators, descending addresses, one zero", tval{"v1", "w:c", "cs", 1, true}, tval{"v2", "w:b", "db", 1, false}, tval{"v3", "w:a", "lc", 6, false})
	add("four validators, two addresses interleaved", tval{"v1", "w:b", "cs", 1, false}, tval{"v2", "w:a", "db", 1, false}, tval{"v3", "w:b", "db", 1, false}, tval{"v4", "w:a", "cs", 2, false})
	add("four validators, four addresses", tval{"v1", "w:c", "cs", 1, false}, tval{"v2", "w:a", "db", 1, false}, tval{"v3", "w:d", "db", 1, false}, tval{"v4", "w:b", "cs", 2, false})
	if thorough {
		for n := 0; n < 81; n++ {
			var vs []tval
			k := n
			nm := ""
			for i := 1; i <= 4; i++ {
				w := []string{"w:a", "w:b", "w:c"}[k%3]
				k /= 3
				vs = append(vs, tval{fmt.Sprintf("v%d", i), w, []string{"db", "cs"}[i%2], int64(i % 7), false})
				nm += w[2:]
			}
			add("four validators at "+nm, vs...)
		}
	}
	return
}

func (c *Ctx) treeScn(name string, vs []tval) (*Scn, *trees) {
	s := c.scn(name)
	s.I.Uniq("w:a", "w:b", "w:c", "w:d", "w:pool", "w:fees")
	s.sameParams("mainnet")
	s.someHistory()
	s.put(".state.PoolFeesAddress", addrStr("w:fees", "cfg"))
	s.put(".state.PoolAddress", addrStr("w:pool", "cfg"))
	s.tvals(vs)
	f := newTrees(s)
	s.I.hook = f.hook
	return s, f
}

func init() {
	register(&Rule{id: "C16", title: "leaves of the reward tree", minOblig: 100,
		explain: "Abstract interpretation of GenerateTreeFromState (and AggregateValidatorsIndexes) on populations of up to four validators that share withdrawal addresses in all patterns and letter cases, visited in both orders, with unknown balances. The leaves handed to the tree library, their order, their hash (keccak of address and uint256 amount), the library configuration (sorted keccak pairs, leaves not re-hashed) and the hash function are compared with the demanded ones; the returned maps must hold each leaf under its address; nothing reachable from the oracle may change. Fewer than two leaves give no tree; a withdrawal address equal to the pool's stops the process.",
		assume:  []string{"go-merkletree builds the tree its configuration describes; go-solidity-sha3 packs address and uint256 as solidity does", "two orders of visiting stand for all (the result is compared with one expected value in both)"},
		run: func(c *Ctx) {
			gen := c.anchor("oracle", "*Merklelizer", "GenerateTreeFromState")
			agg := c.anchor("oracle", "*Merklelizer", "AggregateValidatorsIndexes")
			raw := c.named("oracle", "RawLeaf")
			mk := func(s *Scn) Val { return s.mk("oracle", "Merklelizer", nil) }
			for _, p := range treePops(c.tier == "thorough") {
				for _, rev := range []bool{false, true} {
					nm := p.name
					if rev {
						if len(p.vs) < 2 {
							continue
						}
						nm += ", visited backwards"
					}
					// the list
					s, _ := c.treeScn("aggregation: "+nm, p.vs)
					s.I.reverse = rev
					s.call(agg, mk(s), s.get(".state"))
					if s.effects("aggregating changes nothing") {
						want := s.wantLeaves(p.vs)
						got := map[string]string{}
						w := map[string]string{".#": fmt.Sprint(len(want))}
						s.I.leafs(s.st, s.ret, types.NewSlice(raw), "", got, 0)
						for i, l := range want {
							w[fmt.Sprintf("[%d].WithdrawalAddress", i)] = l.addr.key()
							w[fmt.Sprintf("[%d].AccumulatedBalanceWei", i)] = l.amt.key()
						}
						s.diff("one leaf per address, in order", got, w)
					}
					// the tree
					s, f := c.treeScn("tree: "+nm, p.vs)
					s.I.reverse = rev
					s.call(gen, mk(s), s.get(".state"))
					if !s.effects("building the tree changes nothing") {
						continue
					}
					want := s.wantLeaves(p.vs)
					if len(want) < 2 {
						c.Check(s.retAt(3).key() == "false" && isNilV(s.retAt(2)), "too little data gives no tree", s.name, s.pos(), "gives %s", s.ret.key())
						continue
					}
					if !c.Check(s.retAt(3).key() == "true" && len(f.made) == 1, "a tree is built", s.name, s.pos(), "%d trees built; gives %s", len(f.made), trunc(s.ret.key(), 200)) {
						continue
					}
					t := f.made[0]
					c.Check(t.bad == "", "tree configuration", s.name, t.pos, "the tree at %s is configured wrongly: %s", t.pos, t.bad)
					c.Check(s.retAt(2).key() == (&Ptr{t.obj, ""}).key(), "the built tree is returned", s.name, s.pos(), "returns %s", s.retAt(2).key())
					var wl []string
					for _, l := range want {
						wl = append(wl, leafHash(l.addr, l.amt).key())
					}
					c.Check(strings.Join(wl, " ") == strings.Join(t.leaves, " "), "leaves of the tree", s.name, t.pos, "leaves %v, the property demands %v", t.leaves, wl)
					// the maps
					got, w := map[string]string{}, map[string]string{}
					s.I.leafs(s.st, s.retAt(1), types.NewMap(types.Typ[types.String], raw), "", got, 0)
					for _, l := range want {
						w["["+l.addr.key()+"].WithdrawalAddress"] = l.addr.key()
						w["["+l.addr.key()+"].AccumulatedBalanceWei"] = l.amt.key()
					}
					s.diff("raw leaf under its address", got, w)
					m, ok := s.retAt(0).(*MapV)
					okm := ok
					var have []string
					if ok {
						mc, complete := s.I.mapOf(s.st, m.o)
						okm = complete && len(mc.es) == len(want)
						for _, e := range mc.es {
							have = append(have, e.k.key()+"→"+f.leaf(s.st, nil, e.v))
						}
						hs := " " + strings.Join(have, " ") + " "
						for i, l := range want {
							okm = okm && strings.Contains(hs, " "+l.addr.key()+"→"+wl[i]+" ")
						}
					}
					c.Check(okm, "hashed leaf under its address", s.name, s.pos(), "gives %v", have)
				}
			}
			// misconfiguration: the pool contract itself among the withdrawal addresses
			for _, v := range []string{"db", "cs"} {
				for i, vs := range [][]tval{{{"v1", "w:pool", v, 1, false}}, {{"v1", "w:a", "db", 1, false}, {"v2", "w:pool", v, 4, false}}} {
					s, _ := c.treeScn(fmt.Sprintf("withdrawal address is the pool's (%s %d)", v, i), vs)
					s.call(gen, mk(s), s.get(".state"))
					s.stops("a pool address among the leaves stops the process")
				}
			}
			// the fee address among the withdrawal addresses: still one leaf per address
			s, f := c.treeScn("fee address withdraws", []tval{{"v1", "w:a", "db", 1, false}, {"v2", "w:fees", "db", 1, false}})
			s.call(gen, mk(s), s.get(".state"))
			if s.clean("fee address withdraws") {
				n := 0
				if len(f.made) == 1 {
					for _, l := range f.made[0].leaves {
						if strings.Contains(l, "w:fees") {
							n++
						}
					}
				}
				c.Check(n == 1, "one leaf per address", "a validator withdraws to the pool fee address", s.pos(), "%d leaves carry the pool fee address: claims on one of them are lost", n)
			}
			// a tree that cannot be built is not ignored
			s, f = c.treeScn("tree library fails", []tval{{"v1", "w:a", "db", 1, false}})
			f.fail = true
			s.call(gen, mk(s), s.get(".state"))
			if !s.st.dead {
				c.Check(s.retAt(3).key() == "false", "library failure gives no tree", s.name, s.pos(), "gives %s", s.ret.key())
			} else {
				c.Ok("library failure gives no tree", 1)
			}
			c.Min("leaves of the tree", 15)
		}})

	register(&Rule{id: "C15", title: "frozen checkpoints", minOblig: 60,
		explain: "Abstract interpretation of FreezeCheckpoint on populations with unknown balances, with and without earlier checkpoints, in both visiting orders: the new entry (under the last processed slot) must hold a copy of every validator field that shares no storage with the live table, the root of the one tree built, its leaves by address, and per address the siblings the tree library proves for that address's own leaf; everything else, earlier checkpoints included, unchanged; too little data freezes nothing and says so. LatestCommitedSlot/State are interpreted on 0-3 checkpoints. Afterwards: every store, map update and delete in the module that can reach a checkpoint is found on the SSA; only the construction of new ones is allowed.",
		assume:  []string{"encoding/gob copies what DeepCopy is given (its types are checked by C13)"},
		run: func(c *Ctx) {
			fz := c.anchor("oracle", "*Oracle", "FreezeCheckpoint")
			ost := c.named("oracle", "OnchainState")
			mt := types.NewMap(types.Typ[types.Uint64], types.NewPointer(ost))
			for _, p := range treePops(c.tier == "thorough") {
				for _, rev := range []bool{false, true} {
					for _, prev := range []int{0, 2} {
						nm := "freeze: " + p.name
						if rev {
							nm += ", visited backwards"
						}
						if prev > 0 {
							nm += ", earlier checkpoints"
						}
						if rev && len(p.vs) < 2 {
							continue
						}
						s, f := c.treeScn(nm, p.vs)
						s.I.reverse = rev
						slot := s.get(".state.LatestProcessedSlot").(*Num)
						s.priorCheckpoints(prev, slot)
						s.begin()
						s.call(fz, s.or)
						want := s.wantLeaves(p.vs)
						if len(want) < 2 {
							if s.effects("too little data freezes nothing") {
								c.Check(s.ret.key() == "false", "too little data is reported", s.name, s.pos(), "gives %s", s.ret.key())
							}
							continue
						}
						if !s.clean("freeze") {
							continue
						}
						if !c.Check(len(f.made) == 1, "one tree", s.name, s.pos(), "%d trees built", len(f.made)) {
							continue
						}
						// expectation
						live := s.mustGet(s.exp, ".state.Validators")
						vt := types.NewMap(types.Typ[types.Uint64], types.NewPointer(c.named("oracle", "ValidatorInfo")))
						cp := s.I.deepCopy(s.exp, s.exp, live, vt, map[string]Val{})
						o := s.I.newObj(s.exp, ost, "expect:checkpoint")
						ck := &Ptr{o, ""}
						pt := types.NewPointer(ost)
						s.I.Put(s.exp, ck, pt, ".Validators", cp)
						s.I.Put(s.exp, ck, pt, ".Slot", slot)
						s.I.Put(s.exp, ck, pt, ".TxHash", strC(""))
						root := &Str{parts: []SPart{{atom: f.made[0].obj.name + ".Root", n: -1}}}
						s.I.Put(s.exp, ck, pt, ".MerkleRoot", catS(strC("0x"), hexOf(root, true)))
						raw := c.named("oracle", "RawLeaf")
						var lk, pk []Val
						for _, l := range want {
							rs := s.I.newObj(s.exp, raw, "expect:leaf")
							s.I.Put(s.exp, &Ptr{rs, ""}, types.NewPointer(raw), ".WithdrawalAddress", l.addr)
							s.I.Put(s.exp, &Ptr{rs, ""}, types.NewPointer(raw), ".AccumulatedBalanceWei", s.I.newBig(s.exp, l.amt, "expect"))
							lk = append(lk, l.addr, s.I.loadLoc(s.exp, rs, "", raw))
							h := leafHash(l.addr, l.amt).key()
							var sib []Val
							for i := 0; i < 2; i++ {
								sib = append(sib, catS(strC("0x"), hexOf(sibling(f.made[0].obj.name, h, i), true)))
							}
							pk = append(pk, l.addr, s.I.mkSlice(s.exp, types.Typ[types.String], sib, "expect"))
						}
						s.I.Put(s.exp, ck, pt, ".Leafs", s.I.NewMap(s.exp, types.NewMap(types.Typ[types.String], raw), lk...))
						s.I.Put(s.exp, ck, pt, ".Proofs", s.I.NewMap(s.exp, types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String])), pk...))
						m := s.mustGet(s.exp, ".state.CommitedStates")
						s.I.mapUpdate(s.exp, m, slot, ck, "expect")
						if !s.effects("frozen checkpoint") {
							continue
						}
						c.Check(s.ret.key() == "true", "freezing is reported", s.name, s.pos(), "gives %s", s.ret.key())
						c.Check(f.made[0].bad == "", "tree configuration", s.name, f.made[0].pos, "%s", f.made[0].bad)
						// privacy
						sh := s.shared(types.NewPointer(s.orT), s.or)
						c.Check(len(sh) == 0, "checkpoint shares no storage", s.name, s.pos(), "%s", strings.Join(sh, "; "))
					}
				}
			}
			// failing proofs never yield a checkpoint
			s, f := c.treeScn("proof library fails", []tval{{"v1", "w:a", "db", 1, false}})
			f.pfail = true
			s.call(fz, s.or)
			if s.st.dead {
				c.Ok("library failure freezes nothing", 1)
			} else if s.effects("library failure freezes nothing") {
				c.Check(s.ret.key() == "false", "library failure is reported", s.name, s.pos(), "gives %s", s.ret.key())
			}
			// latest
			ls := c.anchor("oracle", "*Oracle", "LatestCommitedSlot")
			lst := c.anchor("oracle", "*Oracle", "LatestCommitedState")
			for n := 0; n <= 3; n++ {
				for _, rev := range []bool{false, true} {
					for k, fn := range []*ssa.Function{ls, lst} {
						s, _ := c.treeScn(fmt.Sprintf("%s of %d checkpoints, backwards %v", shortName(fn), n, rev), []tval{{"v1", "w:a", "db", 1, false}})
						s.I.reverse = rev
						s.priorCheckpoints(n, s.get(".state.LatestProcessedSlot").(*Num))
						s.begin()
						s.call(fn, s.or)
						if !s.effects("asking for the latest checkpoint changes nothing") {
							continue
						}
						switch {
						case k == 0 && n == 0:
							c.Check(s.retAt(1).key() == "false", "latest checkpoint", s.name, s.pos(), "gives %s", s.ret.key())
						case k == 0:
							c.Check(s.retAt(1).key() == "true" && s.retAt(0).key() == numAtom(fmt.Sprintf("ck%d", n)).key(), "latest checkpoint", s.name, s.pos(), "gives %s", s.ret.key())
						case n == 0:
							c.Check(isNilV(s.retAt(0)), "latest checkpoint", s.name, s.pos(), "gives %s", s.ret.key())
						default:
							v, err := s.I.Get(s.st, s.retAt(0), types.NewPointer(ost), ".Slot")
							c.Check(err == nil && v.key() == numAtom(fmt.Sprintf("ck%d", n)).key(), "latest checkpoint", s.name, s.pos(), "gives %s", s.ret.key())
						}
					}
				}
			}
			_ = mt
			c.immutableCheckpoints()
		}})
}

// priorCheckpoints: n earlier checkpoints at ascending unknown slots ck1 < ... < ckn < slot
func (s *Scn) priorCheckpoints(n int, slot *Num) {
	ost := s.c.named("oracle", "OnchainState")
	var kv []Val
	for i := 1; i <= n; i++ {
		k := s.positive(fmt.Sprintf("ck%d", i))
		s.u64(fmt.Sprintf("ck%d", i))
		s.sign(k, mPos)
		s.less(k, slot)
		for j := 1; j < i; j++ {
			s.less(numAtom(fmt.Sprintf("ck%d", j)), k)
		}
		p := s.mkT(ost, "checkpoint", map[string]Val{".Slot": k, ".MerkleRoot": strAtom(fmt.Sprintf("root%d", i)), ".TxHash": strC(""),
			".Validators": s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(s.c.named("oracle", "ValidatorInfo"))), s.u64("old"), s.val("old", 1))})
		kv = append(kv, k, p)
	}
	// listed in no particular order
	if len(kv) == 6 {
		kv = []Val{kv[2], kv[3], kv[4], kv[5], kv[0], kv[1]}
	}
	s.put(".state.CommitedStates", s.I.NewMap(s.st, types.NewMap(types.Typ[types.Uint64], types.NewPointer(ost)), kv...))
}

// shared lists storage (objects behind pointers, maps, lists) that two places reach,
// one of them belonging to a checkpoint.
func (s *Scn) shared(t types.Type, roots ...Val) []string {
	at := map[string][]string{}
	var walk func(v Val, t types.Type, path string, d int)
	walk = func(v Val, t types.Type, path string, d int) {
		v = s.I.res(s.st, v)
		if d > 14 {
			return
		}
		switch x := v.(type) {
		case *Iface:
			walk(x.v, x.t, path, d)
		case *Ptr:
			pt, ok := under(t).(*types.Pointer)
			if !ok {
				return
			}
			at[x.key()] = append(at[x.key()], path)
			if isBig(pt.Elem()) || opaqueStruct(pt.Elem()) {
				return
			}
			if !x.o.fresh && x.path == "" && !strings.HasPrefix(fnPkgOf(pt.Elem()), modPath) {
				return
			}
			walk(s.I.loadLoc(s.st, x.o, x.path, pt.Elem()), pt.Elem(), path, d+1)
		case *Struct:
			st, ok := under(t).(*types.Struct)
			if !ok {
				return
			}
			for i := range x.f {
				walk(x.f[i], st.Field(i).Type(), path+"."+st.Field(i).Name(), d+1)
			}
		case *SliceV:
			sl, ok := under(t).(*types.Slice)
			if !ok {
				return
			}
			at["slice:"+x.o.name] = append(at["slice:"+x.o.name], path)
			es, _ := s.I.elems(s.st, x, sl.Elem())
			for i, e := range es {
				walk(e, sl.Elem(), fmt.Sprintf("%s[%d]", path, i), d+1)
			}
		case *MapV:
			m, ok := under(t).(*types.Map)
			if !ok {
				return
			}
			at["map:"+x.o.name] = append(at["map:"+x.o.name], path)
			mc, _ := s.I.mapOf(s.st, x.o)
			for _, e := range mc.es {
				walk(e.v, m.Elem(), path+"["+e.k.key()+"]", d+1)
			}
		}
	}
	for _, r := range roots {
		walk(r, t, "", 0)
	}
	var out []string
	for _, ps := range at {
		in := false
		for _, p := range ps {
			in = in || strings.Contains(p, "CommitedStates[")
		}
		if in && len(ps) > 1 {
			sort.Strings(ps)
			out = append(out, strings.Join(ps, " and ")+" are one object")
		}
	}
	sort.Strings(out)
	return out
}

// immutableCheckpoints: no instruction of the module changes an existing checkpoint or
// removes one from the table.
func (c *Ctx) immutableCheckpoints() {
	ost := c.named("oracle", "OnchainState")
	oss := c.named("oracle", "OracleState")
	isT := func(t types.Type, n types.Type) bool {
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(types.Unalias(t), n)
	}
	// made here: every origin of the value is an allocation in this function
	var made func(v ssa.Value, seen map[ssa.Value]bool) bool
	made = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !made(e, seen) {
					return false
				}
			}
			return true
		case *ssa.FieldAddr:
			return made(x.X, seen)
		case *ssa.Const:
			return true
		}
		return false
	}
	fieldOf := func(v ssa.Value) (types.Type, string, ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if f, ok := v.(*ssa.FieldAddr); ok {
			st := deref(f.X.Type())
			return st, under(st).(*types.Struct).Field(f.Field).Name(), f.X
		}
		if f, ok := v.(*ssa.Field); ok {
			return f.X.Type(), under(f.X.Type()).(*types.Struct).Field(f.Field).Name(), f.X
		}
		return nil, "", nil
	}
	n := 0
	put := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					t, f, base := fieldOf(x.Addr)
					if t == nil {
						if isT(x.Addr.Type(), ost) {
							n++
							c.Check(made(x.Addr, map[ssa.Value]bool{}), "checkpoints are not overwritten", shortName(fn), c.P.posOf(ins), "an existing checkpoint is overwritten")
						}
						continue
					}
					if isT(t, ost) {
						n++
						c.Check(made(base, map[ssa.Value]bool{}), "checkpoints are not modified", shortName(fn)+" stores "+f, c.P.posOf(ins), "field %s of an existing checkpoint is changed", f)
					}
					if isT(t, oss) && f == "CommitedStates" {
						n++
						c.Check(made(base, map[ssa.Value]bool{}), "the table of checkpoints is not replaced", shortName(fn), c.P.posOf(ins), "the table of checkpoints is replaced")
					}
				case *ssa.MapUpdate:
					t, f, base := fieldOf(x.Map)
					if t != nil && isT(t, ost) {
						n++
						c.Check(made(base, map[ssa.Value]bool{}), "checkpoints are not modified", shortName(fn)+" updates "+f, c.P.posOf(ins), "map %s of an existing checkpoint is changed", f)
					}
					if isT(under(x.Map.Type()).(*types.Map).Elem(), ost) {
						put++
						c.Check(shortName(fn) == "oracle.(*Oracle).FreezeCheckpoint" || c.calledOnlyFrom(fn, "FreezeCheckpoint"), "checkpoints are added by FreezeCheckpoint only", shortName(fn), c.P.posOf(ins), "%s puts an entry into the table of checkpoints", shortName(fn))
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m, isM := under(x.Call.Args[0].Type()).(*types.Map)
						if isM && isT(m.Elem(), ost) {
							c.Fail("checkpoints are not removed", shortName(fn), c.P.posOf(ins), "%s removes checkpoints", shortName(fn))
						}
						if t, f, base := fieldOf(x.Call.Args[0]); t != nil && isT(t, ost) {
							c.Check(made(base, map[ssa.Value]bool{}), "checkpoints are not modified", shortName(fn)+" deletes from "+f, c.P.posOf(ins), "an entry of %s of an existing checkpoint is removed", f)
						}
					}
				}
			}
		}
	}
	c.Check(n >= 1 && put >= 1, "construction of checkpoints found", "module", "-", "found %d stores and %d insertions", n, put)
}

// calledOnlyFrom: every static caller of fn (transitively) ends in the named method
func (c *Ctx) calledOnlyFrom(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if f.Name() == name {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return up(f.Parent())
		}
		any := false
		for _, g := range c.P.Funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, op := range ins.Operands(nil) {
						if *op == ssa.Value(f) {
							if ci.Common().StaticCallee() != f {
								return false
							}
							any = true
							if !up(g) {
								return false
							}
						}
					}
				}
			}
		}
		return any
	}
	return up(fn)
}
