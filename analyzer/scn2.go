package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---- regions: all slots of a network between two fork boundaries

type region struct {
	net    string
	name   string
	lo     int64
	hi     int64 // 0: no upper end
	method string
	clean  bool // cleanup applies
	cons   bool // consolidations are looked up
}

// The documented boundaries (the oracle of C03, C04, C09).
var regions = []region{
	{"mainnet", "before fork 1", 0, 10188219, "prefork1", false, false},
	{"mainnet", "at fork 1 up to Electra", 10188220, 11649023, "fork1", true, false},
	{"mainnet", "from Electra on", 11649024, 0, "electra", true, true},
	{"holesky", "before fork 1", 0, 2720631, "prefork1", false, false},
	{"holesky", "from fork 1 on", 2720632, 0, "fork1", true, false},
	{"hoodi", "before fork 1", 0, 0, "prefork1", false, false},
	{"hoodi", "at fork 1 up to Electra", 1, 65535, "fork1", true, false},
	{"hoodi", "from Electra on", 65536, 0, "electra", true, true},
}

func init() { regions[5].hi = -1 } // the single slot 0

var eb53 = big.NewInt(1 << 53)

// the first slots and last slots of each region, and the whole region
func (s *Scn) region(r region) *Num {
	s.network(r.net)
	var n *Num
	if r.hi == -1 {
		n = numI(0)
		s.I.init["or.state.NextSlotToProcess"] = n
		return n
	}
	var hi *big.Int
	if r.hi > 0 {
		hi = big.NewInt(r.hi)
	} else {
		hi = new(big.Int).Lsh(big.NewInt(1), 62)
	}
	n = s.I.Range("or.state.NextSlotToProcess", r.lo, hi)
	return n
}

// fee: the pool's cut, any value from 0 to 10000
func (s *Scn) fee() *Num {
	f := s.I.Range("or.state.PoolFeesPercentOver10000", 0, big.NewInt(10000))
	return f
}

// ---- answers of the beacon node, as the hooks give them

type beacon struct {
	s      *Scn
	vals   map[string]*Ptr // index key -> *v1.Validator
	slot   *Num            // the slot that must be asked for
	asks   int
	wrong  []string
	pend   [][2]*Num // pending consolidations: source, target
	consN  int
	noCons bool // consolidations must not be asked for
	fail   bool
	failC  bool
}

const v1pkg = "github.com/attestantio/go-eth2-client/api/v1"
const p0pkg = "github.com/attestantio/go-eth2-client/spec/phase0"

// bval makes a beacon validator
func (s *Scn) bval(idx *Num, status int64, creds *Str, eb *Num, key *Str) *Ptr {
	t := s.c.named(v1pkg, "Validator")
	it := s.c.named(p0pkg, "Validator")
	in := s.mkT(it, "phase0.Validator", map[string]Val{
		".WithdrawalCredentials": creds,
		".PublicKey":             key,
		".EffectiveBalance":      eb,
	})
	return s.mkT(t, "v1.Validator", map[string]Val{
		".Index":     idx,
		".Status":    numI(status),
		".Validator": in,
	})
}

func credsOf(prefix byte, cls string) *Str {
	return catS(strC(string([]byte{prefix})+strings.Repeat("\x00", 11)), addrBytes(cls))
}

// beacon knows the given validators as active with positive balances
func (s *Scn) beacon(names ...string) *beacon {
	b := &beacon{s: s, vals: map[string]*Ptr{}, slot: numAtom("or.state.NextSlotToProcess")}
	if v, ok := s.I.init["or.state.NextSlotToProcess"].(*Num); ok {
		b.slot = v
	}
	for _, n := range names {
		b.add(n, 3)
	}
	s.I.hook = b.hook
	return b
}

func (b *beacon) add(n string, status int64) *beacon {
	s := b.s
	eb := s.I.Range("eb:"+n, 1, big.NewInt(1<<53))
	b.vals[numAtom(n).key()] = s.bval(numAtom(n), status, credsOf(1, "w:"+n), eb, keyBytes("k:"+n))
	return b
}

func (b *beacon) hook(c *Call) (Val, bool) {
	if !strings.HasPrefix(c.name, "dynamic:") || c.sig == nil || c.sig.Results().Len() != 2 {
		return nil, false
	}
	rt := types.TypeString(types.Unalias(c.sig.Results().At(0).Type()), nil)
	switch {
	case strings.HasSuffix(rt, "phase0.ValidatorIndex]*"+v1pkg+".Validator"):
		b.asks++
		b.checkSlot(c, "beacon validators", c.args[1])
		if b.fail {
			return tup(VNil{}, errSym("beacon request failed")), true
		}
		es, ok := b.s.I.elems(c.st, b.s.I.res(c.st, c.args[0]), under(c.sig.Params().At(0).Type()).(*types.Slice).Elem())
		if !ok {
			panic(undecided("validators requested from the beacon node are unknown: " + c.args[0].key()))
		}
		var kv []Val
		for _, e := range es {
			if v := b.vals[b.s.I.res(c.st, e).key()]; v != nil {
				kv = append(kv, e, v)
			}
		}
		return tup(b.s.I.NewMap(c.st, c.sig.Results().At(0).Type(), kv...), VNil{}), true
	case strings.HasSuffix(rt, "oracle.PendingConsolidationsResponse"):
		b.consN++
		if b.noCons {
			b.wrong = append(b.wrong, "pending consolidations are consulted at "+c.pos)
		}
		b.checkSlot(c, "pending consolidations", c.args[0])
		if b.failC {
			return tup(VNil{}, errSym("consolidations request failed")), true
		}
		pt := types.Unalias(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
		o := b.s.I.newObj(c.st, pt, "consolidations")
		p := &Ptr{o, ""}
		l, err := b.s.I.walk(c.st, p, types.NewPointer(pt), ".Data")
		if err != nil {
			panic(undecided(err.Error()))
		}
		et := under(l.t).(*types.Slice).Elem()
		var es []Val
		for _, pr := range b.pend {
			eo := b.s.I.newObj(c.st, deref2(et), "consolidation")
			ep := &Ptr{eo, ""}
			b.s.I.Put(c.st, ep, types.NewPointer(deref2(et)), ".SourceIndex", pr[0])
			b.s.I.Put(c.st, ep, types.NewPointer(deref2(et)), ".TargetIndex", pr[1])
			if _, isP := under(et).(*types.Pointer); isP {
				es = append(es, ep)
			} else {
				es = append(es, b.s.I.loadLoc(c.st, eo, "", et))
			}
		}
		b.s.I.store(c.st, l.addr, l.t, b.s.I.mkSlice(c.st, et, es, "consolidations"), "hook")
		return tup(p, VNil{}), true
	}
	return nil, false
}

func deref2(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (b *beacon) checkSlot(c *Call, what string, v Val) {
	want := b.s.I.decS(b.slot)
	if got := b.s.I.res(c.st, v); got.key() != want.key() {
		b.wrong = append(b.wrong, fmt.Sprintf("%s are requested for %s instead of the slot being processed (%s), at %s", what, got.key(), want.key(), c.pos))
	}
}

func (b *beacon) check(rule string) bool {
	if len(b.wrong) > 0 {
		b.s.fail(rule, "%s", strings.Join(uniqStrs(b.wrong), "; "))
		return false
	}
	return true
}

// ---- demanded effects on the expected state

func (s *Scn) xKeys() []string {
	ks, err := s.I.Keys(s.exp, s.or, types.NewPointer(s.orT), ".state.Validators")
	if err != nil {
		panic(undecided(err.Error()))
	}
	return ks
}
func vp(v, f string) string { return ".state.Validators[" + v + "]." + f }

func (s *Scn) xStatus(v string) int64 {
	n, ok := s.mustGet(s.exp, vp(v, "ValidatorStatus")).(*Num).p.isConst()
	if !ok {
		panic(undecided("status of " + v + " is not a constant"))
	}
	return n.Int64()
}
func (s *Scn) xTracked(v string) bool {
	for _, k := range s.xKeys() {
		if k == v {
			return true
		}
	}
	return false
}
func (s *Scn) xSubscribed(v string) bool {
	if !s.xTracked(v) {
		return false
	}
	st := s.xStatus(v)
	return st != 0 && st != 4 && st != 5
}
func (s *Scn) xAdvance(v string, ev int64) {
	s.expPut(vp(v, "ValidatorStatus"), numI(smNext(s.xStatus(v), ev)))
}
func (s *Scn) xEligible() []string {
	var r []string
	for _, k := range s.xKeys() {
		if st := s.xStatus(k); st == 1 || st == 2 {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}
func (s *Scn) xPool(n *Num)                 { s.expAdd(".state.PoolAccumulatedFees", n) }
func (s *Scn) xPending(v string) *Num       { return s.expGet(vp(v, "PendingRewardsWei")) }
func (s *Scn) xAddPending(v string, n *Num) { s.expAdd(vp(v, "PendingRewardsWei"), n) }
func (s *Scn) xAddAcc(v string, n *Num)     { s.expAdd(vp(v, "AccumulatedRewardsWei"), n) }
func (s *Scn) xReset(v string)              { s.expPut(vp(v, "PendingRewardsWei"), numI(0)) }
func (s *Scn) xConsolidate(v string) {
	s.xAddAcc(v, s.xPending(v))
	s.xReset(v)
}

// xNew adds a tracked validator to the expected state.
func (s *Scn) xNew(idx *Num, f map[string]Val) {
	t := s.c.named("oracle", "ValidatorInfo")
	o := s.I.newObj(s.exp, t, "expect")
	p := &Ptr{o, ""}
	for _, k := range []string{".AccumulatedRewardsWei", ".PendingRewardsWei", ".CollateralWei"} {
		s.I.Put(s.exp, p, types.NewPointer(t), k, numI(0))
	}
	s.I.Put(s.exp, p, types.NewPointer(t), ".ValidatorIndex", idx)
	for k, v := range f {
		s.I.Put(s.exp, p, types.NewPointer(t), k, v)
	}
	s.I.mapUpdate(s.exp, s.mustGet(s.exp, ".state.Validators"), idx, p, "expect")
}

// xShare credits R by the documented split of the region.
func (s *Scn) xShare(R *Num, method string) {
	el := s.xEligible()
	if len(el) == 0 {
		s.xPool(R)
		return
	}
	div := func(a, b *Num) *Num { return s.I.div(s.exp, a, b) }
	fee := s.expGet(".state.PoolFeesPercentOver10000")
	over := numI(10000)
	cut := div(nMul(R, fee), over)
	rest := nSub(R, cut)
	fees := cut
	n := numI(int64(len(el)))
	switch method {
	case "prefork1":
		rem1 := nSub(nMul(R, fee), nMul(over, cut))
		rest = nSub(rest, rem1)
		fees = nAdd(fees, rem1)
		fallthrough
	case "fork1":
		per := div(rest, n)
		for _, v := range el {
			s.xAddPending(v, per)
		}
		fees = nAdd(fees, nSub(rest, nMul(per, n)))
	case "electra":
		tot := numI(0)
		for _, v := range el {
			tot = nAdd(tot, numAtom("eb:"+v))
		}
		sum := numI(0)
		for _, v := range el {
			sh := div(nMul(rest, numAtom("eb:"+v)), tot)
			s.xAddPending(v, sh)
			sum = nAdd(sum, sh)
		}
		fees = nAdd(fees, nSub(rest, sum))
	}
	s.xPool(fees)
}

func typesPtr(t types.Type) types.Type { return types.NewPointer(t) }

func names(vs []vst) []string {
	var r []string
	for _, v := range vs {
		r = append(r, v.n)
	}
	return r
}
func popName(vs []vst) string {
	var r []string
	for _, v := range vs {
		r = append(r, stNames[v.st])
	}
	return strings.Join(r, ",")
}
