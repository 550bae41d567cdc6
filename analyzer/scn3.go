package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- events and blocks of a scenario

type bval struct { // a beacon validator of the entry state
	idx    *Num
	status int64
	creds  string // bls, eth1, electra, bad3, badpad, badpad2
	wcls   string // class of its withdrawal address
	key    string
	eb     *Num
	ptr    *Ptr
}

func credStr(kind, wcls string) *Str {
	switch kind {
	case "eth1":
		return credsOf(1, wcls)
	case "electra":
		return credsOf(2, wcls)
	case "bls":
		return catS(strC("\x00"), &Str{parts: []SPart{{atom: "b:bls:" + wcls, n: 31}}})
	case "bad3":
		return credsOf(3, wcls)
	case "badpad":
		return catS(strC("\x01\x00\x00\x00\x07\x00\x00\x00\x00\x00\x00\x00"), addrBytes(wcls))
	case "badpad2":
		return catS(strC("\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01"), addrBytes(wcls))
	}
	panic("creds " + kind)
}
func okCreds(kind string) bool { return kind == "eth1" || kind == "electra" }

// the withdrawal address and key as the oracle writes them from beacon data
func beaconAddr(wcls string) *Str { return catS(strC("0x"), hexOf(addrBytes(wcls), true)) }
func beaconKey(kcls string) *Str  { return catS(strC("0x"), hexOf(keyBytes(kcls), true)) }

func (s *Scn) bv(name string, status int64, creds, wcls string) *bval {
	s.I.Uniq(wcls, "k:"+name)
	b := &bval{idx: numAtom(name), status: status, creds: creds, wcls: wcls, key: "k:" + name, eb: numAtom("eb:" + name)}
	s.I.Range("eb:"+name, 1, eb53)
	b.ptr = s.bval(b.idx, status, credStr(creds, wcls), b.eb, keyBytes(b.key))
	return b
}

type event struct {
	kind   string
	idx    *Num
	amount *Num
	sender string // class of the sender's address
	block  *Num
	val    *bval // beacon validator handed over (nil: does not exist)
	ptr    *Ptr
}

var kindHasSender = map[string]bool{"sub": true, "unsub": true, "ether": true}

// order declares the named indices pairwise distinct, in this order
func (s *Scn) order(vs ...string) {
	for i := range vs {
		s.u64(vs[i])
		for j := 0; j < i; j++ {
			s.less(numAtom(vs[j]), numAtom(vs[i]))
		}
	}
}

func (s *Scn) ev(e event) *event {
	r := &e
	if r.block == nil {
		r.block = s.u64("blk")
	}
	f := map[string]Val{".Raw.BlockNumber": r.block}
	if r.sender != "" && kindHasSender[r.kind] {
		s.I.Uniq(r.sender)
		f[".Sender"] = addrBytes(r.sender)
	}
	T := ""
	switch r.kind {
	case "sub":
		T = "ContractSubscribeValidator"
		f[".ValidatorID"], f[".SubscriptionCollateral"] = r.idx, r.amount
	case "unsub":
		T = "ContractUnsubscribeValidator"
		f[".ValidatorID"] = r.idx
	case "ether":
		T = "ContractEtherReceived"
		f[".DonationAmount"] = r.amount
	case "ban":
		T = "ContractBanValidator"
		f[".ValidatorID"] = r.idx
	case "unban":
		T = "ContractUnbanValidator"
		f[".ValidatorID"] = r.idx
	}
	r.ptr = s.mk("contract", T, f)
	return r
}

// slice of values of element type et
func (s *Scn) slice(et types.Type, vs ...Val) Val { return s.I.mkSlice(s.st, et, vs, "entrylist") }

func (s *Scn) evs(T string, es []*event) Val {
	var vs []Val
	for _, e := range es {
		vs = append(vs, e.ptr)
	}
	return s.slice(types.NewPointer(s.c.named("contract", T)), vs...)
}
func (s *Scn) bvs(es []*event) Val {
	var vs []Val
	for _, e := range es {
		if e.val == nil {
			vs = append(vs, VNil{})
		} else {
			vs = append(vs, e.val.ptr)
		}
	}
	return s.slice(types.NewPointer(s.c.named(v1pkg, "Validator")), vs...)
}

// ---- demanded effects

func (s *Scn) signOf(n *Num) int { return s.I.mask(s.exp, n.p) }

// xSub applies one subscription event.
func (s *Scn) xSub(e *event) {
	v := e.idx.key()
	switch {
	case e.val == nil,
		!(e.val.status == 1 || e.val.status == 2 || e.val.status == 3),
		!okCreds(e.val.creds),
		e.sender != e.val.wcls:
		s.xPool(e.amount)
		return
	}
	if s.xTracked(v) && s.xStatus(v) == 5 || s.xSubscribed(v) {
		s.xAddAcc(v, e.amount)
		return
	}
	d := nSub(e.amount, s.expGet(".state.CollateralInWei"))
	switch m := s.signOf(d); {
	case m == mNeg:
		s.xPool(e.amount)
		return
	case m&mNeg != 0:
		panic(undecided("scenario leaves the collateral comparison open"))
	}
	if !s.xTracked(v) {
		s.xNew(e.idx, map[string]Val{
			".ValidatorStatus":   numI(4),
			".CollateralWei":     e.amount,
			".WithdrawalAddress": beaconAddr(e.val.wcls),
			".ValidatorKey":      beaconKey(e.val.key),
		})
	}
	s.expPut(vp(v, "SubscriptionType"), numI(0))
	s.xAddPending(v, e.amount)
	s.xAdvance(v, 4)
}

func (s *Scn) xUnsub(e *event, method string) {
	v := e.idx.key()
	if e.val == nil || !okCreds(e.val.creds) || e.sender != e.val.wcls || !s.xSubscribed(v) {
		return
	}
	s.xAdvance(v, 6)
	s.xShare(s.xPending(v), method)
	s.xReset(v)
}

func (s *Scn) xBans(es []*event, method string) {
	tot := numI(0)
	for _, e := range es {
		v := e.idx.key()
		if !s.xSubscribed(v) {
			continue
		}
		s.xAdvance(v, 7)
		tot = nAdd(tot, s.xPending(v))
		s.xReset(v)
	}
	if tot.key() != "0" {
		s.xShare(tot, method)
	}
}

func (s *Scn) xUnbans(es []*event) {
	for _, e := range es {
		v := e.idx.key()
		if s.xTracked(v) && s.xStatus(v) == 5 {
			s.xAdvance(v, 8)
		}
	}
}

func (s *Scn) xDonations(es []*event, method string) {
	for _, e := range es {
		s.xShare(e.amount, method)
		s.expAppend(".state.Donations", e.ptr)
	}
}

// summarised block
type sblock struct {
	typ    int64
	idx    *Num
	reward *Num
	wcls   string
	key    string
	val    Val // oracle.SummarizedBlock
}

func (s *Scn) sblock(typ int64, idx *Num, R *Num, wcls string) *sblock {
	t := s.c.named("oracle", "SummarizedBlock")
	s.I.Uniq(wcls, "k:"+idx.key())
	p := s.mkT(t, "SummarizedBlock", map[string]Val{
		".Slot":              s.slotNow(),
		".Block":             s.u64("blk"),
		".ValidatorIndex":    idx,
		".ValidatorKey":      keyStr("k:" + idx.key()),
		".BlockType":         numI(typ),
		".Reward":            R,
		".RewardType":        numI(2),
		".WithdrawalAddress": beaconAddr(wcls),
	})
	return &sblock{typ: typ, idx: idx, reward: R, wcls: wcls, key: "k:" + idx.key(), val: s.I.loadLoc(s.st, p.o, "", t)}
}

func (s *Scn) slotNow() *Num {
	if v, ok := s.I.init["or.state.NextSlotToProcess"].(*Num); ok {
		return v
	}
	return numAtom("or.state.NextSlotToProcess")
}

func (s *Scn) xAutoSub(b *sblock) {
	v := b.idx.key()
	switch {
	case !s.xTracked(v):
		s.xNew(b.idx, map[string]Val{
			".ValidatorStatus":   numI(4),
			".WithdrawalAddress": beaconAddr(b.wcls),
			".ValidatorKey":      keyStr(b.key),
			".SubscriptionType":  numI(1),
		})
		s.xAdvance(v, 5)
	case !s.xSubscribed(v):
		s.xAdvance(v, 5)
		if s.xStatus(v) != 5 {
			s.expPut(vp(v, "SubscriptionType"), numI(1))
		}
	}
}

// xProposal applies the outcome of a proposal.
func (s *Scn) xProposal(b *sblock, method string) {
	v := b.idx.key()
	switch b.typ {
	case 1:
		if s.xSubscribed(v) {
			s.xAdvance(v, 2)
			s.expAppend(".state.MissedBlocks", b.val)
		}
	case 2:
		if s.xSubscribed(v) {
			s.xAdvance(v, 3)
			s.xShare(s.xPending(v), method)
			s.xReset(v)
			s.expAppend(".state.WrongFeeBlocks", b.val)
		}
	case 3:
		s.xAutoSub(b)
		s.xAdvance(v, 1)
		s.xShare(b.reward, method)
		s.xConsolidate(v)
		s.expAppend(".state.ProposedBlocks", b.val)
	case 4:
		s.xPool(b.reward)
		s.expAppend(".state.ProposedBlocks", b.val)
	}
}

// cleanup: beacon statuses and pending consolidations by index key
type cleanup struct {
	status map[string]int64
	cons   map[string]string
	target map[string]*bval
}

func (s *Scn) xCleanup(r region, cl *cleanup) {
	if !r.clean {
		return
	}
	tot := numI(0)
	for _, v := range s.xKeys() {
		st, ok := cl.status[v]
		if !ok || st == 3 || st == 4 || st == 5 {
			continue
		}
		p := s.xPending(v)
		if s.signOf(p) == mZero {
			continue
		}
		if s.signOf(p)&mZero != 0 {
			panic(undecided("scenario leaves open whether " + v + " has pending balance"))
		}
		s.xAdvance(v, 6)
		t, has := cl.cons[v]
		if !r.cons {
			has = false
		}
		switch {
		case has && s.xTracked(t) && s.xStatus(t) != 5:
			s.xAddPending(t, p)
		case has && !s.xTracked(t):
			b := cl.target[t]
			s.xNew(b.idx, map[string]Val{
				".ValidatorStatus":   numI(4),
				".PendingRewardsWei": p,
				".WithdrawalAddress": beaconAddr(b.wcls),
				".ValidatorKey":      beaconKey(b.key),
				".SubscriptionType":  numI(0),
			})
		default:
			tot = nAdd(tot, p)
		}
		s.xReset(v)
	}
	if tot.key() != "0" {
		s.xShare(tot, r.method)
	}
}

func pname(v string, st int64) string {
	if st < 0 {
		return v + " untracked"
	}
	return fmt.Sprintf("%s %s", v, stNames[st])
}

func joinEv(es ...string) string { return strings.Join(es, ", ") }
