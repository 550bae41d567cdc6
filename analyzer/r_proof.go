package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Rule{id: "C17", title: "claim proofs are served only for the root that is on chain",
		explain: "the handler of /onchain/proof/{withdrawalAddress} is interpreted on a state with two checkpoints (and with none) whose roots, leafs, proofs, validators and amounts are unknown, for every relation of the contract's slot (each checkpoint, before, between, after them) and root (each checkpoint's, another, the initial one) to them, for requests of an address with leaf and proof, with only one of them and with neither, in any letter case, and for each node question failing: it must answer 200 exactly when slot and root are those of one checkpoint that holds leaf and proof, and every field must come from that checkpoint (claimable: leaf minus claimed at the head), an error answer must carry no proof.",
		run:     runC17, minOblig: 150})
}

type proofCase struct {
	slot, root string // "c0","c1","other slot" class; root:...
	miss       string // "", "leaf", "proof", "both"
	fail       string
}

// slotAt is a number in the given class relative to the checkpoints' slots
func (w *apiWorld) slotAt(cls string) *Num {
	s := w.s
	if cls == "c0" || cls == "c1" {
		return numAtom(cls)
	}
	x := s.u64("cs")
	switch cls {
	case "before":
		s.less(x, numAtom("c0"))
		s.less(x, numAtom("c1"))
	case "between":
		s.less(numAtom("c0"), x)
		s.less(x, numAtom("c1"))
	case "after":
		s.less(numAtom("c0"), x)
		s.less(numAtom("c1"), x)
	case "zero":
		return numI(0)
	}
	return x
}

func runC17(c *Ctx) {
	const r1, r2, r3, r4 = "served exactly for the root on chain", "fields of the one checkpoint", "refused: no proof", "a failing node is an error"
	c.answersAgain("an earlier answer is not given again", "/onchain/proof/{withdrawalAddress}")
	var cases []proofCase
	for _, sl := range []string{"c0", "c1", "before", "between", "after", "zero"} {
		for _, rt := range []string{"c0", "c1", "other", "initial"} {
			cases = append(cases, proofCase{slot: sl, root: rt})
		}
	}
	for _, sl := range []string{"c0", "c1"} {
		for _, m := range []string{"leaf", "proof", "both", "validators"} {
			cases = append(cases, proofCase{slot: sl, root: sl, miss: m})
		}
		for _, f := range []string{"LastConsolidatedSlot", "RewardsRoot", "ClaimedBalance", "BeaconBlockHeader"} {
			cases = append(cases, proofCase{slot: sl, root: sl, fail: f})
		}
	}
	cases = append(cases, proofCase{slot: "c1", root: "c1", miss: "checkpoints"}, proofCase{slot: "zero", root: "initial", miss: "checkpoints"})
	for _, k := range cases {
		for _, mixed := range []bool{true, false} {
			c.proofOne(k, mixed, r1, r2, r3, r4)
		}
	}
	c.Min(r1, 8)
	c.Min(r2, 40)
	c.Min(r3, 20)
	c.Min(r4, 8)
}

func (c *Ctx) proofOne(k proofCase, mixed bool, r1, r2, r3, r4 string) {
	path := "/onchain/proof/{withdrawalAddress}"
	w := c.apiScn(fmt.Sprintf("GET %s, contract at slot %s with root %s, missing %q, failing %q, any letter case: %v", path, k.slot, k.root, k.miss, k.fail, mixed))
	s := w.s
	I := s.I
	sl := w.slotAt(k.slot)
	root := &Str{parts: []SPart{{atom: "b:root:" + k.root, n: 32}}}
	I.Uniq("b:root:other", "b:root:c0", "b:root:c1", "root:other")
	if k.root == "initial" {
		z := []byte{}
		for i := 0; i < 32; i++ {
			z = append(z, 0)
		}
		root = strC(string(z))
	}
	w.n.ans["LastConsolidatedSlot"] = func(*Call) Val { return tup(sl, VNil{}) }
	w.n.ans["RewardsRoot"] = func(*Call) Val { return tup(root, VNil{}) }
	key := lowerS(addrStr("a", "x"))
	switch k.miss {
	case "leaf", "proof":
		w.miss[k.miss+"@"+k.slot] = true
	case "both":
		w.miss["leaf@"+k.slot], w.miss["proof@"+k.slot] = true, true
	case "checkpoints":
		w.miss["c0"], w.miss["c1"] = true, true
	}
	w.checkpoints()
	if k.miss == "validators" { // a leaf, but no validator any more
		for _, v := range []string{"v0", "v2"} {
			s.put(".state.CommitedStates["+k.slot+"].Validators["+v+"].WithdrawalAddress", addrStr("other", "moved"+v))
		}
	}
	if k.fail != "" {
		w.n.fail[k.fail] = -1
	}
	I.Range("claimed("+addrBytes("a").key()+",latest)", 0, nil)
	w.request(path, "")
	if !mixed {
		w.vars["withdrawalAddress"] = lowerS(addrStr("a", "x"))
	}
	s.begin()
	w.get(path)
	if k.fail != "" {
		if s.clean(r4) {
			code, body, prob := w.answer()
			c.Check(prob == "" && code >= 400 && w.onlyMessage(body), r4, s.name, s.pos(), "answers %d %v %s", code, body, prob)
		}
		return
	}
	rule := r3
	served := (k.slot == "c0" || k.slot == "c1") && k.root == k.slot && (k.miss == "" || k.miss == "validators")
	if served {
		rule = r1
	}
	if !s.clean(rule) {
		return
	}
	code, body, prob := w.answer()
	if prob != "" {
		s.fail(rule, "%s", prob)
		return
	}
	if !served {
		c.Check(code >= 400 && w.onlyMessage(body), rule, s.name, s.pos(), "answers %d %v, the property demands an error: the contract's root is not that of a checkpoint holding leaf and proof", code, body)
		return
	}
	if !c.Check(code == 200, rule, s.name, s.pos(), "answers %d %v, the property demands the proof", code, body) {
		return
	}
	leaf := numAtom("leaf:a@" + k.slot)
	claimed := numAtom("claimed(" + addrBytes("a").key() + ",latest)")
	pend := nAdd(numAtom("v0.pend@"+k.slot), numAtom("v2.pend@"+k.slot))
	vals := []string{"v0", "v2"}
	if k.miss == "validators" {
		pend, vals = numI(0), nil
	}
	want := map[string]string{
		".leaf_withdrawal_address":       key.key(),
		".leaf_accumulated_balance":      I.decS(leaf).key(),
		".merkleroot":                    w.rootStr(k.slot).key(),
		".checkpoint_slot":               k.slot,
		".merkle_proofs.#":               "2",
		".merkle_proofs[0]":              strAtom("proof0:a@" + k.slot).key(),
		".merkle_proofs[1]":              strAtom("proof1:a@" + k.slot).key(),
		".registered_validators.#":       fmt.Sprint(len(vals)),
		".total_accumulated_rewards_wei": I.decS(leaf).key(),
		".claimable_rewards_wei":         I.decS(nSub(leaf, claimed)).key(),
		".already_claimed_rewards_wei":   I.decS(claimed).key(),
		".pending_rewards_wei":           I.decS(pend).key(),
	}
	var got []string
	for i := range vals { // in any order
		x := fmt.Sprintf(".registered_validators[%d]", i)
		got = append(got, body[x])
		delete(body, x)
	}
	sort.Strings(got)
	c.Check(strings.Join(got, ",") == strings.Join(vals, ","), r2, s.name+": .registered_validators", s.pos(), "registered_validators are %v, those of the checkpoint are %v", got, vals)
	for f, x := range want {
		c.Check(body[f] == x, r2, s.name+": "+f, s.pos(), "%s is %s, the property demands %s", f[1:], body[f], x)
	}
	for f, x := range body {
		if want[f] == "" {
			c.Fail(r2, s.name+": "+f, s.pos(), "unknown field %s = %s", f, x)
		}
	}
	s.effects("the oracle's state is untouched")
}

// onlyMessage: an error answer carries a code and a message
func (w *apiWorld) onlyMessage(body map[string]string) bool {
	for k := range body {
		if k != ".code" && k != ".message" {
			return false
		}
	}
	return true
}

var _ = big.NewInt
