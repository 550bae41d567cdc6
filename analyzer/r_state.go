package main

import (
	"fmt"
	"strings"
)

var stNames = map[int64]string{0: "Unknown", 1: "Active", 2: "YellowCard", 3: "RedCard", 4: "NotSubscribed", 5: "Banned", 6: "Untracked"}
var evNames = map[int64]string{0: "UnknownEvent", 1: "ProposalOk", 2: "ProposalMissed", 3: "ProposalWrongFee", 4: "ManualSubscription", 5: "AutoSubscription", 6: "Unsubscribe", 7: "ManualBan", 8: "ManualUnban"}

var smTable = map[int64]map[int64]int64{
	1: {1: 1, 2: 2, 3: 5, 6: 4, 7: 5},
	2: {1: 1, 2: 3, 3: 5, 6: 4, 7: 5},
	3: {1: 2, 2: 3, 3: 5, 6: 4, 7: 5},
	4: {4: 1, 5: 1},
	5: {8: 1},
}

func smNext(st, ev int64) int64 {
	if n, ok := smTable[st][ev]; ok {
		return n
	}
	return st
}

// the rules of the properties that process events and outcomes on the whole state
var slotRules = map[string][]string{
	"C05": {"one slot", "donations", "handleBanValidator", "handleBlsCorrectBlockProposal", "handleCorrectBlockProposal", "handleMissedBlock"},
	"C06": {"one subscription", "several subscriptions"},
	"C07": {"one unsubscription", "several unsubscriptions"},
	"C08": {"bans", "unbans"},
	"C09": {"cleanup"},
}

// project repeats the analyses of those properties and compares a part of the state
func (c *Ctx) project(only func(s *Scn, key string) bool) {
	for _, id := range []string{"C05", "C06", "C07", "C08", "C09"} {
		c.includeOnly(id, only, slotRules[id]...)
	}
}

func init() {
	register(&Rule{id: "C01", title: "validator state machine", minOblig: 2000,
		explain: "(1) advanceStateMachine is interpreted (SSA, callees inlined) on every one of the 7 statuses x 10 event codes (known and unknown) for a tracked validator next to an untracked one, with all amounts unknown: the whole state reachable from the oracle must be the entry state with exactly the status of the documented diagram. (2) So that no caller uses the wrong event, applies it to the wrong validator or sets a status on its own, the analyses of slot processing, subscriptions, unsubscriptions, bans, unbans and cleanup (C05 to C09) are repeated and every validator's status afterwards compared with the diagram's.", run: func(c *Ctx) {
			fn := c.anchor("oracle", "*Oracle", "advanceStateMachine")
			for st := int64(0); st <= 6; st++ {
				for ev := int64(0); ev <= 9; ev++ {
					s := c.scn(fmt.Sprintf("transition %s × %s", stNames[st], evNames[ev]))
					s.validators(vst{"v1", st}, vst{"v2", -1})
					s.begin()
					s.expPut(".state.Validators[v1].ValidatorStatus", numI(smNext(st, ev)))
					s.call(fn, s.or, numAtom("v1"), numI(ev))
					s.effects("transition")
				}
			}
			c.project(func(s *Scn, k string) bool { return strings.HasSuffix(k, "ValidatorStatus") })
		}})
}
