WHY = {
 "C01": "all event sequences follow from deciding every single step on an unknown state; tests walk a few histories.",
 "C02": "eligibility is decided for each status next to every mix of others, for all amounts.",
 "C03": "conservation is a polynomial identity over all rewards, fees, weights, not a sampled sum.",
 "C05": "the order of effects only shows when several kinds of events meet in one slot; those products are enumerated.",
 "C14": "every crash point and every failing file operation is looked at, which tests cannot reach.",
 "C18": "main's loop has no tests at all; all answer sequences of up to four rounds are analysed.",
 "C19": "as C18, for every position of the contract relative to the state.",
 "C21": "tests do not look for secrets in what leaves the program.",
 "C22": "deadlocks and forgotten unlocks need schedules and error paths no test produces.",
 "C25": "every error value in the program is followed, not those of the paths that tests take.",
 "C28": "Go randomises map order; a test sees one order, the analysis compares both for every class.",
 "C44": "every field of every answer is compared for unknown amounts and every mix of records; tests compare a few fields of small states.",
 "C48": "metrics have no tests and are never asserted; here each value set is compared, on every scripted course of rounds, with the state it claims to show.",
 "C47": "contract/ has no tests and the others never reach a node, so nothing in the suite runs a binding; here each is interpreted against every kind of answer.",
 "C46": "main and its loop have no tests; what is due is demanded of every scripted course of rounds, not only forbidden when it is not due.",
 "C45": "main has no tests; every setting is followed from the flag to the one call it is meant for.",
}
