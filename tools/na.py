NA = {
 "C40": "Agreement with the roots other oracles submitted depends on the real chain's history and on what other deployments run; neither is in the source, so no static analysis of this repository can decide it. What the source can decide (that the computation is a deterministic function of the chain data) is C28.",
 "C41": "A liveness property over unbounded schedules of node answers and real time: sleeping, retry back-off and the nodes' progress are runtime quantities no sound static argument in reach bounds. What can be decided is: the cursor never skips or repeats and submissions happen only when due (C10, C18, C19), and what is due in a round is done in it (C46).",
 "C42": "Time and memory of a request depend on state size, node latency and the runtime's scheduling; static analysis here has no cost model of them.",
 "C43": "Whether a node's answer is canonical is not visible in the source: the oracle trusts its two nodes by design and holds nothing to check them against. What it does cross-check (chain id, block number, block hash of receipts, reconciliation) is C20, C25 to C27 and C31.",
}
