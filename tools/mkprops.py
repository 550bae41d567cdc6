#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the catalogue; one row per property).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
OR="oracle/oracle.go"; BL="oracle/block.go"; ON="oracle/onchain.go"; AP="api/api.go"; TY="oracle/types.go"; MK="oracle/merklelizer.go"; MN="main.go"; UT="utils/utils.go"; CF="config/config.go"
p("C01","Validator status follows the card/ban state machine exactly",
 "A validator's status moves only along the documented diagram: active->yellow->red on missed proposals (red stays red), one step back (red->yellow, yellow->active) on a correct proposal, to banned on a wrong fee recipient or manual ban, to not-subscribed on unsubscription, from not-subscribed to active on a manual or automatic subscription, and from banned to active only on a manual unban. Every other combination of status and event, including events for unknown validators, leaves the status (and everything else) unchanged.",
 ["histories"],"every sequence of events over every validator, every status/event pair","Tests walk sampled transitions; the diagram is a total function over 7 statuses x 9 events and must hold after any history.",
 [OR,TY],[("status transition function",OR+":advanceStateMachine"),("status and event codes",TY+":ValidatorStatus/Event")])
p("C02","Only active and yellow-card validators share in rewards",
 "Any reward or redistributed balance is shared exclusively among validators whose status is active or yellow card at that moment; red-card, banned, not-subscribed, untracked and unknown validators receive nothing. If no validator is eligible, the whole amount goes to the pool's accumulated fees.",
 ["histories","inputs"],"every validator set and every status mix","Tests use a few fixed validator sets; eligibility must hold for every status and every mix.",
 [OR],[("eligible set",OR+":getEligibleValidators"),("reward share-out",OR+":increaseAllPendingRewards")])
p("C03","Every wei of a shared reward is credited once, by the documented split",
 "When a reward is shared, the pool takes floor(reward*fee/10000); the rest is split equally among eligible validators (or, from Electra on, in proportion to each one's effective balance at the slot being processed, rounded down), and every rounding remainder goes to the pool, so that pool credit plus validator credits always equals the reward exactly. Before the first fork the fee-rounding remainder is additionally taken out before the equal split and given to the pool; a fee above 100% is refused; nobody's accumulated balance changes.",
 ["inputs"],"every reward, fee, number and balance of validators, every reward method","Tests check a handful of numbers; conservation is an arithmetic identity over all inputs.",
 [OR],[("share-out and credit",OR+":increaseAllPendingRewards"),("per-fork split",OR+":handle*RewardDistribution")])
p("C04","Fork rules switch exactly at their network's slot",
 "The rule for splitting a reward depends only on the network and the slot being processed: Electra rules from slot 11649024 on mainnet and 65536 on hoodi, equal-split fork-1 rules from slot 10188220 on mainnet, 2720632 on holesky and 1 on hoodi, pre-fork rules before; a network without a known schedule stops the oracle instead of guessing. The exited-validator cleanup and the pending-consolidation lookup use the same boundaries: cleanup never runs before fork 1, and consolidations are never consulted on a network that has no Electra slot or before it.",
 ["configurations","inputs"],"every network and slot","Tests use single slots; both sides of each boundary on each network and unknown networks must be right.",
 [OR],[("reward method selection",OR+":determineRewardMethod"),("fork tables",OR+":SlotFork1/SlotElectraFork"),("cleanup gate",OR+":ValidatorCleanup")])
p("C05","Each processed slot has exactly its outcome's effects, in order",
 "Processing a slot records that block's subscription, unsubscription and ether events verbatim, then applies: manual subscriptions; the proposal outcome (missed: card for a subscribed proposer only; correct: auto-subscribe an untracked or unsubscribed proposer, advance its status, share the reward, then move its whole pending balance to accumulated; correct with BLS credentials: reward to the pool only; wrong fee recipient: ban a subscribed proposer and share its pending among the others); unsubscriptions; donations; bans; unbans; and finally, every 1200 slots, the cleanup. Each outcome is recorded in its own block list exactly once, and no outcome touches any other validator or list.",
 ["histories","inputs"],"every block outcome x proposer status x event list","Tests cover sampled outcomes; ordering and exclusivity must hold for all combinations.",
 [OR],[("slot processing",OR+":AdvanceStateToNextSlot"),("outcome handlers",OR+":handleCorrectBlockProposal/handleBls.../handleBanValidator/handleMissedBlock/addSubscription/handleDonations")])
p("C06","Manual subscriptions credit the collateral once, to the right party",
 "A subscription for a non-existing validator, one that cannot subscribe in its beacon state, one with BLS credentials, one sent by anyone but its withdrawal address, or (if untracked or unsubscribed) one with too little collateral, credits the collateral to the pool and changes no validator; one for a banned or already subscribed validator only credits that validator's accumulated balance; any other makes the validator active with manual type and adds the collateral to its pending balance. Each event's collateral is credited exactly once, events are processed independently in order, and inconsistent event/validator data stops the oracle.",
 ["inputs","histories"],"every event list x validator state x tracked status","Tests sample single branches; the decision table and the single credit must hold in all combinations including repeated events.",
 [OR],[("subscription decisions",OR+":handleManualSubscriptions"),("who may subscribe",OR+":CanValidatorSubscribeToPool")])
p("C07","Only the withdrawal address can unsubscribe a validator",
 "An unsubscription takes effect only if its sender is the validator's current withdrawal address (case-insensitively) and the validator is subscribed; then its status becomes not-subscribed, its whole pending balance is shared among the remaining eligible validators and set to zero, and its accumulated balance is kept. Any other unsubscription changes nothing, and inconsistent event/validator data stops the oracle.",
 ["inputs","histories"],"every unsubscription event list and validator table","Tests sample senders; authorisation must hold for every event.",
 [OR],[("unsubscription decisions",OR+":handleManualUnsubscriptions")])
p("C08","Manual bans redistribute pending once; only banned are unbanned",
 "A ban event for a subscribed validator bans it and zeroes its pending balance, and the pending of all validators banned in the block is shared once, after all bans, among those still eligible; a ban for anyone else changes nothing. An unban event moves a banned validator to active without touching balances, and changes nothing for anyone else; events from mixed blocks stop the oracle.",
 ["inputs","histories"],"every list of ban/unban events","Tests use small lists; aggregation before redistribution must hold for every list, including repeats.",
 [OR],[("bans",OR+":handleManualBans"),("unbans",OR+":handleManualUnbans")])
p("C09","Exited validators are cleaned up and their pending goes to one place",
 "In a cleanup, every tracked validator that is no longer active on the beacon chain and has pending balance is unsubscribed and its pending set to zero, that pending going exactly once either to the target of its pending consolidation (if tracked and not banned, or newly tracked as not-subscribed under the target's own withdrawal address and key) or, with no target or a banned one, to a total shared once among eligible validators afterwards. Validators still active on the beacon chain are untouched and accumulated balances never change.",
 ["inputs","histories"],"every validator table, beacon answer and consolidation list","Tests use a few layouts; conservation must hold for all of them.",
 [OR],[("cleanup",OR+":ValidatorCleanup")])
p("C10","Slots are processed one by one, each exactly once",
 "A block is accepted only when the next slot to process is the last processed plus one and the block is for exactly that slot; a refused block changes no state. On success the processed slot is returned, last-processed and next slot both advance by one, and the last processed block number is updated exactly when the slot was not missed.",
 ["histories","inputs"],"every sequence of blocks offered","Tests use in-order runs; refusal without side effects must hold for any history.",
 [OR],[("slot cursor",OR+":AdvanceStateToNextSlot"),("initial cursor",OR+":NewOracle")])
p("C11","Contract parameter changes are refused unless scheduled",
 "A block that changes the fee recipient, checkpoint size or collateral to a value different from the configured one, or carries two changes of one parameter, is refused. A pool-fee change is accepted only at a slot scheduled for that network with exactly the scheduled fee (mainnet slot 14082460 to 500, hoodi slot 2801050 to 500), and then both the configuration and the state carry the new fee.",
 ["inputs","configurations"],"every network, slot and parameter event","Tests sample values; the accept set must be exact.",
 [OR],[("parameter validation",OR+":validateFullBlockConfig"),("schedule",OR+":feeSchedule/getFeeSchedule/applyFeeScheduleUpTo")])
p("C12","A persisted state is loaded only if intact and for this pool",
 "Loading a state succeeds only if its bytes parse, its stored hash equals the hash of its content with the hash blanked, and its network, pool address, fee address, fee (or the fee scheduled up to its slot), collateral, checkpoint size, deployment block and slot all equal the configuration. A refused load reports an error and leaves the running state and configuration untouched; a missing file is reported as not found, and any other read problem as an error.",
 ["inputs","fault_sequences"],"every file content and every single mismatch or failure","Tests mutate a few fields; each check must stand on its own for every content.",
 [OR],[("state acceptance",OR+":LoadFromBytes/LoadFromPath/LoadFromJson/LoadGivenState")])
p("C13","Everything in the state survives serialisation",
 "Every status, reward type, block type and subscription type is written as a distinct name that reads back as the same value, and unknown names are refused. Every field of the persisted state, recursively, has its own distinct JSON key and is exported, so nothing the next computation needs is dropped by a save and load.",
 ["inputs"],"every enum value and every state field","Tests round-trip sample states; a missing or clashing name only shows on the value nobody sampled.",
 [TY],[("enum codecs",TY+":String/MarshalJSON/UnmarshalJSON"),("state layout",TY+":OracleState")])
p("C14","The saved state file is never left half-written or stale-hashed",
 "Saving replaces the state file atomically: at every crash point the file under its final name is either the complete old or the complete new content. The bytes written are one serialisation taken under the state lock after the hash was recomputed over that same state with a blank hash; when asked to, an identical copy named after that state's slot is kept, and any failure is reported.",
 ["crash_points","fault_sequences"],"every crash point and I/O failure during a save","Tests never crash mid-write.",
 [OR],[("persistence",OR+":SaveToJson/hashStateLockFree")])
p("C15","A frozen checkpoint is a private, consistent copy",
 "A frozen checkpoint stores, under the last processed slot, a copy of all validators that shares no memory with the live table, the root of the tree built from the same state, and for every leaf its amount and its proof from that tree under the leaf's own address. Nothing modifies or removes a checkpoint afterwards, and too little data freezes nothing.",
 ["histories"],"every state and every later history","Tests look right after freezing; aliasing shows only after later slots.",
 [OR],[("freeze",OR+":FreezeCheckpoint"),("latest",OR+":LatestCommitedSlot/LatestCommitedState")])
p("C16","The reward tree commits to one correct leaf per address",
 "The tree's leaves are the pool-fee leaf first, then one leaf per distinct withdrawal address (case-insensitively, lower-cased, in ascending order) holding the sum of accumulated balances of its validators, whatever order validators are visited in. Leaves are keccak(address, uint256 amount) and the tree uses sorted keccak pairs without re-hashing leaves; building it never changes any balance, and fewer than two leaves produce no tree.",
 ["inputs"],"every validator table and iteration order","Tests use fixed tables with one random order each.",
 [MK],[("leaf aggregation",MK+":AggregateValidatorsIndexes"),("tree",MK+":GenerateTreeFromState")])
p("C17","Claim proofs are served only for the root that is on chain",
 "The proof endpoint answers only from the checkpoint stored for the slot the contract currently reports, and only if that checkpoint's root equals the contract's root; proof, leaf, root, slot, registered validators and pending total all come from that one checkpoint for the requested address. Claimable is the leaf amount minus what the contract reports as already claimed by that address.",
 ["inputs","histories"],"every request and every relation of local to on-chain state","No test runs the handler against differing roots.",
 [AP],[("proof handler",AP+":handleOnchainMerkleProof")])
p("C18","Only finalized slots are processed, and only with synced nodes",
 "The oracle advances over a slot only when both nodes report being in sync and the slot is not beyond the beacon chain's latest finalized header, both determined in the same round. Any failure to learn this stops or postpones processing, never allows it.",
 ["histories","fault_sequences"],"every sequence of node answers","The main loop is not tested.",
 [MN,ON],[("gate",MN+":mainLoop"),("sync status",ON+":AreNodesInSync"),("finality",ON+":FinalizedBeaconBlockHeader")])
p("C19","Roots are submitted only when allowed, reconciled and next in line",
 "A root is submitted to the contract only when not in dry-run mode, at a checkpoint, after off-chain reconciliation succeeded and the checkpoint was frozen in this round, and only if the checkpoint's slot is the contract's last slot plus the checkpoint size; slot and root submitted are those of the newest frozen checkpoint. A checkpoint is reached exactly when the last processed slot is a whole number of checkpoint sizes past the deployment slot. The state is persisted only after that and after the contract was seen carrying the submitted root.",
 ["histories","fault_sequences"],"every path through the main loop","The main loop is not tested.",
 [MN,ON],[("submission path",MN+":mainLoop"),("checkpoint test",OR+":IsCheckpoint"),("transaction",ON+":UpdateContractMerkleRoot")])
p("C20","Reconciliation compares all liabilities with all assets",
 "Off-chain reconciliation passes exactly when the sum of every validator's accumulated and pending balances plus pool fees equals the sum of all ether-received amounts, all subscription collaterals and all rewards of recorded vanilla blocks. On-chain reconciliation passes exactly when the same liabilities minus all already-claimed amounts equal the contract balance; neither changes any state.",
 ["inputs"],"every state","Tests reconcile a few states; a dropped term hides when it is zero.",
 [OR],[("reconciliation",OR+":RunOffchainReconciliation/RunOnchainReconciliation")])
p("C21","The updater's key and password are never disclosed",
 "Neither the keystore password, nor the private key, nor the decrypted keystore ever reaches a log line, an error message, an API response, a metric, a file or an outgoing request, other than as input of the keystore decryption and transaction signing.",
 ["inputs","configurations"],"every path from where the secret enters","Tests do not look at logs or responses for secrets.",
 [CF,UT,ON,TY,AP,MN],[("secret sources",CF+":CliConfig.UpdaterKeyPass"),("key use",UT+":DecryptKey")])
p("C22","State locks are always released and never re-entered",
 "Every function that takes the state lock releases it on every way out, including error returns, and no function takes it again, directly or through a callee, while holding it, in read mode included (a queued writer would deadlock both). State-changing operations of the oracle take it in write mode.",
 ["schedules","fault_sequences"],"every interleaving and exit path","A leak or a re-entrant read lock shows only on an error path or under a specific schedule.",
 [OR],[("state lock",OR+":Oracle.mutex")])
p("C23","Serving the API never changes the oracle's state",
 "No API request, whatever its input, changes any validator, balance, checkpoint, block list, event list, configuration or cursor of the oracle (recomputing the state hash excepted), or submits a transaction. Virtual changes shown to users are applied only to private copies.",
 ["inputs","schedules"],"every request","Tests look at responses, not at state afterwards.",
 [AP,UT],[("handlers",AP+":handle*"),("copies",UT+":DeepCopy")])
p("C24","No API request can stop the oracle",
 "No API request can end or crash the oracle process, whatever its input and whatever the contents of the state or the answers of the nodes: handlers never run a process-ending check on request-controlled or missing data, never divide by a possibly zero count, and never use an error or result that may be absent.",
 ["inputs","fault_sequences"],"every request, state and node answer","Tests send well-formed requests only.",
 [AP,UT,ON],[("handlers",AP+":handle*"),("address comparison",AP+":AreAddressEqual")])
p("C25","A detected failure is never reported as success",
 "Whenever a function detects a failure - a failed call, a mismatch, a timeout, a reverted transaction, a bad receipt - the error it returns is non-nil. No error result of a call is silently dropped or overwritten before it is checked where the function goes on to use or persist the call's outcome.",
 ["fault_sequences"],"every failing call on every path","Tests rarely inject failures; a nil error on a failure path looks like success.",
 [ON,BL,OR,AP,UT],[("error construction","all packages: errors.Wrap/New sites"),("transaction result",ON+":UpdateContractMerkleRoot")])
p("C26","All contract events of exactly the processed block are considered",
 "For every event kind the oracle acts on (ether received, subscribe, unsubscribe, fee, fee recipient, checkpoint size, collateral, ban, unban) all events of the block being processed, and none of any other block, are retrieved in order and handed over under their own kind, together with the beacon state of each subscribed or unsubscribed validator at that slot. A failed or partial retrieval, or an event, header or receipt of another block, stops the oracle rather than yielding fewer or foreign data.",
 ["inputs","fault_sequences"],"every block and every node failure","No offline test exercises retrieval.",
 [ON,BL],[("retrieval",ON+":Get*Events"),("assembly",ON+":FetchFullBlock"),("block check",BL+":SetEvents")])
p("C27","Only a definite not-found answer counts as a missed slot",
 "A slot is treated as missed only when the consensus node answered that no block exists at that slot (HTTP status 404). Any other failure - timeouts, other statuses, errors that merely mention that number - is retried and finally stops processing instead of being recorded as a miss.",
 ["fault_sequences","inputs"],"every error the node client can return","No test injects client errors.",
 [ON],[("block fetch",ON+":GetConsensusBlockAtSlot"),("miss handling",ON+":FetchFullBlock")])
p("C28","The outcome of a slot does not depend on map iteration order",
 "For the same starting state and block, every oracle instance computes the same new state: balances, statuses, lists and roots do not depend on the order in which validators, rewards, consolidations or addresses are visited.",
 ["schedules","inputs"],"every iteration order of every map","Go randomises order per run; tests see one order each and rarely have two affected entries.",
 [OR,MK],[("state computation",OR+":AdvanceStateToNextSlot and callees"),("roots",MK)])
p("C29","Block fields are read from the block's own fork, alike for all forks",
 "For a block of any supported fork (Bellatrix, Capella, Deneb, Electra, Fulu) the slot, proposer, block number, fee recipient, transactions, gas used and base fee are read from that fork's own message, with the base fee in one common byte order. An Altair block yields only slot and proposer and stops the oracle for execution fields; an empty block stops it always.",
 ["inputs"],"every fork version and getter","Tests have sample blocks for some forks and getters only.",
 [BL],[("fork getters",BL+":Get*")])
p("C30","Rewards are classified MEV or vanilla, and never counted twice",
 "A block is an MEV block when its last transaction (with a recipient) was sent by the block's fee recipient or a whitelisted builder, its reward being that transaction's value and its recipient the transaction's recipient, or the event's emitter if an ether-received event carries that value; otherwise it is a vanilla block when its fee recipient is the pool or its proposer is subscribed, rewarded with the proposer tip. The reward counts as sent to the pool exactly when that recipient is the pool; exactly one ether-received event per MEV reward paid to the pool is withheld from the donations, and a missing one stops the oracle. The one hard-coded payment (mainnet slot 10400574, which left no event) is applied to no other slot and no other chain.",
 ["inputs"],"every block, event list and proposer","Tests sample real blocks; equal amounts, empty blocks and odd senders are not covered.",
 [BL],[("classification",BL+":MevRewardInWei/GetSentRewardAndType/isAddressRewarded"),("donations",BL+":GetDonations"),("summary",BL+":SummarizedBlock")])
p("C31","The vanilla reward is the exact proposer tip",
 "The proposer tip is the sum over all transactions of gas used times gas price (types 0 and 1) or times the lesser of tip cap plus base fee and fee cap (types 2, 3 and 4), minus base fee times gas used by the block. Each transaction is paired with its own receipt; missing data, mismatched counts or hashes, undecodable or unknown transaction types give an error, never a number.",
 ["inputs"],"every transaction list","Tests use sample blocks.",
 [BL,UT],[("tip",BL+":GetProposerTip"),("saturation",UT+":SumAndSaturate")])
p("C32","Withdrawal credentials are classified by their exact prefix",
 "Credentials count as BLS only with prefix 0x00, and as an address only with prefix 0x01 or 0x02 followed by eleven zero bytes, the address being their last twenty bytes, 0x-prefixed; anything else is rejected (an address cannot be extracted, and a correct proposal with unclassifiable credentials is not treated as an ordinary one). All places that classify credentials agree.",
 ["inputs"],"every 32-byte credential and every other length","Tests sample a few strings.",
 [UT,OR],[("classification",UT+":Is*Type/GetCompatibleAddress*"),("summary use",OR+":GetWithdrawalAndType")])
p("C33","API inputs are validated before they are used",
 "Validator indices, withdrawal addresses and public keys taken from a request are accepted only in their exact formats (decimal 64-bit number; 0x and 40 hex digits; 0x and 96 hex digits), index lists only with 1 to 100 entries, and no handler uses such an input in a lookup, comparison or outgoing request before that check succeeded; otherwise it answers with an error and nothing else.",
 ["inputs"],"every request string","Tests sample strings; character-class slips pass them.",
 [AP],[("validation",AP+":IsValid*"),("handlers",AP+":handle*")])
p("C34","The API's virtual state applies pending events by the pool's rules",
 "Not-yet-final events shown to users are applied per block in ascending order, subscriptions before unsubscriptions: a subscription activates an untracked or not-subscribed requested validator and adds the collateral to its pending only if sent by its withdrawal address with enough collateral and a beacon state that may subscribe; an unsubscription by the withdrawal address makes a subscribed one not-subscribed with zero pending. Accumulated balances and validators not requested are never changed.",
 ["inputs","histories"],"every event list and validator set","Tests sample a few lists.",
 [AP],[("virtual state",AP+":ApplyNonFinalizedState/GetSubInBlock/GetUnsubInBlock")])
p("C35","Data that must be current is served only when the oracle is ready",
 "The statistics, validator list, single validator, validators-by-withdrawal and proof endpoints answer with service-unavailable, and nothing else, unless the finalized head is known and the oracle's last processed slot is at most 64 slots behind it.",
 ["inputs","fault_sequences"],"every request at every sync distance","Handlers are not tested end to end.",
 [AP],[("readiness",AP+":OracleReady"),("handlers",AP+":handle*")])
p("C36","A submitting oracle starts only when entitled and not ahead",
 "Unless in dry-run mode, the oracle starts processing and serving only after its decrypted key's address was found among the contract's members with a non-zero balance. If its loaded state has committed a slot beyond the contract's, it must first reload a state saved for the contract's slot or for a checkpoint before it, and failing any of these checks or the loading of the state stops it.",
 ["configurations","fault_sequences"],"every start-up configuration and failure","main is not tested.",
 [MN,ON],[("start-up",MN+":main"),("membership",ON+":IsAddressWhitelisted")])
p("C37","Chain data is queried at the slot or block it is meant for",
 "Beacon validator data that influences rewards or subscriptions is requested for the slot being processed, and on-chain balances and claimed amounts used in reconciliation for the last processed block, the contract being read as mined, never as pending, with every query made for the same account, validator set or block that the caller asked for and the answer being for those same validators, whatever was asked before. Validator answers missing a requested index are errors. The validator list kept for the API and for subscriptions is that of the last finalized state.",
 ["inputs","fault_sequences"],"every query","No offline test sees the queries.",
 [ON,OR,MN],[("queries",ON+":GetSingleValidator/GetSetOfValidators/GetPendingConsolidations/GetPoolEthBalance/GetContractClaimedBalance"),("reconciliation inputs",MN+":mainLoop")])
p("C38","Balances never share storage with other balances",
 "No balance of one validator, the pool, a frozen checkpoint, a tree leaf, an event, a block reward or the configuration ever shares its number's storage with a balance that is later updated in place. A credit to one therefore never changes another.",
 ["histories"],"every sequence of operations","Aliasing shows only when a second, later update hits the shared number.",
 [OR,MK,AP],[("in-place arithmetic",OR+": big.Int updates")])
p("C39","The pool configuration comes from the chain it runs on",
 "Network name, deployment block and slot, fee recipient, collateral and checkpoint size of the running configuration come from the contract and the two nodes (which must agree on the chain id and on the deployment block), and the initial fee from the deployment transaction, with the per-network default only when that cannot be decoded; a fresh oracle state copies all of these and starts right before the deployment slot. Any failure or unknown chain stops the oracle.",
 ["configurations","fault_sequences"],"every network and node failure","Not testable offline.",
 [ON,OR],[("configuration",ON+":GetConfigFromContract"),("fresh state",OR+":NewOracle")])
p("C44","The API reports the oracle's own records",
 "Every API endpoint that shows recorded data shows exactly that: validators (all, by index, or one) with their own status, subscription type, key, withdrawal address, pending and accumulated rewards and collateral, and beacon status and balances of that validator; proposed, missed and wrong-fee blocks and donations with their own fields, each list complete and of its own kind; statistics that count and sum exactly the records they name (per status, per reward type, per block type, last 30 days); the fees and configuration in use; relays by their own answer; and the status endpoint the chain ids, heads, sync state and checkpoint distances of nodes, oracle and contract. The state endpoint serves the oracle's own state with its hash, and GET requests reach their handlers, and answers the client, through the router and its middleware unchanged. Nothing is attributed to a wrong record, doubled or left out, except that validators the consensus client does not know are left out of the lists. Every answer is about the records as they are when asked, whatever was asked before.",
 ["inputs","histories"],"every recorded state and requested index","Tests check a few answers over small states.",
 [AP],[("handlers",AP+":handle*"),("answer types","api/types.go")])
p("C45","Command-line settings are checked and used for what they say",
 "Each setting takes the value given on the command line or its documented default, and takes effect exactly where it is meant to: the keystore file is read and decrypted with the keystore password, the execution and consensus clients connect to their own endpoint, the contract bound is the pool's address, node questions are attempted the configured number of times, the log level is set, the checkpoint is fetched from its URL (and only when one is given; otherwise the state file is loaded), and the API and metrics listen on their own port. Contradictory or malformed command lines (key missing outside a dry run or given in one, a pool address that is not one, no relays, an empty or non-https relay, an unknown log level) are refused before anything is started.",
 ["configurations"],"every command line","The one test of the command line calls it once without flags.",
 [CF,MN,ON,UT],[("command line",CF+":NewCliConfig"),("start-up",MN+":main"),("client connections",ON+":NewOnchain"),("key decryption",UT+":DecryptKey")])
p("C46","Every duty that is due is done",
 "As long as nodes and contract answer, the oracle does what is due and does not stop: a finalized slot is processed in the round it is seen with both nodes in sync (being out of sync, finality not reached or unknown, or a state file that could not be written only delay); before the next slot, a checkpoint has been reconciled, frozen, submitted if it was next in line and not a dry run, and saved together with a copy of its own; the beacon validators are fetched at start and after every 1200th slot; while waiting for finality, assets and liabilities are compared at least every three hours and a failed comparison stops processing. An oracle entitled to start starts processing and serving, and on SIGINT or SIGTERM it saves its state and ends.",
 ["histories","fault_sequences","schedules"],"every sequence of rounds","The main loop is not tested.",
 [MN],[("main loop",MN+":mainLoop"),("start-up and signals",MN+":main")])
p("C47","The pool contract is addressed by its own interface",
 "Every read of the pool contract asks for the function it is named for, with the caller's arguments and options, and hands back that function's outputs, or the error. Every listing of contract events asks for the event it is named for and hands over every log of it once, in order, as an own record decoded field by field with its raw log, and stops with an error if one could not be read. The report goes out as the slot and root given. Functions and events have the signatures of the deployed contract, and the binding talks to the address and node it was made for.",
 ["inputs","fault_sequences"],"every answer and every sequence of logs","The bindings have no tests; a wrong name or field shows only against the real contract.",
 ["contract/contract.go"],[("bindings","contract/contract.go:ContractCaller/ContractTransactor/ContractFilterer methods"),("event iterators","contract/contract.go:Next")])
p("C48","The metrics show where the oracle stands",
 "After every processed slot the gauges show the oracle's own position: the latest processed slot, the latest processed block, and the distance of that slot from the finalized head seen in that round; every frozen checkpoint is shown with its own slot and merkle root, and the release with its version. Every API request is counted and timed exactly once, after it was answered, under the status it was answered with, its method in lower case and the template of its route. All metrics keep their published names and labels.",
 ["inputs","histories"],"every course of rounds and every way to answer a request","Nothing in the suite reads a metric.",
 ["metrics/metrics.go",MN,AP],[("gauges",MN+":mainLoop"),("registration","metrics/metrics.go"),("request counting",AP+":prometheusMiddleware")])
p("C40","The oracle agrees with the deployed oracles on real chain history",
 "Replaying the real chain from deployment yields the same roots other deployed oracles submitted, for every checkpoint.",
 ["histories"],"the whole real chain history","Offline tests hold a few sample blocks.",
 [OR],[("state computation",OR)])
p("C41","The oracle keeps making progress",
 "While the nodes keep finalizing blocks and answering, every finalized slot is eventually processed and every due checkpoint is eventually submitted.",
 ["schedules","fault_sequences"],"every fair schedule of node answers","Progress is a liveness property over unbounded time.",
 [MN],[("main loop",MN+":mainLoop")])
p("C42","API requests are answered within bounded time and memory",
 "Every API request completes within bounded time and memory regardless of state size and node latency.",
 ["inputs"],"every request and state size","Tests use tiny states.",
 [AP],[("handlers",AP)])
p("C43","Data supplied by the nodes is genuine",
 "Blocks, receipts, events and validator data used for rewards are those of the canonical finalized chain, even if a node lies.",
 ["fault_sequences"],"every behaviour of a node","Tests use honest fixtures.",
 [ON],[("node queries",ON)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
