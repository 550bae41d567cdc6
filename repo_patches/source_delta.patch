From ddc885e67a5f272a5ec8cd3619fa4c659173f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 01/23] fix: cleanup and consolidations use fork slots only
 where the network defines them

---
 oracle/oracle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..e1d3ed4 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -261,7 +261,7 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 func (or *Oracle) ValidatorCleanup(slot uint64) error {
 
 	// Only cleanup if we're past the cleanup slot fork
-	if slot >= SlotFork1[or.cfg.Network] {
+	if forkSlot, found := SlotFork1[or.cfg.Network]; found && slot >= forkSlot {
 
 		// Extract all validator indices from the oracle state
 		indices := make([]phase0.ValidatorIndex, 0)
@@ -279,7 +279,7 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		sourceToTarget = make(map[uint64]uint64)
 
 		// 🔒 Only fetch consolidations if past Electra fork
-		if slot >= SlotElectraFork[or.cfg.Network] {
+		if electraSlot, found := SlotElectraFork[or.cfg.Network]; found && slot >= electraSlot {
 			pendingConsolidations, err := or.getPendingConsolidations(strconv.FormatUint(slot, 10))
 			if err != nil {
 				return errors.Wrap(err, "could not fetch pending consolidations")
-- 
2.43.0


From 966c398c29b1bffa794c896ac24dc65dc7d3a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 02/23] fix: clean up exited validators in index order so every
 oracle gets the same state

---
 oracle/oracle.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index e1d3ed4..c0ec82e 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"encoding/json"
+	"sort"
 	"strconv"
 
 	"fmt"
@@ -269,6 +270,10 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 			indices = append(indices, phase0.ValidatorIndex(idx))
 		}
 
+		// Process validators always in the same order: the outcome depends on it when
+		// both ends of a consolidation are cleaned up in the same slot
+		sort.Slice(indices, func(i, j int) bool { return indices[i] < indices[j] })
+
 		// if oracle isn't tracking any validator, it means that nobody ever subscribed, nothing to cleanup
 		if len(indices) == 0 {
 			log.Info("No validators to cleanup, state has no validators")
@@ -300,7 +305,12 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+		for _, index := range indices {
+			validator, found := validatorInfo[index]
+			if !found {
+				continue
+			}
+
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From 6614acada722eabd33f64695697c4aae8dbbdef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 03/23] fix: refused block must not leave the new pool fee
 applied

---
 oracle/oracle.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index c0ec82e..d205f5d 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -466,7 +466,7 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 	}
 
 	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
-	// If expected, apply the new fee from the event. If not, crash.
+	// If expected, the new fee from the event is applied below. If not, crash.
 	if len(fullBlock.Events.UpdatePoolFee) != 0 {
 		slot := uint64(fullBlock.ConsensusDuty.Slot)
 		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
@@ -475,9 +475,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
 				slot, newFee, expectedFee, expected))
 		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
 	}
 
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
@@ -495,6 +492,14 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// Apply the expected fee change only once nothing else in the block can be refused
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", uint64(fullBlock.ConsensusDuty.Slot), ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0f9d791e052a0f082dedcf69dc2f8b91de299609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 04/23] fix: a state file that exists but cannot be opened is
 an error, not a missing state

---
 oracle/oracle.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index d205f5d..245c270 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -588,9 +588,12 @@ func (or *Oracle) LoadFromPath(path string) (bool, error) {
 	defer jsonFile.Close()
 
 	// Dont error if the file wasnt found, just return not found
-	if err != nil {
+	if os.IsNotExist(err) {
 		return false, nil
 	}
+	if err != nil {
+		return false, errors.Wrap(err, "could not open json file")
+	}
 
 	byteValue, err := ioutil.ReadAll(jsonFile)
 	if err != nil {
-- 
2.43.0


From 45de674ad9b9798099285d89c691e0d2c5971017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 05/23] fix: a refused state load leaves the configuration
 untouched and reports an error

---
 oracle/oracle.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 245c270..3af4f86 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"sort"
 	"strconv"
+	"strings"
 
 	"fmt"
 	"io/ioutil"
@@ -632,7 +633,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	calculatedHashString := hexutil.Encode(calculatedHashByte[:])
 
 	// Hashes must match
-	if !utils.Equals(recoveredHash, calculatedHashString) {
+	if !strings.EqualFold(recoveredHash, calculatedHashString) {
 		return false, errors.New(fmt.Sprintf("hash mismatch, recovered: %s, calculated: %s",
 			recoveredHash, calculatedHashString))
 	}
@@ -653,13 +654,15 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+	// Work on a copy, the config must stay untouched if the state is refused
+	expectedConfig := *or.cfg
+	if state.PoolFeesPercentOver10000 != expectedConfig.PoolFeesPercentOver10000 {
 		// The config starts at initialPoolFee. If the state was saved after a
 		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
+		applyFeeScheduleUpTo(&expectedConfig, state.LatestProcessedSlot)
+		if state.PoolFeesPercentOver10000 != expectedConfig.PoolFeesPercentOver10000 {
 			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
+				state.PoolFeesPercentOver10000, expectedConfig.PoolFeesPercentOver10000))
 		}
 	}
 
@@ -684,6 +687,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	}
 
 	or.state = &state
+	or.cfg.PoolFeesPercentOver10000 = expectedConfig.PoolFeesPercentOver10000
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
 	log.WithFields(log.Fields{
-- 
2.43.0


From af40c781c70413e04b5ba4f223ff9947d3ab9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 06/23] fix: the state lock is never taken again while held,
 and released when hashing fails

---
 oracle/oracle.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 3af4f86..b1dd6d9 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -125,7 +125,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -148,14 +148,14 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.state, nil
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -793,12 +793,16 @@ func (or *Oracle) FreezeCheckpoint() bool {
 func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
+	return or.latestCommitedSlotLockFree()
+}
 
-	if len(or.State().CommitedStates) == 0 {
+// Same as LatestCommitedSlot, the caller must hold the lock
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -811,14 +815,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From 6f91772e3d700a805f9123d4ecb5efd611eab395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 07/23] fix: saving the state releases its lock on every error
 and names the copy after the serialized state

---
 oracle/oracle.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index b1dd6d9..e949f87 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -512,7 +512,10 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	// Not just read lock since we change the hash, minor thing
 	// but it cant be just a read mutex
 
+	// The lock is kept until the files are written, so that the serialized state,
+	// the name of its copy and what is logged all belong together
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	log.Info("Saving oracle state to JSON file")
 
@@ -525,7 +528,6 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
 	err = os.MkdirAll(StateFolder, os.ModePerm)
@@ -553,7 +555,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", or.state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
-- 
2.43.0


From a794d4dfa1686a4d05f7c730f4827821bc243e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 08/23] fix: the state file is replaced atomically, a crash
 while saving leaves no half-written file

---
 oracle/oracle.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index e949f87..edc7b86 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -537,7 +537,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -563,7 +563,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -572,6 +572,27 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes the file under a temporary name, flushes it and then renames it, so that at
+// any point in time the path holds either its old or its new content, in full
+func writeFileAtomic(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From 0ae66b6c7aeed2169f071fa07a44a27c342d69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 09/23] fix: only HTTP status 404 marks a slot as missed, not
 any error mentioning 404

---
 oracle/onchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..01b231a 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -227,7 +227,9 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			// Only the status code counts: any other error can also mention 404, eg in the slot of its url
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 7b91113f48f10600f66daa969fee49aa763e734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 10/23] fix: an interrupted event iteration is an error, not a
 shorter list of events

---
 api/api.go        |  6 ++++++
 oracle/onchain.go | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/api/api.go b/api/api.go
index 8c42474..3fbf83d 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1138,6 +1138,9 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 		}
 		blockSubscriptions = append(blockSubscriptions, sub)
 	}
+	if err = itrSubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate subscription events")
+	}
 	err = itrSubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
@@ -1163,6 +1166,9 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 		}
 		blockUnsubscriptions = append(blockUnsubscriptions, unsub)
 	}
+	if err = itrUnsubs.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate unsubscription events")
+	}
 	err = itrUnsubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
diff --git a/oracle/onchain.go b/oracle/onchain.go
index 01b231a..5fb6e3f 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1324,6 +1324,9 @@ func (o *Onchain) GetEtherReceivedEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate EtherReceived events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
@@ -1360,6 +1363,9 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate SubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
@@ -1415,6 +1421,9 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate UnsubscribeValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
@@ -1451,6 +1460,9 @@ func (o *Onchain) GetBanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate BanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
@@ -1487,6 +1499,9 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate UnbanValidator events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
@@ -1532,6 +1547,9 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdatePoolFee events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
@@ -1567,6 +1585,9 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdatePoolFeeRecipient events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
@@ -1602,6 +1623,9 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdateCheckpointSlotSize events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
@@ -1637,6 +1661,9 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if err = itr.Error(); err != nil {
+		return nil, errors.Wrap(err, "could not iterate ContractUpdateSubscriptionCollateral events")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
-- 
2.43.0


From 01a5d64108bf10aad9d7f98948a77edaad92b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 11/23] fix: a timed out, unconfirmed or reverted root update
 is reported as an error

---
 oracle/onchain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 5fb6e3f..b5d5b6e 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1835,12 +1835,16 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 	// It stops waiting when the context is canceled.
 	receipt, err := bind.WaitMined(ctx, o.ExecutionClient, tx)
 	if ctx.Err() != nil {
-		return errors.Wrap(err,
+		return errors.Wrap(ctx.Err(),
 			fmt.Sprint("timeout expired waiting for tx to be validated txHash: ",
 				tx.Hash().Hex()))
 	}
-	if receipt.Status != types.ReceiptStatusSuccessful {
+	if err != nil {
 		return errors.Wrap(err,
+			fmt.Sprint("could not get the receipt of txHash: ", tx.Hash().Hex()))
+	}
+	if receipt.Status != types.ReceiptStatusSuccessful {
+		return errors.New(
 			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
-- 
2.43.0


From 4a59490862d10fa3933ca7df63e44fff21413618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 12/23] fix: nodes of different chains are an error, not a nil
 client without error

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index b5d5b6e..75d5191 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -110,7 +110,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From 552a8a2ea3b431f5fbe0ea0f05d7e1a3d12838b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 13/23] fix: a receipt of another transaction makes the
 proposer tip an error

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..63551bd 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -494,7 +494,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From c01126d050bc16e48ca006b4543a1a1800960c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 14/23] fix: only one event per MEV reward is withheld from the
 donations

---
 oracle/block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 63551bd..28718d1 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -577,7 +577,8 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
 	foundMev := false
 	for _, etherRxEvent := range b.Events.EtherReceived {
-		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
+		// Only one event is the mev reward, others with the same amount are donations
+		if !foundMev && etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
 			foundMev = true
 			continue
 		}
-- 
2.43.0


From d22355f5003a15b2bcb8ce2f7f192ee5a01892ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 15/23] fix: ban and unban events of another block are refused
 like all other events

---
 oracle/block.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oracle/block.go b/oracle/block.go
index 28718d1..715243a 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -284,6 +284,20 @@ func (b *FullBlock) SetEvents(events *Events) {
 		}
 	}
 
+	for _, event := range events.BanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in banValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
+	for _, event := range events.UnbanValidator {
+		if b.GetBlockNumberBigInt().Uint64() != event.Raw.BlockNumber {
+			log.Fatal("Block number mismatch in unbanValidator events: ",
+				b.GetBlockNumberBigInt().Uint64(), " vs ", event.Raw.BlockNumber)
+		}
+	}
+
 	b.Events = events
 
 	// Special case. Temporal fix. We artificially add the mev reward for this block.
-- 
2.43.0


From b92d0f6bd8da0c6c9efb78ae711dafa2567aa65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 16/23] fix: validator keys with non-hexadecimal characters are
 refused

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 3fbf83d..d67c4e5 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1100,7 +1100,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 929ce57125c41555abcdd343bc2ba3c75f2d568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 17/23] fix: withdrawal addresses are validated as requested,
 before lower-casing

---
 api/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/api.go b/api/api.go
index d67c4e5..76e9a71 100644
--- a/api/api.go
+++ b/api/api.go
@@ -663,14 +663,14 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	vars := mux.Vars(req)
 	withdrawalAddress := vars["withdrawalAddress"]
 
-	// Use always lowercase
-	withdrawalAddress = strings.ToLower(withdrawalAddress)
-
 	if !IsValidAddress(withdrawalAddress) {
 		m.respondError(w, http.StatusBadRequest, "invalid withdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
+	// Use always lowercase
+	withdrawalAddress = strings.ToLower(withdrawalAddress)
+
 	if m.Onchain.Validators() == nil {
 		m.respondError(w, http.StatusInternalServerError, "finalized validators not loaded yet, try again later")
 		return
-- 
2.43.0


From ef0217bc258d74bc641a84191880dcf10fe02d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 18/23] fix: a subscription event of a validator unknown to the
 beacon node does not crash the API

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 76e9a71..48bc21d 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1222,7 +1222,7 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From 9b512ca27f2cabb0587d2fb1f02c7262617b83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 19/23] fix: serving a validator does not write its index into
 the live state

---
 api/api.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/api/api.go b/api/api.go
index 48bc21d..2a36bc0 100644
--- a/api/api.go
+++ b/api/api.go
@@ -578,12 +578,15 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
+	// Copy, otherwise we would modify the state
+	validatorCopy := *validator
+
 	// TODO: Temporal, remove in production.
-	if validator.ValidatorIndex != valIndex {
-		validator.ValidatorIndex = valIndex
+	if validatorCopy.ValidatorIndex != valIndex {
+		validatorCopy.ValidatorIndex = valIndex
 	}
 
-	m.respondOK(w, validator)
+	m.respondOK(w, &validatorCopy)
 }
 
 func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From d78255d1dda129ff4f64a843883010e12868dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 20/23] fix: the statistics do not divide by zero when all
 subscribed validators have a red card

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 2a36bc0..23d396a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -352,7 +352,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From 697aad7be69964fe879116b8e9e9642917d947f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 21/23] fix: an absent consensus sync status does not crash the
 status handler

---
 api/api.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index 23d396a..37d104e 100644
--- a/api/api.go
+++ b/api/api.go
@@ -438,8 +438,13 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	}
 
 	consSync, err := m.Onchain.ConsensusClient.NodeSyncing(context.Background(), &eth2.NodeSyncingOpts{})
-	if consSync == nil || err != nil {
-		m.respondError(w, http.StatusInternalServerError, "could not get consensus sync progress or result is nil: "+err.Error())
+	if err != nil {
+		m.respondError(w, http.StatusInternalServerError, "could not get consensus sync progress: "+err.Error())
+		return
+	}
+
+	if consSync == nil {
+		m.respondError(w, http.StatusInternalServerError, "consensus sync progress is nil")
 		return
 	}
 
-- 
2.43.0


From c34f95ed7851b0c535193c3e18518b3f0e6d5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 22/23] fix: comparing addresses of different lengths in the
 API does not end the process

---
 api/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index 37d104e..ff14d5a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1055,7 +1055,7 @@ func (m *ApiService) handleValidatorRelayers(w http.ResponseWriter, req *http.Re
 				Timestamp:    fmt.Sprintf("%d", signedRegistration.Message.Timestamp.UnixNano()),
 			}
 
-			if utils.Equals(signedRegistration.Message.FeeRecipient.String(), m.Onchain.PoolAddress) {
+			if AreAddressEqual(signedRegistration.Message.FeeRecipient.String(), m.Onchain.PoolAddress) {
 				correctFeeRelays = append(correctFeeRelays, relayRegistration)
 			} else {
 				wrongFeeRelays = append(wrongFeeRelays, relayRegistration)
@@ -1116,9 +1116,10 @@ func IsValidPubkey(v string) bool {
 // TODO: Move to utils package
 func AreAddressEqual(address1 string, address2 string) bool {
 	if len(address1) != len(address2) {
-		log.Fatal("address length mismatch: ",
+		log.Warn("address length mismatch: ",
 			"add1: ", address1,
 			"add2: ", address2)
+		return false
 	}
 	if strings.ToLower(address1) == strings.ToLower(address2) {
 		return true
-- 
2.43.0


From 5f0770d89947a43484bbbf7a771dc1d414be8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 23/23] fix: a failed deep copy of the validators is not taken
 for an empty set

---
 api/api.go       |  5 ++++-
 oracle/oracle.go |  4 +++-
 utils/utils.go   | 11 ++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/api/api.go b/api/api.go
index ff14d5a..afa1991 100644
--- a/api/api.go
+++ b/api/api.go
@@ -726,7 +726,10 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	if err := utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy); err != nil {
+		m.respondError(w, http.StatusInternalServerError, fmt.Sprint("could not copy the validators: ", err))
+		return
+	}
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
diff --git a/oracle/oracle.go b/oracle/oracle.go
index edc7b86..0b886f4 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -760,7 +760,9 @@ func (or *Oracle) FreezeCheckpoint() bool {
 	defer or.mutex.Unlock()
 
 	validatorsCopy := make(map[uint64]*ValidatorInfo)
-	utils.DeepCopy(or.state.Validators, &validatorsCopy)
+	if err := utils.DeepCopy(or.state.Validators, &validatorsCopy); err != nil {
+		log.Fatal("could not copy the validators: ", err)
+	}
 
 	mk := NewMerklelizer()
 	withdrawalToLeaf, withdrawalToRawLeaf, tree, enoughData := mk.GenerateTreeFromState(or.state)
diff --git a/utils/utils.go b/utils/utils.go
index f3a5db9..6babe94 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -218,13 +218,18 @@ func DecryptKey(cfg *config.CliConfig) (*keystore.Key, error) {
 
 // Not the most efficient way of deep coping, if performance
 // matters, dont use this.
-func DeepCopy(a, b interface{}) {
+func DeepCopy(a, b interface{}) error {
 
 	buff := new(bytes.Buffer)
 	enc := gob.NewEncoder(buff)
 	dec := gob.NewDecoder(buff)
-	enc.Encode(a)
-	dec.Decode(b)
+	if err := enc.Encode(a); err != nil {
+		return errors.Wrap(err, "could not encode the value to copy")
+	}
+	if err := dec.Decode(b); err != nil {
+		return errors.Wrap(err, "could not decode the copied value")
+	}
+	return nil
 }
 
 func GetActivationSlotOfLatestProcessedValidator(
-- 
2.43.0

