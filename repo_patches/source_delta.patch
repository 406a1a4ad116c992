From fd88adfba9cc834b9ebdda15febd4fbbaa779765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 01/21] fix: reject batch configs whose threshold does not fit
 into an int

EnsureValid compared int(Threshold) with the number of keypers. Thresholds of
2^63 and more convert to negative numbers and were accepted, after which every
single vote satisfied the (negative) number of required votes.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 19cfe66e72e66c088c07c2a889987dd3bbc48ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 02/21] fix: do not count votes for starting a config for its
 successor

The BatchConfigStarted votes of the last config were kept when a new config got
added. At the end of the block they counted for the new config, which was
started although none of its predecessor's keypers asked for it.
---
 shuttermint/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..61c40e6 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,8 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	// The votes collected so far are for starting the previous config.
+	app.StartedVotes = make(map[common.Address]struct{})
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From d9c2c9fcf161ce17937d97cd065834ab45b332c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 03/21] fix: reject malformed points and blocks when decoding

---
 shlib/shcrypto/encoding.go | 37 ++++++++++++++++++++-----------------
 shlib/shcrypto/feldman.go  |  6 ++++--
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1a71579 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -48,16 +48,14 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 		(len(d)-1-blst.BLST_P2_COMPRESS_BYTES-BlockSize)%BlockSize != 0 {
 		return fmt.Errorf("invalid length %d of encrypted message", len(d))
 	}
-	if m.C1 == nil {
-		m.C1 = new(blst.P2Affine)
-	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	c1 := new(blst.P2Affine).Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
+	if c1 == nil {
 		return errors.New("failed to deserialize C1")
 	}
-	if !m.C1.InG2() {
+	if !c1.InG2() {
 		return errors.New("C1 not on curve")
 	}
+	m.C1 = c1
 
 	copy(m.C2[:], d[1+blst.BLST_P2_COMPRESS_BYTES:1+blst.BLST_P2_COMPRESS_BYTES+BlockSize])
 
@@ -92,14 +90,14 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
-	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
+	p := new(blst.P2Affine).Uncompress(m)
 	if p == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
 		return errors.New("eon public key share is not on curve")
 	}
+	*eonPublicKeyShare = EonPublicKeyShare(*p)
 	return nil
 }
 
@@ -110,14 +108,14 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
-	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
+	p := new(blst.P2Affine).Uncompress(m)
 	if p == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
 		return errors.New("eon public key is not on curve")
 	}
+	*eonPublicKey = EonPublicKey(*p)
 	return nil
 }
 
@@ -142,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
+	p := new(blst.P1Affine).Uncompress(m)
 	if p == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
@@ -161,14 +158,14 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
+	p := new(blst.P1Affine).Uncompress(m)
 	if p == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
 		return errors.New("epoch secret key share is not on curve")
 	}
+	*epochSecretKeyShare = EpochSecretKeyShare(*p)
 	return nil
 }
 
@@ -179,14 +176,14 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
+	p := new(blst.P1Affine).Uncompress(m)
 	if p == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
 		return errors.New("epoch secret key is not on curve")
 	}
+	*epochSecretKey = EpochSecretKey(*p)
 	return nil
 }
 
@@ -212,8 +209,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..42f864b 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -171,9 +171,11 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
+	if len(data)%blst.BLST_P2_COMPRESS_BYTES != 0 {
+		return errors.New("invalid length of gammas")
+	}
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
-		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
+		p := new(blst.P2Affine).Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
 		if p == nil {
 			return errors.New("failed to deserialize gammas")
 		}
-- 
2.43.0


From e60a0a4476a4db2b5d8bc2a765cb210da310cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 04/21] fix: do not overwrite memory behind the message when
 padding it

---
 shlib/shcrypto/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..b8581d6 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,7 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	m = append(m[:len(m):len(m)], padding...) // do not write to the memory behind m
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From df734c3818aa08d7e7109f0a5ae592a8794f9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 05/21] fix: reject malformed padding of decrypted messages

---
 shlib/shcrypto/encryption.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index b8581d6..97a66ea 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -186,7 +186,7 @@ func PadMessage(m []byte) []Block {
 // UnpadMessage returns the message provided in padded form as a sequence of blocks.
 func UnpadMessage(blocks []Block) ([]byte, error) {
 	if len(blocks) == 0 {
-		return []byte{}, nil
+		return nil, errors.New("padded message is empty")
 	}
 
 	lastBlock := blocks[len(blocks)-1]
@@ -197,6 +197,11 @@ func UnpadMessage(blocks []Block) ([]byte, error) {
 	if paddingLength > BlockSize {
 		return nil, fmt.Errorf("invalid padding length %d (greater than block size %d)", paddingLength, BlockSize)
 	}
+	for _, b := range lastBlock[BlockSize-paddingLength:] {
+		if int(b) != paddingLength {
+			return nil, fmt.Errorf("invalid padding byte %d (padding length is %d)", b, paddingLength)
+		}
+	}
 
 	m := make([]byte, len(blocks)*BlockSize-paddingLength)
 	// copy unpadded blocks
-- 
2.43.0


From 2bbc6dd5edbf9a92bd56b1e184841088b802162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 06/21] fix: keep missing DKG messages missing when a keyper is
 restarted

gob stores nil elements of Pure.Commitments and Pure.Evals as zero values, so a
restarted keyper considered the messages it was still waiting for as duplicates.
---
 shuttermint/keyper/decide.go | 36 ++++++++++++++++++++++++++++++++++++
 shuttermint/keyper/keyper.go |  6 ++++++
 2 files changed, 42 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..0ab279b 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -70,6 +70,42 @@ type DKG struct {
 	Pure                 *puredkg.PureDKG
 	OutgoingPolyEvalMsgs []puredkg.PolyEvalMsg
 	PhaseLength          PhaseLength
+
+	// MissingCommitments and MissingEvals hold the indexes of the keypers from which we haven't
+	// received a commitment resp. an evaluation yet. They are only used when storing the state on
+	// disk, because gob does not preserve the nil elements in Pure.Commitments and Pure.Evals.
+	MissingCommitments []int
+	MissingEvals       []int
+}
+
+// recordMissing stores which commitments and evaluations are missing.
+func (dkg *DKG) recordMissing() {
+	dkg.MissingCommitments = nil
+	dkg.MissingEvals = nil
+	if dkg.Pure == nil {
+		return
+	}
+	for i, c := range dkg.Pure.Commitments {
+		if c == nil {
+			dkg.MissingCommitments = append(dkg.MissingCommitments, i)
+		}
+	}
+	for i, e := range dkg.Pure.Evals {
+		if e == nil {
+			dkg.MissingEvals = append(dkg.MissingEvals, i)
+		}
+	}
+}
+
+// restoreMissing resets the commitments and evaluations that were missing when the state has been
+// stored.
+func (dkg *DKG) restoreMissing() {
+	for _, i := range dkg.MissingCommitments {
+		dkg.Pure.Commitments[i] = nil
+	}
+	for _, i := range dkg.MissingEvals {
+		dkg.Pure.Evals[i] = nil
+	}
 }
 
 // EKG is used to store local state about the epoch key generation process.
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..50bcd94 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,6 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	for i := range st.State.DKGs {
+		st.State.DKGs[i].restoreMissing()
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
@@ -348,6 +351,9 @@ func (kpr *Keyper) saveState() error {
 	}
 	defer file.Close()
 	world := kpr.CurrentWorld()
+	for i := range kpr.State.DKGs {
+		kpr.State.DKGs[i].recordMissing()
+	}
 	st := storedState{
 		State:     kpr.State,
 		Shutter:   world.Shutter,
-- 
2.43.0


From b352b057b213ce50f0b88f3d83a74fc227a64a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 07/21] fix: keep a pending half step 0 when a keyper is
 restarted

gob drops a pointer to zero, so the restarted keyper considered no half step to be
pending.
---
 shuttermint/keyper/keyper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 50bcd94..61f44e7 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -296,6 +296,9 @@ type storedState struct {
 	State     *State
 	Shutter   *observe.Shutter
 	MainChain *observe.MainChain
+
+	// HalfStepIsPending tells a pending half step 0 from no pending half step, which gob doesn't.
+	HalfStepIsPending bool
 }
 
 func (kpr *Keyper) pathStateGob() string {
@@ -332,6 +335,9 @@ func (kpr *Keyper) LoadState() error {
 	for i := range st.State.DKGs {
 		st.State.DKGs[i].restoreMissing()
 	}
+	if st.HalfStepIsPending && st.State.PendingHalfStep == nil {
+		st.State.PendingHalfStep = new(uint64)
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
@@ -358,6 +364,8 @@ func (kpr *Keyper) saveState() error {
 		State:     kpr.State,
 		Shutter:   world.Shutter,
 		MainChain: world.MainChain,
+
+		HalfStepIsPending: kpr.State.PendingHalfStep != nil,
 	}
 	enc := gob.NewEncoder(file)
 	err = enc.Encode(st)
-- 
2.43.0


From 1aea620410564d301ca2f9d25d73b01f2f31d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 08/21] fix: keep epoch secret key shares when filtering the
 shutter state

Eon.ApplyFilter dropped all epoch secret key shares, including those at or above
the filter's sync height, which the keyper has not processed yet.
---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From 8efc7e5e7f15e76fd7824738f171c543123851d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 09/21] fix: do not store receipts of skipped half steps

The executor contract returns an empty receipt for a skipped cipher half step.
It was stored as receipt of half step 0, replacing the real one, which makes
the keyper accuse the executor of half step 0 or fail to appeal for it.
---
 shuttermint/keyper/observe/mainchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..f1dd44a 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,6 +223,11 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
+		if !receipt.Executed {
+			// The half step has been skipped. In this case the contract does not store a receipt and
+			// we get an empty one, including a zero HalfStep field.
+			continue
+		}
 		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
-- 
2.43.0


From 3ae83f6f6996fbb9ed34ce9e2d2c668594c0bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 10/21] fix: do not go back to older blocks of the main chain

When the node reported an older head than before, SyncToHead moved CurrentBlock
back. The next call then fetched the transactions added since that block again
and appended them a second time to their batches.
---
 shuttermint/keyper/observe/mainchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index f1dd44a..38289db 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -349,6 +349,12 @@ func (mainchain *MainChain) SyncToHead(
 		syncUntilBlockNumber = 0
 	}
 
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node is behind what we have seen already, e.g. because it's another one behind a load
+		// balancer. If we went back to its head, we'd see the events since then a second time.
+		return mainchain, nil
+	}
+
 	mainchain = mainchain.Clone()
 
 	opts := &bind.CallOpts{
-- 
2.43.0


From 0979e3dc0cfc76385231d6eb7db4ed9dca69ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 11/21] fix: do not divide by zero when executing for a config
 without keypers

---
 shuttermint/keyper/decide.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 0ab279b..b5d5054 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1200,6 +1200,11 @@ func (dcdr *Decider) syncPendingAppeals() {
 // executionDelay returns the number of main chain blocks to wait before sending an execution tx.
 // This makes sure not all keypers try to send the same tx at the same time.
 func (dcdr *Decider) executionDelay(config contract.BatchConfig, halfStep uint64) uint64 {
+	if len(config.Keypers) == 0 {
+		// there is no one to take turns with
+		return 0
+	}
+
 	// do not delay the execution for more than 50% of the execution timeout
 	var maxStaggering, staggering, divisor uint64
 	divisor = uint64(len(config.Keypers) - 1)
-- 
2.43.0


From 7cbdeb06760cd2e022aee13e5873bf27a531e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 12/21] fix: do not decrypt a batch before all of its
 transactions are seen

---
 shuttermint/keyper/decide.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index b5d5054..08bf419 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -113,6 +113,10 @@ type EKG struct {
 	Eon     uint64
 	Keypers []common.Address
 	EpochKG *epochkg.EpochKG
+
+	// PendingDecryptions are the epochs whose secret key is known, but whose batch we haven't
+	// decrypted yet, because our view of the main chain doesn't include the end of the batch.
+	PendingDecryptions []uint64
 }
 
 func (dkg *DKG) ShortInfo() string {
@@ -695,14 +699,30 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 			log.Printf("Error while handling epoch secret key share: %+v", err)
 			continue
 		}
-		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
+		if _, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
+			ekg.PendingDecryptions = append(ekg.PendingDecryptions, share.Epoch)
+		}
+	}
+}
+
+// decryptBatches decrypts the batches whose epoch secret key is known, once they are closed
+// according to our view of the main chain. The other keypers may be ahead of us, so we may get the
+// key of a batch before we've seen all of its transactions.
+func (dcdr *Decider) decryptBatches(ekg *EKG) {
+	var pending []uint64
+	for _, epoch := range ekg.PendingDecryptions {
+		config, ok := dcdr.MainChain.ConfigForBatchIndex(epoch)
+		if !ok || dcdr.MainChain.CurrentBlock < config.BatchEndBlock(epoch) {
+			pending = append(pending, epoch)
+			continue
+		}
+		dcdr.decryptTransactions(ekg.EpochKG.SecretKeys[epoch], epoch)
+		if !dcdr.executionTimeoutReachedOrInactive(epoch) {
+			dcdr.sendDecryptionSignature(epoch)
 		}
 	}
+	ekg.PendingDecryptions = pending
 }
 
 // Add a prefix to avoid accidentally signing data with special meaning in different context, in
@@ -760,8 +780,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
+		// The batch is empty.
 		log.Printf("Batch missing for batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
@@ -816,6 +835,7 @@ func (dcdr *Decider) syncEKGs() {
 			panic(err)
 		}
 		dcdr.syncEKGWithEon(dcdr.State.SyncHeight, ekg, eon)
+		dcdr.decryptBatches(ekg)
 	}
 }
 
-- 
2.43.0


From 82496ba8046f333b36cc76c086bcea64926d7201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 13/21] fix: ignore decryption signatures which the contracts
 do not accept

---
 shuttermint/keyper/decide.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 08bf419..51de59d 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -44,8 +44,16 @@ type Batch struct {
 	IsEmpty                  bool
 }
 
-// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
+// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash. It only accepts
+// signatures that the contracts accept, i.e. those with an s value in the lower half order.
 func (batch *Batch) VerifySignature(sender common.Address, signature []byte) bool {
+	if len(signature) != crypto.SignatureLength {
+		return false
+	}
+	r, s := new(big.Int).SetBytes(signature[:32]), new(big.Int).SetBytes(signature[32:64])
+	if !crypto.ValidateSignatureValues(signature[crypto.RecoveryIDOffset], r, s, true) {
+		return false
+	}
 	pubkey, err := crypto.SigToPub(batch.DecryptionSignatureHash, signature)
 	if err != nil {
 		return false
-- 
2.43.0


From d6830928fe5238b98bd571973a251e79842f4ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 14/21] fix: do not send accusations which the contract rejects

---
 shuttermint/keyper/decide.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 51de59d..df6d720 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1180,6 +1180,11 @@ func (dcdr *Decider) maybeAccuse() {
 			continue
 		}
 
+		if receipt.CipherBatchHash == ([32]byte{}) {
+			// nobody can be accused of executing an empty batch
+			continue
+		}
+
 		stBatch, ok := dcdr.State.Batches[batchIndex]
 		if !ok {
 			continue
@@ -1199,7 +1204,10 @@ func (dcdr *Decider) maybeAccuse() {
 				continue
 			}
 
-			keyperIndex, _ := config.KeyperIndex(dcdr.Config.Address())
+			keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
+			if !ok {
+				continue // only keypers can accuse
+			}
 			action := fx.Accuse{
 				HalfStep:    halfStep,
 				KeyperIndex: keyperIndex,
-- 
2.43.0


From fa29253021c44c8fbaea3df20f48e82d2808b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 15/21] fix: check executions of batches which are decrypted
 only afterwards

---
 shuttermint/keyper/decide.go | 94 ++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index df6d720..479870c 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -304,6 +304,10 @@ type State struct {
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
 
+	// UncheckedHalfSteps are the cipher half steps before HalfStepsChecked whose execution we
+	// couldn't check yet, because we hadn't decrypted the batch.
+	UncheckedHalfSteps []uint64
+
 	// We store the actions that should be executed together with a counter. When starting the
 	// program, we feed these actions into runenv, which can use the counter to identify the
 	// actions.
@@ -1166,57 +1170,75 @@ func (dcdr *Decider) maybeAppeal() {
 	}
 }
 
+// maybeAccuse checks the newly executed cipher half steps, as well as those executed before we have
+// decrypted their batch, and accuses their executor if necessary.
 func (dcdr *Decider) maybeAccuse() {
+	halfSteps := dcdr.State.UncheckedHalfSteps
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
 		if halfStep%2 != 0 {
 			continue // only accuse for cipher execution half steps, not plain ones
 		}
+		halfSteps = append(halfSteps, halfStep)
+	}
 
-		batchIndex := halfStep / 2
-
-		receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
-		if receipt == nil {
-			// half step was skipped
-			continue
+	var unchecked []uint64
+	for _, halfStep := range halfSteps {
+		if !dcdr.checkHalfStep(halfStep) {
+			unchecked = append(unchecked, halfStep)
 		}
+	}
+	dcdr.State.UncheckedHalfSteps = unchecked
+	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+}
 
-		if receipt.CipherBatchHash == ([32]byte{}) {
-			// nobody can be accused of executing an empty batch
-			continue
-		}
+// checkHalfStep accuses the executor of the given cipher half step, if what has been executed
+// doesn't match what we've decrypted. It returns false if we haven't decrypted the batch yet.
+func (dcdr *Decider) checkHalfStep(halfStep uint64) bool {
+	batchIndex := halfStep / 2
 
-		stBatch, ok := dcdr.State.Batches[batchIndex]
-		if !ok {
-			continue
-		}
+	receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
+	if receipt == nil {
+		// half step was skipped
+		return true
+	}
 
-		if !bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
-			// what was decrypted does not match what we've decrypted
+	if receipt.CipherBatchHash == ([32]byte{}) {
+		// nobody can be accused of executing an empty batch
+		return true
+	}
 
-			if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
-				log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
-				continue
-			}
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	if !ok {
+		log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
+		return true
+	}
 
-			config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
-			if !ok {
-				log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
-				continue
-			}
+	keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
+	if !ok {
+		// only keypers can accuse
+		return true
+	}
 
-			keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
-			if !ok {
-				continue // only keypers can accuse
-			}
-			action := fx.Accuse{
-				HalfStep:    halfStep,
-				KeyperIndex: keyperIndex,
-			}
-			dcdr.addAction(&action)
-		}
+	stBatch, ok := dcdr.State.Batches[batchIndex]
+	if !ok {
+		return false
 	}
 
-	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+	if bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
+		return true
+	}
+
+	// what was decrypted does not match what we've decrypted
+	if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
+		log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
+		return true
+	}
+
+	dcdr.addAction(&fx.Accuse{
+		HalfStep:    halfStep,
+		KeyperIndex: keyperIndex,
+	})
+	return true
 }
 
 // syncPendingAppeals removes any pending appeals that have been successfully handled by the main
-- 
2.43.0


From cbbf3d871e0ab17649fe56c91553777c874fa27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 16/21] fix: report messages rejected by CheckTx as errors

BroadcastTxCommit does not return an error if the application rejects a
transaction in CheckTx. SendMessage only looked at the result of DeliverTx
and hence reported such a message as sent.
---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..3234eef 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		return &RemoteError{
+			msg: res.CheckTx.Log,
+		}
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From 3bf63a104bcbedfe3b9a6c0c893c2f9e61b681e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 17/21] fix: don't crash if the main chain node fails while
 preparing a transaction

sendMainChainTX accessed the transaction options before checking for an
error, so a keyper crashed when the node could not be asked for the chain
id, the nonce or the gas price.
---
 shuttermint/keyper/fx/runenv.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..5fe62d3 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,10 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From ead3bc5de1da820bb9e39f710a10c030fd8658e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 18/21] fix: choose a start block for the next config which the
 config contract accepts

---
 shuttermint/cmd/config/setnext.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..3d4b433 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -77,7 +77,16 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
-	minStartBlock := header.Number.Uint64() + headsUp + 20
+	// The contract demands a notice of at least one batch of the last config, and it doesn't know
+	// of configs starting before it.
+	notice := headsUp
+	if batchSpan > notice {
+		notice = batchSpan
+	}
+	minStartBlock := header.Number.Uint64() + notice + 20
+	if minStartBlock < startBlockNumber {
+		minStartBlock = startBlockNumber
+	}
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
-- 
2.43.0


From 4d579f839fec7c6482489f4806819f9f973f4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 19/21] fix: replace repeated keypers of the next config, too

---
 shuttermint/contract/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..ca14db6 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -381,9 +381,14 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	// The contract may hold keypers repeatedly, GetNextConfig only lists them once.
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0


From b95d0f34abe5e4e32450a16b99118d6dbbae09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 20/21] fix: count signatures of batches which were forgotten
 meanwhile

---
 shuttermint/keyper/decide.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 479870c..2de61dc 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -914,8 +914,14 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 		return
 	}
 
+	start := batch.DecryptionSignatureIndex
+	if batch.BatchIndex < dcdr.Shutter.Filter.BatchIndex {
+		// The signatures we've already seen have been dropped.
+		start = 0
+	}
+
 	signatureCount := 0
-	for i := batch.DecryptionSignatureIndex; i < len(shBatch.DecryptionSignatures); i++ {
+	for i := start; i < len(shBatch.DecryptionSignatures); i++ {
 		ev := shBatch.DecryptionSignatures[i]
 		if !config.IsKeyper(ev.Sender) {
 			log.Printf("Ignoring signature for batch %d from non-keyper %s", batch.BatchIndex, ev.Sender.Hex())
-- 
2.43.0


From f613a4c4d7b0faed59ca0092135189cc98e9d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:52 +0000
Subject: [PATCH 21/21] fix: build the browser bindings with the current shlib,
 whose epoch ids are computed from bytes

---
 shuttermint/shcryptowasm/both_wasm.go    | 14 +++++++-------
 shuttermint/shcryptowasm/decrypt_wasm.go | 14 +++++++-------
 shuttermint/shcryptowasm/encrypt_wasm.go |  4 +---
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/shuttermint/shcryptowasm/both_wasm.go b/shuttermint/shcryptowasm/both_wasm.go
index 508a396..3b374f2 100644
--- a/shuttermint/shcryptowasm/both_wasm.go
+++ b/shuttermint/shcryptowasm/both_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -133,11 +132,11 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeUint64Arg(arg, "epochID")
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
@@ -195,13 +194,14 @@ func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
 	return b, nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
+// decodeUint64Arg returns the eight bytes of a big endian number.
+func decodeUint64Arg(arg js.Value, name string) ([]byte, error) {
 	b, err := decodeBytesArg(arg, name)
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
diff --git a/shuttermint/shcryptowasm/decrypt_wasm.go b/shuttermint/shcryptowasm/decrypt_wasm.go
index c624c34..b29a0d2 100644
--- a/shuttermint/shcryptowasm/decrypt_wasm.go
+++ b/shuttermint/shcryptowasm/decrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -130,23 +129,24 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeUint64Arg(arg, "epochID")
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
+// decodeUint64Arg returns the eight bytes of a big endian number.
+func decodeUint64Arg(arg js.Value, name string) ([]byte, error) {
 	b, err := decodeBytesArg(arg, name)
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
 
 func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
diff --git a/shuttermint/shcryptowasm/encrypt_wasm.go b/shuttermint/shcryptowasm/encrypt_wasm.go
index 7fa22e7..d1415ba 100644
--- a/shuttermint/shcryptowasm/encrypt_wasm.go
+++ b/shuttermint/shcryptowasm/encrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -88,8 +87,7 @@ func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
 		return nil, fmt.Errorf("epochID must be 8 bytes, got %d", len(b))
 	}
 
-	i := binary.BigEndian.Uint64(b)
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
-- 
2.43.0

