from lib import prop, H

A = "shuttermint/app/"
SE = "shuttermint/keyper/shutterevents/"

prop("A01", "Signed transactions act once, on their chain only",
  "A transaction changes the state of the chain only if it carries a valid signature over exactly its content, names this chain's id, and its signer never used the same nonce before; any effect is attributed to the signer. A transaction failing one of these conditions is answered with an error code and no events and leaves the state unchanged, no matter how often or in which order transactions are delivered.",
  ["inputs", "histories"], "every signer, chain id, nonce, tampering of the encoded transaction, and every order of up to 3 deliveries",
  "Tests deliver a handful of hand-made transactions; they cannot range over nonces, resends and forged signatures in all orders.",
  [A + "app.go", A + "noncetracker.go", "shuttermint/shmsg/encode.go"],
  [("decodeTx / DeliverTx admission", A + "app.go"), ("SignMessage / GetSigner", "shuttermint/shmsg/encode.go"), ("NonceTracker", A + "noncetracker.go")],
  [H("VerifReplay", "app", ["common.go", "tx.go"], 90, ["resend", "rejected", "executed", "failed"],
     "3 deliveries, 2 concrete signing keys (one a member), 4 chain ids, symbolic 64-bit nonces, 4 kinds of tampering (last position only in the quick tier), immediate resends")],
  ["ECDSA over secp256k1 is ideal: a signature recovers its key only over the signed hash, forged ones recover nobody", "hash functions are collision and preimage free", "protobuf encoding is injective and fixed-size; bytes it did not produce do not decode"])

prop("A02", "A new batch config is adopted by threshold vote of the current keypers",
  "A proposed batch config becomes the current one exactly when as many distinct keypers of the current config as its threshold demands have voted for that identical proposal; every keyper votes at most once per voting and each adoption starts a new, empty voting. Malformed or invalid proposals (no or duplicate keypers, threshold zero or above the number of keypers, start batch lower than or config index not greater than the current ones) and votes by others are rejected without effect. Adoption emits the config and, if keypers or threshold changed, the start of the next eon at the config's start batch.",
  ["inputs", "histories"], "all senders, all proposals and all voting histories within the bounds",
  "Unit tests vote with a few fixed addresses; the property quantifies over all addresses, proposals differing in one field, malformed fields and orders of votes.",
  [A + "app.go", A + "configvoting.go", A + "voting.go", SE + "batchconfig.go"],
  [("deliverBatchConfig / checkConfig / addConfig", A + "app.go"), ("ConfigVoting", A + "configvoting.go"), ("EnsureValid", SE + "batchconfig.go")],
  [H("VerifConfigHistory", "app", ["common.go", "config.go"], 75, ["adopted", "rejected", "below", "acknowledged", "eon", "noeon"],
     "up to 3 keypers, arbitrary threshold 1..n, 3 votes (4 thorough) by arbitrary senders over two arbitrary valid proposals with 1-2 keypers differing in one field"),
   H("VerifConfigRounds", "app", ["common.go", "config.go"], 60, ["adopted", "rejected", "below", "eon", "noeon"],
     "4 votes (5 thorough) by three fixed keypers with threshold 2 over two proposals with 2-3 of these keypers, arbitrary thresholds, indexes and start batches, so that a second round follows the first adoption"),
   H("VerifConfigMessage", "app", ["common.go", "config.go"], 60, ["adopted", "rejected", "acknowledged"],
     "one arbitrary proposal with up to 3 keypers, 64-bit threshold/start/index, address lengths 19..21, last config with 1-2 keypers and threshold 1")],
  [])

prop("A03", "A config is started only by its predecessor's keypers announcing it",
  "At the end of a block the latest config becomes started exactly when at least as many distinct keypers of the preceding config as that config's threshold have announced the start of this very config. Announcements by anybody else or for any other config index are rejected and never count, and announcements made for one config never count for a later one.",
  ["inputs", "histories"], "all histories of announcements, block ends and config adoptions within the bounds, by arbitrary senders",
  "Tests announce with fixed keypers in one order; interleaving announcements, block ends and a superseding config needs all schedules.",
  [A + "app.go"],
  [("deliverBatchConfigStarted", A + "app.go"), ("EndBlock", A + "app.go"), ("addConfig", A + "app.go")],
  [H("VerifStartHistory", "app", ["common.go", "start.go"], 60, ["vote", "rejected", "endblock", "successor", "started"],
     "up to 3 keypers in the previous config, arbitrary threshold, 4 operations (5 thorough) out of announcement / end of block / adoption of a successor config, arbitrary senders and config indexes")],
  [])

prop("A04", "Eons are restarted by threshold vote and numbered consecutively",
  "A keyper's vote to restart key generation from some batch counts for the config in charge of that batch, and a later vote of the same keyper replaces the earlier one. As soon as as many keypers of that config as its threshold currently vote for the same batch, exactly one new eon with the next number is started for that config and batch, its key generation begins with an empty record, and the votes are cleared; otherwise no eon is started. Votes by non-keypers of that config are rejected without effect.",
  ["inputs", "histories"], "all histories of up to 4 votes (5 thorough) by arbitrary senders for arbitrary batches",
  "Tests cast a few votes for fixed batches; changing votes, several configs and batch boundaries need all histories.",
  [A + "app.go", A + "eonvoting.go", A + "voting.go"],
  [("deliverEonStartVoteMsg / countEonStartVote / maybeStartEon", A + "app.go"), ("EonStartVoting", A + "eonvoting.go"), ("StartDKG", A + "app.go")],
  [H("VerifEonVotes", "app", ["common.go", "eon.go"], 60, ["started", "below", "rejected"],
     "first config with up to 3 keypers and arbitrary threshold, optional second config with arbitrary start batch, 4 votes (5 thorough)")],
  [])

prop("A05", "Key generation messages are admitted once and only among the eon's keypers",
  "A polynomial evaluation, commitment, accusation or apology is admitted exactly if its eon has been started, its sender is a keyper of that eon's config, all addressed keypers are well-formed, distinct, keypers of that config and different from the sender, the lists it carries match in length, and the sender has not sent such a message (for evaluations: to that receiver) for that eon before. Admitted messages are published unchanged under their sender; all others are rejected without effect.",
  ["inputs", "histories"], "all messages with up to two addressed keypers, in all histories of two messages over two eons",
  "Tests use a few fixed keypers; the property quantifies over all senders, receivers, eons, duplicates and malformed lists.",
  [A + "app.go", A + "dkg.go", A + "messages.go"],
  [("Register*Msg", A + "dkg.go"), ("Parse*Msg", A + "messages.go"), ("handle*Msg", A + "app.go")],
  [H("VerifDKGMessages", "app", ["common.go", "checkin.go", "dkg.go"], 90, ["admitted", "rejected"],
     "two eons with up to 3 resp. 1 keypers, 2 messages of one kind (any kinds in the thorough tier), up to 2 addressed keypers, payload 1 byte, commitments without points")],
  ["commitments carry no curve points here (their decoding is covered by C06)"])

prop("A06", "Keypers check in once with valid keys",
  "A check-in is accepted exactly if the sender is a keyper of some adopted config, has not checked in before, and supplies a 32 byte validator key and a valid compressed encryption key. The accepted keys are recorded for and published under the sender and never change afterwards; a rejected check-in has no effect.",
  ["inputs", "histories"], "all senders and validator keys, key lengths around the valid one, valid and invalid encryption keys, all histories of 2 check-ins (3 thorough)",
  "Tests check in fixed keypers with fixed keys.",
  [A + "app.go", A + "types.go"],
  [("deliverCheckIn", A + "app.go"), ("NewValidatorPubkey", A + "types.go")],
  [H("VerifCheckIn", "app", ["common.go", "checkin.go"], 60, ["checked-in", "rejected"],
     "configs with up to 2+1 keypers, 2 check-ins (3 thorough), symbolic 31..33 byte validator keys, five concrete encryption keys (two valid, off curve, bad prefix, short)")],
  ["encryption keys are drawn from five concrete representatives"])

prop("A07", "The validator set follows the checked-in keypers of the active config",
  "After every block the validator set resulting from the emitted updates is that of the latest started config that at some block end had at least threshold many keypers checked in (ten votes per keyper, those of keypers not checked in going to a placeholder), or the initial validators if there is none. The updates are sorted by key, contain no redundant entry and remove only known validators; in dev mode none are emitted.",
  ["inputs", "histories", "configurations"], "all sets of checked-in keypers over two blocks, all validator keys (including shared ones), thresholds and started flags",
  "Tests compare a few fixed power maps; key collisions, partial check-ins and switching of configs need all configurations.",
  [A + "app.go", A + "powermap.go"],
  [("EndBlock / CurrentValidators / makePowermap", A + "app.go"), ("DiffPowermaps / ValidatorUpdates", A + "powermap.go")],
  [H("VerifValidators", "app", ["common.go", "power.go"], 90, ["updated", "previous", "genesis", "devmode", "changed"],
     "previous config with 1 keyper, current config with up to 3 keypers, 2 blocks (1 for 3 keypers in the quick tier), arbitrary check-ins in between, symbolic 32 byte validator keys")],
  [])

prop("A08", "All nodes compute the same result from the same block",
  "Two nodes in the same state that process the same messages and end of block return the same codes, events and validator updates and reach the same state, independent of the iteration order of maps or other local nondeterminism.",
  ["inputs", "schedules"], "all messages and reachable small voting states, opposite iteration orders of every map",
  "A test run sees one random iteration order; disagreement needs a particular order together with a particular vote distribution.",
  [A + "app.go", A + "voting.go", A + "powermap.go"],
  [("Voting.OutcomeIndex", A + "voting.go"), ("ValidatorUpdates / SortValidators", A + "powermap.go")],
  [H("VerifDeterminism", "app", ["common.go", "determinism.go"], 60, ["accepted", "event", "updates"],
     "one message of 4 kinds plus end of block on two replicas iterating over maps in insertion order and in reverse; 2-3 keypers, arbitrary votes collected before", repeat=200)],
  ["map iteration orders compared: insertion order and its reverse"])

prop("A09", "The mempool admits at most ten transactions per keyper and block",
  "The mempool check admits a transaction exactly if it is correctly signed for this chain by a keyper of an adopted config, its nonce has neither been delivered nor been admitted since the last commit, and fewer than ten transactions of that keyper have been admitted since the last commit. It never changes what delivered transactions do.",
  ["inputs", "histories"], "all histories of 3 operations (check, deliver, commit) after 7..10 admitted transactions",
  "Tests fill the quota in one fixed order; the interplay of nonces, quota, deliveries and commits needs all histories.",
  [A + "app.go", A + "checktx.go", A + "noncetracker.go"],
  [("CheckTx", A + "app.go"), ("CheckTxState", A + "checktx.go")],
  [H("VerifCheckTx", "app", ["common.go", "tx.go"], 75, ["admitted", "refused", "delivered", "commit"],
     "3 operations after 7..10 admitted transactions, 3 concrete keys (2 members), 4 chain ids, symbolic nonces")],
  ["same ideal signature and encoding model as A01"])

prop("A10", "One decryption signature per keyper and batch",
  "A decryption signature is accepted exactly if its sender is a keyper of the config in charge of the batch and has not submitted one for that batch before. It is then recorded and published unchanged under its sender; otherwise it has no effect.",
  ["inputs", "histories"], "all senders, batches and start batches of three configs, all histories of 3 signatures (4 thorough)",
  "Tests submit fixed signatures for one batch; config boundaries and duplicates across batches need all inputs.",
  [A + "app.go", A + "batch_state.go"],
  [("deliverDecryptionSignature / getBatchState / getConfig", A + "app.go"), ("AddDecryptionSignature", A + "batch_state.go")],
  [H("VerifDecryptionSignatures", "app", ["common.go", "decsig.go"], 60, ["accepted", "rejected"],
     "three configs with 1-2 keypers and arbitrary start batches, 3 signatures (4 thorough) of 2 bytes")],
  [])

prop("A11", "No transaction or message can crash a node",
  "Delivering or checking arbitrary transaction bytes, and executing an arbitrary decoded message with missing, empty, oversized or malformed fields, ends normally; a message that is answered with an error code leaves neither events nor state changes behind.",
  ["inputs"], "all messages of every kind with up to two list entries and small byte fields, transactions of selected lengths with arbitrary bytes",
  "Tests deliver well-formed messages only; a crash needs the one malformed shape nobody wrote a test for.",
  [A + "app.go", A + "messages.go", A + "dkg.go", "shuttermint/shmsg/encode.go"],
  [("deliverMessage and handlers", A + "app.go"), ("Parse*Msg", A + "messages.go"), ("GetSigner / GetMessage", "shuttermint/shmsg/encode.go")],
  [H("VerifAnyMessage", "app", ["common.go", "panics.go"], 60, ["ok", "failed"],
     "one message of any kind (including none and empty payloads), lists up to 2 entries with lengths around the valid one, arbitrary 64-bit numbers, one or two configs"),
   H("VerifAnyTx", "app", ["common.go", "panics.go"], 60, ["done"],
     "arbitrary transaction bytes of length 0, 1, 4, 5, 86, 87, 88")],
  ["unsigned bytes recover no signer (ideal ECDSA)", "curve points and key shares in messages are limited to bytes too short to decode"])

prop("A12", "A restarted node carries on as if it had not been stopped",
  "Storing the application state and loading it again changes nothing: the restarted node reports the height the state belongs to, answers the next message in the same way and reaches the same state and validator set as one that kept running. If the machine crashes or a write fails while the state is being stored, the restarted node finds the complete state of some block stored before, and running the blocks behind it leads to the state of an undisturbed node.",
  ["crash_points", "inputs", "fault_sequences"], "all small states and messages of every kind, all crash and fault points of two stores",
  "No test stores and reloads an app with pending votes, running key generations and used nonces, and none crashes in between.",
  [A + "app.go", A + "types.go"],
  [("PersistToDisk / LoadShutterAppFromFile / Commit", A + "app.go")],
  [H("VerifAppRestart", "app", ["common.go", "persist.go"], 90, ["accepted", "rejected", "nonce"],
     "two configs with 2 keypers, for every kind of message the recorded facts bearing on it (votes, identities, signatures, seen messages, nonces) present or not, one block of one message by an arbitrary sender"),
   H("VerifAppCrash", "app", ["common.go", "persist.go"], 60, ["first", "second", "third"],
     "two blocks each followed by a store, a crash or one fault at every disk operation; unsynced content lost, cut or old; names reach the disk in order up to any point")],
  ["encoding/gob is modelled structurally (field omission, nil and zero values)", "the disk is an in-memory model"], rewrite=["app"])

prop("A13", "A chain starts with the keypers, threshold and validators of its genesis",
  "A node without stored state starts with block zero. A new chain has the id, the keypers, the threshold and the validators of its genesis: exactly these keypers may send messages, and as many of them as the threshold adopt the first batch config; the first block changes no validators. A genesis without keypers, with a threshold of zero or beyond the number of keypers, or with validators whose keys are not ed25519 is refused, and so is the genesis of another chain when the node has state already.",
  ["inputs", "configurations"], "every threshold and voting power, all choices of keypers",
  "The tests set the configs of an app directly; none runs InitChain.",
  [A + "app.go", A + "powermap.go", A + "types.go"],
  [("InitChain / LoadShutterAppFromFile", A + "app.go"), ("MakePowermap", A + "powermap.go")],
  [H("VerifGenesis", "app", ["common.go", "persist.go", "genesis.go"], 60, ["restarted", "adopted"],
     "up to 2 keypers of 3 (3 of 4 thorough) in any order, any threshold, up to 2 validators of any power with the same or different keys or a key of another kind, then a restart with the same or another genesis or not, and votes of every keyper",
     override={"github.com/tendermint/go-amino.NewCodec": "github.com/shutter-network/shutter/shuttermint/app.vNewCodec", "(*github.com/tendermint/go-amino.Codec).MarshalJSON": "github.com/shutter-network/shutter/shuttermint/app.vMarshalJSON", "(*github.com/tendermint/go-amino.Codec).UnmarshalJSON": "github.com/shutter-network/shutter/shuttermint/app.vUnmarshalJSON"})],
  ["amino's JSON is modelled as decoding what was encoded", "the disk is an in-memory model"], rewrite=["app"])
