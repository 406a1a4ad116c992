from lib import prop, H

K = "shuttermint/keyper/"
M = dict(models=["bn256"])

prop("K11", "A restarted keyper carries on as if it had not been stopped",
  "Stopping and restarting a keyper at any point of a key generation, or between the shares of epoch keys, changes nothing: the restarted keyper accepts and rejects the same messages, and computes the same results and keys, as one that kept running; its other recorded facts (messages already sent, pending half steps and appeals, batches, signatures, pending actions) are the same. If the machine crashes or a write fails while the state is being saved, the restarted keyper finds either the state being saved or the one saved before, never a damaged or missing one.",
  ["crash_points", "histories", "inputs"], "all restart points, all subsets of messages, all crash and fault points of saving",
  "Tests never restart a keyper.",
  [K + "keyper.go", K + "decide.go"],
  [("saveState / LoadState", K + "keyper.go"), ("State", K + "decide.go")],
  [H("VerifRestartDKG", "keyper", ["restart.go"], 60, ["taken", "result", "noresult"],
     "2 keypers, threshold 1..2, every subset of the 7 messages of a key generation, restart before or after each of them"),
   H("VerifRestartState", "keyper", ["restart.go"], 60, ["pending", "kept"], "arbitrary recorded numbers, up to 2 pending appeals, one batch with up to 2 signatures, 3 actions"),
   H("VerifRestartEpochs", "keyper", ["restart.go", "execute.go", "decrypt.go", "restartkeys.go"], 60, ["taken", "key"], "3 shares of any of 3 keypers for any of 2 epochs, restart before or after each of them"),
   H("VerifRestartDealing", "keyper", ["restart.go", "execute.go", "decrypt.go", "restartkeys.go"], 60, ["outgoing"], "up to 2 arbitrary evaluations still to be sent"),
   H("VerifSaveCrash", "keyper", ["restart.go"], 60, ["none", "older", "newer"], "two saves, a crash after or a fault of each disk operation; unsynced content lost, cut or old; names reach the disk in order up to any point"),
   H("VerifActionsCrash", "keyper", ["restart.go"], 60, ["crash", "again"], "two decisions with up to 2 actions each, one action done in between, a crash after each disk operation"),
   H("VerifStepsCrash", "keyper", ["execute.go", "restart.go", "steps.go"], 60, ["crash", "again", "pending"], "two real steps of the keyper deciding about up to 4 half steps each, a crash after each disk operation, restart and repeated step")],
  ["encoding/gob is modelled structurally (field omission, nil and zero values, GobEncode methods)", "the disk is an in-memory model"], rewrite=["keyper", "keyper/fx"], **M)

E = "shuttermint/keyper/shutterevents/"
prop("E01", "Keypers read the events exactly as the application published them",
  "Every event the application publishes about keypers' messages can be read by the keypers and yields the same sender, eon, batch, epoch, addresses, curve points, numbers and byte strings, in the same order, together with the height of the block; names and values of the attributes are printable text. Reading a malformed event ends with an error and never crashes the keyper, and an event that is read is complete. (A commitment without any curve point is never valid and may be refused.)",
  ["inputs"], "all event contents with up to 3 list entries; all single damages of one attribute of each type of event",
  "Tests round trip one fixed event of most types.",
  [E + "events.go", E + "marshal.go"],
  [("MakeABCIEvent / MakeEvent", E + "events.go"), ("encodings", E + "marshal.go")],
  [H("VerifEventRoundTrip", "keyper/shutterevents", ["roundtrip.go"], 60, ["accusation", "apology", "batchconfig", "checkin", "signature", "eonstarted", "commitment", "polyeval", "share"],
     "9 types of events, arbitrary addresses, 64-bit numbers and 256-bit evaluations, lists of up to 3 addresses, 2 byte strings, 1 to 3 curve points; three concrete encryption keys"),
   H("VerifAnyEvent", "keyper/shutterevents", ["roundtrip.go"], 60, ["refused", "accepted"],
     "one attribute missing, or with an arbitrary value of up to 3 bytes, or with an arbitrary name of up to 4 bytes")],
  ["hexadecimal, base64 and address checksum encodings are ideal (injective with known inverse)"], **M)

prop("E02", "What a keyper sends through shuttermint is what the others see",
  "Every message of a keyper which the protocol calls for (batch config votes, check-ins, start announcements, eon start votes, encrypted evaluations, commitments, accusations, apologies, epoch secret key shares, decryption signatures) passes the mempool and is accepted by the application, and the keypers polling the chain find its content unchanged under its sender, in its eon or batch and at the height of its block, once; the batch configs, eons and encryption keys it leads to are seen likewise.",
  ["inputs", "histories"], "all contents of the messages, every sender, both eons of a chain",
  "The tests check the message sender, the application and the observer separately, with hand-written data between them.",
  ["shuttermint/keyper/fx/messagesender.go", "shuttermint/shmsg/messages.go", "shuttermint/shmsg/encode.go", "shuttermint/app/app.go", "shuttermint/app/messages.go", E + "events.go", "shuttermint/keyper/observe/shutter.go"],
  [("SendMessage", "shuttermint/keyper/fx/messagesender.go"), ("New*", "shuttermint/shmsg/messages.go"), ("CheckTx / DeliverTx / EndBlock", "shuttermint/app/app.go"), ("MakeABCIEvent / MakeEvent", E + "events.go"), ("SyncToHead", "shuttermint/keyper/observe/shutter.go")],
  [H("VerifPublished", "keyper/fx", ["actions.go", "publish.go"], 60, ["evaluation", "commitment", "accusation", "apology", "share", "signature"],
     "a chain of six blocks with one message each: config vote, check-in, start announcement, two restart votes and a message of any of the other kinds by any of 3 keypers to 1 or 2 others in either eon; arbitrary 64-bit numbers, points, evaluations below 2^16, texts of 3 bytes, signatures of 65 bytes, polled after every block or at the end",
     override={"github.com/shutter-network/shutter/shuttermint/keyper/fx.randomNonce": "github.com/shutter-network/shutter/shuttermint/keyper/fx.vRandomNonce"})],
  ["hexadecimal, base64, protobuf and gob encodings and signatures are ideal", "the node executes one transaction per block; queries are for a range of heights", "random 64-bit nonces do not repeat"], rewrite=["keyper/fx"], **M)

O = "shuttermint/keyper/observe/"
prop("K01", "A keyper's view of the chain is complete, however it polls and filters",
  "At whatever heights a keyper polls its node, across query windows, pages, failed polls and several events per transaction, its view holds exactly the events of the blocks up to the polled height, in their order and with their heights, and views taken before do not change. Garbage collection loses nothing from the given height and batch on. Eons and batch configs are found by number and by batch: the latest one started that covers the batch.",
  ["schedules", "fault_sequences", "inputs"], "sequences of two (thorough three) events of nine kinds over query windows of 500 blocks, all polling heights around them, all filters",
  "Tests apply a handful of events to an empty view; they neither poll in steps nor filter.",
  [O + "shutter.go"],
  [("SyncToHead / fetchAndApplyEvents", O + "shutter.go"), ("ApplyFilter and Get* from a height on", O + "shutter.go"), ("FindEon / FindEonByBatchIndex / FindBatchConfig*", O + "shutter.go")],
  [H("VerifPolling", "keyper/observe", ["shutter.go"], 90, ["failed", "polled"],
     "an eon start and 2 events (3 thorough), one of 9 kinds and another of the same or the next kind or of an eon start, at equal, adjacent or distances of 498 and 499 blocks, in the same or separate transactions, two polls, the first up to any cut, one failing query"),
   H("VerifPages", "keyper/observe", ["shutter.go"], 60, ["paged"], "an event behind 0, 99, 100, 101, 200 or 301 other transactions, in the same or another block or query window"),
   H("VerifFilter", "keyper/observe", ["shutter.go"], 60, ["filtered"], "2 events (3 thorough) of one kind in equal or adjacent blocks, a filter of any height 0..3 and batch 7..10 applied before any of them, possibly followed by an outdated one"),
   H("VerifLookup", "keyper/observe", ["shutter.go"], 60, ["eon", "eonbatch", "config", "configbatch"], "up to 2 eons and 2 configs (3 thorough) with arbitrary numbers and start batches")],
  ["the node is modelled: transactions matching the query in ascending order, pages of at most 100", "encoding/gob is modelled structurally"], **M)

G = "shuttermint/keyper/epochkg/"
prop("K08", "The epoch key appears exactly at the threshold of valid shares",
  "A keyper that holds the result of a key generation knows the secret key of an epoch as soon as, and not before, as many different keypers as the threshold demands published a valid share for that epoch. Whatever the order of the shares and whoever sent them, and however many invalid, repeated or other epochs' shares come in between, the key is the eon's key for that epoch. A keyper's own share is valid.",
  ["histories", "inputs"], "all sequences of 4 (thorough 5) shares of 3 (thorough 4) keypers, one of them arbitrary (two), one for another epoch, all thresholds, all polynomials",
  "Tests aggregate the right shares in one order.",
  [G + "epochkg.go"], [("HandleEpochSecretKeyShare", G + "epochkg.go"), ("ComputeEpochSecretKeyShare", G + "epochkg.go")],
  [H("VerifEpochKeys", "keyper/epochkg", ["shares.go"], 90, ["invalid", "key"],
     "3 keypers (4 thorough), all thresholds, all sequences of 4 shares (5 thorough), up to 1 of them (2 thorough) arbitrary, up to 1 for another epoch, arbitrary eon key polynomial")],
  ["curve groups are modelled as generic groups with a pairing", "epochs' hashes to the curve are concrete"], **M)

C = "shuttermint/contract/"
prop("K03", "Blocks, batches and configurations are matched the same way everywhere",
  "The blocks of an active configuration are divided without gap or overlap into batches of the configured span: a block lies between the start and the end block of a batch exactly if that batch is computed for it. Across every list of configurations that the config contract lets the owner schedule, the configuration active at a block is the latest one started, it is also the one found for the block's batch, the previous batch ends where the next one starts (later if batches were paused in between), never after it, and exactly one batch contains a block.",
  ["inputs", "configurations"], "all blocks and batch numbers below 2^32, all spans, all lists of up to 3 configurations after the initial inactive one",
  "Tests check some numbers of one configuration.",
  [C + "config.go", O + "mainchain.go"], [("BatchStartBlock / BatchEndBlock / BatchIndex", C + "config.go"), ("ActiveConfigIndex / ConfigIndexForBatchIndex", O + "mainchain.go")],
  [H("VerifBatchBlocks", "keyper/observe", ["chain.go"], 60, ["active", "inactive"], "one config with arbitrary 32-bit start batch, start block and span; blocks and batches up to 2^32 after them"),
   H("VerifConfigOf", "keyper/observe", ["chain.go"], 90, ["none", "seam", "other", "paused"], "up to 3 configs after the initial one, of spans 0 (inactive), 1, 2, 7 and 2^20+1, arbitrary 32-bit distances and block")],
  ["the config contract only accepts seamless transitions (ConfigContract.scheduleNextConfig) and no scheduled config is removed again"], **M)

B = "github.com/shutter-network/shutter/shuttermint/contract."
EC = "(*github.com/ethereum/go-ethereum/ethclient.Client)."
OB = "github.com/shutter-network/shutter/shuttermint/keyper/observe."
NODE = {EC + "SyncProgress": OB + "vSyncProgress", EC + "HeaderByNumber": OB + "vHeaderByNumber", EC + "BlockNumber": OB + "vBlockNumber"}
for typ, names in [("ConfigContractCaller", ["NumConfigs", "ConfigForConfigIndex", "ConfigNumKeypers", "ConfigKeypers"]),
                   ("ExecutorContractCaller", ["NumExecutionHalfSteps", "GetReceipt"]),
                   ("BatcherContractFilterer", ["FilterTransactionAdded"]), ("DepositContractFilterer", ["FilterDepositChanged"]),
                   ("KeyperSlasherFilterer", ["FilterAccused", "FilterAppealed"])]:
    for n in names:
        NODE["(*%s%s).%s" % (B, typ, n)] = OB + "v" + n
for typ, n in [("BatcherContractTransactionAdded", "TransactionAdded"), ("DepositContractDepositChanged", "DepositChanged"), ("KeyperSlasherAccused", "Accused"), ("KeyperSlasherAppealed", "Appealed")]:
    NODE["(*%s%sIterator).Next" % (B, typ)] = OB + "vNext" + n
    NODE["(*%s%sIterator).Close" % (B, typ)] = OB + "vClose" + n
prop("K12", "A keyper's view of the main chain is complete, however it polls",
  "At whatever blocks a keyper polls its main chain node, the view it gets is of the block the configured distance behind the node's head and holds exactly what happened up to that block: the scheduled configs in order with all their fields and every keyper once, every batch's encrypted and plain transactions once and in order with the latest batch hashes, the number of half steps with the receipts of those executed (and none for skipped ones), the latest deposits, the accusations and whether they were appealed. Views taken before do not change, a node that falls back never takes a view back, and a failed query leads to an error and to nothing being missed or seen twice later.",
  ["schedules", "fault_sequences", "inputs"], "sequences of 3 (thorough 4) events of seven kinds at equal or adjacent blocks, three polls at any blocks, one failing query at any place",
  "Tests do not touch the main chain view at all.",
  [O + "mainchain.go", C + "config.go"], [("SyncToHead", O + "mainchain.go"), ("GetConfigByIndex", C + "config.go")],
  [H("VerifMainView", "keyper/observe", ["shutter.go", "mainview.go"], 120, ["polled", "older"],
     "3 events (4 thorough), each of the kind of the one before or the next one, at equal or adjacent blocks, two arbitrary polls of a node at any head and a last one of all, distance 0 or 1", override=NODE),
   H("VerifMainFaults", "keyper/observe", ["shutter.go", "mainview.go"], 60, ["failed"], "one event of every kind over three blocks, two polls, each query of the second one failing", override=NODE)],
  ["the contract bindings generated by abigen are replaced by a model of the contracts (counterexamples are replayed through the real bindings)", "scheduled configs are not removed again", "encoding/gob is modelled structurally"], **M)

D = K + "decide.go"
prop("K04", "Shares of epoch keys are published in time, but never early",
  "A keyper publishes its share of the key of an epoch at most once, only when the batch is closed on its main chain and before its execution times out, only as a keyper of the batch's config, and computed with its key of the latest eon started for this batch. It does publish the share as soon as it sees the batch closed, provided that it is a keyper of the config, shuttermint knows the active config, it has the key of the eon and the timeout is not reached. So no transaction is decrypted while its batch is open, or after its batch is skipped.",
  ["schedules", "inputs", "configurations"], "all blocks and timeouts below 2^32, two steps, two configs and two eons",
  "Tests never run the decisions.",
  [D, O + "shutter.go", K + "epochkg/epochkg.go", C + "config.go"], [("publishEpochSecretKeyShares", D), ("publishEpochSecretKeyShare", D), ("FindEonByBatchIndex", O + "shutter.go")],
  [H("VerifShareTiming", "keyper", ["execute.go", "share.go"], 120, ["share", "unknown", "late"],
     "two steps at arbitrary 32-bit blocks; one or two configs with arbitrary 32-bit timeouts, with or without this keyper, becoming known to shuttermint at any step; two eons with any start, whose keys become known at any step; up to 3 closed batches")],
  ["batches closed before the key of their eon is known get no share", "numbers do not exceed 2^32"], **M)
prop("K05", "Batches are executed in order, complete, in time and by turns",
  "A keyper executes half steps one after the other from the next one on, at most ten at once and none while earlier ones are pending, and only of batches that are closed. It executes an encrypted batch only before the timeout, as a keyper of the batch's config, when it has decrypted it and enough keypers signed the result (or the batch is empty), and skips it only after the timeout; the transactions, hash, index and gas limit are those of this batch. What can be executed is executed, at the latest after half of the timeout, and what cannot is skipped at the latest half of the timeout later. Keypers wait for each other: when nothing happens, one after the other of the config's keypers starts to execute, and after the timeout to skip.",
  ["inputs", "configurations"], "all blocks, start batches, timeouts, staggerings and pending half steps below 2^32, all places in sets of up to 3 keypers, up to 7 closed batches of two configs",
  "Tests never run the decisions.",
  [D, C + "config.go"], [("maybeExecuteBatch / maybeExecuteHalfStep", D), ("executionDelay", D)],
  [H("VerifExecution", "keyper", ["execute.go"], 120, ["pending", "none", "cipher", "plain", "skip"],
     "one config of 1 to 3 keypers in 6 places, optionally followed by another one; up to 7 closed batches of 1 block (3 thorough), one of them not decrypted, empty, not signed or ready, 0 to 2 half steps executed; arbitrary 32-bit start batch, block, timeout and staggering, arbitrary pending half step"),
   H("VerifTurns", "keyper", ["execute.go"], 120, ["turns", "skipping"], "1 to 3 keypers (4 thorough), a cipher or plain half step before or after the timeout, arbitrary 32-bit block, timeout and staggering")],
  ["a batch whose config is missing or paused is not executed", "numbers do not exceed 2^32"], **M)

prop("K06", "Batches are decrypted completely, signed once, and only valid signatures count",
  "Whenever the secret key of an epoch gets known to a keyper, it decrypts the batch exactly when it is closed in its own view of the main chain, so that no transaction is missing: the result holds every transaction that can be decrypted, in the order given by the key, the batch hash is the one the executor contract computes and the authorization hash is the one the slasher contract checks. The keyper signs this hash once unless the batch is empty, timed out, or signed by enough others. Of the signatures published by others it collects, up to the threshold, exactly those of different keypers of the config which the contract accepts for this batch.",
  ["schedules", "inputs", "fault_sequences"], "all blocks, timeouts and batch hashes, keys known at any of 3 steps, up to 3 (thorough 4) signatures of any kind",
  "Tests never run the decisions.",
  [D, O + "mainchain.go", K + "epochkg/epochkg.go"], [("syncEKGWithEon / decryptTransactions / sendDecryptionSignature", D), ("syncBatch / VerifySignature", D), ("computeDecryptionSignatureHash / transactionsHash", D), ("DecryptTransactions", O + "mainchain.go")],
  [H("VerifDecryption", "keyper", ["execute.go", "decrypt.go"], 120, ["early", "signed", "late"],
     "3 steps at arbitrary 32-bit blocks, two batches of up to 2 encrypted transactions (one possibly malformed) seen in part or completely, their keys known at any step; arbitrary timeout and batch hashes",
     override={"github.com/shutter-network/shutter/shlib/shcrypto.Shuffle": "github.com/shutter-network/shutter/shuttermint/keyper.vShuffle"}),
   H("VerifSignatures", "keyper", ["execute.go", "decrypt.go"], 120, ["collected", "enough"],
     "3 steps, up to 3 signatures (4 thorough) of any keypers in any order, one (2) of them over another hash, of somebody else, of the other form (high s) or short; the batch executed in between, and forgotten",
     override={"github.com/shutter-network/shutter/shlib/shcrypto.Shuffle": "github.com/shutter-network/shutter/shuttermint/keyper.vShuffle"})],
  ["pseudorandom order and signatures are modelled as functions of their inputs, keccak as free of collisions"], **M)

prop("K07", "Wrong executions are accused, wrong accusations are appealed",
  "Every executed encrypted batch is compared with the keyper's own decryption, even if it was executed before the keyper could decrypt it: exactly if the hashes differ, the batch is not empty, nobody else made the accusation and the keyper is one of the batch's config, the executor is accused, once, with the keyper's own index. Against every accusation of somebody who executed what the keyper has decrypted, it appeals once as soon as it knows enough signatures, with an authorization the slasher contract accepts: the batch hash, at least as many valid signatures as the threshold of the config, by keypers at the given strictly increasing indices.",
  ["schedules", "inputs", "configurations"], "all hashes, two batches, three steps with executions, decryptions, accusations and signatures at any of them",
  "Tests never run the decisions.",
  [D, C + "signatures.go"], [("maybeAccuse", D), ("maybeAppeal / getSortedDecryptionSignaturesWithIndices", D), ("SignatureToContractFormat", C + "signatures.go")],
  [H("VerifAccuse", "keyper", ["execute.go", "decrypt.go", "slash.go"], 120, ["accused", "late"],
     "3 steps, two batches executed, skipped, decrypted and accused at any of them, arbitrary hashes, as a keyper or not"),
   H("VerifAppeal", "keyper", ["execute.go", "decrypt.go", "slash.go"], 120, ["appeal"],
     "3 steps, two batches accused, appealed and signed by 0 to 3 keypers at any of them, 3 or 4 keypers in different orders, threshold 1 to 3, arbitrary hashes, both orders of maps")],
  ["signatures are modelled as functions of hash and key, keccak as free of collisions", "signatures remembered by the keyper are valid (K06)"], **M)

FX = "shuttermint/keyper/fx/"
_f, _c, _e = "github.com/shutter-network/shutter/shuttermint/keyper/fx.", "github.com/shutter-network/shutter/shuttermint/contract.", "github.com/ethereum/go-ethereum/"
TX = {
  "(*" + _e + "ethclient.Client).ChainID": _f + "vChainID",
  "(*" + _e + "ethclient.Client).PendingNonceAt": _f + "vPendingNonceAt",
  "(*" + _e + "ethclient.Client).SuggestGasPrice": _f + "vSuggestGasPrice",
  "(*" + _e + "ethclient.Client).TransactionReceipt": _f + "vTransactionReceipt",
  "(*" + _e + "ethclient.Client).TransactionByHash": _f + "vTransactionByHash",
  _e + "accounts/abi/bind.NewKeyedTransactorWithChainID": _f + "vKeyedTransactor",
  "(*" + _e + "core/types.Transaction).Hash": _f + "vTxHash",
  "github.com/shutter-network/shutter/shuttermint/keyper/gaspricer.Adjust": _f + "vAdjust",
  "time.After": _f + "vAfter",
  "(*" + _c + "ExecutorContractTransactor).ExecuteCipherBatch": _f + "vExecuteCipherBatch",
  "(*" + _c + "ExecutorContractTransactor).ExecutePlainBatch": _f + "vExecutePlainBatch",
  "(*" + _c + "ExecutorContractTransactor).SkipCipherExecution": _f + "vSkipCipherExecution",
  "(*" + _c + "KeyperSlasherTransactor).Accuse": _f + "vAccuse",
  "(*" + _c + "KeyperSlasherTransactor).Appeal": _f + "vAppeal",
  "(*" + _c + "KeyBroadcastContractTransactor).Vote": _f + "vVote",
}
prop("K09", "What a keyper decides to do gets done",
  "The actions a keyper decides on are performed one after the other in their order: each one is tried again until it succeeded, expired (somebody did it already) or is hopeless (rejected for good), no expired action and no finished one is ever performed, however often sending fails and the keyper is stopped and restarted in between. Sent transactions are not sent again but waited for until mined. The transactions call the right contract with the numbers, hashes, keys and lists of the action, with a sufficient gas limit, the next nonce and the adjusted gas price. Messages reach the application unchanged, signed by the keyper and for its chain; a message the application rejected is not reported as sent.",
  ["fault_sequences", "histories", "inputs"], "sequences of two (thorough three) actions of three kinds, all outcomes of each attempt, one (two) failures, a restart at any of them",
  "Tests check two of the expiry conditions and the numbering of actions; nothing is ever sent.",
  [FX + "runenv.go", FX + "actions.go", FX + "messagesender.go", FX + "pending.go"],
  [("handleActions / Load / scheduleAction", FX + "runenv.go"), ("SendTX / IsExpired", FX + "actions.go"), ("SendMessage / IsRetriable", FX + "messagesender.go")],
  [H("VerifPerform", "keyper/fx", ["actions.go"], 120, ["expired", "retried", "stopped", "hopeless", "message", "transaction", "mined"],
     "2 actions (3 thorough): messages, skipped batches, accusations, arbitrary batches and executed half steps at any time; attempts succeed, fail for good or fail once (twice) before or while sending; a stop and restart after a failure, the decision repeated or not; both results when mined", override=TX),
   H("VerifSendTX", "keyper/fx", ["actions.go"], 60, ["cipher", "plain", "skip", "accuse", "appeal", "vote", "error"], "arbitrary numbers and hashes, up to 2 transactions of up to 1 byte, gas limits below 2^32; five errors", override=TX),
   H("VerifExpired", "keyper/fx", ["actions.go"], 60, ["accused", "executed"], "arbitrary batches below 2^62, half steps, up to 2 accusations"),
   H("VerifSendMessage", "keyper/fx", ["actions.go"], 60, ["later", "failed", "rejected", "sent"], "two messages, any result codes and errors of the node"),
   H("VerifOrder", "keyper/fx", ["actions.go"], 60, ["listed"], "up to 3 pending actions with arbitrary numbers")],
  ["the workers run one after the other here: interleavings of the goroutines are outside the bounds", "the RPC client, ABI encoding and signing of transactions are replaced by models; native replays use the real ones", "the disk is an in-memory model"],
  rewrite=["keyper/fx"], **M)

EC_ = {
  "(*math/big.Int).Bytes": "github.com/shutter-network/shutter/shuttermint/keyper.vBytes",
  "github.com/ethereum/go-ethereum/crypto/ecies.Encrypt": "github.com/shutter-network/shutter/shuttermint/keyper.vECIESEncrypt",
  "(*github.com/ethereum/go-ethereum/crypto/ecies.PrivateKey).Decrypt": "github.com/shutter-network/shutter/shuttermint/keyper.vECIESDecrypt",
}
prop("K02", "A keyper takes part in a key generation whenever it looks at the chain",
  "At whatever heights a keyper looks at the chain during a key generation, it takes exactly the messages of the right phases into account and computes the same result: the one all other keypers compute from the chain. If it looks in time, it publishes the commitment to its polynomial once and sends every other keyper the evaluation meant for it, encrypted for it, once and as soon as the keyper's encryption key is known; it accuses those who didn't deal correctly and answers accusations with the accuser's evaluation. Nothing is sent that would be out of its phase. At the end it publishes the eon key or votes for another try, once.",
  ["schedules", "inputs", "histories"], "all pairs of polls during a generation of three keypers, one of them misbehaving in any of the phases, arbitrary polynomials and evaluations",
  "Tests feed the pure key generation with messages; the decisions around it never run.",
  [D], [("syncDKGWithEon / startPhase* / dkgFinalize", D), ("sync* of DKG", D), ("sendPolyEvals", D)],
  [H("VerifDealing", "keyper", ["execute.go", "restart.go", "restartkeys.go", "decrypt.go", "dealing.go"], 120, ["evaluation", "accused", "apology", "failed", "succeeded"],
     "3 keypers, threshold 2, phases of 2 blocks, polls at any 2 heights and at the end; the third keyper's commitment and evaluation early, late, wrong or missing, its accusation and apology in or out of the phases; encryption keys known early or late", override=EC_),
   H("VerifEvaluations", "keyper", ["execute.go", "restart.go", "restartkeys.go", "decrypt.go", "dealing.go"], 60, ["later", "none"],
     "3 keypers, a dealing phase of 3 (thorough 4) blocks, polls at any of them, the encryption keys of the two others known at any height", override=EC_)],
  ["ecies is ideal: only the receiver can decrypt, anything else is refused", "the pure key generation is checked by the C properties"], rewrite=["keyper", "keyper/fx"], **M)

X_ = dict(EC_, **{"github.com/shutter-network/shutter/shuttermint/keyper/fx.randomNonce": "github.com/shutter-network/shutter/shuttermint/keyper.vRandomNonce",
  "github.com/shutter-network/shutter/shlib/shcrypto.Shuffle": "github.com/shutter-network/shutter/shuttermint/keyper.vShuffle"})
XF = ["execute.go", "restart.go", "restartkeys.go", "decrypt.go", "dealing.go", "network.go"]
prop("X01", "Enough awake keypers carry an encrypted transaction all the way to execution",
  "From the first look at the chains on, as long as as many keypers as the threshold are awake, the keypers agree on an eon key and publish it, and what users encrypt with it into a batch is decrypted, signed by enough keypers and executed by every awake keyper: exactly the users' transactions, in the same order, with the batch's hash. A keyper which sleeps for any time, with or without a restart when it awakes, changes nothing for the others and catches up to the same result. If too many sleep during a key generation, it is repeated and succeeds once enough are awake. The same holds when other keypers take over with a new batch config, each config's keypers execute the batches of their config.",
  ["schedules", "crash_points", "inputs"], "every time of sleeping of a keyper (thorough: of one of four), arbitrary polynomials and transactions",
  "Tests check single components; the system as a whole is only ever run by hand.",
  [D, "shuttermint/app/app.go", "shuttermint/keyper/observe/shutter.go", "shuttermint/keyper/fx/messagesender.go", "shuttermint/keyper/epochkg/epochkg.go", "shlib/puredkg/puredkg.go", "shlib/shcrypto/encryption.go"],
  [("Decide", D), ("CheckTx / DeliverTx / EndBlock", "shuttermint/app/app.go"), ("SyncToHead", "shuttermint/keyper/observe/shutter.go"), ("saveState / LoadState", "shuttermint/keyper/keyper.go")],
  [H("VerifNetwork", "keyper", XF, 120, ["agreed", "executed", "sleeping", "restarted"],
     "3 keypers, threshold 2 (thorough 4 and 3), each block holds what was sent before; one keyper sleeps from any of the 14 blocks to any later one or forever, then goes on or restarts; phases of 3 blocks; a batch of three transactions, two of arbitrary content", override=X_),
   H("VerifNetworkRetry", "keyper", XF, 120, ["agreed", "executed", "restarted"],
     "3 keypers, threshold 2, two of them sleep from the first or second block to any of the fourth to the twelfth (thorough thirteenth)", override=X_),
   H("VerifNetworkConfigs", "keyper", XF, 120, ["agreed", "executed", "sleeping"],
     "4 keypers, a config of three of them is followed by one of three others which appears at block 1, 6 or 11 (thorough 1, 4, 7, 10); one keyper sleeps from block 1, 5, .. 21 (thorough every second) on for 4 blocks (thorough also 9, with or without a restart) or forever; the last batch of the first and the first batch of the second config hold three transactions each", override=X_)],
  ["ecies is ideal: only the receiver can decrypt, anything else is refused", "hexadecimal, base64, protobuf and gob encodings, signatures and hashes are ideal", "group operations and pairing are modelled ideally", "all keypers see the same main chain at the same time", "the pseudorandom order of the transactions is some fixed function of them"], rewrite=["keyper", "keyper/fx"], **M)

prop("K10", "A keyper announces itself and proposes every batch config, once",
  "A keyper checks in exactly once, as soon as it is a keyper of some config and unless it already is checked in, with its own validator and encryption key. As soon as the main chain has a batch config that follows the last one the keypers agreed on, it proposes this config, once, exactly as it is on the main chain: start batch, keypers in their order, threshold and index. It joins every key generation whose config it is a keyper of, once, with the config's keypers, threshold and its own index in them, and no other one. Who is no keyper does nothing.",
  ["schedules", "configurations", "inputs"], "all histories of 3 (thorough 4) steps in which up to 3 configs appear on either chain, arbitrary configs; 2 (3) eons starting at arbitrary batches, two polls",
  "Tests never run the decisions.",
  [D], [("maybeSendCheckIn / maybeSendBatchConfig", D), ("maybeStartDKG / startDKG", D)],
  [H("VerifAnnounce", "keyper", ["execute.go", "announce.go"], 60, ["proposed", "other", "checkin"], "3 steps, up to 3 configs with arbitrary batches and thresholds, check-in at any step"),
   H("VerifJoin", "keyper", ["execute.go", "announce.go"], 60, ["joined", "other keypers"], "2 eons with arbitrary start batches, 2 configs, three choices of keypers, two polls")],
  [], **M)

prop("K13", "The keyper acts on everything it sees, and survives failing nodes",
  "The keyper waits until it has seen both chains. Then it acts on every view of one chain it gets, together with the last one of the other, and stores them with its state. On every new block the views of both chains are brought up to date; if that fails the previous view is kept and the next block brings up what was missed, nothing is lost or seen twice. Nothing but what the keyper tells not to need anymore is forgotten, and telling it never holds up the keyper.",
  ["schedules", "fault_sequences"], "all interleavings of five views of two chains, of four blocks, garbage collections and failing queries",
  "No test runs these loops.",
  [K + "keyper.go", O + "shutter.go", O + "mainchain.go"], [("syncOnce / syncLoop", K + "keyper.go"), ("GetShutterFilter", D), ("SyncShutter", O + "shutter.go"), ("SyncMain", O + "mainchain.go")],
  [H("VerifMainLoop", "keyper", ["execute.go", "restart.go", "loop.go"], 60, ["waiting", "acting", "taken"], "5 views of the two chains in any order, up to 4 newly closed batches, garbage collection busy or not"),
   H("VerifShutterLoop", "keyper/observe", ["shutter.go", "loop.go", "mainview.go"], 60, ["view", "failed", "filter"], "4 blocks announced or collections, 0 to 2 blocks further each, five events of one of 9 kinds, each poll failing or not", override={"time.After": "github.com/shutter-network/shutter/shuttermint/keyper/observe.vAfter"}),
   H("VerifMainChainLoop", "keyper/observe", ["shutter.go", "mainview.go", "loop.go"], 60, ["view", "failed"], "3 blocks announced (4 thorough), 0 to 2 blocks further each, nine events, each poll failing at the second or sixth query or not",
     override=dict(NODE, **{"(*github.com/ethereum/go-ethereum/ethclient.Client).SubscribeNewHead": "github.com/shutter-network/shutter/shuttermint/keyper/observe.vSubscribeNewHead", "time.After": "github.com/shutter-network/shutter/shuttermint/keyper/observe.vAfter"})),
  ],
  ["goroutines run one at a time and the loops get one thing at a time", "the disk is an in-memory model"], rewrite=["keyper", "keyper/fx"], **M)

W = "shuttermint/shcryptowasm/"
prop("C10", "Web pages encrypt, decrypt and verify exactly like the library",
  "The functions offered to web pages return what the library computes: encrypting gives the hexadecimal text of exactly the ciphertext for the given message, eon key, epoch (eight bytes, big endian) and randomness; decrypting a ciphertext with the key of its epoch gives the message; a decryption key is verified as right exactly if it is the one of the eon key and epoch. A wrong number, type, length or malformed content of arguments gives a text starting with `Error: `, never a crash or a wrong result.",
  ["inputs"], "arbitrary eon secrets, epochs, messages of some lengths and randomness; all kinds of wrong arguments",
  "The modules for web pages are not even compiled when tests run.",
  [W + "both_wasm.go", W + "encrypt_wasm.go", W + "decrypt_wasm.go"],
  [("encrypt / decrypt / verifyDecryptionKey", W + "both_wasm.go"), ("encrypt", W + "encrypt_wasm.go"), ("decrypt", W + "decrypt_wasm.go")],
  [H("VerifEncryptBoth", "shcryptowasm/verif_both", ["page.go"], 60, ["encrypted", "refused"], "messages of 0, 1, 31, 32, 33 bytes; 0 to 5 arguments; one argument of any of twelve wrong kinds"),
   H("VerifDecryptBoth", "shcryptowasm/verif_both", ["page.go"], 60, ["decrypted", "refused"], "messages of 0, 1, 32, 33 bytes; 0 to 3 arguments; one argument of any of twelve wrong kinds"),
   H("VerifVerify", "shcryptowasm/verif_both", ["page.go"], 60, ["right", "wrong", "refused"], "arbitrary secrets (some for other keys); 0 to 4 arguments; one argument of any of twelve wrong kinds",
     override={"github.com/shutter-network/shutter/shlib/shcrypto.VerifyEpochSecretKey": "github.com/shutter-network/shutter/shuttermint/shcryptowasm/verif_both.vVerify"}),
   H("VerifEncrypt", "shcryptowasm/verif_encrypt", ["page.go"], 60, ["encrypted", "refused"], "as before, with the module for encryption only"),
   H("VerifDecrypt", "shcryptowasm/verif_decrypt", ["page.go"], 60, ["decrypted", "refused"], "as before, with the module for decryption only")],
  ["syscall/js is replaced by a model of the values of a page, also in native replays", "group operations, pairing and hashes are modelled ideally"], rewrite=["js:shcryptowasm"], **M)
