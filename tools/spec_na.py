from lib import na

na("S01", "The contracts execute and slash only as their rules say",
  "The config contract only ever appends gapless configs in its owner's name, the executor contract lets half steps run in order, each at most once, within its time window and with enough signatures, and the slasher contract freezes a deposit exactly if an accusation was not answered in time.",
  ["programs", "histories"], "all sequences of contract calls", "Contract tests run chosen sequences.",
  ["contracts/contracts/ConfigContract.sol", "contracts/contracts/ExecutorContract.sol", "contracts/contracts/KeyperSlasher.sol"],
  [("executeCipherBatch", "contracts/contracts/ExecutorContract.sol"), ("scheduleNextConfig", "contracts/contracts/ConfigContract.sol")],
  "There is no Solidity compiler here, so the sources cannot be compiled or encoded; the bytecode in the Go bindings is not regenerated from them, a check of it would not see changes of the sources. The rules of the contracts which keypers depend on are assumptions of K06 to K08, K12 and T01.")
na("C09", "Nobody learns a transaction before the threshold of shares is released",
  "Without the epoch secret key, or a threshold of its shares, an encrypted message reveals nothing about the plaintext.",
  ["inputs"], "all adversaries of bounded resources", "It is a statement about all adversaries.",
  ["shlib/shcrypto/encryption.go"], [("Encrypt / Decrypt", "shlib/shcrypto/encryption.go")],
  "Computational hardness is no assertion over runs of the code which an SMT solver could decide; C01 to C08 decide the functional side of the scheme.")
na("K14", "The keyper's workers neither race nor hang",
  "The workers of a running keyper (watching both chains, performing actions, serving requests) share no data without synchronisation, and stop when one of them fails.",
  ["schedules"], "all schedules of its goroutines, including those of the RPC clients", "Tests start no complete keyper.",
  ["shuttermint/keyper/keyper.go", "shuttermint/keyper/fx/send.go"], [("Run", "shuttermint/keyper/keyper.go")],
  "The engine executes goroutines and channels sequentially and the workers spend their time in RPC clients, timers and signal handling that are outside of it; interleavings at the memory level cannot be encoded within reach. What passes between the workers (views, actions, notifications, filters) is decided step by step in K09 to K13.")
na("T02", "Configuration files are read the way they are written",
  "A generated configuration file of a keyper or a node of shuttermint is read back with the same values.",
  ["inputs", "configurations"], "all values of all fields", "Tests read one file.",
  ["shuttermint/keyper/config.go", "shuttermint/cmd/keyper.go"], [("Config.WriteTOML / Unmarshal", "shuttermint/keyper/config.go")],
  "text/template, viper, mapstructure and the TOML parser work by reflection on strings of unbounded length; the code of this repository in between is a list of field names, so that nothing remains to be decided without encoding these libraries.")
