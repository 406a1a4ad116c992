from lib import prop, H, na

CC = "github.com/shutter-network/shutter/shuttermint/cmd/config."
BI = "github.com/shutter-network/shutter/shuttermint/contract."
ETH = "github.com/ethereum/go-ethereum/"
OV = {
  "(*" + ETH + "ethclient.Client).HeaderByNumber": CC + "vHeaderByNumber",
  "(*" + ETH + "ethclient.Client).ChainID": CC + "vChainID",
  "(*" + ETH + "ethclient.Client).PendingNonceAt": CC + "vPendingNonceAt",
  "(*" + ETH + "ethclient.Client).TransactionReceipt": CC + "vTransactionReceipt",
  ETH + "accounts/abi/bind.NewKeyedTransactorWithChainID": CC + "vKeyedTransactor",
  "(*" + ETH + "core/types.Transaction).Hash": CC + "vTxHash",
  "github.com/shutter-network/shutter/shuttermint/medley.GetRevertReason": CC + "vGetRevertReason",
  "(*" + BI + "BatchConfig).ReadJSONFile": CC + "vReadJSONFile",
}
for n in ["NumConfigs", "ConfigForConfigIndex", "ConfigNumKeypers", "ConfigKeypers", "NextConfig", "NextConfigNumKeypers", "NextConfigKeypers", "ConfigChangeHeadsUpBlocks"]:
    OV["(*%sConfigContractCaller).%s" % (BI, n)] = CC + "v" + n
for n in ["SetStartBatchIndex", "SetStartBlockNumber", "SetThreshold", "SetBatchSpan", "SetBatchSizeLimit", "SetTransactionSizeLimit", "SetTransactionGasLimit",
          "SetExecutionTimeout", "SetFeeReceiver", "SetTargetAddress", "SetTargetFunctionSelector", "RemoveKeypers", "AddKeypers"]:
    OV["(*%sConfigContractTransactor).NextConfig%s" % (BI, n)] = CC + "v" + n
OV["(*%sConfigContractTransactor).ScheduleNextConfig" % BI] = CC + "vScheduleNextConfig"

prop("T01", "The owner's config tool sets and schedules exactly the config asked for",
  "Setting the next batch config leaves the config contract with exactly the wanted next config in all its fields and the keypers in their order, whatever was set there before; a failed query or a reverted transaction is reported. A config without a start block gets one which the config contract accepts, also twenty blocks later: it starts where a batch of the last scheduled config starts, not before that config itself, and not much later than needed; a given start is kept. Scheduling tells whether the contract accepted the config.",
  ["inputs", "configurations", "fault_sequences"], "all field values, keyper lists with and without repetitions, all 32-bit block numbers and notice periods, six spans, a failing query or reverted transaction",
  "Tests set one config on a fresh contract; nothing chooses start blocks.",
  ["shuttermint/contract/config.go", "shuttermint/cmd/config/setnext.go", "shuttermint/cmd/config/schedule.go", "shuttermint/medley/txbatch/txbatch.go"],
  [("SetNextBatchConfig / GetNextConfig", "shuttermint/contract/config.go"), ("chooseStartBlockAndBatch / setNext", "shuttermint/cmd/config/setnext.go"), ("schedule", "shuttermint/cmd/config/schedule.go"), ("TXBatch", "shuttermint/medley/txbatch/txbatch.go")],
  [H("VerifSetNext", "cmd/config", ["tools.go"], 60, ["set", "failed"], "any wanted config with 0 to 2 keypers, a next config set before differing in any one field or in all, 0 to 3 keypers before, possibly repeated; one of the first 12 queries failing or one of the first 2 transactions reverted", override=OV),
   H("VerifSchedule", "cmd/config", ["tools.go"], 60, ["given", "now", "future"], "32-bit blocks, batches and notice periods, the last config not set, inactive, or of span 1, 2, 7, 100 or 2^20+1, scheduled up to 19 blocks later", override=OV)],
  ["reading the JSON file and the contract bindings are replaced by models (native replays use the real ones)", "transactions are mined at once, in their order"])
