SETNEXT = "shuttermint/cmd/config/setnext.go"
CONTRACT = "shuttermint/contract/config.go"
TXBATCH = "shuttermint/medley/txbatch/txbatch.go"
THEAD = '''
package config

import (
	"context"
	"errors"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"
)

// dChain is a config contract and its node.
type dChain struct {
	bind.ContractBackend
	last, next    contract.BatchConfig
	headsUp, head uint64
	revert        string
	txs           []*types.Transaction
	status        []uint64
}

var dC *dChain

func dABI() *abi.ABI {
	a, err := abi.JSON(strings.NewReader(contract.ConfigContractABI))
	if err != nil {
		panic(err)
	}
	return &a
}

func (c *dChain) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) { return []byte{1}, nil }

func (c *dChain) PendingCodeAt(context.Context, common.Address) ([]byte, error) { return []byte{1}, nil }

func (c *dChain) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{}, nil
}

func (c *dChain) EstimateGas(context.Context, ethereum.CallMsg) (uint64, error) { return 77, nil }

func (c *dChain) CallContract(_ context.Context, call ethereum.CallMsg, number *big.Int) ([]byte, error) {
	m, err := dABI().MethodById(call.Data[:4])
	if err != nil {
		return nil, err
	}
	in, err := m.Inputs.Unpack(call.Data[4:])
	if err != nil {
		return nil, err
	}
	switch m.Name {
	case "numConfigs":
		return m.Outputs.Pack(uint64(1))
	case "configForConfigIndex":
		return m.Outputs.Pack(c.last)
	case "configNumKeypers":
		return m.Outputs.Pack(uint64(0))
	case "nextConfig":
		return m.Outputs.Pack(c.next)
	case "nextConfigNumKeypers":
		return m.Outputs.Pack(uint64(len(c.next.Keypers)))
	case "nextConfigKeypers":
		if in[0].(uint64) >= uint64(len(c.next.Keypers)) {
			return nil, errors.New("execution reverted")
		}
		return m.Outputs.Pack(c.next.Keypers[in[0].(uint64)])
	case "configChangeHeadsUpBlocks":
		return m.Outputs.Pack(c.headsUp)
	}
	return nil, errors.New("unknown call")
}

func (c *dChain) SendTransaction(_ context.Context, tx *types.Transaction) error {
	m, err := dABI().MethodById(tx.Data())
	if err != nil {
		return err
	}
	in, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		return err
	}
	status := uint64(1)
	switch {
	case m.Name == c.revert:
		status = 0
	case m.Name == "nextConfigSetTransactionGasLimit":
		c.next.TransactionGasLimit = in[0].(uint64)
	case m.Name == "nextConfigSetTransactionSizeLimit":
		c.next.TransactionSizeLimit = in[0].(uint64)
	case m.Name == "nextConfigSetThreshold":
		c.next.Threshold = in[0].(uint64)
	case m.Name == "nextConfigRemoveKeypers":
		n := uint64(len(c.next.Keypers))
		if k := in[0].(uint64); k < n {
			n = k
		}
		c.next.Keypers = c.next.Keypers[:uint64(len(c.next.Keypers))-n]
	case m.Name == "nextConfigAddKeypers":
		c.next.Keypers = append(c.next.Keypers, in[0].([]common.Address)...)
	}
	c.txs = append(c.txs, tx)
	c.status = append(c.status, status)
	return nil
}

type DEth struct{}

func (DEth) ChainId() (*hexutil.Big, error) { return (*hexutil.Big)(big.NewInt(5)), nil }

func (DEth) GetTransactionCount(a common.Address, block string) (hexutil.Uint64, error) { return 0, nil }

func (DEth) Call(map[string]interface{}, string) (hexutil.Bytes, error) {
	return nil, errors.New("reverted")
}

func (DEth) GetBlockByNumber(number string, full bool) (interface{}, error) {
	return &types.Header{Number: new(big.Int).SetUint64(dC.head), Difficulty: new(big.Int)}, nil
}

func (DEth) GetTransactionReceipt(h common.Hash) (map[string]interface{}, error) {
	for i, tx := range dC.txs {
		if tx.Hash() == h {
			return map[string]interface{}{
				"status": hexutil.Uint64(dC.status[i]), "cumulativeGasUsed": hexutil.Uint64(1), "gasUsed": hexutil.Uint64(1), "logs": []interface{}{},
				"logsBloom": types.Bloom{}, "transactionHash": h, "blockNumber": (*hexutil.Big)(big.NewInt(3)),
			}, nil
		}
	}
	return nil, nil
}

func dSet(t *testing.T, want contract.BatchConfig) error {
	ctx := context.Background()
	batch, err := txbatch.New(ctx, client, ownerKey)
	if err != nil {
		t.Fatal(err)
	}
	batch.TransactOpts.GasPrice = big.NewInt(1)
	if err := configContract.SetNextBatchConfig(ctx, batch, want); err != nil {
		t.Fatal(err)
	}
	_, err = batch.WaitMined(ctx)
	return err
}

func TestSeedDemo(t *testing.T) {
	var err error
	ownerKey, err = crypto.ToECDSA(common.LeftPadBytes([]byte{9}, 32))
	if err != nil {
		t.Fatal(err)
	}
	dC = &dChain{}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", DEth{}); err != nil {
		t.Fatal(err)
	}
	client = ethclient.NewClient(rpc.DialInProc(srv))
	configContract, err = contract.NewConfigContract(common.Address{1}, dC)
	if err != nil {
		t.Fatal(err)
	}
'''
def tools_seed(id, edits, body, needs, breaks):
    seed(id, "T01", "shuttermint", "cmd/config", edits, THEAD + body + "}\n", needs, breaks)

tools_seed("tools-gas-limit-with-size-limit",
  [(CONTRACT, "	if newbc.TransactionGasLimit != curbc.TransactionGasLimit {", "	if newbc.TransactionSizeLimit != curbc.TransactionSizeLimit {")],
  '''	dC.next = contract.BatchConfig{TransactionSizeLimit: 100, TransactionGasLimit: 5}
	if err := dSet(t, contract.BatchConfig{TransactionSizeLimit: 100, TransactionGasLimit: 6}); err != nil {
		t.Fatal(err)
	}
	if dC.next.TransactionGasLimit != 6 {
		t.Fatal("demo: the gas limit was not set")
	}
''', "a next config set before which differs in the gas limit, but not in the size limit", "a changed gas limit is not set if the size limit stays the same")

tools_seed("tools-reverted-unless-all",
  [(TXBATCH, "	if numFailed > 0 {", "	if numFailed > 0 && numFailed == len(res) {")],
  '''	dC.revert = "nextConfigSetThreshold"
	if err := dSet(t, contract.BatchConfig{Threshold: 2, TransactionGasLimit: 6}); err == nil {
		t.Fatal("demo: a reverted transaction was not reported")
	}
''', "one of several transactions is reverted", "the tool reports success though one of the fields was not set")

tools_seed("tools-start-in-running-batch",
  [(SETNEXT, "	numStartedBatches := (delta + batchSpan + 1) / batchSpan\n", "	numStartedBatches := delta / batchSpan\n")],
  '''	dC.last = contract.BatchConfig{StartBlockNumber: 100, BatchSpan: 50}
	dC.head, dC.headsUp = 150, 60
	start, batch, err := chooseStartBlockAndBatch(context.Background(), client, configContract)
	if err != nil {
		t.Fatal(err)
	}
	if start < dC.head+dC.headsUp+20 || start != 100+50*batch {
		t.Fatal("demo: too early a start", start, batch)
	}
''', "the earliest start lies within a batch of the last config", "the chosen start leaves less than the demanded notice, and the contract refuses it")

tools_seed("tools-keypers-compared-by-number",
  [(CONTRACT, "		if s1[i] != s2[i] {\n			return false\n		}\n	}\n	return true\n}", "		if s1[i] != s2[i] && s1[len(s1)-1] != s2[len(s2)-1] {\n			return false\n		}\n	}\n	return true\n}")],
  '''	dC.next = contract.BatchConfig{Keypers: []common.Address{{1}, {2}}}
	if err := dSet(t, contract.BatchConfig{Keypers: []common.Address{{3}, {2}}}); err != nil {
		t.Fatal(err)
	}
	if dC.next.Keypers[0] != (common.Address{3}) {
		t.Fatal("demo: the keypers were not set")
	}
''', "a next config set before with as many keypers, the last of which is the same", "an exchanged keyper stays in the next config")
