package config

import (
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"errors"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"

	"VERIFMODULE/verifsym"
)

// vChain is the config contract and the node in front of it.
type vChain struct {
	bind.ContractBackend
	scheduled []contract.BatchConfig
	next      contract.BatchConfig
	headsUp   uint64
	head      uint64 // when asked
	mined     uint64 // when the config is scheduled
	calls     int
	fail      int // that query fails, 0: none
	reverted  int // that transaction is reverted, 0: none
	nonce     uint64
	wrong     bool // a transaction had a wrong nonce, price or sender
	txs       []*types.Transaction
	status    []uint64
}

var vC *vChain

var vErrNode = errors.New("connection lost")

var vFile contract.BatchConfig

func vOwner() *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(common.LeftPadBytes([]byte{9}, 32))
	if err != nil {
		panic(err)
	}
	return k
}

func (c *vChain) call() error {
	c.calls++
	if c.calls == c.fail {
		return vErrNode
	}
	return nil
}

// accepts is the rule of ConfigContract.scheduleNextConfig.
func (c *vChain) accepts() bool {
	last := c.scheduled[len(c.scheduled)-1]
	headsUp := c.headsUp
	if last.BatchSpan > headsUp {
		headsUp = last.BatchSpan
	}
	if c.next.Threshold > uint64(len(c.next.Keypers)) || c.next.StartBlockNumber < c.mined+headsUp+1 {
		return false
	}
	if last.BatchSpan == 0 {
		return c.next.StartBatchIndex == last.StartBatchIndex
	}
	if c.next.StartBatchIndex <= last.StartBatchIndex {
		return false
	}
	// the contract reverts on overflows
	d := c.next.StartBatchIndex - last.StartBatchIndex
	if d >= 1<<35 {
		return false
	}
	return last.StartBlockNumber+last.BatchSpan*d == c.next.StartBlockNumber
}

// apply performs a transaction and tells whether it was reverted.
func (c *vChain) apply(name string, n uint64, a common.Address, sel [4]byte, list []common.Address) uint64 {
	if len(c.status)+1 == c.reverted {
		return 0
	}
	switch name {
	case "nextConfigSetStartBatchIndex":
		c.next.StartBatchIndex = n
	case "nextConfigSetStartBlockNumber":
		c.next.StartBlockNumber = n
	case "nextConfigSetThreshold":
		c.next.Threshold = n
	case "nextConfigSetBatchSpan":
		c.next.BatchSpan = n
	case "nextConfigSetBatchSizeLimit":
		c.next.BatchSizeLimit = n
	case "nextConfigSetTransactionSizeLimit":
		c.next.TransactionSizeLimit = n
	case "nextConfigSetTransactionGasLimit":
		c.next.TransactionGasLimit = n
	case "nextConfigSetExecutionTimeout":
		c.next.ExecutionTimeout = n
	case "nextConfigSetFeeReceiver":
		c.next.FeeReceiver = a
	case "nextConfigSetTargetAddress":
		c.next.TargetAddress = a
	case "nextConfigSetTargetFunctionSelector":
		c.next.TargetFunctionSelector = sel
	case "nextConfigRemoveKeypers":
		k := uint64(len(c.next.Keypers))
		if n > k {
			n = k
		}
		c.next.Keypers = c.next.Keypers[:k-n]
	case "nextConfigAddKeypers":
		c.next.Keypers = append(append([]common.Address{}, c.next.Keypers...), list...)
	case "scheduleNextConfig":
		if !c.accepts() {
			return 0
		}
		c.scheduled = append(c.scheduled, c.next)
		c.next = contract.BatchConfig{}
	default:
		panic("unknown transaction")
	}
	return 1
}

func (c *vChain) send(opts *bind.TransactOpts, name string, n uint64, a common.Address, sel [4]byte, list []common.Address) (*types.Transaction, error) {
	if err := c.call(); err != nil {
		return nil, err
	}
	if opts.Nonce.Uint64() != c.nonce || opts.GasPrice != gasPrice || opts.From != crypto.PubkeyToAddress(vOwner().PublicKey) {
		c.wrong = true
	}
	c.nonce++
	tx := new(types.Transaction)
	c.status = append(c.status, c.apply(name, n, a, sel, list))
	c.txs = append(c.txs, tx)
	return tx, nil
}

// Symbolic execution replaces the bindings by these functions.

func vNumConfigs(*contract.ConfigContractCaller, *bind.CallOpts) (uint64, error) {
	return uint64(len(vC.scheduled)), vC.call()
}

func vConfigForConfigIndex(_ *contract.ConfigContractCaller, _ *bind.CallOpts, i uint64) (contract.BatchConfig, error) {
	return vC.scheduled[i], vC.call()
}

func vConfigNumKeypers(_ *contract.ConfigContractCaller, _ *bind.CallOpts, i uint64) (uint64, error) {
	return uint64(len(vC.scheduled[i].Keypers)), vC.call()
}

func vConfigKeypers(_ *contract.ConfigContractCaller, _ *bind.CallOpts, i uint64, j uint64) (common.Address, error) {
	return vC.scheduled[i].Keypers[j], vC.call()
}

func vNextConfig(*contract.ConfigContractCaller, *bind.CallOpts) (contract.BatchConfig, error) {
	return vC.next, vC.call()
}

func vNextConfigNumKeypers(*contract.ConfigContractCaller, *bind.CallOpts) (uint64, error) {
	return uint64(len(vC.next.Keypers)), vC.call()
}

func vNextConfigKeypers(_ *contract.ConfigContractCaller, _ *bind.CallOpts, i uint64) (common.Address, error) {
	if i >= uint64(len(vC.next.Keypers)) {
		return common.Address{}, errors.New("execution reverted")
	}
	return vC.next.Keypers[i], vC.call()
}

func vConfigChangeHeadsUpBlocks(*contract.ConfigContractCaller, *bind.CallOpts) (uint64, error) {
	return vC.headsUp, vC.call()
}

func vHeaderByNumber(*ethclient.Client, context.Context, *big.Int) (*types.Header, error) {
	if err := vC.call(); err != nil {
		return nil, err
	}
	return &types.Header{Number: new(big.Int).SetUint64(vC.head)}, nil
}

func vChainID(*ethclient.Client, context.Context) (*big.Int, error) {
	return big.NewInt(5), vC.call()
}

func vPendingNonceAt(_ *ethclient.Client, _ context.Context, a common.Address) (uint64, error) {
	if a != crypto.PubkeyToAddress(vOwner().PublicKey) {
		return 0, nil
	}
	return vC.nonce, vC.call()
}

func vKeyedTransactor(k *ecdsa.PrivateKey, chainID *big.Int) (*bind.TransactOpts, error) {
	if chainID.Cmp(big.NewInt(5)) != 0 {
		return nil, vErrNode
	}
	return &bind.TransactOpts{From: crypto.PubkeyToAddress(k.PublicKey)}, nil
}

func vTxHash(tx *types.Transaction) common.Hash {
	for i, t := range vC.txs {
		if t == tx {
			return common.BytesToHash([]byte{byte(i)})
		}
	}
	return common.Hash{}
}

func vTransactionReceipt(_ *ethclient.Client, _ context.Context, h common.Hash) (*types.Receipt, error) {
	if err := vC.call(); err != nil {
		return nil, err
	}
	return &types.Receipt{Status: vC.status[h[31]], BlockNumber: big.NewInt(3)}, nil
}

func vGetRevertReason(context.Context, ethereum.ContractCaller, common.Address, *types.Transaction, *big.Int) error {
	return errors.New("reverted")
}

func vReadJSONFile(bc *contract.BatchConfig, _ string) error {
	*bc = vFile
	bc.Keypers = append([]common.Address{}, vFile.Keypers...)
	return nil
}

type vT = *contract.ConfigContractTransactor

func vSetStartBatchIndex(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetStartBatchIndex", n, common.Address{}, [4]byte{}, nil)
}

func vSetStartBlockNumber(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetStartBlockNumber", n, common.Address{}, [4]byte{}, nil)
}

func vSetThreshold(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetThreshold", n, common.Address{}, [4]byte{}, nil)
}

func vSetBatchSpan(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetBatchSpan", n, common.Address{}, [4]byte{}, nil)
}

func vSetBatchSizeLimit(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetBatchSizeLimit", n, common.Address{}, [4]byte{}, nil)
}

func vSetTransactionSizeLimit(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetTransactionSizeLimit", n, common.Address{}, [4]byte{}, nil)
}

func vSetTransactionGasLimit(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetTransactionGasLimit", n, common.Address{}, [4]byte{}, nil)
}

func vSetExecutionTimeout(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetExecutionTimeout", n, common.Address{}, [4]byte{}, nil)
}

func vSetFeeReceiver(_ vT, o *bind.TransactOpts, a common.Address) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetFeeReceiver", 0, a, [4]byte{}, nil)
}

func vSetTargetAddress(_ vT, o *bind.TransactOpts, a common.Address) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetTargetAddress", 0, a, [4]byte{}, nil)
}

func vSetTargetFunctionSelector(_ vT, o *bind.TransactOpts, s [4]byte) (*types.Transaction, error) {
	return vC.send(o, "nextConfigSetTargetFunctionSelector", 0, common.Address{}, s, nil)
}

func vRemoveKeypers(_ vT, o *bind.TransactOpts, n uint64) (*types.Transaction, error) {
	return vC.send(o, "nextConfigRemoveKeypers", n, common.Address{}, [4]byte{}, nil)
}

func vAddKeypers(_ vT, o *bind.TransactOpts, l []common.Address) (*types.Transaction, error) {
	return vC.send(o, "nextConfigAddKeypers", 0, common.Address{}, [4]byte{}, l)
}

func vScheduleNextConfig(_ vT, o *bind.TransactOpts) (*types.Transaction, error) {
	return vC.send(o, "scheduleNextConfig", 0, common.Address{}, [4]byte{}, nil)
}

// The following is only used when running the compiled code, with the real bindings.

func vABI() *abi.ABI {
	a, err := abi.JSON(strings.NewReader(contract.ConfigContractABI))
	if err != nil {
		panic(err)
	}
	return &a
}

func (c *vChain) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) {
	return []byte{1}, nil
}

func (c *vChain) PendingCodeAt(context.Context, common.Address) ([]byte, error) {
	return []byte{1}, nil
}

func (c *vChain) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{}, nil
}

func (c *vChain) EstimateGas(context.Context, ethereum.CallMsg) (uint64, error) { return 77, nil }

func (c *vChain) CallContract(_ context.Context, call ethereum.CallMsg, number *big.Int) ([]byte, error) {
	if err := c.call(); err != nil {
		return nil, err
	}
	m, err := vABI().MethodById(call.Data[:4])
	if err != nil {
		panic(err)
	}
	in, err := m.Inputs.Unpack(call.Data[4:])
	if err != nil {
		panic(err)
	}
	switch m.Name {
	case "numConfigs":
		return m.Outputs.Pack(uint64(len(c.scheduled)))
	case "configForConfigIndex":
		return m.Outputs.Pack(c.scheduled[in[0].(uint64)])
	case "configNumKeypers":
		return m.Outputs.Pack(uint64(len(c.scheduled[in[0].(uint64)].Keypers)))
	case "configKeypers":
		return m.Outputs.Pack(c.scheduled[in[0].(uint64)].Keypers[in[1].(uint64)])
	case "nextConfig":
		return m.Outputs.Pack(c.next)
	case "nextConfigNumKeypers":
		return m.Outputs.Pack(uint64(len(c.next.Keypers)))
	case "nextConfigKeypers":
		if in[0].(uint64) >= uint64(len(c.next.Keypers)) {
			return nil, errors.New("execution reverted")
		}
		return m.Outputs.Pack(c.next.Keypers[in[0].(uint64)])
	case "configChangeHeadsUpBlocks":
		return m.Outputs.Pack(c.headsUp)
	}
	panic("unknown call")
}

func (c *vChain) SendTransaction(_ context.Context, tx *types.Transaction) error {
	if err := c.call(); err != nil {
		return err
	}
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(5)), tx)
	if err != nil {
		panic(err)
	}
	if tx.Nonce() != c.nonce || tx.GasPrice().Cmp(gasPrice) != 0 || from != crypto.PubkeyToAddress(vOwner().PublicKey) {
		c.wrong = true
	}
	c.nonce++
	m, err := vABI().MethodById(tx.Data())
	if err != nil {
		panic(err)
	}
	args, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		panic(err)
	}
	var n uint64
	var a common.Address
	var sel [4]byte
	var list []common.Address
	for _, x := range args {
		switch v := x.(type) {
		case uint64:
			n = v
		case common.Address:
			a = v
		case [4]byte:
			sel = v
		case []common.Address:
			list = v
		}
	}
	c.status = append(c.status, c.apply(m.Name, n, a, sel, list))
	c.txs = append(c.txs, tx)
	return nil
}

// VEth is the node's RPC service.
type VEth struct{}

func (VEth) ChainId() (*hexutil.Big, error) {
	return (*hexutil.Big)(big.NewInt(5)), vC.call()
}

func (VEth) GetTransactionCount(a common.Address, block string) (hexutil.Uint64, error) {
	if a != crypto.PubkeyToAddress(vOwner().PublicKey) || block != "pending" {
		return 0, nil
	}
	return hexutil.Uint64(vC.nonce), vC.call()
}

func (VEth) Call(map[string]interface{}, string) (hexutil.Bytes, error) {
	return nil, errors.New("reverted")
}

func (VEth) GetBlockByNumber(number string, full bool) (interface{}, error) {
	if err := vC.call(); err != nil {
		return nil, err
	}
	return &types.Header{Number: new(big.Int).SetUint64(vC.head), Difficulty: new(big.Int)}, nil
}

func (VEth) GetTransactionReceipt(h common.Hash) (map[string]interface{}, error) {
	if err := vC.call(); err != nil {
		return nil, err
	}
	for i, tx := range vC.txs {
		if tx.Hash() == h {
			return map[string]interface{}{
				"status": hexutil.Uint64(vC.status[i]), "cumulativeGasUsed": hexutil.Uint64(1), "gasUsed": hexutil.Uint64(1), "logs": []interface{}{},
				"logsBloom": types.Bloom{}, "transactionHash": h, "blockNumber": (*hexutil.Big)(big.NewInt(3)),
			}, nil
		}
	}
	return nil, nil
}

func vConnect() {
	ownerKey = vOwner()
	gasPrice = big.NewInt(11)
	if verifsym.Symbolic() {
		client = new(ethclient.Client)
		configContract = new(contract.ConfigContract)
		return
	}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", VEth{}); err != nil {
		panic(err)
	}
	client = ethclient.NewClient(rpc.DialInProc(srv))
	var err error
	configContract, err = contract.NewConfigContract(common.Address{1}, vC)
	if err != nil {
		panic(err)
	}
}

// vWrite puts the config into a file, for native runs only.
func vWrite() (path string, remove func()) {
	if verifsym.Symbolic() {
		return "config.json", func() {}
	}
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		panic(err)
	}
	path = filepath.Join(dir, "config.json")
	d, err := json.Marshal(vFile)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(path, d, 0o600); err != nil {
		panic(err)
	}
	return path, func() { os.RemoveAll(dir) }
}

func vAddr() (a common.Address) {
	copy(a[:], verifsym.Bytes("addr", 20))
	return a
}

func vSel() (s [4]byte) {
	copy(s[:], verifsym.Bytes("sel", 4))
	return s
}

var vLists = [][]common.Address{
	{}, {{0xaa}}, {{0xaa}, {0xbb}}, {{0xbb}, {0xaa}}, {{0xaa}, {0xaa}}, {{0xbb}, {0xaa}, {0xbb}}, {{0xaa}, {0xbb}, {0xcc}},
}

func vAnyConfig() contract.BatchConfig {
	return contract.BatchConfig{
		StartBatchIndex: verifsym.U64("n"), StartBlockNumber: verifsym.U64("n"), Threshold: verifsym.U64("n"), BatchSpan: verifsym.U64("n"),
		BatchSizeLimit: verifsym.U64("n"), TransactionSizeLimit: verifsym.U64("n"), TransactionGasLimit: verifsym.U64("n"),
		FeeReceiver: vAddr(), TargetAddress: vAddr(), TargetFunctionSelector: vSel(), ExecutionTimeout: verifsym.U64("n"),
	}
}

func vSame(a, b contract.BatchConfig) bool {
	if len(a.Keypers) != len(b.Keypers) {
		return false
	}
	ok := true
	for i := range a.Keypers {
		ok = verifsym.And(ok, a.Keypers[i] == b.Keypers[i])
	}
	for _, x := range [][2]uint64{
		{a.StartBatchIndex, b.StartBatchIndex}, {a.StartBlockNumber, b.StartBlockNumber}, {a.Threshold, b.Threshold}, {a.BatchSpan, b.BatchSpan},
		{a.BatchSizeLimit, b.BatchSizeLimit}, {a.TransactionSizeLimit, b.TransactionSizeLimit}, {a.TransactionGasLimit, b.TransactionGasLimit},
		{a.ExecutionTimeout, b.ExecutionTimeout},
	} {
		ok = verifsym.And(ok, x[0] == x[1])
	}
	ok = verifsym.And(ok, a.FeeReceiver == b.FeeReceiver)
	ok = verifsym.And(ok, a.TargetAddress == b.TargetAddress)
	return verifsym.And(ok, a.TargetFunctionSelector == b.TargetFunctionSelector)
}

// VerifSetNext: the next config in the contract becomes the wanted one, whatever it was before.
func VerifSetNext() {
	want := vAnyConfig()
	want.Keypers = vLists[verifsym.Choose("keypers", 0, 3)]
	before := want
	before.Keypers = vLists[verifsym.Choose("before", 0, len(vLists)-1)]
	any := vAnyConfig()
	switch verifsym.Choose("field", 0, 12) {
	case 0:
		before.StartBatchIndex = any.StartBatchIndex
	case 1:
		before.StartBlockNumber = any.StartBlockNumber
	case 2:
		before.Threshold = any.Threshold
	case 3:
		before.BatchSpan = any.BatchSpan
	case 4:
		before.BatchSizeLimit = any.BatchSizeLimit
	case 5:
		before.TransactionSizeLimit = any.TransactionSizeLimit
	case 6:
		before.TransactionGasLimit = any.TransactionGasLimit
	case 7:
		before.FeeReceiver = any.FeeReceiver
	case 8:
		before.TargetAddress = any.TargetAddress
	case 9:
		before.TargetFunctionSelector = any.TargetFunctionSelector
	case 10:
		before.ExecutionTimeout = any.ExecutionTimeout
	case 11:
		verifsym.Assume(want.StartBatchIndex != 0 && want.StartBlockNumber != 0 && want.Threshold != 0 && want.BatchSpan != 0 && want.BatchSizeLimit != 0)
		verifsym.Assume(want.TransactionSizeLimit != 0 && want.TransactionGasLimit != 0 && want.ExecutionTimeout != 0)
		verifsym.Assume(want.FeeReceiver[0] != 0 && want.TargetAddress[0] != 0 && want.TargetFunctionSelector[0] != 0)
		before = contract.BatchConfig{Keypers: before.Keypers}
	}
	vC = &vChain{next: before, nonce: uint64(verifsym.U32("nonce")), scheduled: []contract.BatchConfig{{}}}
	vC.fail = verifsym.Choose("fail", 0, 12)
	vC.reverted = verifsym.Choose("reverted", 0, 2)
	verifsym.Assume(vC.fail == 0 || vC.reverted == 0)
	vConnect()
	ctx := context.Background()
	batch, err := txbatch.New(ctx, client, ownerKey)
	if err == nil {
		batch.TransactOpts.GasPrice = gasPrice
		err = configContract.SetNextBatchConfig(ctx, batch, want)
	}
	if err == nil {
		_, err = batch.WaitMined(ctx)
	}
	verifsym.Assert(!vC.wrong, "nonces, price and sender")
	verifsym.Assert((err != nil) == (vC.fail != 0 && vC.calls >= vC.fail || vC.reverted != 0 && len(vC.status) >= vC.reverted), "errors are reported")
	if err != nil {
		verifsym.Reach("failed")
		return
	}
	verifsym.Reach("set")
	verifsym.Assert(vSame(vC.next, want), "the next config is the wanted one")
	got, err := configContract.GetNextConfig(nil)
	verifsym.Assert(err != nil || vSame(got, want), "and is read so")
}

// VerifSchedule: a config without start block is scheduled without gaps, and the contract accepts it.
func VerifSchedule() {
	last := contract.BatchConfig{Keypers: vLists[1], Threshold: 1}
	n := func(name string) uint64 { return uint64(verifsym.U32(name)) }
	if verifsym.Choose("first", 0, 1) == 1 {
		last = contract.BatchConfig{}
	} else {
		last.StartBlockNumber = n("start")
		last.StartBatchIndex = n("batch")
		switch verifsym.Choose("span", 0, 5) {
		case 1:
			last.BatchSpan = 1
		case 2:
			last.BatchSpan = 2
		case 3:
			last.BatchSpan = 7
		case 4:
			last.BatchSpan = 100
		case 5:
			last.BatchSpan = 1<<20 + 1
		}
	}
	vFile = contract.BatchConfig{
		Keypers: vLists[verifsym.Choose("keypers", 1, 2)], BatchSpan: n("newspan"), ExecutionTimeout: n("timeout"), FeeReceiver: common.Address{0xfe},
	}
	vFile.Threshold = uint64(verifsym.Choose("threshold", 1, len(vFile.Keypers)))
	if verifsym.Choose("given", 0, 1) == 1 {
		vFile.StartBlockNumber = n("newstart")
		vFile.StartBatchIndex = n("newbatch")
		verifsym.Assume(vFile.StartBlockNumber != 0)
	}
	vC = &vChain{scheduled: []contract.BatchConfig{{}}, headsUp: n("headsup"), head: n("head"), nonce: 3}
	if last.Threshold > 0 {
		vC.scheduled = append(vC.scheduled, last)
	}
	before := len(vC.scheduled)
	late := n("late")
	verifsym.Assume(late < 20)
	vC.mined = vC.head + late
	vC.next = vFile // only the start is missing
	vC.next.StartBlockNumber = 1 << 40
	vC.next.StartBatchIndex = 1 << 40
	vConnect()
	path, remove := vWrite()
	defer remove()
	setNextFlags.ConfigPath = path
	ctx := context.Background()
	err := setNext(ctx)
	verifsym.Assert(err == nil, "the config is set")
	start, batch := vC.next.StartBlockNumber, vC.next.StartBatchIndex
	ok := vC.accepts()
	err = schedule(ctx)
	verifsym.Assert((err == nil) == ok, "the outcome is reported")
	if vFile.StartBlockNumber != 0 {
		verifsym.Reach("given")
		verifsym.Assert(verifsym.And(start == vFile.StartBlockNumber, batch == vFile.StartBatchIndex), "a given start is kept")
	} else {
		verifsym.Assert(ok, "the contract accepts the start")
		earliest := vC.head + 20
		if vC.headsUp > last.BatchSpan {
			earliest += vC.headsUp
		} else {
			earliest += last.BatchSpan
		}
		verifsym.Assert(start >= last.StartBlockNumber, "not before the last one")
		if earliest < last.StartBlockNumber {
			verifsym.Reach("future")
			verifsym.Assert(start <= last.StartBlockNumber+2*last.BatchSpan, "no later than needed")
		} else {
			verifsym.Reach("now")
			verifsym.Assert(start <= earliest+2*last.BatchSpan, "no later than needed")
		}
	}
	if err == nil {
		want := vFile
		want.StartBlockNumber, want.StartBatchIndex = start, batch
		verifsym.Assert(len(vC.scheduled) == before+1 && vSame(vC.scheduled[before], want), "exactly this config is scheduled")
	}
}
