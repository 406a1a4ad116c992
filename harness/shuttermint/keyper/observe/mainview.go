package observe

import (
	"context"
	"errors"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"

	"VERIFMODULE/verifsym"
)

const (
	vCipherTx = iota
	vPlainTx
	vConfigScheduled
	vHalfStep
	vDeposit
	vAccused
	vAppealed
	vMainKinds
)

// vEntry is something that happened on the main chain.
type vEntry struct {
	kind     int
	height   uint64
	tx       *contract.BatcherContractTransactionAdded
	config   contract.BatchConfig
	keypers  []common.Address
	receipt  contract.CipherExecutionReceipt
	deposit  *contract.DepositContractDepositChanged
	accused  *contract.KeyperSlasherAccused
	appealed *contract.KeyperSlasherAppealed
}

// vMain is the main chain, and what a node tells about it.
type vMain struct {
	entries []vEntry
	head    uint64
	syncing *ethereum.SyncProgress
	calls   int
	fail    int // that call fails, 0: none

	txs      []*contract.BatcherContractTransactionAdded
	deposits []*contract.DepositContractDepositChanged
	accused  []*contract.KeyperSlasherAccused
	appealed []*contract.KeyperSlasherAppealed
}

var vM *vMain

var errConnection = errors.New("connection lost")

func (m *vMain) call() error {
	m.calls++
	if m.calls == m.fail {
		return errConnection
	}
	return nil
}

func (m *vMain) upTo(kind int, number *big.Int) []vEntry {
	height := m.head
	if number != nil {
		height = number.Uint64()
	}
	var r []vEntry
	for _, e := range m.entries {
		if e.kind == kind && e.height <= height {
			r = append(r, e)
		}
	}
	return r
}

func (m *vMain) between(opts *bind.FilterOpts) []vEntry {
	var r []vEntry
	for _, e := range m.entries {
		if e.height >= opts.Start && (opts.End == nil || e.height <= *opts.End) {
			r = append(r, e)
		}
	}
	return r
}

func (m *vMain) numConfigs(number *big.Int) uint64 {
	return 1 + uint64(len(m.upTo(vConfigScheduled, number)))
}

func (m *vMain) configAt(number *big.Int, i uint64) (contract.BatchConfig, []common.Address, error) {
	if i == 0 {
		return contract.BatchConfig{}, nil, nil
	}
	cs := m.upTo(vConfigScheduled, number)
	if i > uint64(len(cs)) {
		return contract.BatchConfig{}, nil, errors.New("execution reverted")
	}
	return cs[i-1].config, cs[i-1].keypers, nil
}

func (m *vMain) receiptAt(number *big.Int, halfStep uint64) contract.CipherExecutionReceipt {
	hs := m.upTo(vHalfStep, number)
	if halfStep < uint64(len(hs)) {
		return hs[halfStep].receipt
	}
	return contract.CipherExecutionReceipt{}
}

// The following functions replace the bindings.

func vSyncProgress(*ethclient.Client, context.Context) (*ethereum.SyncProgress, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	return vM.syncing, nil
}

func vBlockNumber(*ethclient.Client, context.Context) (uint64, error) {
	if err := vM.call(); err != nil {
		return 0, err
	}
	return vM.head, nil
}

func vHeaderByNumber(_ *ethclient.Client, _ context.Context, number *big.Int) (*types.Header, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	if number != nil {
		return &types.Header{Number: number}, nil
	}
	return &types.Header{Number: new(big.Int).SetUint64(vM.head)}, nil
}

func vNumConfigs(_ *contract.ConfigContractCaller, opts *bind.CallOpts) (uint64, error) {
	if err := vM.call(); err != nil {
		return 0, err
	}
	return vM.numConfigs(opts.BlockNumber), nil
}

func vConfigForConfigIndex(_ *contract.ConfigContractCaller, opts *bind.CallOpts, i uint64) (contract.BatchConfig, error) {
	if err := vM.call(); err != nil {
		return contract.BatchConfig{}, err
	}
	c, keypers, err := vM.configAt(opts.BlockNumber, i)
	c.Keypers = keypers
	return c, err
}

func vConfigNumKeypers(_ *contract.ConfigContractCaller, opts *bind.CallOpts, i uint64) (uint64, error) {
	if err := vM.call(); err != nil {
		return 0, err
	}
	_, keypers, err := vM.configAt(opts.BlockNumber, i)
	return uint64(len(keypers)), err
}

func vConfigKeypers(_ *contract.ConfigContractCaller, opts *bind.CallOpts, i uint64, j uint64) (common.Address, error) {
	if err := vM.call(); err != nil {
		return common.Address{}, err
	}
	_, keypers, err := vM.configAt(opts.BlockNumber, i)
	if err != nil {
		return common.Address{}, err
	}
	if j >= uint64(len(keypers)) {
		return common.Address{}, errors.New("execution reverted")
	}
	return keypers[j], nil
}

func vNumExecutionHalfSteps(_ *contract.ExecutorContractCaller, opts *bind.CallOpts) (uint64, error) {
	if err := vM.call(); err != nil {
		return 0, err
	}
	return uint64(len(vM.upTo(vHalfStep, opts.BlockNumber))), nil
}

func vGetReceipt(_ *contract.ExecutorContractCaller, opts *bind.CallOpts, halfStep uint64) (contract.CipherExecutionReceipt, error) {
	if err := vM.call(); err != nil {
		return contract.CipherExecutionReceipt{}, err
	}
	return vM.receiptAt(opts.BlockNumber, halfStep), nil
}

func vFilterTransactionAdded(_ *contract.BatcherContractFilterer, opts *bind.FilterOpts) (*contract.BatcherContractTransactionAddedIterator, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	vM.txs = nil
	for _, e := range vM.between(opts) {
		if e.tx != nil {
			vM.txs = append(vM.txs, e.tx)
		}
	}
	return &contract.BatcherContractTransactionAddedIterator{}, nil
}

func vCloseTransactionAdded(*contract.BatcherContractTransactionAddedIterator) error { return nil }

func vNextTransactionAdded(it *contract.BatcherContractTransactionAddedIterator) bool {
	if len(vM.txs) == 0 {
		return false
	}
	ev := *vM.txs[0]
	it.Event = &ev
	vM.txs = vM.txs[1:]
	return true
}

func vFilterDepositChanged(_ *contract.DepositContractFilterer, opts *bind.FilterOpts, _ []common.Address) (*contract.DepositContractDepositChangedIterator, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	vM.deposits = nil
	for _, e := range vM.between(opts) {
		if e.deposit != nil {
			vM.deposits = append(vM.deposits, e.deposit)
		}
	}
	return &contract.DepositContractDepositChangedIterator{}, nil
}

func vCloseDepositChanged(*contract.DepositContractDepositChangedIterator) error { return nil }

func vNextDepositChanged(it *contract.DepositContractDepositChangedIterator) bool {
	if len(vM.deposits) == 0 {
		return false
	}
	ev := *vM.deposits[0]
	it.Event = &ev
	vM.deposits = vM.deposits[1:]
	return true
}

func vFilterAccused(_ *contract.KeyperSlasherFilterer, opts *bind.FilterOpts, _ []uint64, _ []common.Address, _ []common.Address) (*contract.KeyperSlasherAccusedIterator, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	vM.accused = nil
	for _, e := range vM.between(opts) {
		if e.accused != nil {
			vM.accused = append(vM.accused, e.accused)
		}
	}
	return &contract.KeyperSlasherAccusedIterator{}, nil
}

func vCloseAccused(*contract.KeyperSlasherAccusedIterator) error { return nil }

func vNextAccused(it *contract.KeyperSlasherAccusedIterator) bool {
	if len(vM.accused) == 0 {
		return false
	}
	ev := *vM.accused[0]
	it.Event = &ev
	vM.accused = vM.accused[1:]
	return true
}

func vFilterAppealed(_ *contract.KeyperSlasherFilterer, opts *bind.FilterOpts, _ []uint64, _ []common.Address) (*contract.KeyperSlasherAppealedIterator, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	vM.appealed = nil
	for _, e := range vM.between(opts) {
		if e.appealed != nil {
			vM.appealed = append(vM.appealed, e.appealed)
		}
	}
	return &contract.KeyperSlasherAppealedIterator{}, nil
}

func vCloseAppealed(*contract.KeyperSlasherAppealedIterator) error { return nil }

func vNextAppealed(it *contract.KeyperSlasherAppealedIterator) bool {
	if len(vM.appealed) == 0 {
		return false
	}
	ev := *vM.appealed[0]
	it.Event = &ev
	vM.appealed = vM.appealed[1:]
	return true
}

// The following is only used when running the compiled code, with the real bindings.

type vBackend struct {
	bind.ContractBackend
}

func vABI(s string) abi.ABI {
	a, err := abi.JSON(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return a
}

func (vBackend) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) {
	return []byte{1}, nil
}

func (vBackend) CallContract(_ context.Context, call ethereum.CallMsg, number *big.Int) ([]byte, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	for _, s := range []string{contract.ConfigContractABI, contract.ExecutorContractABI} {
		a := vABI(s)
		m, err := a.MethodById(call.Data[:4])
		if err != nil {
			continue
		}
		in, err := m.Inputs.Unpack(call.Data[4:])
		if err != nil {
			panic(err)
		}
		switch m.Name {
		case "numConfigs":
			return m.Outputs.Pack(vM.numConfigs(number))
		case "configForConfigIndex":
			c, keypers, err := vM.configAt(number, in[0].(uint64))
			if err != nil {
				return nil, err
			}
			c.Keypers = keypers
			return m.Outputs.Pack(c)
		case "configNumKeypers":
			_, keypers, err := vM.configAt(number, in[0].(uint64))
			if err != nil {
				return nil, err
			}
			return m.Outputs.Pack(uint64(len(keypers)))
		case "configKeypers":
			_, keypers, err := vM.configAt(number, in[0].(uint64))
			if err != nil {
				return nil, err
			}
			return m.Outputs.Pack(keypers[in[1].(uint64)])
		case "numExecutionHalfSteps":
			return m.Outputs.Pack(uint64(len(vM.upTo(vHalfStep, number))))
		case "getReceipt":
			return m.Outputs.Pack(vM.receiptAt(number, in[0].(uint64)))
		}
	}
	panic("unknown call")
}

func vTopic(number uint64) common.Hash { return common.BigToHash(new(big.Int).SetUint64(number)) }

func (vBackend) FilterLogs(_ context.Context, q ethereum.FilterQuery) ([]types.Log, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	opts := &bind.FilterOpts{Start: q.FromBlock.Uint64()}
	if q.ToBlock != nil {
		end := q.ToBlock.Uint64()
		opts.End = &end
	}
	var logs []types.Log
	for _, e := range vM.between(opts) {
		l := types.Log{BlockNumber: e.height}
		pack := func(s, name string, indexed []common.Hash, args ...interface{}) {
			ev := vABI(s).Events[name]
			l.Topics = append([]common.Hash{ev.ID}, indexed...)
			data, err := ev.Inputs.NonIndexed().Pack(args...)
			if err != nil {
				panic(err)
			}
			l.Data = data
		}
		switch {
		case e.tx != nil:
			pack(contract.BatcherContractABI, "TransactionAdded", nil, e.tx.BatchIndex, e.tx.TransactionType, e.tx.Transaction, e.tx.BatchHash)
		case e.deposit != nil:
			d := e.deposit
			pack(contract.DepositContractABI, "DepositChanged", []common.Hash{d.Account.Hash()}, d.Amount, d.WithdrawalDelayBlocks, d.WithdrawalRequestedBlock, d.Withdrawn, d.Slashed)
		case e.accused != nil:
			pack(contract.KeyperSlasherABI, "Accused", []common.Hash{vTopic(e.accused.HalfStep), e.accused.Executor.Hash(), e.accused.Accuser.Hash()})
		case e.appealed != nil:
			pack(contract.KeyperSlasherABI, "Appealed", []common.Hash{vTopic(e.appealed.HalfStep), e.appealed.Executor.Hash()})
		default:
			continue
		}
		if l.Topics[0] == q.Topics[0][0] {
			logs = append(logs, l)
		}
	}
	return logs, nil
}

// VEth is the part of a node which answers for the chain itself.
type VEth struct{}

func (VEth) Syncing() (interface{}, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	if vM.syncing == nil {
		return false, nil
	}
	s := vM.syncing
	return map[string]interface{}{
		"startingBlock": hexutil.Uint64(s.StartingBlock), "currentBlock": hexutil.Uint64(s.CurrentBlock), "highestBlock": hexutil.Uint64(s.HighestBlock),
		"pulledStates": hexutil.Uint64(s.PulledStates), "knownStates": hexutil.Uint64(s.KnownStates),
	}, nil
}

func (VEth) BlockNumber() (interface{}, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	return hexutil.Uint64(vM.head), nil
}

func (VEth) GetBlockByNumber(number string, full bool) (interface{}, error) {
	if err := vM.call(); err != nil {
		return nil, err
	}
	return &types.Header{Number: new(big.Int).SetUint64(vM.head), Difficulty: new(big.Int)}, nil
}

func vMainCaller() *contract.Caller {
	if verifsym.Symbolic() {
		return &contract.Caller{
			Ethclient:        new(ethclient.Client),
			ConfigContract:   new(contract.ConfigContract),
			BatcherContract:  new(contract.BatcherContract),
			ExecutorContract: new(contract.ExecutorContract),
			DepositContract:  new(contract.DepositContract),
			KeyperSlasher:    new(contract.KeyperSlasher),
		}
	}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", VEth{}); err != nil {
		panic(err)
	}
	b := vBackend{}
	a := common.Address{1}
	cfg, _ := contract.NewConfigContract(a, b)
	bat, _ := contract.NewBatcherContract(a, b)
	exe, _ := contract.NewExecutorContract(a, b)
	dep, _ := contract.NewDepositContract(a, b)
	sla, err := contract.NewKeyperSlasher(a, b)
	if err != nil {
		panic(err)
	}
	return &contract.Caller{
		Ethclient: ethclient.NewClient(rpc.DialInProc(srv)), ConfigContract: cfg, BatcherContract: bat,
		ExecutorContract: exe, DepositContract: dep, KeyperSlasher: sla,
	}
}

func v32(name string) (r [32]byte) {
	copy(r[:], verifsym.Bytes(name, 32))
	return r
}

var vTwo = []common.Address{{0xaa}, {0xbb}}

// vFew replaces the choice of batches, accounts and half steps by fixed ones.
var vFew bool

func vWho() common.Address { return vTwo[vPick("who", 0)] }

func vPick(name string, few int) int {
	if vFew {
		return few
	}
	return verifsym.Choose(name, 0, 1)
}

// add lets something happen at the given height.
func (m *vMain) add(kind int, height uint64) {
	e := vEntry{kind: kind, height: height}
	switch kind {
	case vCipherTx, vPlainTx:
		typ := uint8(contract.TransactionTypeCipher)
		if kind == vPlainTx {
			typ = contract.TransactionTypePlain
		}
		e.tx = &contract.BatcherContractTransactionAdded{
			BatchIndex: 7 + uint64(vPick("batch", 0)), TransactionType: typ,
			Transaction: verifsym.Bytes("tx", 2), BatchHash: v32("hash"), Raw: types.Log{BlockNumber: height},
		}
	case vConfigScheduled:
		e.config = contract.BatchConfig{
			StartBatchIndex: verifsym.U64("num"), StartBlockNumber: verifsym.U64("num"), Threshold: verifsym.U64("num"), BatchSpan: verifsym.U64("num"),
			BatchSizeLimit: verifsym.U64("num"), TransactionSizeLimit: verifsym.U64("num"), TransactionGasLimit: verifsym.U64("num"), ExecutionTimeout: verifsym.U64("num"),
			FeeReceiver: vAddr("fee"), TargetAddress: vAddr("target"),
		}
		copy(e.config.TargetFunctionSelector[:], verifsym.Bytes("selector", 4))
		// none, one, or two of which one is listed twice
		e.keypers = []common.Address{vTwo[0], vTwo[1], vTwo[0]}[:[]int{1, 3, 0}[len(m.entries)%3]]
	case vHalfStep:
		n := uint64(len(m.upTo(vHalfStep, new(big.Int).SetUint64(height))))
		if n%2 == 0 && vPick("executed", 1) == 1 {
			e.receipt = contract.CipherExecutionReceipt{Executed: true, Executor: vAddr("executor"), HalfStep: n, CipherBatchHash: v32("cipher"), BatchHash: v32("batch")}
		}
	case vDeposit:
		e.deposit = &contract.DepositContractDepositChanged{
			Account: vWho(), Amount: verifsym.Big("amount", 200), WithdrawalDelayBlocks: verifsym.U64("delay"), WithdrawalRequestedBlock: verifsym.U64("requested"),
			Slashed: verifsym.Bool("slashed"), Raw: types.Log{BlockNumber: height},
		}
	case vAccused:
		step := uint64(2 * vPick("step", 1))
		for _, o := range m.entries {
			verifsym.Assume(o.accused == nil || o.accused.HalfStep != step)
		}
		e.accused = &contract.KeyperSlasherAccused{HalfStep: step, Executor: vAddr("executor"), Accuser: vAddr("accuser"), Raw: types.Log{BlockNumber: height}}
	case vAppealed:
		var of *contract.KeyperSlasherAccused
		for _, o := range m.entries {
			if o.accused != nil {
				of = o.accused
			}
			if o.appealed != nil {
				verifsym.Assume(false)
			}
		}
		verifsym.Assume(of != nil)
		e.appealed = &contract.KeyperSlasherAppealed{HalfStep: of.HalfStep, Executor: of.Executor, Raw: types.Log{BlockNumber: height}}
	}
	m.entries = append(m.entries, e)
}

// vSameBytes compares without branching.
func vAllBytes(got, want [][]byte) bool {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = verifsym.And(ok, verifsym.DeepEq(got[i], want[i]))
	}
	return ok
}

// vCheckMain compares a view with what happened up to a block.
func (m *vMain) vCheckMain(v *MainChain, height uint64) {
	at := new(big.Int).SetUint64(height)
	verifsym.Assert(v.CurrentBlock == height, "the view is of the followed block")

	verifsym.Assert(uint64(len(v.BatchConfigs)) == m.numConfigs(at), "the view knows the scheduled configs")
	for i, c := range v.BatchConfigs {
		want, keypers, _ := m.configAt(at, uint64(i))
		ok := verifsym.And(c.StartBatchIndex == want.StartBatchIndex, c.StartBlockNumber == want.StartBlockNumber, c.Threshold == want.Threshold, c.BatchSpan == want.BatchSpan,
			c.BatchSizeLimit == want.BatchSizeLimit, c.TransactionSizeLimit == want.TransactionSizeLimit, c.TransactionGasLimit == want.TransactionGasLimit, c.ExecutionTimeout == want.ExecutionTimeout,
			c.FeeReceiver == want.FeeReceiver, c.TargetAddress == want.TargetAddress, c.TargetFunctionSelector == want.TargetFunctionSelector)
		verifsym.Assert(ok, "configs are as scheduled")
		if len(keypers) == 3 {
			keypers = keypers[:2]
		}
		verifsym.Assert(len(c.Keypers) == len(keypers), "configs have their keypers, each of them once")
		for j := range keypers {
			verifsym.Assert(c.Keypers[j] == keypers[j], "configs have their keypers in order")
		}
	}

	for b := uint64(7); b <= 8; b++ {
		var cipher, plain [][]byte
		var cipherHash, plainHash common.Hash
		for _, e := range append(m.upTo(vCipherTx, at), m.upTo(vPlainTx, at)...) {
			if e.tx.BatchIndex != b {
				continue
			}
			if e.kind == vCipherTx {
				cipher, cipherHash = append(cipher, e.tx.Transaction), e.tx.BatchHash
			} else {
				plain, plainHash = append(plain, e.tx.Transaction), e.tx.BatchHash
			}
		}
		got := v.Batches[b]
		if got == nil {
			verifsym.Assert(len(cipher)+len(plain) == 0, "batches are known")
			continue
		}
		verifsym.Assert(len(cipher)+len(plain) > 0 && got.BatchIndex == b, "batches have their numbers")
		verifsym.Assert(vAllBytes(got.EncryptedTransactions, cipher), "encrypted transactions are known once and in order")
		verifsym.Assert(vAllBytes(got.PlainTransactions, plain), "plain transactions are known once and in order")
		verifsym.Assert(verifsym.And(got.EncryptedBatchHash == cipherHash, got.PlainBatchHash == plainHash), "batch hashes are the latest ones")
	}
	for b := range v.Batches {
		verifsym.Assert(b == 7 || b == 8, "there are no other batches")
	}

	steps := m.upTo(vHalfStep, at)
	verifsym.Assert(v.NumExecutionHalfSteps == uint64(len(steps)), "half steps are counted")
	n := 0
	for i, e := range steps {
		got := v.CipherExecutionReceipts[uint64(i)]
		if i%2 != 0 || !e.receipt.Executed {
			verifsym.Assert(got == nil, "a half step without an execution has no receipt")
			continue
		}
		n++
		verifsym.Assert(got != nil, "executed half steps have a receipt")
		verifsym.Assert(*got == e.receipt, "receipts are the contract's")
	}
	verifsym.Assert(len(v.CipherExecutionReceipts) == n, "there are no other receipts")

	for _, who := range vTwo {
		want := Deposit{Account: who}
		known := false
		for _, e := range m.upTo(vDeposit, at) {
			if e.deposit.Account == who {
				d := e.deposit
				known = true
				want = Deposit{Account: who, Slashed: d.Slashed, Amount: d.Amount, WithdrawalDelayBlocks: d.WithdrawalDelayBlocks, WithdrawalRequestedBlock: d.WithdrawalRequestedBlock}
			}
		}
		got := v.Deposits[who]
		verifsym.Assert((got != nil) == known, "deposits are known")
		if known {
			verifsym.Assert(verifsym.And(got.Account == who, got.Slashed == want.Slashed, got.Amount.Cmp(want.Amount) == 0,
				got.WithdrawalDelayBlocks == want.WithdrawalDelayBlocks, got.WithdrawalRequestedBlock == want.WithdrawalRequestedBlock), "deposits are the latest ones")
		}
	}

	accused := m.upTo(vAccused, at)
	verifsym.Assert(len(v.Accusations) == len(accused), "accusations are known")
	for _, e := range accused {
		got := v.Accusations[e.accused.HalfStep]
		verifsym.Assert(got != nil, "accusations are known")
		appealed := false
		for _, o := range m.upTo(vAppealed, at) {
			if o.appealed.HalfStep == e.accused.HalfStep {
				appealed = true
			}
		}
		verifsym.Assert(verifsym.And(got.Executor == e.accused.Executor, got.Accuser == e.accused.Accuser, got.HalfStep == e.accused.HalfStep, got.BlockNumber == e.height), "accusations are as they were made")
		verifsym.Assert(got.Appealed == appealed, "appeals are known")
	}
}

func vHeadOf(m *vMain, follow, current uint64) uint64 {
	h := uint64(0)
	if m.head >= follow {
		h = m.head - follow
	}
	if h < current {
		h = current
	}
	return h
}

// VerifMainView polls the main chain at arbitrary heights.
func VerifMainView() {
	m := &vMain{}
	vM = m
	vFew = false
	height := uint64(1)
	kind := verifsym.Choose("kind", 0, vMainKinds-2)
	n := 3 + verifsym.Tier()
	for i := 0; i < n; i++ {
		if i > 0 {
			height += uint64(verifsym.Choose("distance", 0, 1))
			kind = (kind + verifsym.Choose("next", 0, 1)) % vMainKinds
		}
		m.add(kind, height)
	}
	follow := uint64(verifsym.Choose("follow", 0, 1))
	caller := vMainCaller()
	v := NewMainChain(follow)
	var views []*MainChain
	var heights []uint64
	current := uint64(0)
	for i := 0; i < 3; i++ {
		if i == 2 {
			m.head = height + 1
		} else {
			m.head = 1 + uint64(verifsym.Choose("head", 0, int(height)))
		}
		m.syncing = nil
		if i == 1 {
			m.syncing = &ethereum.SyncProgress{HighestBlock: 1 + uint64(verifsym.U32("highest"))}
		}
		next, err := v.SyncToHead(context.Background(), caller)
		verifsym.Assert(err == nil, "polling succeeds")
		h := vHeadOf(m, follow, current)
		if h > current {
			verifsym.Assert(next.IsSynced() == (m.syncing == nil), "the view knows if the node is behind")
			verifsym.Reach("polled")
		} else if m.head < current+follow {
			verifsym.Reach("older")
		}
		if h == 0 {
			continue
		}
		current = h
		v = next
		views, heights = append(views, v), append(heights, h)
	}
	for i := range views {
		m.vCheckMain(views[i], heights[i])
	}
}

// VerifMainFaults lets one query of the node fail.
func VerifMainFaults() {
	m := &vMain{}
	vM = m
	vFew = true
	m.add(vConfigScheduled, 1)
	m.add(vCipherTx, 1)
	m.add(vAccused, 1)
	cut := verifsym.Choose("cut", 1, 2)
	m.add(vConfigScheduled, 2)
	m.add(vPlainTx, 2)
	m.add(vHalfStep, 2)
	m.add(vDeposit, 2)
	m.add(vAppealed, 2)
	m.add(vHalfStep, 3)
	m.add(vHalfStep, 3)
	caller := vMainCaller()
	m.head = uint64(cut)
	old, err := NewMainChain(0).SyncToHead(context.Background(), caller)
	verifsym.Assert(err == nil, "polling succeeds")
	m.head, m.calls = 3, 0
	m.fail = verifsym.Choose("fail", 1, 20)
	v, err := old.SyncToHead(context.Background(), caller)
	failed := m.calls >= m.fail
	verifsym.Assert((err != nil) == failed, "a failed query is noticed")
	if failed {
		verifsym.Reach("failed")
		m.fail = 0
		v, err = old.SyncToHead(context.Background(), caller)
		verifsym.Assert(err == nil, "polling succeeds again")
	}
	m.vCheckMain(v, 3)
	m.vCheckMain(old, uint64(cut))
}
