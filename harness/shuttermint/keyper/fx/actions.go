package fx

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/base64"
	"errors"
	"math/big"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/gaspricer"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

const vPath = "/db/actions.gob"

func vKey(i int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(common.LeftPadBytes([]byte{byte(i + 1)}, 32))
	if err != nil {
		panic(err)
	}
	return k
}

// vCall is a call of a contract as its caller or the node sees it.
type vCall struct {
	name          string
	nums          []uint64
	hash          [32]byte
	txs           [][]byte
	data          []byte
	authorization contract.Authorization
	gas           uint64
	nonce         uint64
	price         *big.Int
	from          common.Address
}

// vNode is the main chain node: it takes transactions, or fails.
type vNode struct {
	bind.ContractBackend
	nonce   uint64
	price   uint64
	chainID func() error              // whether asking for the chain id fails
	submit  func(*vCall) error        // whether sending a transaction fails
	receipt func(common.Hash) *uint64 // status of a receipt, if there's one
	failing bool                      // receipts can't be queried
	txs     []*types.Transaction      // taken transactions
	calls   []*vCall
}

var node *vNode

var vErrNode = errors.New("node failed")

// Symbolic execution replaces the methods of ethclient.Client and of the contracts by these ones;
// a native replay runs the real ones against an RPC server.

func vChainID(_ *ethclient.Client, _ context.Context) (*big.Int, error) {
	if err := node.chainID(); err != nil {
		return nil, err
	}
	return big.NewInt(5), nil
}

func vPendingNonceAt(_ *ethclient.Client, _ context.Context, a common.Address) (uint64, error) {
	if a != crypto.PubkeyToAddress(vKey(0).PublicKey) {
		return 0, nil
	}
	return node.nonce, nil
}

func vSuggestGasPrice(_ *ethclient.Client, _ context.Context) (*big.Int, error) {
	return new(big.Int).SetUint64(node.price), nil
}

func vKeyedTransactor(k *ecdsa.PrivateKey, chainID *big.Int) (*bind.TransactOpts, error) {
	if chainID.Cmp(big.NewInt(5)) != 0 {
		return nil, vErrNode
	}
	return &bind.TransactOpts{From: crypto.PubkeyToAddress(k.PublicKey)}, nil
}

func vAdjust(price *big.Int) *big.Int {
	p := new(big.Int).Mul(price, big.NewInt(3))
	return p.Rsh(p, 1)
}

func vAfter(time.Duration) <-chan time.Time {
	if stopped {
		return nil
	}
	c := make(chan time.Time, 1)
	c <- time.Time{}
	return c
}

func (n *vNode) send(opts *bind.TransactOpts, c *vCall) (*types.Transaction, error) {
	c.gas, c.nonce, c.price, c.from = opts.GasLimit, opts.Nonce.Uint64(), opts.GasPrice, opts.From
	if err := n.submit(c); err != nil {
		return nil, err
	}
	tx := new(types.Transaction)
	n.txs = append(n.txs, tx)
	n.nonce++
	n.calls = append(n.calls, c)
	return tx, nil
}

func vTxHash(tx *types.Transaction) common.Hash {
	for i, t := range node.txs {
		if t == tx {
			return common.BytesToHash([]byte{0x7, byte(i)})
		}
	}
	return common.Hash{}
}

func vExecuteCipherBatch(_ *contract.ExecutorContractTransactor, opts *bind.TransactOpts, b uint64, h [32]byte, txs [][]byte, k uint64) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "executeCipherBatch", nums: []uint64{b, k}, hash: h, txs: txs})
}

func vExecutePlainBatch(_ *contract.ExecutorContractTransactor, opts *bind.TransactOpts, b uint64, txs [][]byte) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "executePlainBatch", nums: []uint64{b}, txs: txs})
}

func vSkipCipherExecution(_ *contract.ExecutorContractTransactor, opts *bind.TransactOpts, b uint64) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "skipCipherExecution", nums: []uint64{b}})
}

func vAccuse(_ *contract.KeyperSlasherTransactor, opts *bind.TransactOpts, h, k uint64) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "accuse", nums: []uint64{h, k}})
}

func vAppeal(_ *contract.KeyperSlasherTransactor, opts *bind.TransactOpts, a contract.Authorization) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "appeal", authorization: a})
}

func vVote(_ *contract.KeyBroadcastContractTransactor, opts *bind.TransactOpts, k, b uint64, key []byte) (*types.Transaction, error) {
	return node.send(opts, &vCall{name: "vote", nums: []uint64{k, b}, data: key})
}

func vTransactionReceipt(_ *ethclient.Client, _ context.Context, h common.Hash) (*types.Receipt, error) {
	if node.failing {
		return nil, vErrNode
	}
	st := node.receipt(h)
	if st == nil {
		return nil, ethereum.NotFound
	}
	return &types.Receipt{Status: *st, BlockNumber: big.NewInt(3)}, nil
}

func vTransactionByHash(_ *ethclient.Client, _ context.Context, _ common.Hash) (*types.Transaction, bool, error) {
	return nil, false, ethereum.NotFound
}

// The native node.

func (n *vNode) PendingCodeAt(context.Context, common.Address) ([]byte, error) { return []byte{1}, nil }

func (n *vNode) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{}, nil
}

func (n *vNode) EstimateGas(context.Context, ethereum.CallMsg) (uint64, error) { return 77, nil }

func (n *vNode) SendTransaction(_ context.Context, tx *types.Transaction) error {
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(5)), tx)
	if err != nil {
		panic(err)
	}
	c := &vCall{gas: tx.Gas(), nonce: tx.Nonce(), price: tx.GasPrice(), from: from}
	if c.gas == 77 {
		c.gas = 0 // was estimated
	}
	var def string
	switch tx.To().Hash().Big().Uint64() {
	case 1:
		def = contract.ExecutorContractABI
	case 2:
		def = contract.KeyperSlasherABI
	case 3:
		def = contract.KeyBroadcastContractABI
	}
	a, err := abi.JSON(strings.NewReader(def))
	if err != nil {
		panic(err)
	}
	m, err := a.MethodById(tx.Data())
	if err != nil {
		panic(err)
	}
	args, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		panic(err)
	}
	c.name = m.Name
	for _, x := range args {
		switch v := x.(type) {
		case uint64:
			c.nums = append(c.nums, v)
		case [32]byte:
			c.hash = v
		case [][]byte:
			c.txs = v
		case []byte:
			c.data = v
		default:
			c.authorization = *abi.ConvertType(x, new(contract.Authorization)).(*contract.Authorization)
		}
	}
	if err := n.submit(c); err != nil {
		return err
	}
	n.txs = append(n.txs, tx)
	n.nonce++
	n.calls = append(n.calls, c)
	return nil
}

// VEth is the node's RPC service.
type VEth struct{ n *vNode }

func (e *VEth) ChainId() (*hexutil.Big, error) {
	if err := e.n.chainID(); err != nil {
		return nil, err
	}
	return (*hexutil.Big)(big.NewInt(5)), nil
}

func (e *VEth) GetTransactionCount(a common.Address, block string) hexutil.Uint64 {
	if a != crypto.PubkeyToAddress(vKey(0).PublicKey) || block != "pending" {
		return 0
	}
	return hexutil.Uint64(e.n.nonce)
}

func (e *VEth) GasPrice() *hexutil.Big {
	return (*hexutil.Big)(new(big.Int).SetUint64(e.n.price))
}

func (e *VEth) GetTransactionReceipt(h common.Hash) (map[string]interface{}, error) {
	if e.n.failing {
		return nil, vErrNode
	}
	st := e.n.receipt(h)
	if st == nil {
		return nil, nil
	}
	return map[string]interface{}{
		"status": hexutil.Uint64(*st), "cumulativeGasUsed": hexutil.Uint64(1), "gasUsed": hexutil.Uint64(1), "logs": []interface{}{},
		"logsBloom": types.Bloom{}, "transactionHash": h, "blockNumber": (*hexutil.Big)(big.NewInt(3)),
	}, nil
}

func vStartNode() *contract.Caller {
	node = &vNode{
		nonce: 1 + uint64(verifsym.U32("nonce")), price: uint64(verifsym.U32("price")),
		chainID: func() error { return nil }, submit: func(*vCall) error { return nil },
	}
	var cl *ethclient.Client
	if verifsym.Symbolic() {
		c := contract.NewCaller(cl, vKey(0), nil, &contract.KeyBroadcastContract{}, nil, &contract.ExecutorContract{}, nil, &contract.KeyperSlasher{})
		return &c
	}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", &VEth{node}); err != nil {
		panic(err)
	}
	cl = ethclient.NewClient(rpc.DialInProc(srv))
	at := func(i byte) common.Address { return common.BytesToAddress([]byte{i}) }
	executor, err := contract.NewExecutorContract(at(1), node)
	if err != nil {
		panic(err)
	}
	slasher, err := contract.NewKeyperSlasher(at(2), node)
	if err != nil {
		panic(err)
	}
	broadcast, err := contract.NewKeyBroadcastContract(at(3), node)
	if err != nil {
		panic(err)
	}
	c := contract.NewCaller(cl, vKey(0), nil, broadcast, nil, executor, nil, slasher)
	return &c
}

// vHashOf is the hash of the i-th taken transaction.
func vHashOf(i int) common.Hash { return node.txs[i].Hash() }

func vTx(i int) []byte { return verifsym.Bytes("tx", i) }

// VerifSendTX: the transactions of all actions on the main chain.
func VerifSendTX() {
	caller := vStartNode()
	limit := uint64(verifsym.U32("limit"))
	num := func() uint64 { return verifsym.U64("num") }
	var txs [][]byte
	for i := verifsym.Choose("txs", 0, 2); i > 0; i-- {
		txs = append(txs, vTx(verifsym.Choose("len", 0, 1)))
	}
	var a MainChainTX
	want := vCall{}
	b, k := num(), num()
	switch verifsym.Choose("action", 0, 5) {
	case 0:
		e := &ExecuteCipherBatch{BatchIndex: b, Transactions: txs, KeyperIndex: k, TransactionGasLimit: limit}
		copy(e.CipherBatchHash[:], verifsym.Bytes("hash", 32))
		a = e
		want = vCall{name: "executeCipherBatch", nums: []uint64{b, k}, hash: e.CipherBatchHash, txs: txs, gas: 250000 + uint64(len(txs))*limit}
		verifsym.Reach("cipher")
	case 1:
		a = &ExecutePlainBatch{BatchIndex: b, Transactions: txs, TransactionGasLimit: limit}
		want = vCall{name: "executePlainBatch", nums: []uint64{b}, txs: txs, gas: 250000 + uint64(len(txs))*limit}
		verifsym.Reach("plain")
	case 2:
		a = &SkipCipherBatch{BatchIndex: b}
		want = vCall{name: "skipCipherExecution", nums: []uint64{b}, gas: 200000}
		verifsym.Reach("skip")
	case 3:
		a = &Accuse{HalfStep: b, KeyperIndex: k}
		want = vCall{name: "accuse", nums: []uint64{b, k}}
		verifsym.Reach("accuse")
	case 4:
		au := contract.Authorization{HalfStep: b, SignerIndices: []uint64{k, num()}, Signatures: [][]byte{vTx(2), vTx(1)}}
		copy(au.BatchHash[:], verifsym.Bytes("hash", 32))
		a = &Appeal{Authorization: au}
		want = vCall{name: "appeal", authorization: au}
		verifsym.Reach("appeal")
	case 5:
		key := shcrypto.ComputeEonPublicKey([]*shcrypto.Gammas{vGammas()})
		a = &EonKeyBroadcast{KeyperIndex: k, StartBatchIndex: b, EonPublicKey: key}
		want = vCall{name: "vote", nums: []uint64{k, b}, data: key.Marshal(), gas: 1000000}
		verifsym.Reach("vote")
	}
	auth, err := caller.Auth()
	verifsym.Assert(err == nil, "transactions can be signed")
	errs := []string{"connection refused", "already accused", "cannot accuse empty batch", "wrong signer"}
	if e := verifsym.Choose("error", 0, len(errs)); e > 0 {
		node.submit = func(*vCall) error { return errors.New("execution reverted: " + errs[e-1]) }
		_, err = a.SendTX(caller, auth)
		verifsym.Assert(err != nil, "errors are reported")
		hopeless := (want.name == "accuse" && (e == 2 || e == 3)) || (want.name == "appeal" && e == 4)
		verifsym.Assert(IsRetriable(err) == !hopeless, "actions are tried again unless it's hopeless")
		verifsym.Reach("error")
		return
	}
	tx, err := a.SendTX(caller, auth)
	verifsym.Assert(err == nil && tx != nil, "the transaction is sent")
	verifsym.Assert(len(node.calls) == 1, "one transaction is sent")
	c := node.calls[0]
	verifsym.Assert(c.name == want.name, "the right contract is called")
	verifsym.Assert(verifsym.DeepEq(c.nums, want.nums), "the numbers are those of the action")
	verifsym.Assert(c.hash == want.hash, "the hash is that of the action")
	verifsym.Assert(len(c.txs) == len(want.txs), "the transactions are those of the action")
	same := true
	for i := range c.txs {
		same = verifsym.And(same, bytes.Equal(c.txs[i], want.txs[i]))
	}
	verifsym.Assert(same, "the transactions are those of the action")
	verifsym.Assert(bytes.Equal(c.data, want.data), "the key is that of the action")
	verifsym.Assert(verifsym.DeepEq(c.authorization, want.authorization), "the authorization is that of the action")
	verifsym.Assert(c.gas == want.gas, "the gas limit suffices")
	verifsym.Assert(c.nonce+1 == node.nonce, "the nonce is the next one")
	verifsym.Assert(c.price.Cmp(gaspricer.Adjust(new(big.Int).SetUint64(node.price))) == 0, "the gas price is adjusted")
	verifsym.Assert(c.from == crypto.PubkeyToAddress(vKey(0).PublicKey), "the keyper signs the transaction")
}

func vGammas() *shcrypto.Gammas {
	p, err := shcrypto.NewPolynomial([]*big.Int{verifsym.Big("secret", 64)})
	if err != nil {
		panic(err)
	}
	return p.Gammas()
}

// VerifExpired: when actions need not be performed any more.
func VerifExpired() {
	mc := observe.NewMainChain(0)
	n, b := verifsym.U64("half steps"), verifsym.U64("number")
	verifsym.Assume(b < 1<<62)
	mc.NumExecutionHalfSteps = n
	known := verifsym.Choose("accusations", 0, 2)
	for i := 0; i < known; i++ {
		h := verifsym.U64("accusation")
		mc.Accusations[h] = &observe.Accusation{HalfStep: h, Appealed: verifsym.Bool("appealed")}
	}
	has, appealed := false, false
	for h, a := range mc.Accusations {
		has = verifsym.Or(has, h == b)
		appealed = verifsym.Or(appealed, verifsym.And(h == b, a.Appealed))
	}
	w := observe.World{MainChain: mc, Shutter: observe.NewShutter()}
	for _, c := range []struct {
		a    IAction
		want bool
	}{
		{&SendShuttermintMessage{}, false},
		{&EonKeyBroadcast{StartBatchIndex: b}, false},
		{&ExecuteCipherBatch{BatchIndex: b}, n > 2*b},
		{&SkipCipherBatch{BatchIndex: b}, n > 2*b},
		{&ExecutePlainBatch{BatchIndex: b}, n > 2*b+1},
		{&Accuse{HalfStep: b}, has},
		{&Appeal{Authorization: contract.Authorization{HalfStep: b}}, verifsym.Or(!has, appealed)},
	} {
		verifsym.Assert(c.a.IsExpired(w) == c.want, "an action expires once it's done by somebody")
	}
	if verifsym.Fork(has) {
		verifsym.Reach("accused")
	}
	if verifsym.Fork(n > 2*b) {
		verifsym.Reach("executed")
	}
}

var (
	stopped  bool
	retrying bool // the worker is about to wait before its next attempt
	vClosed  = func() chan struct{} { c := make(chan struct{}); close(c); return c }()
)

// vCtx is done once it's stopped or no actions are left.
type vCtx struct {
	context.Context
	actions chan ActionID
	busy    func() bool // only asked by native replays
}

func (c *vCtx) Done() <-chan struct{} {
	if stopped {
		return vClosed
	}
	if len(c.actions) > 0 || retrying {
		return nil
	}
	if c.busy != nil && !verifsym.Symbolic() && c.busy() {
		ch := make(chan struct{})
		time.AfterFunc(3*time.Second, func() { close(ch) })
		return ch
	}
	return vClosed
}

func (c *vCtx) Err() error {
	select {
	case <-c.Done():
		return context.Canceled
	default:
		return nil
	}
}

type vSender func(*shmsg.Message) error

func (f vSender) SendMessage(_ context.Context, m *shmsg.Message) error { return f(m) }

// VerifPerform: actions are performed in order until they're done, expired or hopeless; the
// keyper may be stopped and restarted in between.
func VerifPerform() {
	vos.Reset()
	stopped, retrying = false, false
	caller := vStartNode()
	mc := observe.NewMainChain(0)
	steps := uint64(verifsym.U32("half steps"))
	world := func() observe.World {
		retrying = false
		m := *mc
		m.NumExecutionHalfSteps = steps
		return observe.World{MainChain: &m, Shutter: observe.NewShutter()}
	}
	const (
		waiting = iota
		inFlight
		gone
	)
	var (
		acts   []IAction
		kinds  []int
		nums   []uint64
		state  []int
		hashes []int // number of the transaction
	)
	n := 2 + verifsym.Tier()
	for i := 0; i < n; i++ {
		kind := verifsym.Choose("kind", 0, 2)
		num := uint64(verifsym.U32("num"))
		kinds, nums, state, hashes = append(kinds, kind), append(nums, num), append(state, waiting), append(hashes, -1)
		switch kind {
		case 0:
			acts = append(acts, &SendShuttermintMessage{Msg: shmsg.NewDecryptionSignature(num, []byte{byte(i)})})
		case 1:
			acts = append(acts, &SkipCipherBatch{BatchIndex: num})
		case 2:
			acts = append(acts, &Accuse{HalfStep: num, KeyperIndex: uint64(i)})
		}
	}
	failures, stops := 0, 0
	// next is the action to be performed next.
	next := func(message bool) int {
		for i := range acts {
			if state[i] != waiting || (kinds[i] == 0) != message {
				continue
			}
			if kinds[i] == 1 && verifsym.Fork(steps > 2*nums[i]) {
				state[i] = gone
				verifsym.Reach("expired")
				continue
			}
			return i
		}
		return -1
	}
	retry := func() error {
		failures++
		retrying = true
		if stops == 0 && verifsym.Choose("stop", 0, 1) == 1 {
			stops++
			stopped = true
			verifsym.Reach("stopped")
		}
		verifsym.Reach("retried")
		return vErrNode
	}
	maxFailures := 1 + verifsym.Tier()
	perform := func(i int) error {
		verifsym.Assert(!stopped, "a stopped keyper does nothing")
		outcomes := []int{0}
		if kinds[i] != 1 {
			outcomes = append(outcomes, 1)
		}
		if failures < maxFailures {
			outcomes = append(outcomes, 2)
		}
		outcome := outcomes[verifsym.Choose("outcome", 0, len(outcomes)-1)]
		steps += uint64(verifsym.U32("steps"))
		switch outcome {
		case 1:
			verifsym.Reach("hopeless")
			switch kinds[i] {
			case 0:
				state[i] = gone
				return &RemoteError{msg: "rejected"}
			case 2:
				state[i] = gone
				return errors.New("execution reverted: KeyperSlasher: " + []string{"already accused", "cannot accuse empty batch"}[verifsym.Choose("revert", 0, 1)])
			}
		case 2:
			return retry()
		}
		state[i] = gone
		if kinds[i] != 0 {
			state[i] = inFlight
			hashes[i] = len(node.txs)
		}
		return nil
	}
	sender := vSender(func(m *shmsg.Message) error {
		i := next(true)
		verifsym.Assert(i >= 0, "only pending messages are sent")
		v := m.GetDecryptionSignature()
		verifsym.Assert(v != nil && verifsym.And(v.BatchIndex == nums[i], bytes.Equal(v.Signature, []byte{byte(i)})), "messages are sent in their order")
		verifsym.Reach("message")
		return perform(i)
	})
	node.chainID = func() error {
		verifsym.Assert(next(false) >= 0, "only pending transactions are sent")
		if failures < maxFailures && verifsym.Choose("fails", 0, 1) == 1 {
			return retry()
		}
		return nil
	}
	node.submit = func(c *vCall) error {
		i := next(false)
		verifsym.Assert(i >= 0, "only pending transactions are sent")
		if kinds[i] == 1 {
			verifsym.Assert(c.name == "skipCipherExecution" && c.nums[0] == nums[i], "transactions are sent in their order")
		} else {
			verifsym.Assert(c.name == "accuse" && verifsym.And(c.nums[0] == nums[i], c.nums[1] == uint64(i)), "transactions are sent in their order")
		}
		verifsym.Reach("transaction")
		return perform(i)
	}
	start := func() *RunEnv {
		r := NewRunEnv(sender, caller, world, vPath)
		r.shuttermintMessages = make(chan ActionID, 20)
		r.mainChainTXs = make(chan ActionID, 20)
		r.inFlightMainChainTXs = make(chan ActionID, 20)
		return r
	}
	env := start()
	ctx := context.Background()
	verifsym.Assert(env.RunActions(ctx, 0, acts) == nil, "actions are scheduled")
	for runs := 0; ; runs++ {
		inflight := 0
		for i := range acts {
			if state[i] == inFlight {
				inflight++
			}
		}
		verifsym.Assert(len(env.inFlightMainChainTXs) == inflight, "sent transactions are waited for")
		env.handleActions(&vCtx{Context: ctx, actions: env.shuttermintMessages}, env.shuttermintMessages)
		if !stopped {
			env.handleActions(&vCtx{Context: ctx, actions: env.mainChainTXs}, env.mainChainTXs)
		}
		if !stopped {
			break
		}
		stopped, retrying = false, false
		env = start()
		pending, err := env.Load(ctx)
		verifsym.Assert(err == nil && pending, "pending actions are loaded")
		// the decision may be repeated
		if verifsym.Choose("repeat", 0, 1) == 1 {
			verifsym.Assert(env.RunActions(ctx, 0, acts) == nil, "actions are scheduled")
		}
	}
	verifsym.Assert(next(true) == -1 && next(false) == -1, "all actions are performed")
	saved := NewPendingActions(vPath)
	verifsym.Assert(saved.Load() == nil, "pending actions are saved")
	total := 0
	for i := range acts {
		id := ActionID(i)
		verifsym.Assert(state[i] != waiting, "all actions are performed")
		a := env.PendingActions.GetAction(id)
		if state[i] == gone {
			verifsym.Assert(a == nil && saved.GetAction(id) == nil, "finished actions are not pending")
			continue
		}
		total++
		verifsym.Assert(a != nil && saved.GetAction(id) != nil, "actions are pending until they are mined")
		verifsym.Assert(env.PendingActions.GetMainChainTXHash(id) == vHashOf(hashes[i]), "hashes of transactions are known")
		verifsym.Assert(saved.GetMainChainTXHash(id) == vHashOf(hashes[i]), "hashes of transactions are saved")
	}
	verifsym.Assert(len(env.inFlightMainChainTXs) == total, "sent transactions are waited for")
	if total == 0 {
		return
	}
	// a sent transaction is not sent again after a restart
	if verifsym.Choose("restart", 0, 1) == 1 {
		env = start()
		_, err := env.Load(ctx)
		verifsym.Assert(err == nil, "pending actions are loaded")
		verifsym.Assert(len(env.inFlightMainChainTXs) == total && len(env.mainChainTXs)+len(env.shuttermintMessages) == 0, "sent transactions are only waited for")
	}
	// now they get mined
	waited := 0
	node.receipt = func(h common.Hash) *uint64 {
		verifsym.Assert(env.PendingActions.GetAction(vActionOf(h, hashes)) != nil, "actions are pending until they are mined")
		if waited == 0 {
			waited++
			return nil
		}
		st := uint64(verifsym.Choose("status", 0, 1))
		verifsym.Reach("mined")
		return &st
	}
	ids := env.PendingActions.SortedIDs()
	env.handleInFlightTXs(&vCtx{Context: ctx, actions: env.inFlightMainChainTXs, busy: func() bool {
		for _, id := range ids {
			if env.PendingActions.GetAction(id) != nil {
				return true
			}
		}
		return false
	}})
	verifsym.Assert(len(env.PendingActions.SortedIDs()) == 0 && len(env.PendingActions.MainChainTXHashes) == 0, "mined actions are not pending")
}

func vActionOf(h common.Hash, hashes []int) ActionID {
	for i, n := range hashes {
		if n >= 0 && vHashOf(n) == h {
			return ActionID(i)
		}
	}
	verifsym.Assert(false, "only sent transactions are waited for")
	return 0
}

// vClient is a shuttermint node.
type vClient struct {
	client.Client
	chainIDs []string
	fail     bool
	asked    int
	sent     []tmtypes.Tx
	res      *coretypes.ResultBroadcastTxCommit
}

func (c *vClient) BlockchainInfo(context.Context, int64, int64) (*coretypes.ResultBlockchainInfo, error) {
	c.asked++
	if c.fail {
		return nil, vErrNode
	}
	r := &coretypes.ResultBlockchainInfo{}
	for _, id := range c.chainIDs {
		r.BlockMetas = append(r.BlockMetas, &tmtypes.BlockMeta{Header: tmtypes.Header{ChainID: id}})
	}
	return r, nil
}

func (c *vClient) BroadcastTxCommit(_ context.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTxCommit, error) {
	c.sent = append(c.sent, tx)
	if c.res == nil {
		return nil, vErrNode
	}
	return c.res, nil
}

// VerifSendMessage: messages reach the application unchanged, and its answer the keyper.
func VerifSendMessage() {
	verifsym.UseRand()
	cl := &vClient{chainIDs: []string{"chain-a", "chain-a"}}
	ms := NewRPCMessageSender(cl, vKey(1))
	ctx := context.Background()
	batch, sig := verifsym.U64("batch"), verifsym.Bytes("signature", 3)
	if fail := verifsym.Choose("no chain id", 0, 2); fail > 0 {
		if fail == 1 {
			cl.fail = true
		} else {
			cl.chainIDs = nil
		}
		err := ms.SendMessage(ctx, shmsg.NewDecryptionSignature(batch, sig))
		verifsym.Assert(err != nil && IsRetriable(err), "the message is to be sent later")
		verifsym.Assert(len(cl.sent) == 0, "messages without chain id are not sent")
		cl.fail = false
		cl.chainIDs = []string{"chain-a"}
		verifsym.Reach("later")
	}
	for i := 0; i < 2; i++ {
		cl.sent = nil
		check, deliver := verifsym.U32("check"), verifsym.U32("deliver")
		cl.res = &coretypes.ResultBroadcastTxCommit{CheckTx: abcitypes.ResponseCheckTx{Code: check}, DeliverTx: abcitypes.ResponseDeliverTx{Code: deliver}}
		fails := verifsym.Choose("fails", 0, 1) == 1
		if fails {
			cl.res = nil
		}
		err := ms.SendMessage(ctx, shmsg.NewDecryptionSignature(batch, sig))
		verifsym.Assert(len(cl.sent) == 1, "the message is sent once")
		signed, e := base64.RawURLEncoding.DecodeString(string(cl.sent[0]))
		verifsym.Assert(e == nil, "the message can be decoded")
		signer, e := shmsg.GetSigner(signed)
		verifsym.Assert(e == nil && signer == crypto.PubkeyToAddress(vKey(1).PublicKey), "the message is signed by the keyper")
		m, e := shmsg.GetMessage(signed)
		verifsym.Assert(e == nil, "the message can be decoded")
		verifsym.Assert(string(m.ChainId) == "chain-a", "the message is for this chain")
		v := m.Msg.GetDecryptionSignature()
		verifsym.Assert(v != nil && verifsym.And(v.BatchIndex == batch, bytes.Equal(v.Signature, sig)), "the message is unchanged")
		switch {
		case fails:
			verifsym.Assert(err != nil && IsRetriable(err), "failing to reach the node is no answer")
			verifsym.Reach("failed")
		case verifsym.Fork(verifsym.Or(check != 0, deliver != 0)):
			verifsym.Assert(err != nil, "a rejected message is not reported as sent")
			verifsym.Assert(!IsRetriable(err), "a rejected message is not sent again")
			verifsym.Reach("rejected")
		default:
			verifsym.Assert(err == nil, "the message is sent")
			verifsym.Reach("sent")
		}
	}
}

// VerifOrder: pending actions are listed in the order in which they were decided.
func VerifOrder() {
	p := NewPendingActions("")
	n := verifsym.Choose("n", 0, 3)
	var ids []ActionID
	for i := 0; i < n; i++ {
		id := ActionID(verifsym.U64("id"))
		for _, o := range ids {
			verifsym.Assume(o != id)
		}
		ids = append(ids, id)
		p.ActionMap[id] = &SkipCipherBatch{BatchIndex: uint64(i)}
	}
	if n > 0 && verifsym.Choose("done", 0, 1) == 1 {
		delete(p.ActionMap, ids[0])
		ids = ids[1:]
	}
	l := p.SortedIDs()
	verifsym.Assert(len(l) == len(ids), "all pending actions are listed")
	r := true
	for i := range l {
		found := false
		for _, id := range ids {
			found = verifsym.Or(found, id == l[i])
		}
		r = verifsym.And(r, found)
		if i > 0 {
			r = verifsym.And(r, l[i-1] < l[i])
		}
	}
	verifsym.Assert(r, "pending actions are listed in their order")
	verifsym.Reach("listed")
}
