package keyper

import (
	"context"
	"crypto/ed25519"
	"crypto/rand"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

var vNonce uint64

func vRandomNonce() uint64 {
	vNonce++
	return vNonce
}

// vChain is a shuttermint chain. What is sent to it is part of the next block.
type vChain struct {
	client.Client
	app    *app.ShutterApp
	height int64
	pool   []tmtypes.Tx
	txs    []*coretypes.ResultTx
}

func (c *vChain) BlockchainInfo(context.Context, int64, int64) (*coretypes.ResultBlockchainInfo, error) {
	return &coretypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: c.app.ChainID}}}}, nil
}

func (c *vChain) BroadcastTxCommit(_ context.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTxCommit, error) {
	r := &coretypes.ResultBroadcastTxCommit{CheckTx: c.app.CheckTx(abcitypes.RequestCheckTx{Tx: tx})}
	if r.CheckTx.Code == 0 {
		c.pool = append(c.pool, tx)
	}
	return r, nil
}

// block makes a block; later is what is left for the block after it.
func (c *vChain) block(backwards bool) {
	c.height++
	c.app.BeginBlock(abcitypes.RequestBeginBlock{})
	for i := range c.pool {
		if backwards {
			i = len(c.pool) - 1 - i
		}
		r := c.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: c.pool[i]})
		c.txs = append(c.txs, &coretypes.ResultTx{Height: c.height, TxResult: r})
	}
	c.pool = nil
	c.app.EndBlock(abcitypes.RequestEndBlock{Height: c.height})
	c.app.Commit()
}

func (c *vChain) Status(context.Context) (*coretypes.ResultStatus, error) {
	return &coretypes.ResultStatus{}, nil
}

func (c *vChain) Block(context.Context, *int64) (*coretypes.ResultBlock, error) {
	return &coretypes.ResultBlock{Block: &tmtypes.Block{LastCommit: &tmtypes.Commit{Height: c.height}}}, nil
}

// TxSearch answers queries for a range of heights which includes the last one.
func (c *vChain) TxSearch(_ context.Context, query string, _ bool, page, _ *int, _ string) (*coretypes.ResultTxSearch, error) {
	from, i := int64(0), 0
	for query[i] < '0' || query[i] > '9' {
		i++
	}
	for query[i] >= '0' && query[i] <= '9' {
		from = 10*from + int64(query[i]-'0')
		i++
	}
	r := &coretypes.ResultTxSearch{}
	for _, tx := range c.txs {
		if tx.Height >= from && *page == 1 {
			r.Txs = append(r.Txs, tx)
		}
	}
	r.TotalCount = len(r.Txs)
	return r, nil
}

// VerifNetwork lets some keypers, of whom one may sleep for a while, go all the way from their first
// look at the chains to the execution of a batch.
func VerifNetwork() {
	n := 3 + verifsym.Tier()
	asleep, awake := verifsym.Choose("asleep", 1, vNetLast), verifsym.Choose("awake", 2, vNetLast+1)
	verifsym.Assume(asleep < awake)
	vRunNetwork(&vNetwork{
		n: n, threshold: uint64(n - 1), sleepers: 1 << uint(verifsym.Choose("sleeper", 0, n-1)), asleep: int64(asleep), awake: int64(awake),
		restarts: verifsym.Choose("restarts", 0, 1) == 1, backwards: verifsym.Choose("backwards", 0, verifsym.Tier()) == 1,
	})
}

// VerifNetworkRetry lets too many keypers sleep during the key generation: it's repeated.
func VerifNetworkRetry() {
	net := &vNetwork{
		n: 3, threshold: 2, retried: true, sleepers: []int{3, 5, 6}[verifsym.Choose("sleepers", 0, 2)],
		asleep: int64(verifsym.Choose("asleep", 1, 2)), awake: int64(verifsym.Choose("awake", 4, 12+verifsym.Tier())),
		restarts: verifsym.Choose("restarts", 0, 1) == 1, backwards: verifsym.Choose("backwards", 0, verifsym.Tier()) == 1,
	}
	vRunNetwork(net)
}

// VerifNetworkConfigs lets other keypers take over while one of them may sleep for a while.
func VerifNetworkConfigs() {
	asleep := 1 + (4-2*verifsym.Tier())*verifsym.Choose("asleep", 0, 5+5*verifsym.Tier())
	net := &vNetwork{
		n: 4, threshold: 2, sleepers: 1 << uint(verifsym.Choose("sleeper", 0, 3)),
		asleep: int64(asleep), awake: int64(asleep + []int{4, 100, 9}[verifsym.Choose("awake", 0, 1+verifsym.Tier())]),
		restarts: verifsym.Choose("restarts", 0, verifsym.Tier()) == 1, second: int64(1 + (5-2*verifsym.Tier())*verifsym.Choose("second", 0, 2+verifsym.Tier())),
	}
	vRunNetwork(net)
}

const (
	vNetLength  = 3 // of the phases
	vNetLast    = 3*vNetLength + 5
	vNetBatch   = 3 // the first one
	vNetBlock   = 1000
	vNetSpan    = 10
	vNetTimeout = 8
)

type vNetwork struct {
	n, sleepers   int
	threshold     uint64
	asleep, awake int64 // when the sleepers sleep
	restarts      bool  // whether they are restarted when they awake
	backwards     bool  // whether messages are delivered in another order
	retried       bool  // whether the first key generation fails
	second        int64 // when the config with other keypers becomes known, if there is one
}

// vBatch is a batch and what the keypers do about it.
type vBatch struct {
	index     uint64
	config    contract.BatchConfig
	votes     []*shcrypto.EonPublicKey
	key       *shcrypto.EonPublicKey
	plain     [][]byte
	chain     *observe.Batch
	executed  []*fx.ExecuteCipherBatch
	epochKeys []*shcrypto.EpochSecretKey
}

func vNewBatch(n int, c contract.BatchConfig) *vBatch {
	return &vBatch{
		index: c.StartBatchIndex, config: c, votes: make([]*shcrypto.EonPublicKey, n), executed: make([]*fx.ExecuteCipherBatch, n),
		plain: [][]byte{verifsym.Bytes("transaction", 3), {}, verifsym.Bytes("transaction", 33)},
	}
}

// vote does what the key broadcast contract does.
func (b *vBatch) vote(i int, k *shcrypto.EonPublicKey, retried bool) {
	if b.votes[i] == nil { // otherwise the contract refuses it
		b.votes[i] = k
	}
	same := uint64(0)
	for _, v := range b.votes {
		if v != nil && verifsym.DeepEq(k.Marshal(), v.Marshal()) {
			same++
		}
	}
	verifsym.Assert(b.key == nil || retried || same > b.config.Threshold, "the keypers agree on a key")
	if same >= b.config.Threshold {
		b.key = k
		verifsym.Reach("agreed")
	}
}

// close closes the batch.
func (b *vBatch) close() {
	b.chain = &observe.Batch{BatchIndex: b.index, EncryptedBatchHash: common.BytesToHash(append(verifsym.Bytes("hash", 31), 1))}
	for i, tx := range b.plain {
		c := shcrypto.Encrypt(append([]byte{}, tx...), b.key, vEpochID(b.index), shcrypto.Block{byte(i + 1)})
		b.chain.EncryptedTransactions = append(b.chain.EncryptedTransactions, c.Marshal())
	}
}

// check compares what the keyper executed with what the users encrypted.
func (b *vBatch) check(i int, k *Keyper) {
	a := b.executed[i]
	verifsym.Assert(a != nil, "the batch is executed")
	for _, e := range k.State.EKGs {
		if key := e.EpochKG.SecretKeys[b.index]; key != nil {
			b.epochKeys = append(b.epochKeys, key)
		}
	}
	verifsym.Assert(len(b.epochKeys) > 0, "the key of the batch is known")
	key := b.epochKeys[0]
	for _, o := range b.epochKeys {
		verifsym.Assert(verifsym.DeepEq((*bn256.G1)(o).Marshal(), (*bn256.G1)(key).Marshal()), "the keypers agree on the key of the batch")
	}
	want := shcrypto.Shuffle(b.plain, key)
	same := len(a.Transactions) == len(want)
	for j := 0; same && j < len(want); j++ {
		same = string(a.Transactions[j]) == string(want[j])
	}
	verifsym.Assert(same && a.CipherBatchHash == b.chain.EncryptedBatchHash, "what the users encrypted is executed")
	verifsym.Reach("executed")
}

// vDeals says whether a keyper is one of the dealers for the batch.
func vDeals(sh *observe.Shutter, batch uint64, keyper common.Address) bool {
	deals := false
	for _, c := range sh.BatchConfigs { // sorted by their start
		if c.StartBatchIndex <= batch {
			deals = false
			for _, a := range c.Keypers {
				deals = deals || a == keyper
			}
		}
	}
	return deals
}

func vRunNetwork(net *vNetwork) {
	vos.Reset()
	random := rand.Reader
	verifsym.UseRand()
	draws := &vReader{inputs: rand.Reader, rest: random}
	if !verifsym.Symbolic() {
		rand.Reader = draws
	}
	ctx := context.Background()
	n, threshold := net.n, net.threshold
	members := vSigners([]int{1, 0, 2, 3}[:n]...)
	if net.second > 0 {
		members = members[:3]
	}
	configs := []contract.BatchConfig{{}, {
		StartBatchIndex: vNetBatch, StartBlockNumber: vNetBlock, BatchSpan: vNetSpan, ExecutionTimeout: vNetTimeout, Keypers: members, Threshold: threshold,
	}, {
		StartBatchIndex: vNetBatch + 1, StartBlockNumber: vNetBlock + vNetSpan, BatchSpan: vNetSpan, ExecutionTimeout: vNetTimeout, Keypers: vSigners(3, 1, 0), Threshold: 2,
	}}
	batches := []*vBatch{vNewBatch(n, configs[1])}
	if net.second > 0 {
		batches = append(batches, vNewBatch(n, configs[2]))
	}
	c := &vChain{app: app.NewShutterApp()}
	c.app.ChainID = "chain-a"
	c.app.Configs = []*app.BatchConfig{{Keypers: members, Threshold: 1}}
	keypers := make([]*Keyper, n)
	senders := make([]fx.RPCMessageSender, n)
	for i := range keypers {
		k := NewKeyper(Config{
			DBDir: "/db" + string(rune('0'+i)), SigningKey: vSecret(i), EncryptionKey: ecies.ImportECDSA(vSecret(100 + i)),
			ValidatorKey: ed25519.NewKeyFromSeed(append(make([]byte, 31), byte(i))), DKGPhaseLength: vNetLength,
			BatcherContractAddress: common.BytesToAddress([]byte{0xba}), ConfigContractAddress: common.BytesToAddress([]byte{0xc0}),
		})
		k.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: observe.NewMainChain(0)})
		keypers[i], senders[i] = &k, fx.NewRPCMessageSender(c, vSecret(i))
	}
	// a keyper bootstraps the others
	for _, m := range []*shmsg.Message{
		shmsg.NewBatchConfig(vNetBatch, members, threshold, keypers[0].Config.ConfigContractAddress, 1, false, false), shmsg.NewBatchConfigStarted(1),
	} {
		verifsym.Assert(senders[0].SendMessage(ctx, m) == nil, "messages of keypers are accepted")
	}
	c.block(false)

	now := uint64(vNetBlock + 1)
	steps := uint64(2 * vNetBatch)
	closing := int64(0) // when the first batch is closed
	last := int64(40)
	for h := c.height; h <= last; h++ {
		for i, b := range batches {
			if closing == 0 {
				break
			}
			if h == closing+int64(5*i) {
				b.close()
				now = vNetBlock + vNetSpan*uint64(i+1)
				steps = 2 * b.index // those before have been executed
			}
			if h == closing+int64(5*i)+3 {
				now += vNetTimeout / 2 // from now on everybody is to execute
			}
		}
		for i, k := range keypers {
			sleeper := net.sleepers&(1<<uint(i)) != 0
			if sleeper && h >= net.asleep && h < net.awake {
				continue
			}
			if sleeper && h == net.awake && net.restarts {
				verifsym.Assert(k.saveState() == nil, "state can be saved")
				again := NewKeyper(k.Config)
				k = &again
				verifsym.Assert(k.LoadState() == nil, "state can be loaded")
				keypers[i] = k
				verifsym.Reach("restarted")
			}
			w := k.CurrentWorld()
			sh, err := w.Shutter.SyncToHead(ctx, c)
			verifsym.Assert(err == nil, "the chain can be seen")
			mc := observe.NewMainChain(0)
			mc.CurrentBlock, mc.BatchConfigs, mc.NumExecutionHalfSteps = now, configs[:2], steps
			if net.second > 0 && h >= net.second {
				mc.BatchConfigs = configs
			}
			for _, b := range batches {
				if b.chain != nil {
					mc.Batches[b.index] = b.chain
				}
			}
			if len(sh.BatchConfigs) == 0 {
				sh.BatchConfigs = nil
			}
			k.world.Store(observe.World{Shutter: sh, MainChain: mc})
			for _, e := range sh.Eons {
				if e.Eon > k.State.LastEonStarted && vDeals(sh, e.StartEvent.BatchIndex, vSigner(i)) {
					draws.left += int(threshold)
				}
			}
			k.State.HalfStepsChecked = steps
			acts := vDecide(k)
			draws.left = 0
			k.State.SyncHeight = sh.CurrentBlock + 1
			vFilter(k)
			for _, a := range acts {
				switch a := a.(type) {
				case *fx.SendShuttermintMessage:
					verifsym.Assert(senders[i].SendMessage(ctx, a.Msg) == nil, "messages of keypers are accepted")
				case *fx.EonKeyBroadcast:
					found := false
					for _, b := range batches {
						if b.index == a.StartBatchIndex {
							found = true
							verifsym.Assert(a.KeyperIndex < 3+uint64(verifsym.Tier()) && b.config.Keypers[a.KeyperIndex] == vSigner(i), "keypers publish the key of their eon")
							b.vote(i, a.EonPublicKey, net.retried)
						}
					}
					verifsym.Assert(found, "keypers publish the key of their eon")
				case *fx.ExecuteCipherBatch:
					for _, b := range batches {
						if b.index == a.BatchIndex {
							verifsym.Assert(b.executed[i] == nil, "a batch is executed once")
							b.executed[i] = a
						}
					}
				case *fx.ExecutePlainBatch:
				default:
					verifsym.Assert(false, "nothing else is done")
				}
			}
		}
		c.block(net.backwards)
		if closing > 0 {
			continue
		}
		agreed := true
		for _, b := range batches {
			agreed = agreed && b.key != nil
		}
		if agreed {
			closing = h + 1
			last = h + int64(5*len(batches))
		}
	}
	verifsym.Assert(closing > 0, "the keypers agree on a key")
	for x, b := range batches {
		for i, k := range keypers {
			if _, ok := b.config.KeyperIndex(vSigner(i)); !ok {
				verifsym.Assert(b.executed[i] == nil, "only keypers execute batches")
				continue
			}
			// a keyper whose encryption key was not known in time may not get the eon key
			missed := net.sleepers&(1<<uint(i)) != 0 && (net.asleep == 1 && net.awake > 4 && len(k.State.DKGs) < 2 || net.awake > closing+int64(5*x)+4)
			if missed {
				verifsym.Reach("sleeping")
				continue
			}
			b.check(i, k)
		}
	}
}
