package fx

import (
	"context"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// vChain is a shuttermint chain: every transaction makes a block.
type vChain struct {
	client.Client
	app    *app.ShutterApp
	height int64
	txs    []*coretypes.ResultTx
}

func (c *vChain) BlockchainInfo(context.Context, int64, int64) (*coretypes.ResultBlockchainInfo, error) {
	return &coretypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: c.app.ChainID}}}}, nil
}

func (c *vChain) BroadcastTxCommit(_ context.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTxCommit, error) {
	r := &coretypes.ResultBroadcastTxCommit{CheckTx: c.app.CheckTx(abcitypes.RequestCheckTx{Tx: tx})}
	if r.CheckTx.Code != 0 {
		return r, nil
	}
	c.height++
	c.app.BeginBlock(abcitypes.RequestBeginBlock{})
	r.DeliverTx = c.app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
	c.app.EndBlock(abcitypes.RequestEndBlock{Height: c.height})
	c.app.Commit()
	c.txs = append(c.txs, &coretypes.ResultTx{Height: c.height, TxResult: r.DeliverTx})
	return r, nil
}

func (c *vChain) Status(context.Context) (*coretypes.ResultStatus, error) {
	return &coretypes.ResultStatus{}, nil
}

func (c *vChain) Block(context.Context, *int64) (*coretypes.ResultBlock, error) {
	return &coretypes.ResultBlock{Block: &tmtypes.Block{LastCommit: &tmtypes.Commit{Height: c.height}}}, nil
}

// TxSearch answers queries for a range of heights which includes the last one.
func (c *vChain) TxSearch(_ context.Context, query string, _ bool, page, _ *int, _ string) (*coretypes.ResultTxSearch, error) {
	from, i := int64(0), 0
	for query[i] < '0' || query[i] > '9' {
		i++
	}
	for query[i] >= '0' && query[i] <= '9' {
		from = 10*from + int64(query[i]-'0')
		i++
	}
	r := &coretypes.ResultTxSearch{}
	for _, tx := range c.txs {
		if tx.Height >= from && *page == 1 {
			r.Txs = append(r.Txs, tx)
		}
	}
	r.TotalCount = len(r.Txs)
	return r, nil
}

func vEqualAddrs(as, bs []common.Address) bool {
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		if as[i] != bs[i] {
			return false
		}
	}
	return true
}

var vNonce uint64

func vRandomNonce() uint64 {
	vNonce++
	return vNonce
}

// VerifPublished: what a keyper sends through shuttermint is what the other keypers see.
func VerifPublished() {
	verifsym.UseRand()
	ctx := context.Background()
	var addrs []common.Address
	for i := 0; i < 3; i++ {
		addrs = append(addrs, crypto.PubkeyToAddress(vKey(i).PublicKey))
	}
	c := &vChain{app: app.NewShutterApp()}
	c.app.ChainID = "chain-a"
	c.app.Configs = []*app.BatchConfig{{Keypers: addrs[:1], Threshold: 1}}
	senders := make([]RPCMessageSender, 3)
	for i := range senders {
		senders[i] = NewRPCMessageSender(c, vKey(i))
	}
	send := func(i int, m *shmsg.Message) {
		err := senders[i].SendMessage(ctx, m)
		verifsym.Assert(err == nil, "messages of keypers are accepted")
	}
	view := observe.NewShutter()
	look := func() {
		v, err := view.SyncToHead(ctx, c)
		verifsym.Assert(err == nil, "the chain can be seen")
		view = v
	}
	often := verifsym.Choose("often", 0, 1) == 1
	poll := func() {
		if often {
			look()
		}
	}

	start, index := verifsym.U64("start"), verifsym.U64("index")
	verifsym.Assume(index > 0)
	contractAddr := common.BytesToAddress(verifsym.Bytes("contract", 20))
	send(0, shmsg.NewBatchConfig(start, addrs, 2, contractAddr, index, false, false))
	poll()
	key, err := crypto.ToECDSA(common.LeftPadBytes([]byte{byte(verifsym.Choose("key", 41, 42))}, 32))
	if err != nil {
		panic(err)
	}
	send(2, shmsg.NewCheckIn(make([]byte, 32), ecies.ImportECDSAPublic(&key.PublicKey)))
	poll()
	send(0, shmsg.NewBatchConfigStarted(index))
	poll()
	restart := verifsym.U64("restart")
	verifsym.Assume(restart >= start)
	send(1, shmsg.NewEonStartVote(restart))
	send(2, shmsg.NewEonStartVote(restart))
	poll()

	s := verifsym.Choose("sender", 0, 2)
	others := []common.Address{addrs[(s+1)%3], addrs[(s+2)%3]}
	n := verifsym.Choose("count", 1, 2)
	to := others[:n]
	e := verifsym.Choose("eon", 0, 1)
	eonOf := []uint64{1, 2}
	eon := eonOf[e]
	kind := verifsym.Choose("kind", 0, 5)
	var texts [][]byte
	var evals []*big.Int
	gammas := shcrypto.Gammas{}
	var share *shcrypto.EpochSecretKeyShare
	batch := verifsym.U64("batch")
	signature := verifsym.Bytes("signature", 65)
	for i := 0; i < n; i++ {
		texts = append(texts, verifsym.Bytes("text", 3))
		switch kind {
		case 1:
			gammas = append(gammas, new(bn256.G2).ScalarBaseMult(verifsym.Fq("gamma", bn256.Order)))
		case 3:
			evals = append(evals, verifsym.Big("eval", 16))
		case 4:
			share = (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(verifsym.Fq("share", bn256.Order)))
		}
	}
	switch kind {
	case 0:
		send(s, shmsg.NewPolyEval(eon, to, texts))
	case 1:
		send(s, shmsg.NewPolyCommitment(eon, &gammas))
	case 2:
		send(s, shmsg.NewAccusation(eon, to))
	case 3:
		send(s, shmsg.NewApology(eon, to, evals))
	case 4:
		send(s, shmsg.NewEpochSecretKeyShare(eon, batch, share))
	case 5:
		verifsym.Assume(batch >= start) // otherwise it is a batch of the first config
		send(s, shmsg.NewDecryptionSignature(batch, signature))
	}
	look()

	verifsym.Assert(view.CurrentBlock == 6, "all blocks are seen")
	verifsym.Assert(len(view.BatchConfigs) == 1, "batch configs are seen")
	bc := view.BatchConfigs[0]
	verifsym.Assert(verifsym.And(bc.Height == 1, bc.StartBatchIndex == start, bc.Threshold == 2, bc.ConfigIndex == index, vEqualAddrs(bc.Keypers, addrs)), "batch configs are seen")
	k := (*ecies.PublicKey)(view.KeyperEncryptionKeys[addrs[2]])
	verifsym.Assert(len(view.KeyperEncryptionKeys) == 1 && k != nil && k.X.Cmp(key.PublicKey.X) == 0 && k.Y.Cmp(key.PublicKey.Y) == 0, "check-ins are seen")
	verifsym.Assert(len(view.Eons) == 2 && view.Eons[0].Eon == eonOf[0] && view.Eons[1].Eon == eonOf[1], "eons are seen")
	verifsym.Assert(verifsym.And(view.Eons[0].StartHeight == 1, view.Eons[0].StartEvent.BatchIndex == start, view.Eons[1].StartHeight == 5, view.Eons[1].StartEvent.BatchIndex == restart), "eons are seen")
	for i := range view.Eons {
		want := func(k int) int {
			if i == e && kind == k {
				return 1
			}
			return 0
		}
		x := view.Eons[i]
		verifsym.Assert(len(x.PolyEvals) == want(0) && len(x.Commitments) == want(1) && len(x.Accusations) == want(2) && len(x.Apologies) == want(3) && len(x.EpochSecretKeyShares) == want(4), "messages are seen once, in their eon")
		for _, m := range x.PolyEvals {
			verifsym.Assert(m.Height == 6 && m.Eon == eon && m.Sender == addrs[s] && vEqualAddrs(m.Receivers, to) && len(m.EncryptedEvals) == n, "evaluations are seen")
			for j := range texts {
				verifsym.Assert(string(m.EncryptedEvals[j]) == string(texts[j]), "evaluations are seen")
			}
			verifsym.Reach("evaluation")
		}
		for _, m := range x.Commitments {
			verifsym.Assert(m.Height == 6 && m.Eon == eon && m.Sender == addrs[s] && len(*m.Gammas) == n, "commitments are seen")
			for j := range gammas {
				verifsym.Assert(verifsym.DeepEq((*m.Gammas)[j].Marshal(), gammas[j].Marshal()), "commitments are seen")
			}
			verifsym.Reach("commitment")
		}
		for _, m := range x.Accusations {
			verifsym.Assert(m.Height == 6 && m.Eon == eon && m.Sender == addrs[s] && vEqualAddrs(m.Accused, to), "accusations are seen")
			verifsym.Reach("accusation")
		}
		for _, m := range x.Apologies {
			verifsym.Assert(m.Height == 6 && m.Eon == eon && m.Sender == addrs[s] && vEqualAddrs(m.Accusers, to) && len(m.PolyEval) == n, "apologies are seen")
			for j := range evals {
				verifsym.Assert(m.PolyEval[j].Cmp(evals[j]) == 0, "apologies are seen")
			}
			verifsym.Reach("apology")
		}
		for _, m := range x.EpochSecretKeyShares {
			verifsym.Assert(verifsym.And(m.Height == 6, m.Eon == eon, m.Sender == addrs[s], m.Epoch == batch), "shares are seen")
			verifsym.Assert(verifsym.DeepEq((*bn256.G1)(m.Share).Marshal(), (*bn256.G1)(share).Marshal()), "shares are seen")
			verifsym.Reach("share")
		}
	}
	if kind == 5 {
		b := view.Batches[batch]
		verifsym.Assert(b != nil && len(view.Batches) == 1 && len(b.DecryptionSignatures) == 1, "signatures are seen")
		m := b.DecryptionSignatures[0]
		verifsym.Assert(verifsym.And(m.Height == 6, m.BatchIndex == batch, m.Sender == addrs[s], string(m.Signature) == string(signature)), "signatures are seen")
		verifsym.Reach("signature")
	} else {
		verifsym.Assert(len(view.Batches) == 0, "signatures are seen")
	}
}
