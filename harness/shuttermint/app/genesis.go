package app

import (
	"github.com/ethereum/go-ethereum/common"
	"github.com/tendermint/go-amino"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

var vStates []GenesisAppState // what has been encoded, by the single byte of the encoding

func vNewCodec() *amino.Codec { return nil }

func vMarshalJSON(_ *amino.Codec, o interface{}) ([]byte, error) {
	vStates = append(vStates, o.(GenesisAppState))
	return []byte{byte(len(vStates))}, nil
}

func vUnmarshalJSON(_ *amino.Codec, bz []byte, ptr interface{}) error {
	*(ptr.(*GenesisAppState)) = vStates[bz[0]-1]
	return nil
}

// vGenesisKeypers chooses up to two distinct keypers out of three (three out of four).
func vGenesisKeypers() []common.Address {
	n := 2 + verifsym.Tier()
	var res []common.Address
	for i := 0; i <= n; i++ {
		if len(res) < n && verifsym.Choose("keyper", 0, 1) == 1 {
			res = append(res, common.BytesToAddress([]byte{0xaa, byte(7 * i)}))
		}
	}
	if verifsym.Choose("order", 0, 1) == 1 && len(res) > 1 {
		res[0], res[1] = res[1], res[0]
	}
	return res
}

func vGenesis(keypers []common.Address, threshold uint64) []byte {
	state := NewGenesisAppState(keypers, 0)
	state.Threshold = threshold
	bz, err := amino.NewCodec().MarshalJSON(state)
	if err != nil {
		panic(err)
	}
	return bz
}

// VerifGenesis: a new chain has the keypers, the threshold and the validators of its genesis. A node
// refuses geneses that make no sense and, when restarted, geneses of other chains.
func VerifGenesis() {
	vos.Reset()
	vStates = nil
	loaded, err := LoadShutterAppFromFile(vGob)
	verifsym.Assert(err == nil, "a node starts without a file")
	a := &loaded
	verifsym.Assert(a.Info(abcitypes.RequestInfo{}).LastBlockHeight == 0, "a new node wants the whole chain")

	keypers := vGenesisKeypers()
	threshold := verifsym.U64("threshold")
	nvals := verifsym.Choose("validators", 0, 2)
	var vals []abcitypes.ValidatorUpdate
	var power [2]int64
	same := verifsym.Choose("same", 0, 1) == 1
	other := verifsym.Choose("other", 0, 1) == 1 // a key of another kind
	for i := 0; i < nvals; i++ {
		key := make([]byte, 32)
		key[0] = byte(1 + i)
		if same {
			key[0] = 1
		}
		p := int64(verifsym.U32("power"))
		verifsym.Assume(p > 0)
		power[key[0]-1] += p
		pub := tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: key}}
		if other && i == 1 {
			pub = tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Secp256K1{Secp256K1: key}}
		}
		vals = append(vals, abcitypes.ValidatorUpdate{PubKey: pub, Power: p})
	}
	init := func(app *ShutterApp, keypers []common.Address, threshold uint64) {
		app.InitChain(abcitypes.RequestInitChain{ChainId: "this-one", AppStateBytes: vGenesis(keypers, threshold), Validators: vals})
	}
	init(a, keypers, threshold)
	// it has not refused
	verifsym.Assert(verifsym.And(len(keypers) > 0, threshold >= 1, threshold <= uint64(len(keypers))), "a genesis needs keypers and a reachable threshold")
	verifsym.Assert(!other || nvals < 2, "validators have ed25519 keys")
	verifsym.Assert(a.ChainID == "this-one", "the chain has the id of the genesis")
	verifsym.Assert(len(a.Configs) == 1 && vSameAddrs(a.Configs[0].Keypers, keypers) && a.Configs[0].Threshold == threshold, "the chain starts with the keypers of the genesis")

	if verifsym.Choose("restart", 0, 1) == 1 {
		verifsym.Assert(a.PersistToDisk() == nil, "state can be stored")
		vos.Restart()
		loaded, err := LoadShutterAppFromFile(vGob)
		verifsym.Assert(err == nil, "state can be loaded")
		a = &loaded
		keypers2, threshold2 := vGenesisKeypers(), verifsym.U64("threshold")
		vals = nil // they have changed meanwhile
		init(a, keypers2, threshold2)
		verifsym.Assert(vSameAddrs(keypers, keypers2) && threshold == threshold2, "a node refuses the genesis of another chain")
		verifsym.Reach("restarted")
	}
	r := a.EndBlock(abcitypes.RequestEndBlock{Height: 1})
	verifsym.Assert(len(r.ValidatorUpdates) == 0, "the chain starts with the validators of the genesis")
	for i := range power {
		key := make([]byte, 32)
		key[0] = byte(1 + i)
		pk, _ := NewValidatorPubkey(key)
		verifsym.Assert(a.Validators[pk] == power[i], "the chain starts with the validators of the genesis")
	}
	// every keyper of the genesis, and nobody else, is heard
	next := []common.Address{common.BytesToAddress([]byte{0xbb})}
	count := uint64(0)
	for i := 3; i >= 0; i-- {
		k := common.BytesToAddress([]byte{0xaa, byte(7 * i)})
		member := vIndexOf(keypers, k) >= 0
		verifsym.Assert(a.CheckTxState.AddTx(k, &shmsg.MessageWithNonce{}) == member, "the keypers of the genesis may send messages")
		resp := a.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			StartBatchIndex: 3, Keypers: vBytesOf(next), Threshold: 1, ConfigIndex: 1, ConfigContractAddress: make([]byte, 20)}}}, k)
		if count < threshold { // afterwards it is just confirmed
			verifsym.Assert((resp.Code == 0) == member, "the keypers of the genesis decide on the first config")
			if member {
				count++
			}
		}
		verifsym.Assert((len(a.Configs) == 2) == (count >= threshold), "the first config needs the threshold of the genesis")
	}
	verifsym.Assert(len(a.Configs) == 2, "the first config is adopted")
	verifsym.Reach("adopted")
}

func vSameAddrs(as, bs []common.Address) bool {
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		if as[i] != bs[i] {
			return false
		}
	}
	return true
}
