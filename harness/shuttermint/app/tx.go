package app

import (
	"crypto/ecdsa"
	"encoding/base64"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

func vKey(b byte) (*ecdsa.PrivateKey, common.Address) {
	d := make([]byte, 32)
	d[31] = b
	k, err := crypto.ToECDSA(d)
	if err != nil {
		panic(err)
	}
	return k, crypto.PubkeyToAddress(k.PublicKey)
}

type vTx struct {
	raw    []byte
	sender common.Address
	valid  bool // correctly encoded and signed by sender
	chain  bool // for the chain of the app
	nonce  uint64
	batch  uint64
}

// vMakeTx builds an arbitrary transaction carrying a decryption signature for some batch.
func vMakeTx(keys []*ecdsa.PrivateKey, addrs []common.Address, msg *shmsg.Message, batch uint64) vTx {
	k := verifsym.Choose("key", 0, len(keys)-1)
	tx := vTx{sender: addrs[k], valid: true, chain: true, nonce: verifsym.U64("nonce"), batch: batch}
	chain := "chain-a"
	switch verifsym.Choose("chain", 0, 3) {
	case 1:
		chain = "chain-b"
		tx.chain = false
	case 2:
		chain = ""
		tx.chain = false
	case 3:
		chain = "chain-a2"
		tx.chain = false
	}
	m := &shmsg.MessageWithNonce{ChainId: []byte(chain), RandomNonce: tx.nonce, Msg: msg}
	signed, err := shmsg.SignMessage(m, keys[k])
	if err != nil {
		panic(err)
	}
	tx.raw = []byte(base64.RawURLEncoding.EncodeToString(signed))
	return tx
}

func vVoteMsg(batch uint64) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_DecryptionSignature{
		DecryptionSignature: &shmsg.DecryptionSignature{BatchIndex: batch, Signature: []byte{7}}}}
}

// VerifReplay: a delivered transaction takes effect only if it is signed for this chain and its
// nonce was not used by its signer before; the effect is attributed to the signer.
func VerifReplay() {
	app := NewShutterApp()
	app.ChainID = "chain-a"
	k0, a0 := vKey(1)
	k1, a1 := vKey(2)
	k2, a2 := vKey(3)
	keys := []*ecdsa.PrivateKey{k0, k1}
	addrs := []common.Address{a0, a1}
	_, _ = k2, a2
	app.Configs = []*BatchConfig{{Keypers: []common.Address{a0, a2}, Threshold: 1}}
	type use struct {
		s common.Address
		n uint64
	}
	var used []use
	var sent []vTx
	steps := 3
	members := []common.Address{a0}
	for i := 0; i < steps; i++ {
		var tx vTx
		if i == 1 && verifsym.Choose("join", 0, 1) == 1 {
			// the other signer becomes a keyper
			app.Configs = append(app.Configs, &BatchConfig{Keypers: []common.Address{a0, a1}, Threshold: 1, ConfigIndex: 1})
			members = append(members, a1)
			verifsym.Reach("join")
		}
		if i > 0 && verifsym.Choose("resend", 0, 1) == 1 {
			tx = sent[i-1] // the identical bytes again
			verifsym.Reach("resend")
		} else {
			tx = vMakeTx(keys, addrs, vVoteMsg(uint64(i)), uint64(i))
			switch verifsym.Choose("tamper", 0, 3) {
			case 1: // signature of another message
				other, err := shmsg.SignMessage(&shmsg.MessageWithNonce{ChainId: []byte("chain-a"), RandomNonce: tx.nonce, Msg: vVoteMsg(99)}, k2)
				if err != nil {
					panic(err)
				}
				dec, _ := base64.RawURLEncoding.DecodeString(string(tx.raw))
				forged := append(append([]byte(nil), other[:crypto.SignatureLength]...), dec[crypto.SignatureLength:]...)
				tx.raw = []byte(base64.RawURLEncoding.EncodeToString(forged))
				tx.valid = false
			case 2: // too short
				dec, _ := base64.RawURLEncoding.DecodeString(string(tx.raw))
				tx.raw = []byte(base64.RawURLEncoding.EncodeToString(dec[:verifsym.Choose("len", 63, 65)]))
				tx.valid = false
			case 3: // padded: not the raw url encoding
				tx.raw = append(tx.raw, '=')
				tx.valid = false
			}
		}
		sent = append(sent, tx)
		if !tx.valid && verifsym.Tier() == 0 && i < steps-1 {
			// the rejection of malformed transactions does not depend on the position
			verifsym.Assume(false)
		}
		fresh := true
		for _, u := range used {
			fresh = verifsym.And(fresh, verifsym.Or(u.s != tx.sender, u.n != tx.nonce))
		}
		before := vClone(app)
		r := app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx.raw})
		if !verifsym.And(tx.valid, tx.chain, fresh) {
			verifsym.Assert(r.Code != 0 && len(r.Events) == 0, "invalid-tx-rejected")
			if tx.valid {
				verifsym.Assert(vSameState(app, before), "invalid-tx-no-effect")
			} else {
				verifsym.Assert(verifsym.DeepEq(app.BatchStates, before.BatchStates), "invalid-tx-no-effect")
			}
			verifsym.Reach("rejected")
			continue
		}
		used = append(used, use{tx.sender, tx.nonce})
		if vIndexOf(members, tx.sender) >= 0 {
			verifsym.Assert(r.Code == 0, "valid-tx-executed")
			sigs := app.BatchStates[tx.batch].DecryptionSignatures
			verifsym.Assert(len(sigs) == 1 && sigs[0].Sender == tx.sender, "effect-attributed-to-signer")
			verifsym.Reach("executed")
		} else {
			verifsym.Assert(r.Code != 0, "non-member-tx-fails")
			verifsym.Reach("failed")
		}
	}
}

// VerifCheckTx: the mempool check admits at most ten transactions per keyper and block, none by
// others, none for other chains and none with a nonce already seen.
func VerifCheckTx() {
	app := NewShutterApp()
	app.ChainID = "chain-a"
	k0, a0 := vKey(1)
	k1, a1 := vKey(2)
	k2, a2 := vKey(3)
	keys := []*ecdsa.PrivateKey{k0, k1, k2}
	addrs := []common.Address{a0, a1, a2}
	app.Configs = []*BatchConfig{{Keypers: []common.Address{a0}, Threshold: 1}}
	// a second config adds a keyper
	bc := BatchConfig{Keypers: []common.Address{a1}, Threshold: 1, ConfigIndex: 1, StartBatchIndex: 5}
	if err := app.addConfig(bc); err != nil {
		panic(err)
	}
	type use struct {
		s common.Address
		n uint64
	}
	var delivered, seen []use
	count := map[common.Address]int{}
	// some transactions were admitted in this block already
	pre := verifsym.Choose("pre", 7, 10)
	for i := 0; i < pre; i++ {
		m := &shmsg.MessageWithNonce{ChainId: []byte("chain-a"), RandomNonce: uint64(1000 + i), Msg: vVoteMsg(1)}
		signed, err := shmsg.SignMessage(m, k0)
		if err != nil {
			panic(err)
		}
		r := app.CheckTx(abcitypes.RequestCheckTx{Tx: []byte(base64.RawURLEncoding.EncodeToString(signed))})
		verifsym.Assert(r.Code == 0, "within-limit-admitted")
		seen = append(seen, use{a0, uint64(1000 + i)})
		count[a0]++
	}
	for i := 0; i < 3; i++ {
		switch verifsym.Choose("op", 0, 2) {
		case 0:
			tx := vMakeTx(keys, addrs, vVoteMsg(uint64(i)), uint64(i))
			fresh := true
			for _, u := range append(append([]use(nil), delivered...), seen...) {
				fresh = verifsym.And(fresh, verifsym.Or(u.s != tx.sender, u.n != tx.nonce))
			}
			ok := verifsym.And(tx.chain, fresh, tx.sender == a0 || tx.sender == a1, count[tx.sender] < 10)
			r := app.CheckTx(abcitypes.RequestCheckTx{Tx: tx.raw})
			verifsym.Assert((r.Code == 0) == ok, "admitted-iff-allowed")
			if ok {
				count[tx.sender]++
				seen = append(seen, use{tx.sender, tx.nonce})
				verifsym.Reach("admitted")
			} else {
				verifsym.Reach("refused")
			}
		case 1:
			n := verifsym.U64("dnonce")
			m := &shmsg.MessageWithNonce{ChainId: []byte("chain-a"), RandomNonce: n, Msg: vVoteMsg(uint64(i))}
			signed, err := shmsg.SignMessage(m, k1)
			if err != nil {
				panic(err)
			}
			app.DeliverTx(abcitypes.RequestDeliverTx{Tx: []byte(base64.RawURLEncoding.EncodeToString(signed))})
			delivered = append(delivered, use{a1, n})
			verifsym.Reach("delivered")
		case 2:
			app.Commit()
			count = map[common.Address]int{}
			seen = nil
			verifsym.Reach("commit")
		}
	}
}
