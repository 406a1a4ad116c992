package app

import (
	"encoding/hex"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

func vBig(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func vHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// VerifCheckIn: a keyper of any config checks in once, with a 32 byte validator key and a valid
// encryption key; everything else is rejected without effect.
func VerifCheckIn() {
	app := NewShutterApp()
	k0 := vKeypers("keyper", verifsym.Choose("n0", 1, 2))
	k1 := vKeypers("next", verifsym.Choose("n1", 0, 1))
	app.Configs = []*BatchConfig{{Keypers: k0, Threshold: 1}}
	all := append([]common.Address(nil), k0...)
	if len(k1) > 0 {
		app.Configs = append(app.Configs, &BatchConfig{Keypers: k1, Threshold: 1, ConfigIndex: 1})
		all = append(all, k1...)
	}
	ident := map[common.Address]string{}
	steps := 2
	if verifsym.Tier() > 0 {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		sender := vAddr("sender")
		vlen := verifsym.Choose("vlen", 31, 33)
		vkey := verifsym.Bytes("vkey", vlen)
		// compressed points: generator, 2*generator, x not on the curve, bad prefix, short
		var ekey []byte
		evalid := true
		switch verifsym.Choose("ekey", 0, 4) {
		case 0:
			ekey = vHex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
		case 1:
			ekey = vHex("02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5")
		case 2:
			ekey = vHex("020000000000000000000000000000000000000000000000000000000000000005")
			evalid = false
		case 3:
			ekey = vHex("0579be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
			evalid = false
		case 4:
			ekey = vHex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f817")
			evalid = false
		}
		before := vClone(app)
		r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_CheckIn{
			CheckIn: &shmsg.CheckIn{ValidatorPublicKey: vkey, EncryptionPublicKey: ekey}}}, sender)
		_, dup := ident[sender]
		ok := verifsym.And(!dup, vIn(all, sender), vlen == 32, evalid)
		verifsym.Assert((r.Code == 0) == ok, "check-in-accepted-iff-allowed")
		if !ok {
			verifsym.Assert(len(r.Events) == 0 && vSameState(app, before), "rejected-check-in-no-effect")
			verifsym.Reach("rejected")
			continue
		}
		ident[sender] = string(vkey)
		pub, err := crypto.DecompressPubkey(ekey)
		if err != nil {
			panic(err)
		}
		want := shutterevents.CheckIn{Sender: sender, EncryptionPublicKey: ecies.ImportECDSAPublic(pub)}.MakeABCIEvent()
		verifsym.Assert(vSameEvents(r.Events, []abcitypes.Event{want}), "check-in-event")
		for a, k := range ident {
			verifsym.Assert(app.Identities[a].Ed25519pubkey == k, "registered-validator-key")
		}
		verifsym.Assert(len(app.Identities) == len(ident), "registered-keypers")
		verifsym.Reach("checked-in")
	}
}
