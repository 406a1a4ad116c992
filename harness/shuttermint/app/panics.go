package app

import (
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

func vBytesList(name string, max, lo, hi int) [][]byte {
	var res [][]byte
	n := verifsym.Choose(name+".n", 0, max)
	for i := 0; i < n; i++ {
		res = append(res, verifsym.Bytes(name, verifsym.Choose(name+".len", lo, hi)))
	}
	return res
}

// VerifAnyMessage delivers arbitrary (also malformed) messages to an app in an arbitrary small
// state: processing must terminate normally and a failed message must leave no trace.
func VerifAnyMessage() {
	app := NewShutterApp()
	k := vKeypers("keyper", 2)
	app.Configs = []*BatchConfig{{Keypers: k[:1], Threshold: 1}}
	if verifsym.Choose("two", 0, 1) == 1 {
		app.Configs = append(app.Configs, &BatchConfig{Keypers: k, Threshold: 2, ConfigIndex: verifsym.U64("idx1"), StartBatchIndex: verifsym.U64("start1")})
	}
	d := NewDKGInstance(*app.Configs[0], 5)
	app.DKGMap[5] = &d
	app.EONCounter = 5
	sender := vAddr("sender")
	var m *shmsg.Message
	nilp := verifsym.Choose("nil", 0, 1) == 1
	switch verifsym.Choose("kind", 0, 11) {
	case 0:
		m = &shmsg.Message{}
	case 1:
		p := &shmsg.Message_BatchConfig{}
		if !nilp {
			p.BatchConfig = &shmsg.BatchConfig{StartBatchIndex: verifsym.U64("a"), Threshold: verifsym.U64("b"), ConfigIndex: verifsym.U64("c"),
				Keypers: vBytesList("ck", 2, 19, 20), ConfigContractAddress: verifsym.Bytes("cc", verifsym.Choose("cclen", 0, 1)*20), Started: verifsym.Bool("s"), ValidatorsUpdated: verifsym.Bool("v")}
		}
		m = &shmsg.Message{Payload: p}
	case 2:
		p := &shmsg.Message_BatchConfigStarted{}
		if !nilp {
			p.BatchConfigStarted = &shmsg.BatchConfigStarted{BatchConfigIndex: verifsym.U64("a")}
		}
		m = &shmsg.Message{Payload: p}
	case 3:
		p := &shmsg.Message_CheckIn{}
		if !nilp {
			p.CheckIn = &shmsg.CheckIn{ValidatorPublicKey: verifsym.Bytes("v", 31+verifsym.Choose("vlen", 0, 1)), EncryptionPublicKey: make([]byte, verifsym.Choose("elen", 32, 34))}
		}
		m = &shmsg.Message{Payload: p}
	case 4:
		p := &shmsg.Message_EonStartVote{}
		if !nilp {
			p.EonStartVote = &shmsg.EonStartVote{StartBatchIndex: verifsym.U64("a")}
		}
		m = &shmsg.Message{Payload: p}
	case 5:
		p := &shmsg.Message_DecryptionSignature{}
		if !nilp {
			p.DecryptionSignature = &shmsg.DecryptionSignature{BatchIndex: verifsym.U64("a"), Signature: verifsym.Bytes("sig", verifsym.Choose("siglen", 0, 2))}
		}
		m = &shmsg.Message{Payload: p}
	case 6:
		p := &shmsg.Message_PolyEval{}
		if !nilp {
			p.PolyEval = &shmsg.PolyEval{Eon: verifsym.U64("a"), Receivers: vBytesList("r", 2, 19, 21), EncryptedEvals: vBytesList("e", 2, 0, 1)}
		}
		m = &shmsg.Message{Payload: p}
	case 7:
		p := &shmsg.Message_PolyCommitment{}
		if !nilp {
			p.PolyCommitment = &shmsg.PolyCommitment{Eon: verifsym.U64("a"), Gammas: [][]byte{verifsym.Bytes("g", verifsym.Choose("glen", 0, 2))}}
		}
		m = &shmsg.Message{Payload: p}
	case 8:
		p := &shmsg.Message_Accusation{}
		if !nilp {
			p.Accusation = &shmsg.Accusation{Eon: verifsym.U64("a"), Accused: vBytesList("r", 2, 19, 21)}
		}
		m = &shmsg.Message{Payload: p}
	case 9:
		p := &shmsg.Message_Apology{}
		if !nilp {
			p.Apology = &shmsg.Apology{Eon: verifsym.U64("a"), Accusers: vBytesList("r", 2, 19, 21), PolyEvals: vBytesList("e", 2, 0, 1)}
		}
		m = &shmsg.Message{Payload: p}
	case 10:
		p := &shmsg.Message_EpochSecretKeyShare{}
		if !nilp {
			p.EpochSecretKeyShare = &shmsg.EpochSecretKeyShare{Eon: verifsym.U64("a"), Epoch: verifsym.U64("b"), Share: verifsym.Bytes("sh", verifsym.Choose("shlen", 0, 2))}
		}
		m = &shmsg.Message{Payload: p}
	case 11:
		m = nil
	}
	before := vClone(app)
	r := app.deliverMessage(m, sender)
	if r.Code != 0 {
		verifsym.Assert(len(r.Events) == 0, "failed-message-no-event")
		verifsym.Assert(vSameState(app, before), "failed-message-no-effect")
		verifsym.Reach("failed")
	} else {
		verifsym.Reach("ok")
	}
	app.EndBlock(abcitypes.RequestEndBlock{Height: 3})
}

// VerifAnyTx feeds arbitrary bytes to both transaction entry points.
func VerifAnyTx() {
	app := NewShutterApp()
	n := []int{0, 1, 4, 5, 86, 87, 88}[verifsym.Choose("len", 0, 6)]
	tx := verifsym.Bytes("tx", n)
	r := app.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
	_ = r
	app.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
	verifsym.Reach("done")
}
