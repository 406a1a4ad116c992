package app

import (
	"bytes"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// VerifDecryptionSignatures: per batch, every keyper of the config in charge of that batch has at
// most one signature published, and nobody else has any.
func VerifDecryptionSignatures() {
	app := NewShutterApp()
	k0 := vKeypers("keyper", verifsym.Choose("n0", 1, 2))
	k1 := vKeypers("next", 1)
	k2 := vKeypers("last", 1)
	s1, s2 := verifsym.U64("start1"), verifsym.U64("start2")
	verifsym.Assume(s1 <= s2)
	app.Configs = []*BatchConfig{
		{Keypers: k0, Threshold: 1},
		{Keypers: k1, Threshold: 1, StartBatchIndex: s1, ConfigIndex: 1},
		{Keypers: k2, Threshold: 1, StartBatchIndex: s2, ConfigIndex: 2},
	}
	type key struct {
		batch  uint64
		sender common.Address
	}
	seen := map[key]bool{}
	steps := 3
	if verifsym.Tier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		sender := vAddr("sender")
		batch := verifsym.U64("batch")
		sig := verifsym.Bytes("sig", 2)
		keypers := k0
		if batch >= s2 {
			keypers = k2
		} else if batch >= s1 {
			keypers = k1
		}
		dup := seen[key{batch, sender}]
		before := vClone(app)
		r := app.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_DecryptionSignature{
			DecryptionSignature: &shmsg.DecryptionSignature{BatchIndex: batch, Signature: sig}}}, sender)
		ok := verifsym.And(!dup, vIn(keypers, sender))
		verifsym.Assert((r.Code == 0) == ok, "signature-accepted-iff-allowed")
		if !ok {
			verifsym.Assert(len(r.Events) == 0 && vSameState(app, before), "rejected-signature-no-effect")
			verifsym.Reach("rejected")
			continue
		}
		seen[key{batch, sender}] = true
		want := shutterevents.DecryptionSignature{BatchIndex: batch, Sender: sender, Signature: sig}.MakeABCIEvent()
		verifsym.Assert(vSameEvents(r.Events, []abcitypes.Event{want}), "signature-event")
		sigs := app.BatchStates[batch].DecryptionSignatures
		l := sigs[len(sigs)-1]
		verifsym.Assert(l.Sender == sender && bytes.Equal(l.Signature, sig), "signature-recorded")
		verifsym.Reach("accepted")
	}
}
