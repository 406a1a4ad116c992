package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

// VerifDeterminism runs the same block on two replicas that iterate over maps in different orders.
func VerifDeterminism() {
	kind := verifsym.Choose("msg", 0, 3)
	n := 2
	if kind == 0 {
		n = 3
	}
	keypers := vKeypers("keyper", n)
	t := verifsym.U64("threshold")
	verifsym.Assume(t >= 1 && t <= uint64(n))
	k1 := vKeypers("next", 2)
	a := NewShutterApp()
	a.Configs = []*BatchConfig{
		{Keypers: keypers, Threshold: t, Started: true, ValidatorsUpdated: true},
		{Keypers: k1, Threshold: 1, ConfigIndex: 1, StartBatchIndex: 5},
	}
	a.EONCounter = 3
	// votes collected so far
	v := NewEonStartVoting()
	v1 := NewEonStartVoting()
	for i := range keypers {
		if kind == 0 && verifsym.Fork(verifsym.Bool("voted")) {
			b := verifsym.U64("vote")
			verifsym.Assume(b < 5)
			v.AddVote(keypers[i], b)
			if _, ok := v.Outcome(int(t)); ok {
				verifsym.Assume(false) // the eon would have been started
			}
		}
	}
	a.EonStartVotings[0] = v
	a.EonStartVotings[1] = v1
	ids := 0
	if kind > 0 {
		ids = verifsym.Choose("ids", 0, 2)
	}
	for i := 0; i < ids; i++ {
		a.Identities[keypers[i]] = ValidatorPubkey{Ed25519pubkey: string(verifsym.Bytes("vkey", 32))}
	}
	a.Identities[k1[0]] = ValidatorPubkey{Ed25519pubkey: string(verifsym.Bytes("vkey", 32))}
	a.Validators = a.makePowermap(keypers)
	if kind > 0 && verifsym.Fork(verifsym.Bool("startvote")) {
		for i := 0; uint64(i) < t; i++ {
			a.StartedVotes[keypers[i]] = struct{}{}
		}
	}
	b := vClone(a)
	sender := vAddr("sender")
	var msg *shmsg.Message
	switch kind {
	case 0:
		msg = &shmsg.Message{Payload: &shmsg.Message_EonStartVote{EonStartVote: &shmsg.EonStartVote{StartBatchIndex: verifsym.U64("batch")}}}
	case 1:
		msg = &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			Keypers: vBytesOf([]common.Address{keypers[0], k1[0]}), Threshold: verifsym.U64("t"), ConfigIndex: 2, StartBatchIndex: 9,
			ConfigContractAddress: make([]byte, 20)}}}
	case 2:
		msg = &shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: 1}}}
	case 3:
		// pre-state with votes on two config proposals
		msg = &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			Keypers: vBytesOf(keypers), Threshold: 1, ConfigIndex: 7, StartBatchIndex: 9, ConfigContractAddress: make([]byte, 20)}}}
		for _, x := range []*ShutterApp{a, b} {
			x.Configs[1].Keypers = append([]common.Address(nil), keypers...)
			x.Configs[1].Threshold = t
			if t > 1 {
				if err := x.ConfigVoting.AddVote(keypers[1], BatchConfig{Keypers: k1, Threshold: 1, ConfigIndex: 8, StartBatchIndex: 9}); err != nil {
					panic(err)
				}
			}
		}
	}
	ra := a.deliverMessage(msg, sender)
	ea := a.EndBlock(abcitypes.RequestEndBlock{Height: 10})
	verifsym.MapReverse(true)
	rb := b.deliverMessage(msg, sender)
	eb := b.EndBlock(abcitypes.RequestEndBlock{Height: 10})
	verifsym.MapReverse(false)
	verifsym.Assert(ra.Code == rb.Code && vSameEvents(ra.Events, rb.Events), "same-response")
	verifsym.Assert(verifsym.DeepEq(ea.ValidatorUpdates, eb.ValidatorUpdates), "same-validator-updates")
	verifsym.Assert(vSameState(a, b), "same-state")
	if ra.Code == 0 {
		verifsym.Reach("accepted")
	}
	if len(ra.Events) > 0 {
		verifsym.Reach("event")
	}
	if len(ea.ValidatorUpdates) > 1 {
		verifsym.Reach("updates")
	}
}
