package keyper

import (
	"github.com/shutter-network/shutter/shlib/puredkg"

	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

// VerifRestartEpochs restarts a keyper between the shares of epoch keys it gets.
func VerifRestartEpochs() {
	vos.Reset()
	k := vKeyper()
	keypers := vAddrs(3)
	ekg := vEon(keypers, 1)
	for i := verifsym.Choose("pending", 0, 1); i > 0; i-- {
		ekg.PendingDecryptions = append(ekg.PendingDecryptions, verifsym.U64("epoch"))
	}
	k.State.EKGs = []*EKG{ekg}
	epochs := []uint64{7, 1<<40 + 7}
	n := 3
	restart := verifsym.Choose("restart", 0, n)
	var r *Keyper
	for i := 0; i <= n; i++ {
		if i == restart {
			r = vReload(k)
			verifsym.Assert(len(r.State.EKGs) == 1, "the eon key is still known")
		}
		if i == n {
			break
		}
		e := epochs[verifsym.Choose("epoch", 0, 1)]
		sender := verifsym.Choose("sender", 0, 2)
		msg := func() *epochkg.EpochSecretKeyShare {
			return &epochkg.EpochSecretKeyShare{Eon: 3, Epoch: e, Sender: uint64(sender), Share: vShareEvent(1, keypers, sender, e).Share}
		}
		err := ekg.EpochKG.HandleEpochSecretKeyShare(msg())
		if r != nil {
			err2 := r.State.EKGs[0].EpochKG.HandleEpochSecretKeyShare(msg())
			verifsym.Assert((err == nil) == (err2 == nil), "a restarted keyper takes the same shares")
			verifsym.Reach("taken")
		}
	}
	g := r.State.EKGs[0]
	verifsym.Assert(g.Eon == 3 && g.EpochKG.Eon == 3 && verifsym.DeepEq(g.Keypers, keypers), "eon and keypers are kept")
	verifsym.Assert(len(g.PendingDecryptions) == len(ekg.PendingDecryptions), "pending decryptions are kept")
	for i := range ekg.PendingDecryptions {
		verifsym.Assert(g.PendingDecryptions[i] == ekg.PendingDecryptions[i], "pending decryptions are kept")
	}
	for _, e := range epochs {
		a, ok := ekg.EpochKG.SecretKeys[e]
		b, ok2 := g.EpochKG.SecretKeys[e]
		verifsym.Assert(ok == ok2, "the same keys are known")
		if ok {
			verifsym.Assert(a.Equal(b), "the keys are the same")
			verifsym.Reach("key")
		}
		verifsym.Assert(g.EpochKG.ComputeEpochSecretKeyShare(e).Equal(ekg.EpochKG.ComputeEpochSecretKeyShare(e)), "shares computed later on are the same")
	}
}

// VerifRestartDealing restarts a keyper which could not send all evaluations yet.
func VerifRestartDealing() {
	vos.Reset()
	k := vKeyper()
	pure := puredkg.NewPureDKG(7, 3, 2, 0)
	d := DKG{Eon: 7, Keypers: vAddrs(3), Pure: &pure, PhaseLength: NewConstantPhaseLength(30)}
	for i := verifsym.Choose("outgoing", 0, 2); i > 0; i-- {
		d.OutgoingPolyEvalMsgs = append(d.OutgoingPolyEvalMsgs, puredkg.PolyEvalMsg{Eon: 7, Sender: 0, Receiver: verifsym.U64("receiver"), Eval: vEval("eval")})
		verifsym.Reach("outgoing")
	}
	k.State.DKGs = append(k.State.DKGs, d)
	r := vReload(k)
	verifsym.Assert(len(r.State.DKGs) == 1, "the key generation is still known")
	out := r.State.DKGs[0].OutgoingPolyEvalMsgs
	verifsym.Assert(len(out) == len(d.OutgoingPolyEvalMsgs), "evaluations to be sent are kept")
	for i, m := range d.OutgoingPolyEvalMsgs {
		verifsym.Assert(verifsym.And(out[i].Eon == 7, out[i].Sender == 0, out[i].Receiver == m.Receiver, out[i].Eval.Cmp(m.Eval) == 0), "evaluations to be sent are kept")
	}
}
