package app

import (
	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
)

type vDKGSeen struct {
	evals map[SenderReceiverPair]bool
	seen  [3]map[common.Address]bool
}

// VerifDKGMessages drives key generation messages against a reference model of what is admitted:
// only keypers of the eon, addressing only other keypers of the eon, every (sender, receiver) pair
// resp. every sender once.
func VerifDKGMessages() {
	app := NewShutterApp()
	n := verifsym.Choose("n", 1, 3)
	var keypers [2][]common.Address
	keypers[0] = vKeypers("keyper", n)
	keypers[1] = vKeypers("other", 1)
	eons := [2]uint64{verifsym.U64("eonA"), verifsym.U64("eonB")}
	verifsym.Assume(eons[0] != eons[1])
	var seen [2]vDKGSeen
	for i := range eons {
		d := NewDKGInstance(BatchConfig{Keypers: keypers[i], Threshold: 1}, eons[i])
		app.DKGMap[eons[i]] = &d
		seen[i].evals = map[SenderReceiverPair]bool{}
		for j := range seen[i].seen {
			seen[i].seen[j] = map[common.Address]bool{}
		}
	}
	first := verifsym.Choose("kind", 0, 3)
	steps := 2
	for step := 0; step < steps; step++ {
		kind := first
		if step == 1 && verifsym.Tier() > 0 {
			kind = verifsym.Choose("kind", 0, 3)
		}
		e := verifsym.Choose("eon", 0, 2)
		var eon uint64
		if e < 2 {
			eon = eons[e]
		} else {
			eon = verifsym.U64("eonX")
			verifsym.Assume(eon != eons[0] && eon != eons[1])
		}
		sender := vAddr("sender")
		var targets []common.Address
		var raw, payload [][]byte
		wellformed := true
		if kind != 1 {
			m := verifsym.Choose("targets", 0, 2)
			for j := 0; j < m; j++ {
				t := vAddr("target")
				targets = append(targets, t)
				raw = append(raw, t.Bytes())
				payload = append(payload, verifsym.Bytes("payload", 1))
			}
			// malformed: wrong address length, or a payload missing
			switch verifsym.Choose("malformed", 0, 2) {
			case 1:
				if m == 0 {
					verifsym.Assume(false)
				}
				raw[m-1] = raw[m-1][:19]
				wellformed = false
			case 2:
				if kind == 2 {
					verifsym.Assume(false)
				}
				payload = append(payload, []byte{1})
				wellformed = false
			}
			wellformed = verifsym.And(wellformed, vDistinct(targets))
		}
		var msg *shmsg.Message
		var want abcitypes.Event
		switch kind {
		case 0:
			msg = &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: eon, Receivers: raw, EncryptedEvals: payload}}}
			want = shutterevents.PolyEval{Eon: eon, Sender: sender, Receivers: targets, EncryptedEvals: payload}.MakeABCIEvent()
		case 1:
			msg = &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: eon}}}
			want = shutterevents.PolyCommitment{Eon: eon, Sender: sender, Gammas: &shcrypto.Gammas{}}.MakeABCIEvent()
		case 2:
			msg = &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: eon, Accused: raw}}}
			want = shutterevents.Accusation{Eon: eon, Sender: sender, Accused: targets}.MakeABCIEvent()
		case 3:
			msg = &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: eon, Accusers: raw, PolyEvals: payload}}}
			want = abcitypes.Event{}
		}
		before := vClone(app)
		r := app.deliverMessage(msg, sender)
		ok := verifsym.And(wellformed, e < 2)
		if e < 2 {
			ok = verifsym.And(ok, vIn(keypers[e], sender))
			for _, t := range targets {
				ok = verifsym.And(ok, vIn(keypers[e], t), t != sender)
				if kind == 0 {
					for p := range seen[e].evals {
						ok = verifsym.And(ok, verifsym.Or(p.Sender != sender, p.Receiver != t))
					}
				}
			}
			if kind > 0 {
				for a := range seen[e].seen[kind-1] {
					ok = verifsym.And(ok, a != sender)
				}
			}
		}
		verifsym.Assert((r.Code == 0) == ok, "dkg-message-admitted-iff-allowed")
		if !ok {
			verifsym.Assert(len(r.Events) == 0 && vSameState(app, before), "rejected-dkg-message-no-effect")
			verifsym.Reach("rejected")
			continue
		}
		verifsym.Reach("admitted")
		if kind == 3 {
			ap := shutterevents.Apology{Eon: eon, Sender: sender, Accusers: targets}
			for _, p := range payload {
				ap.PolyEval = append(ap.PolyEval, vBig(p))
			}
			want = ap.MakeABCIEvent()
		}
		verifsym.Assert(vSameEvents(r.Events, []abcitypes.Event{want}), "dkg-message-event")
		if kind == 0 {
			for _, t := range targets {
				seen[e].evals[SenderReceiverPair{sender, t}] = true
			}
		} else {
			seen[e].seen[kind-1][sender] = true
		}
	}
}
