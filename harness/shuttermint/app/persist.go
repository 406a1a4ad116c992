package app

import (
	"time"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

const vGob = "/data/shutter.gob"

// vNormal copies the state without distinctions that are not observable.
func vNormal(a *ShutterApp) *ShutterApp {
	r := vClone(a)
	for k, v := range r.BatchStates {
		if v.Config != nil {
			c := vCloneConfig(*v.Config)
			c.Started, c.ValidatorsUpdated = false, false
			v.Config = &c
		}
		for i := range v.DecryptionSignatures {
			v.DecryptionSignatures[i].Signature = append([]byte(nil), v.DecryptionSignatures[i].Signature...)
		}
		r.BatchStates[k] = v
	}
	return r
}

func vTwoConfigs(n int) *ShutterApp {
	k := vKeypers("keyper", n)
	a := NewShutterApp()
	a.Gobpath = vGob
	t := verifsym.U64("threshold")
	verifsym.Assume(t >= 1 && t <= uint64(n))
	a.Configs = []*BatchConfig{
		{Keypers: k, Threshold: t, Started: true, ValidatorsUpdated: true},
		{Keypers: k[:1], Threshold: 1, ConfigIndex: 1, StartBatchIndex: verifsym.U64("start"), Started: verifsym.Bool("started"), ConfigContractAddress: vAddr("contract")},
	}
	a.ChainID = string(verifsym.Bytes("chain", 2))
	a.LastBlockHeight = int64(verifsym.U32("height"))
	a.EONCounter = verifsym.U64("eon")
	a.DevMode = verifsym.Bool("dev")
	return a
}

// VerifAppRestart stores an app and loads it again: the next block has the same effect on both.
func VerifAppRestart() {
	vos.Reset()
	a := vTwoConfigs(2)
	k := a.Configs[0].Keypers
	kind := verifsym.Choose("msg", 0, 10)
	fact := func(n string) bool { return verifsym.Fork(verifsym.Bool(n)) }
	if kind >= 6 && fact("instance") {
		d := NewDKGInstance(*a.Configs[0], 5)
		a.DKGMap[5] = &d
		if fact("seen") {
			switch kind {
			case 6:
				d.PolyEvalsSeen[SenderReceiverPair{k[0], k[1]}] = struct{}{}
			case 7:
				d.PolyCommitmentsSeen[k[0]] = struct{}{}
			case 8:
				d.AccusationsSeen[k[0]] = struct{}{}
			case 9:
				d.ApologiesSeen[k[0]] = struct{}{}
			}
		}
	}
	if kind == 0 && fact("voted") {
		c := BatchConfig{Keypers: k, Threshold: 1, ConfigIndex: 2, StartBatchIndex: verifsym.U64("vote")}
		verifsym.Assert(a.ConfigVoting.AddVote(k[0], c) == nil, "vote")
		if a.Configs[1].Threshold <= 1 && fact("passed") {
			a.ConfigVoting = NewConfigVoting()
		}
	}
	if kind == 1 && fact("startvoted") {
		a.StartedVotes[k[0]] = struct{}{}
	}
	if (kind == 1 || kind == 2) && fact("checkedin") {
		a.Identities[k[0]] = ValidatorPubkey{Ed25519pubkey: string(verifsym.Bytes("vkey", 32))}
	}
	if kind == 3 && fact("eonvoted") {
		v := NewEonStartVoting()
		v.AddVote(k[1], verifsym.U64("eonvote"))
		a.EonStartVotings[0] = v
		if fact("eonvoted2") {
			v.AddVote(k[0], verifsym.U64("eonvote"))
		}
		if _, ok := v.Outcome(int(a.Configs[0].Threshold)); ok {
			verifsym.Assume(false) // the eon would have been started
		}
	}
	if kind == 4 && fact("signed") {
		bs := BatchState{BatchIndex: 7, Config: a.Configs[0], DecryptionSignatures: []DecryptionSignature{{Sender: k[0], Signature: verifsym.Bytes("sig", verifsym.Choose("siglen", 0, 1))}}}
		a.BatchStates[7] = bs
	}
	if kind == 5 {
		for i := verifsym.Choose("nonces", 0, 2); i > 0; i-- {
			a.NonceTracker.Add(k[i-1], verifsym.U64("nonce"))
		}
	}
	a.Validators = Powermap{}
	switch verifsym.Choose("validators", 0, 2) {
	case 0:
		a.Validators = nil
	case 1:
		a.Validators = a.makePowermap(k)
	}

	verifsym.Assert(a.PersistToDisk() == nil, "state can be stored")
	vos.Restart()
	loaded, err := LoadShutterAppFromFile(vGob)
	verifsym.Assert(err == nil, "stored state can be loaded")
	b := &loaded
	verifsym.Assert(b.Info(abcitypes.RequestInfo{}).LastBlockHeight == a.LastBlockHeight, "restart continues behind the stored height")
	verifsym.Assert(b.DevMode == a.DevMode, "dev mode is kept")
	verifsym.Assert(vSameState(vNormal(a), vNormal(b)), "loaded state is the stored one")

	sender := vAddr("sender")
	if kind == 5 {
		nonce := verifsym.U64("newnonce")
		verifsym.Assert(a.NonceTracker.Check(sender, nonce) == b.NonceTracker.Check(sender, nonce), "used nonces are kept")
		verifsym.Reach("nonce")
		return
	}
	var m *shmsg.Message
	switch kind {
	case 0:
		m = &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			Keypers: vBytesOf(k), Threshold: 1, ConfigIndex: 2, StartBatchIndex: verifsym.U64("batch"), ConfigContractAddress: make([]byte, 20)}}}
	case 1:
		m = &shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: verifsym.U64("config")}}}
	case 2:
		m = &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: verifsym.Bytes("newvkey", 32), EncryptionPublicKey: common.FromHex("0x0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")}}}
	case 3:
		m = &shmsg.Message{Payload: &shmsg.Message_EonStartVote{EonStartVote: &shmsg.EonStartVote{StartBatchIndex: verifsym.U64("batch")}}}
	case 4:
		m = &shmsg.Message{Payload: &shmsg.Message_DecryptionSignature{DecryptionSignature: &shmsg.DecryptionSignature{BatchIndex: 7, Signature: verifsym.Bytes("newsig", 1)}}}
	case 6:
		m = &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: verifsym.U64("msgeon"), Receivers: vBytesOf(k[1:]), EncryptedEvals: [][]byte{{1}}}}}
	case 7:
		m = &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: verifsym.U64("msgeon")}}}
	case 8:
		m = &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: verifsym.U64("msgeon"), Accused: vBytesOf(k[1:])}}}
	case 9:
		m = &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: verifsym.U64("msgeon"), Accusers: vBytesOf(k[1:]), PolyEvals: [][]byte{{1}}}}}
	case 10:
		m = &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: &shmsg.EpochSecretKeyShare{Eon: verifsym.U64("msgeon"), Epoch: 3, Share: []byte{1}}}}
	}
	ra := a.deliverMessage(m, sender)
	rb := b.deliverMessage(m, sender)
	verifsym.Assert(verifsym.And(ra.Code == rb.Code, vSameEvents(ra.Events, rb.Events)), "a restarted node gives the same answer")
	ea := a.EndBlock(abcitypes.RequestEndBlock{Height: 99})
	eb := b.EndBlock(abcitypes.RequestEndBlock{Height: 99})
	verifsym.Assert(verifsym.DeepEq(ea.ValidatorUpdates, eb.ValidatorUpdates), "a restarted node updates the same validators")
	verifsym.Assert(vSameState(vNormal(a), vNormal(b)), "a restarted node reaches the same state")
	if ra.Code == 0 {
		verifsym.Reach("accepted")
	} else {
		verifsym.Reach("rejected")
	}
}

// VerifAppCrash runs two blocks after each of which the state is stored, lets the machine crash or
// a write fail somewhere, and starts again: the blocks the node still knows of are those of a
// complete earlier state, and running the missing ones gives the state of an undisturbed node.
func VerifAppCrash() {
	vos.Reset()
	a := vTwoConfigs(1)
	h := a.LastBlockHeight
	block := func(x *ShutterApp, i int) {
		k := x.Configs[0].Keypers[0]
		x.NonceTracker.Add(k, uint64(i))
		switch i {
		case 0:
			x.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: 1}}}, k)
		case 1:
			x.deliverMessage(&shmsg.Message{Payload: &shmsg.Message_EonStartVote{EonStartVote: &shmsg.EonStartVote{StartBatchIndex: 0}}}, k)
		}
		x.EndBlock(abcitypes.RequestEndBlock{Height: h + 1 + int64(i)})
	}
	states := []*ShutterApp{vClone(a)}
	verifsym.Assert(a.PersistToDisk() == nil, "state can be stored")
	vos.Restart()
	damage := verifsym.Choose("kind", 0, 2)
	at := 0
	if damage > 0 {
		at = verifsym.Choose("at", 0, 9)
	}
	switch damage {
	case 1:
		vos.FailAt(at)
	case 2:
		vos.CrashAt(at)
	}
	saved := false
	for i := 0; i < 2; i++ {
		block(a, i)
		states = append(states, vClone(a))
		n := vos.Ops()
		a.LastSaved = time.Time{}
		a.Commit()
		saved = saved || vos.Ops() > n
	}
	verifsym.Assert(saved, "state is stored")
	if damage == 2 {
		vos.Recover()
	} else {
		vos.Restart()
	}
	loaded, err := LoadShutterAppFromFile(vGob)
	verifsym.Assert(err == nil, "the stored state is never damaged")
	b := &loaded
	done := b.Info(abcitypes.RequestInfo{}).LastBlockHeight - h
	verifsym.Assert(done >= 0 && done <= 2, "the stored state is that of some block")
	if damage == 0 {
		verifsym.Assert(done == 2, "the last state is stored")
	}
	if damage == 1 {
		verifsym.Assert(done >= 1, "a failed write is made up for")
	}
	verifsym.Assert(vSameState(vNormal(states[done]), vNormal(b)), "the stored state is complete")
	for i := int(done); i < 2; i++ {
		block(b, i)
	}
	verifsym.Assert(vSameState(vNormal(a), vNormal(b)), "running the missing blocks gives the same state")
	switch done {
	case 0:
		verifsym.Reach("first")
	case 1:
		verifsym.Reach("second")
	default:
		verifsym.Reach("third")
	}
}
