package keyper

import (
	"context"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"

	"VERIFMODULE/verifsym"
	"VERIFMODULE/verifsym/vos"
)

func vAddrs(n int) []common.Address {
	var r []common.Address
	for i := 0; i < n; i++ {
		r = append(r, common.BytesToAddress([]byte{0xa0, byte(i + 1)}))
	}
	return r
}

func vEval(name string) *big.Int {
	return verifsym.Fq(name, bn256.Order)
}

// vPoly is a polynomial with arbitrary coefficients.
func vPoly(name string, deg int) *shcrypto.Polynomial {
	var cs []*big.Int
	for i := 0; i <= deg; i++ {
		cs = append(cs, vEval(name))
	}
	p, err := shcrypto.NewPolynomial(cs)
	if err != nil {
		panic(err)
	}
	return p
}

// vMsg is a message of a dealer of the key generation.
type vMsg struct {
	kind    int // 0 commitment, 1 evaluation, 2 accusation, 3 apology
	from    uint64
	against uint64
	gammas  *shcrypto.Gammas
	eval    *big.Int
}

func (m vMsg) handle(p *puredkg.PureDKG) bool {
	var err error
	switch m.kind {
	case 0:
		g := append(shcrypto.Gammas{}, *m.gammas...)
		err = p.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: p.Eon, Sender: m.from, Gammas: &g})
	case 1:
		err = p.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: p.Eon, Sender: m.from, Receiver: p.Keyper, Eval: new(big.Int).Set(m.eval)})
	case 2:
		err = p.HandleAccusationMsg(puredkg.AccusationMsg{Eon: p.Eon, Accuser: m.from, Accused: m.against})
	case 3:
		err = p.HandleApologyMsg(puredkg.ApologyMsg{Eon: p.Eon, Accuser: m.against, Accused: m.from, Eval: new(big.Int).Set(m.eval)})
	}
	return err == nil
}

func vKeyper() *Keyper {
	kpr := NewKeyper(Config{DBDir: "/db"})
	kpr.world.Store(observe.World{Shutter: observe.NewShutter(), MainChain: observe.NewMainChain(0)})
	return &kpr
}

// vReload stops the keyper and starts it again.
func vReload(kpr *Keyper) *Keyper {
	err := kpr.saveState()
	verifsym.Assert(err == nil, "state can be saved")
	n := vKeyper()
	err = n.LoadState()
	verifsym.Assert(err == nil, "saved state can be loaded")
	return n
}

func vSameResult(a, b puredkg.Result, e1, e2 error) bool {
	if e1 != nil || e2 != nil {
		return e1 != nil && e2 != nil
	}
	r := verifsym.And(a.Eon == b.Eon, verifsym.And(a.NumKeypers == b.NumKeypers, verifsym.And(a.Threshold == b.Threshold, a.Keyper == b.Keyper)))
	r = verifsym.And(r, (*big.Int)(a.SecretKeyShare).Cmp((*big.Int)(b.SecretKeyShare)) == 0)
	r = verifsym.And(r, verifsym.DeepEq(a.PublicKey.Marshal(), b.PublicKey.Marshal()))
	for i := range a.PublicKeyShares {
		r = verifsym.And(r, verifsym.DeepEq(a.PublicKeyShares[i].Marshal(), b.PublicKeyShares[i].Marshal()))
	}
	return r
}

// VerifRestartDKG restarts a keyper at some point of a key generation: it must take the same
// messages and compute the same result as one which was not restarted.
func VerifRestartDKG() {
	vos.Reset()
	n := 2
	t := uint64(verifsym.Choose("threshold", 1, 2))
	k := vKeyper()
	pure := puredkg.NewPureDKG(7, uint64(n), t, 0)
	k.State.DKGs = append(k.State.DKGs, DKG{
		Eon: 7, StartBatchIndex: verifsym.U64("start"), Keypers: vAddrs(n), Pure: &pure,
		PhaseLength: NewConstantPhaseLength(30),
	})
	k.State.LastEonStarted = 7
	p := vPoly("own", int(t)-1)
	other := vPoly("other", int(t)-1)
	msgs := []vMsg{
		{kind: 0, from: 0, gammas: p.Gammas()},
		{kind: 0, from: 1, gammas: other.Gammas()},
		{kind: 1, from: 1, eval: vEval("eval")},
		{kind: 2, from: 0, against: 1},
		{kind: 2, from: 1, against: 0},
		{kind: 3, from: 1, against: 0, eval: vEval("apology")},
		{kind: 3, from: 0, against: 1, eval: p.EvalForKeyper(1)},
	}
	restart := verifsym.Choose("restart", 0, len(msgs))
	var r *Keyper
	phase := func(ph puredkg.Phase) {
		for _, kk := range []*Keyper{k, r} {
			if kk == nil {
				continue
			}
			pu := kk.State.DKGs[0].Pure
			switch ph {
			case puredkg.Dealing:
				pu.Phase = puredkg.Dealing
				pu.Polynomial = p
				pu.Evals[0] = p.EvalForKeyper(0)
			case puredkg.Finalized:
				pu.Finalize()
			default:
				pu.Phase = ph
			}
		}
	}
	for i := 0; i <= len(msgs); i++ {
		switch i {
		case 0:
			phase(puredkg.Dealing)
		case 3:
			phase(puredkg.Accusing)
		case 5:
			phase(puredkg.Apologizing)
		}
		if i == restart {
			r = vReload(k)
			verifsym.Assert(len(r.State.DKGs) == 1, "the key generation is still known")
		}
		if i == len(msgs) || !verifsym.Bool("sent") {
			continue
		}
		ok := msgs[i].handle(k.State.DKGs[0].Pure)
		if r != nil {
			ok2 := msgs[i].handle(r.State.DKGs[0].Pure)
			verifsym.Assert(ok == ok2, "a restarted keyper takes the same messages")
			verifsym.Reach("taken")
		}
	}
	d := r.State.DKGs[0]
	verifsym.Assert(verifsym.And(d.Eon == 7, d.StartBatchIndex == k.State.DKGs[0].StartBatchIndex), "eon is kept")
	verifsym.Assert(verifsym.DeepEq(d.Keypers, vAddrs(n)), "keypers are kept")
	verifsym.Assert(d.PhaseLength == NewConstantPhaseLength(30), "phase lengths are kept")
	verifsym.Assert(r.State.LastEonStarted == 7, "started eons are kept")
	phase(puredkg.Finalized)
	a, e1 := k.State.DKGs[0].Pure.ComputeResult()
	b, e2 := d.Pure.ComputeResult()
	verifsym.Assert(vSameResult(a, b, e1, e2), "a restarted keyper computes the same result")
	if e1 == nil {
		verifsym.Reach("result")
	} else {
		verifsym.Reach("noresult")
	}
}

// VerifSaveCrash lets the machine crash, or a write fail, while the state is being saved.
func VerifSaveCrash() {
	vos.Reset()
	k := vKeyper()
	older := verifsym.Bool("saved before")
	k.State.SyncHeight = 1 + int64(verifsym.U32("height"))
	k.State.LastEonStarted = 1
	if older {
		verifsym.Assert(k.saveState() == nil, "state can be saved")
	}
	before := k.State.SyncHeight
	vos.Restart()
	k.State.SyncHeight = before + 1
	k.State.LastEonStarted = 2
	damage := verifsym.Choose("kind", 0, 2)
	at := verifsym.Choose("at", 0, 5)
	switch damage {
	case 0:
		verifsym.Assume(at == 0)
	case 1:
		vos.FailAt(at)
	case 2:
		vos.CrashAt(at)
	}
	err := k.saveState()
	if damage != 1 {
		verifsym.Assert(err == nil, "state can be saved")
	}
	if damage == 2 {
		vos.Recover()
	} else {
		vos.Restart()
	}
	n := vKeyper()
	e := n.LoadState()
	verifsym.Assert(e == nil, "the saved state is never damaged")
	switch n.State.LastEonStarted {
	case 0:
		verifsym.Assert(!older, "the saved state does not vanish")
		verifsym.Assert(damage != 0 && (damage != 1 || err != nil), "the state is saved")
		verifsym.Reach("none")
	case 1:
		verifsym.Assert(older, "only saved states are loaded")
		verifsym.Assert(damage != 0 && (damage != 1 || err != nil), "the state is saved")
		verifsym.Assert(n.State.SyncHeight == before, "the older state is complete")
		verifsym.Reach("older")
	default:
		verifsym.Assert(n.State.SyncHeight == before+1, "the newer state is complete")
		verifsym.Reach("newer")
	}
}

// VerifActionsCrash decides on actions in two steps, lets the machine crash somewhere and starts
// again: no action gets lost and none is scheduled twice.
func VerifActionsCrash() {
	vos.Reset()
	start := func() *Keyper {
		k := vKeyper()
		k.runenv = fx.NewRunEnv(nil, nil, k.CurrentWorld, k.pathActionsGob())
		return k
	}
	ctx := context.Background()
	k := start()
	var acts []fx.IAction
	step := func(n int) {
		var as []fx.IAction
		for i := 0; i < n; i++ {
			as = append(as, &fx.SkipCipherBatch{BatchIndex: verifsym.U64("batch")})
		}
		acts = append(acts, as...)
		k.State.Actions = as
		verifsym.Assert(k.saveState() == nil, "state can be saved")
		verifsym.Assert(k.runActions(ctx) == nil, "actions are run")
	}
	vos.CrashAt(verifsym.Choose("crash", 0, 20))
	step(verifsym.Choose("first", 0, 2))
	removed := fx.ActionID(99)
	if len(acts) > 0 && verifsym.Bool("remove") {
		removed = fx.ActionID(verifsym.Choose("removed", 0, len(acts)-1))
		k.runenv.PendingActions.RemoveAction(removed)
	}
	step(verifsym.Choose("second", 0, 2))
	if vos.Crashed() {
		verifsym.Reach("crash")
	}
	vos.Recover()
	k = start()
	verifsym.Assert(k.LoadState() == nil, "state can be loaded")
	verifsym.Assert(k.loadRunenv(ctx) == nil, "pending actions can be loaded")
	if len(k.State.Actions) > 0 {
		verifsym.Reach("again")
		verifsym.Assert(k.runActions(ctx) == nil, "actions are run")
	}
	total := fx.ActionID(k.State.ActionCounter)
	p := k.runenv.PendingActions
	verifsym.Assert(p.CurrentID == total, "action ids go on")
	n := 0
	for i := fx.ActionID(0); i < total; i++ {
		a, ok := p.ActionMap[i]
		if !ok {
			verifsym.Assert(i == removed, "no action gets lost")
			continue
		}
		n++
		verifsym.Assert(verifsym.DeepEq(a, acts[i]), "actions are kept")
	}
	verifsym.Assert(n == len(p.ActionMap), "no other actions are pending")
}

// VerifRestartState restarts a keyper with arbitrary recorded facts.
func VerifRestartState() {
	vos.Reset()
	k := vKeyper()
	st := k.State
	st.CheckInMessageSent = verifsym.Bool("checkin")
	st.LastSentBatchConfigIndex = verifsym.U64("config")
	st.LastEonStarted = verifsym.U64("eon")
	st.NextEpochSecretShare = verifsym.U64("share")
	st.HalfStepsChecked = verifsym.U64("checked")
	st.ActionCounter = verifsym.U64("counter")
	st.SyncHeight = int64(verifsym.U64("height"))
	if verifsym.Bool("pending") {
		h := verifsym.U64("halfstep")
		st.PendingHalfStep = &h
		verifsym.Reach("pending")
	}
	for i := verifsym.Choose("appeals", 0, 2); i > 0; i-- {
		st.PendingAppeals[verifsym.U64("appeal")] = struct{}{}
	}
	as := vAddrs(2)
	if verifsym.Bool("batch") {
		b := &Batch{
			BatchIndex:               verifsym.U64("index"),
			DecryptionSignatureHash:  verifsym.Bytes("hash", 32),
			DecryptedTransactions:    [][]byte{verifsym.Bytes("tx", 2), {}, verifsym.Bytes("tx", 1)},
			DecryptedBatchHash:       verifsym.Bytes("batchhash", 32),
			DecryptionSignatureIndex: verifsym.Int("sigindex"),
			IsEmpty:                  verifsym.Bool("empty"),
		}
		for i := verifsym.Choose("signatures", 0, 2); i > 0; i-- {
			b.AddSignature(as[i-1], verifsym.Bytes("signature", 65))
		}
		st.Batches[b.BatchIndex] = b
	}
	st.Actions = []fx.IAction{
		&fx.ExecuteCipherBatch{BatchIndex: verifsym.U64("a"), Transactions: [][]byte{verifsym.Bytes("tx", 2), {}}, KeyperIndex: verifsym.U64("a"), TransactionGasLimit: verifsym.U64("a")},
		&fx.Accuse{HalfStep: verifsym.U64("a"), KeyperIndex: verifsym.U64("a")},
		&fx.SkipCipherBatch{BatchIndex: verifsym.U64("a")},
	}
	for i := verifsym.Choose("unchecked", 0, 1); i > 0; i-- {
		st.UncheckedHalfSteps = append(st.UncheckedHalfSteps, verifsym.U64("unchecked"))
	}
	verifsym.Assume(st.SyncHeight > 0)
	n := vReload(k).State
	verifsym.Assert(len(n.UncheckedHalfSteps) == len(st.UncheckedHalfSteps), "unchecked half steps are remembered")
	for i := range st.UncheckedHalfSteps {
		verifsym.Assert(n.UncheckedHalfSteps[i] == st.UncheckedHalfSteps[i], "unchecked half steps are remembered")
	}
	verifsym.Assert(n.CheckInMessageSent == st.CheckInMessageSent, "check-in is remembered")
	verifsym.Assert(n.LastSentBatchConfigIndex == st.LastSentBatchConfigIndex, "sent batch config is remembered")
	verifsym.Assert(n.LastEonStarted == st.LastEonStarted, "started eons are remembered")
	verifsym.Assert(n.NextEpochSecretShare == st.NextEpochSecretShare, "published shares are remembered")
	verifsym.Assert(n.HalfStepsChecked == st.HalfStepsChecked, "checked half steps are remembered")
	verifsym.Assert(n.ActionCounter == st.ActionCounter, "action counter is remembered")
	verifsym.Assert(n.SyncHeight == st.SyncHeight, "sync height is remembered")
	verifsym.Assert((n.PendingHalfStep == nil) == (st.PendingHalfStep == nil), "pending half step is remembered")
	if st.PendingHalfStep != nil {
		verifsym.Assert(*n.PendingHalfStep == *st.PendingHalfStep, "pending half step is kept")
	}
	verifsym.Assert(len(n.PendingAppeals) == len(st.PendingAppeals), "pending appeals are kept")
	for h := range st.PendingAppeals {
		_, ok := n.PendingAppeals[h]
		verifsym.Assert(ok, "pending appeal is kept")
	}
	verifsym.Assert(len(n.Batches) == len(st.Batches), "batches are kept")
	for i, b := range st.Batches {
		m := n.Batches[i]
		verifsym.Assert(m != nil, "batch is kept")
		verifsym.Assert(verifsym.And(m.BatchIndex == b.BatchIndex, m.IsEmpty == b.IsEmpty), "batch is unchanged")
		verifsym.Assert(verifsym.DeepEq(m.DecryptionSignatureHash, b.DecryptionSignatureHash), "signed hash is kept")
		verifsym.Assert(verifsym.DeepEq(m.DecryptedBatchHash, b.DecryptedBatchHash), "batch hash is kept")
		verifsym.Assert(m.DecryptionSignatureIndex == b.DecryptionSignatureIndex, "signature index is kept")
		verifsym.Assert(len(m.DecryptedTransactions) == len(b.DecryptedTransactions), "transactions are kept")
		for j, tx := range b.DecryptedTransactions {
			verifsym.Assert(string(tx) == string(m.DecryptedTransactions[j]), "transaction is kept")
		}
		verifsym.Assert(len(m.VerifiedSignatures) == len(b.VerifiedSignatures), "signatures are kept")
		for a, s := range b.VerifiedSignatures {
			verifsym.Assert(string(s) == string(m.VerifiedSignatures[a]), "signature is kept")
		}
	}
	verifsym.Assert(len(n.Actions) == 3, "actions are kept")
	e := n.Actions[0].(*fx.ExecuteCipherBatch)
	o := st.Actions[0].(*fx.ExecuteCipherBatch)
	verifsym.Assert(verifsym.And(e.BatchIndex == o.BatchIndex, verifsym.And(e.KeyperIndex == o.KeyperIndex, e.TransactionGasLimit == o.TransactionGasLimit)), "action is kept")
	verifsym.Assert(len(e.Transactions) == 2 && string(e.Transactions[0]) == string(o.Transactions[0]) && len(e.Transactions[1]) == 0, "transactions of the action are kept")
	verifsym.Assert(verifsym.DeepEq(n.Actions[1], st.Actions[1]), "accusation is kept")
	verifsym.Assert(verifsym.DeepEq(n.Actions[2], st.Actions[2]), "skipping is kept")
	verifsym.Reach("kept")
}
