package puredkg

import (
	"math/big"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"VERIFMODULE/verifsym"
)

var vOrder, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

func vPoly(name string, n int) *shcrypto.Polynomial {
	var cs []*big.Int
	for i := 0; i < n; i++ {
		cs = append(cs, verifsym.Fq(name, vOrder))
	}
	p, err := shcrypto.NewPolynomial(cs)
	if err != nil {
		verifsym.Assert(false, "polynomial-in-range-accepted")
	}
	return p
}

func vAddMod(a, b *big.Int) *big.Int {
	r := new(big.Int).Add(a, b)
	return r.Mod(r, vOrder)
}

// vNonzero returns an arbitrary element other than 0.
func vNonzero(name string) *big.Int {
	d := verifsym.Fq(name, vOrder)
	verifsym.Assume(d.Sign() != 0)
	return d
}

func vPointOf(k *big.Int) *shcrypto.EonPublicKeyShare {
	p, err := shcrypto.NewPolynomial([]*big.Int{k})
	if err != nil {
		panic(err)
	}
	return shcrypto.ComputeEonPublicKeyShare(0, []*shcrypto.Gammas{p.Gammas()})
}

// vState is an arbitrary state of one keyper, with the values behind it.
type vState struct {
	pure  PureDKG
	polys []*shcrypto.Polynomial
}

func vArbitrary(n int, t uint64, keyper uint64, phase Phase) *vState {
	s := &vState{pure: NewPureDKG(verifsym.U64("eon"), uint64(n), t, keyper)}
	s.pure.Phase = phase
	for i := 0; i < n; i++ {
		p := vPoly("coefficient", int(t))
		s.polys = append(s.polys, p)
		if verifsym.Choose("committed", 0, 1) == 1 {
			s.pure.Commitments[i] = p.Gammas()
		}
		switch verifsym.Choose("eval", 0, 2) {
		case 1:
			s.pure.Evals[i] = p.EvalForKeyper(int(keyper))
		case 2:
			s.pure.Evals[i] = vAddMod(p.EvalForKeyper(int(keyper)), vNonzero("delta"))
		}
	}
	s.pure.Polynomial = s.polys[keyper]
	return s
}

type vSnap struct {
	phase       Phase
	commitments []*shcrypto.Gammas
	evals       []*big.Int
	acc         map[accusationKey]bool
	apo         map[accusationKey]*big.Int
}

func vSnapshot(p *PureDKG) vSnap {
	s := vSnap{phase: p.Phase, acc: map[accusationKey]bool{}, apo: map[accusationKey]*big.Int{}}
	s.commitments = append(s.commitments, p.Commitments...)
	s.evals = append(s.evals, p.Evals...)
	for k := range p.Accusations {
		s.acc[k] = true
	}
	for k, v := range p.Apologies {
		s.apo[k] = v
	}
	return s
}

// vUnchanged compares with a snapshot, leaving out what exempt names.
func vUnchanged(p *PureDKG, s vSnap, exempt string, key accusationKey) bool {
	ok := p.Phase == s.phase && len(p.Commitments) == len(s.commitments) && len(p.Evals) == len(s.evals)
	for i := range s.commitments {
		if exempt == "commitment" && uint64(i) == key.Accused {
			continue
		}
		ok = ok && p.Commitments[i] == s.commitments[i]
	}
	for i := range s.evals {
		if exempt == "eval" && uint64(i) == key.Accused {
			continue
		}
		ok = ok && p.Evals[i] == s.evals[i]
	}
	na, np := len(s.acc), len(s.apo)
	if exempt == "accusation" {
		na++
	}
	if exempt == "apology" {
		np++
	}
	ok = ok && len(p.Accusations) == na && len(p.Apologies) == np
	for k := range s.acc {
		_, in := p.Accusations[k]
		ok = ok && in
	}
	for k, v := range s.apo {
		ok = ok && p.Apologies[k] == v
	}
	return ok
}

func vAnyEval(name string) *big.Int {
	e := verifsym.Big(name, 257)
	if verifsym.Choose("negative", 0, 1) == 1 {
		verifsym.Assume(e.Sign() != 0)
		e = new(big.Int).Neg(e)
	}
	return e
}

// VerifMessages: each message is recorded exactly if it is valid in the current state, and changes
// nothing else.
func VerifMessages() {
	n := verifsym.Choose("n", 1, 2)
	keyper := uint64(verifsym.Choose("keyper", 0, n-1))
	t := uint64(verifsym.Choose("threshold", 1, n))
	phase := Phase(verifsym.Choose("phase", int(Off), int(Finalized)))
	s := vArbitrary(n, t, keyper, phase)
	p := &s.pure
	a := uint64(verifsym.Choose("a", 0, n-1))
	b := uint64(verifsym.Choose("b", 0, n-1))
	key := accusationKey{Accuser: a, Accused: b}
	old := verifsym.Choose("recorded", 0, 2)
	if old >= 1 {
		p.Accusations[key] = struct{}{}
	}
	if old >= 2 {
		p.Apologies[key] = verifsym.Fq("recorded apology", vOrder)
	}
	before := vSnapshot(p)
	eon := verifsym.U64("message eon")
	inRange := func(e *big.Int) bool { return verifsym.And(e.Sign() >= 0, e.Cmp(vOrder) < 0) }
	switch verifsym.Choose("message", 0, 3) {
	case 0:
		d := verifsym.Choose("coefficients", 1, int(t)+1)
		g := vPoly("message coefficient", d).Gammas()
		err := p.HandlePolyCommitmentMsg(PolyCommitmentMsg{Eon: eon, Sender: b, Gammas: g})
		want := verifsym.And(eon == p.Eon, phase <= Dealing, before.commitments[b] == nil, uint64(d) == t)
		verifsym.Assert((err == nil) == want, "commitment-accepted-iff-valid")
		if err == nil {
			verifsym.Assert(p.Commitments[b] == g, "commitment-recorded")
			verifsym.Assert(vUnchanged(p, before, "commitment", key), "commitment-changes-nothing-else")
			verifsym.Reach("commitment")
			return
		}
	case 1:
		e := vAnyEval("message eval")
		r := verifsym.U64("receiver")
		err := p.HandlePolyEvalMsg(PolyEvalMsg{Eon: eon, Sender: b, Receiver: r, Eval: e})
		want := verifsym.And(eon == p.Eon, phase <= Dealing, r == keyper, before.evals[b] == nil, inRange(e))
		verifsym.Assert((err == nil) == want, "eval-accepted-iff-valid")
		if err == nil {
			verifsym.Assert(p.Evals[b].Cmp(e) == 0, "eval-recorded")
			verifsym.Assert(vUnchanged(p, before, "eval", key), "eval-changes-nothing-else")
			verifsym.Reach("eval")
			return
		}
	case 2:
		err := p.HandleAccusationMsg(AccusationMsg{Eon: eon, Accuser: a, Accused: b})
		want := verifsym.And(eon == p.Eon, phase <= Accusing, !before.acc[key])
		verifsym.Assert((err == nil) == want, "accusation-accepted-iff-valid")
		if err == nil {
			_, in := p.Accusations[key]
			verifsym.Assert(in, "accusation-recorded")
			verifsym.Assert(vUnchanged(p, before, "accusation", key), "accusation-changes-nothing-else")
			verifsym.Reach("accusation")
			return
		}
	case 3:
		e := vAnyEval("message eval")
		err := p.HandleApologyMsg(ApologyMsg{Eon: eon, Accuser: a, Accused: b, Eval: e})
		want := verifsym.And(eon == p.Eon, phase <= Apologizing, before.apo[key] == nil, inRange(e))
		verifsym.Assert((err == nil) == want, "apology-accepted-iff-valid")
		if err == nil {
			verifsym.Assert(p.Apologies[key].Cmp(e) == 0, "apology-recorded")
			verifsym.Assert(vUnchanged(p, before, "apology", key), "apology-changes-nothing-else")
			verifsym.Reach("apology")
			return
		}
	}
	verifsym.Assert(vUnchanged(p, before, "", key), "rejected-message-changes-nothing")
	verifsym.Reach("rejected")
}

// vPanics tells whether f panics.
func vPanics(f func()) (res bool) {
	defer func() {
		if recover() != nil {
			res = true
		}
	}()
	f()
	return false
}

// VerifPhases: what a keyper sends at the start of each phase.
func VerifPhases() {
	n := verifsym.Choose("n", 1, 3)
	keyper := uint64(verifsym.Choose("keyper", 0, n-1))
	t := uint64(verifsym.Choose("threshold", 1, n))
	verifsym.UseRand()
	switch verifsym.Choose("phase", 1, 4) {
	case 1:
		p := NewPureDKG(verifsym.U64("eon"), uint64(n), t, keyper)
		c, evals, err := p.StartPhase1Dealing()
		verifsym.Assert(err == nil && p.Phase == Dealing, "dealing-starts")
		verifsym.Assert(c.Eon == p.Eon && c.Sender == keyper, "commitment-sender")
		verifsym.Assert(c.Gammas.Degree() == t-1, "commitment-degree")
		verifsym.Assert(len(evals) == n-1, "one-eval-for-everyone-else")
		seen := map[uint64]bool{}
		for _, e := range evals {
			verifsym.Assert(e.Eon == p.Eon && e.Sender == keyper && e.Receiver != keyper && e.Receiver < uint64(n) && !seen[e.Receiver], "eval-addressed")
			seen[e.Receiver] = true
			verifsym.Assert(shcrypto.VerifyPolyEval(int(e.Receiver), e.Eval, c.Gammas, t), "eval-belongs-to-the-commitment")
			q := NewPureDKG(p.Eon, uint64(n), t, e.Receiver)
			verifsym.Assert(q.HandlePolyCommitmentMsg(c) == nil && q.HandlePolyEvalMsg(e) == nil, "receiver-accepts")
		}
		verifsym.Assert(p.Evals[keyper] != nil && shcrypto.VerifyPolyEval(int(keyper), p.Evals[keyper], c.Gammas, t), "own-eval-kept")
		verifsym.Reach("dealing")
	case 2:
		s := vArbitrary(n, t, keyper, Dealing)
		p := &s.pure
		acc := p.StartPhase2Accusing()
		verifsym.Assert(p.Phase == Accusing, "accusing-starts")
		accused := make([]bool, n)
		for _, a := range acc {
			verifsym.Assert(a.Eon == p.Eon && a.Accuser == keyper && a.Accused < uint64(n) && !accused[a.Accused], "accusation-form")
			accused[a.Accused] = true
		}
		for i := 0; i < n; i++ {
			good := p.Commitments[i] != nil && p.Evals[i] != nil && p.Evals[i].Cmp(s.polys[i].EvalForKeyper(int(keyper))) == 0
			verifsym.Assert(accused[i] == (!good && uint64(i) != keyper), "accuses-exactly-the-faulty-dealers")
		}
		verifsym.Reach("accusing")
	case 3:
		s := vArbitrary(n, t, keyper, Accusing)
		p := &s.pure
		want := make([]bool, n)
		count := 0
		for i := 0; i < n; i++ {
			switch verifsym.Choose("accusation", 0, 2) {
			case 1:
				p.Accusations[accusationKey{Accuser: uint64(i), Accused: keyper}] = struct{}{}
				want[i] = true
				count++
			case 2:
				p.Accusations[accusationKey{Accuser: uint64(i), Accused: (keyper + 1) % uint64(n)}] = struct{}{}
				if n == 1 {
					want[i] = true
					count++
				}
			}
		}
		apo := p.StartPhase3Apologizing()
		verifsym.Assert(p.Phase == Apologizing, "apologizing-starts")
		verifsym.Assert(len(apo) == count, "one-apology-for-every-accusation")
		for _, a := range apo {
			verifsym.Assert(a.Eon == p.Eon && a.Accused == keyper && a.Accuser < uint64(n) && want[a.Accuser], "apology-form")
			want[a.Accuser] = false
			verifsym.Assert(shcrypto.VerifyPolyEval(int(a.Accuser), a.Eval, s.polys[keyper].Gammas(), t), "apology-reveals-the-evaluation")
		}
		verifsym.Reach("apologizing")
	case 4:
		s := vArbitrary(1, 1, 0, Phase(verifsym.Choose("from", int(Off), int(Finalized))))
		p := &s.pure
		from := p.Phase
		to := Phase(verifsym.Choose("to", int(Dealing), int(Finalized)))
		r := vPanics(func() {
			switch to {
			case Dealing:
				p.Evals[0] = nil
				_, _, _ = p.StartPhase1Dealing()
			case Accusing:
				p.StartPhase2Accusing()
			case Apologizing:
				p.StartPhase3Apologizing()
			case Finalized:
				p.Finalize()
			}
		})
		verifsym.Assert(r == (to != from+1), "phases-in-order")
		verifsym.Assert(r || p.Phase == to, "phase-reached")
		if from != Finalized && p.Phase != Finalized {
			_, err := p.ComputeResult()
			verifsym.Assert(err != nil, "no-result-before-the-end")
		}
		verifsym.Reach("order")
	}
}

// VerifAgreement: honest keypers run the protocol with faulty ones over a channel that delivers the
// broadcast messages to everyone.
func VerifAgreement() {
	max := 3
	if verifsym.Tier() > 0 {
		max = 4
	}
	n := verifsym.Choose("n", 2, max)
	t := uint64(verifsym.Choose("threshold", 1, n))
	bad := n - 1 // the faulty keyper
	verifsym.UseRand()
	eon := verifsym.U64("eon")
	var ks []*PureDKG
	for i := 0; i < bad; i++ {
		p := NewPureDKG(eon, uint64(n), t, uint64(i))
		ks = append(ks, &p)
	}
	ok := func(err error) { verifsym.Assert(err == nil, "honest-messages-accepted") }

	// dealing
	for _, k := range ks {
		c, evals, err := k.StartPhase1Dealing()
		ok(err)
		for _, r := range ks {
			ok(r.HandlePolyCommitmentMsg(c))
		}
		for _, e := range evals {
			if int(e.Receiver) < bad {
				ok(ks[e.Receiver].HandlePolyEvalMsg(e))
			}
		}
	}
	poly := vPoly("faulty coefficient", int(t))
	committed := verifsym.Choose("commitment", 0, 1) == 1
	if committed {
		for _, r := range ks {
			ok(r.HandlePolyCommitmentMsg(PolyCommitmentMsg{Eon: eon, Sender: uint64(bad), Gammas: poly.Gammas()}))
		}
	}
	rightEval := make([]bool, bad)
	for i, r := range ks {
		e := poly.EvalForKeyper(i)
		switch verifsym.Choose("eval", 0, 2) {
		case 1:
			rightEval[i] = true
		case 2:
			e = vAddMod(e, vNonzero("delta"))
		default:
			continue
		}
		ok(r.HandlePolyEvalMsg(PolyEvalMsg{Eon: eon, Sender: uint64(bad), Receiver: uint64(i), Eval: e}))
	}

	// accusing
	var accs []AccusationMsg
	for i, k := range ks {
		for _, a := range k.StartPhase2Accusing() {
			verifsym.Assert(int(a.Accused) == bad && !(committed && rightEval[i]), "only-the-faulty-keyper-accused")
			if verifsym.Choose("accusation lost", 0, 1) == 0 {
				accs = append(accs, a)
			}
		}
	}
	for i := 0; i < bad; i++ {
		if verifsym.Choose("faulty accusation", 0, 1) == 1 {
			accs = append(accs, AccusationMsg{Eon: eon, Accuser: uint64(bad), Accused: uint64(i)})
		}
	}
	for _, a := range accs {
		for _, r := range ks {
			ok(r.HandleAccusationMsg(a))
		}
	}

	// apologizing
	var apos []ApologyMsg
	for _, k := range ks {
		apos = append(apos, k.StartPhase3Apologizing()...)
	}
	badApology, missingApology := false, false
	for i := 0; i < bad; i++ {
		accused := false
		for _, a := range accs {
			accused = accused || (int(a.Accuser) == i && int(a.Accused) == bad)
		}
		e := poly.EvalForKeyper(i)
		switch verifsym.Choose("apology", 0, 2) {
		case 0:
			missingApology = missingApology || accused
			continue
		case 2:
			badApology = true
			e = vAddMod(e, vNonzero("apology delta"))
		}
		apos = append(apos, ApologyMsg{Eon: eon, Accuser: uint64(i), Accused: uint64(bad), Eval: e})
	}
	for _, a := range apos {
		for _, r := range ks {
			ok(r.HandleApologyMsg(a))
		}
	}
	qualified := committed && !badApology && !missingApology

	// results
	secret := big.NewInt(0)
	participants := bad
	for _, k := range ks {
		secret = vAddMod(secret, k.Polynomial.Eval(big.NewInt(0)))
	}
	if qualified {
		participants++
		secret = vAddMod(secret, poly.Eval(big.NewInt(0)))
	}
	var first *Result
	for i, k := range ks {
		k.Finalize()
		r, err := k.ComputeResult()
		// a keyper cannot go on with an invalid evaluation of a dealer everyone else accepts
		has := rightEval[i]
		for _, a := range apos {
			if int(a.Accused) == bad && int(a.Accuser) == i {
				has = true // valid, otherwise the dealer is not qualified
			}
		}
		want := uint64(participants) >= t && (!qualified || has)
		verifsym.Assert((err == nil) == want, "result-iff-enough-participants-and-own-evaluation-valid")
		if err != nil {
			verifsym.Reach("failed")
			continue
		}
		verifsym.Assert(r.Eon == eon && r.NumKeypers == uint64(n) && r.Threshold == t && r.Keyper == uint64(i), "result-parameters")
		sp := vPointOf(secret)
		verifsym.Assert(r.PublicKey.Equal((*shcrypto.EonPublicKey)(sp)), "public-key-of-the-qualified-dealers")
		verifsym.Assert(len(r.PublicKeyShares) == n, "a-share-for-everyone")
		verifsym.Assert(r.PublicKeyShares[i].Equal(vPointOf((*big.Int)(r.SecretKeyShare))), "secret-share-belongs-to-the-public-share")
		if first != nil {
			verifsym.Assert(r.PublicKey.Equal(first.PublicKey), "same-public-key")
			for j := range r.PublicKeyShares {
				verifsym.Assert(r.PublicKeyShares[j].Equal(first.PublicKeyShares[j]), "same-public-key-shares")
			}
		}
		rr := r
		first = &rr
		verifsym.Reach("agreed")
	}
}
