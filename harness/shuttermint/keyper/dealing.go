package keyper

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"runtime/debug"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"VERIFMODULE/verifsym"
)

// Symbolic execution replaces ecies by an ideal scheme: only the receiver can decrypt what was
// encrypted for them, everything else is refused.

func vECIESEncrypt(_ io.Reader, pub *ecies.PublicKey, m, s1, s2 []byte) ([]byte, error) {
	for i := 100; i < 104; i++ {
		if vSecret(i).PublicKey.X.Cmp(pub.X) == 0 {
			return append([]byte{0xec, byte(i), byte(len(s1) + len(s2))}, m...), nil
		}
	}
	return nil, errors.New("invalid key")
}

func vECIESDecrypt(prv *ecies.PrivateKey, c, s1, s2 []byte) ([]byte, error) {
	if len(c) < 3 || c[0] != 0xec || prv.D.Cmp(vSecret(int(c[1])).D) != 0 || int(c[2]) != len(s1)+len(s2) {
		return nil, errors.New("invalid message")
	}
	return c[3:], nil
}

// vBytes replaces (*big.Int).Bytes: it keeps leading zeros, which makes no difference for those
// who read the number again.
func vBytes(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

func vEncryptionKey(i int) *observe.EncryptionPublicKey {
	return (*observe.EncryptionPublicKey)(&ecies.ImportECDSA(vSecret(100 + i)).PublicKey)
}

// vDKGChain is what happened on the shuttermint chain.
type vDKGChain struct {
	eon      observe.Eon
	keysFrom [3]int64 // height from which on the encryption keys are known
}

// at is the view at a height.
func (c *vDKGChain) at(h int64) *observe.Shutter {
	sh := observe.NewShutter()
	sh.CurrentBlock = h
	sh.BatchConfigs = []shutterevents.BatchConfig{{Keypers: vSigners(1, 0, 2), Threshold: 2}}
	if h < c.eon.StartHeight {
		return sh
	}
	e := observe.Eon{Eon: c.eon.Eon, StartHeight: c.eon.StartHeight, StartEvent: c.eon.StartEvent}
	for _, m := range c.eon.Commitments {
		if m.Height <= h {
			e.Commitments = append(e.Commitments, m)
		}
	}
	for _, m := range c.eon.PolyEvals {
		if m.Height <= h {
			e.PolyEvals = append(e.PolyEvals, m)
		}
	}
	for _, m := range c.eon.Accusations {
		if m.Height <= h {
			e.Accusations = append(e.Accusations, m)
		}
	}
	for _, m := range c.eon.Apologies {
		if m.Height <= h {
			e.Apologies = append(e.Apologies, m)
		}
	}
	sh.Eons = []observe.Eon{e}
	for i, from := range c.keysFrom {
		if from <= h {
			sh.KeyperEncryptionKeys[vSigner(i)] = vEncryptionKey(i)
		}
	}
	return sh
}

// vReader is the source of randomness of native replays: the coefficients of the polynomial are
// inputs of the replay, but not what ecies draws.
type vReader struct {
	left         int
	inputs, rest io.Reader
}

func (r *vReader) Read(b []byte) (int, error) {
	if r.left == 0 || strings.Contains(string(debug.Stack()), "crypto/ecies.") {
		return r.rest.Read(b)
	}
	r.left--
	return r.inputs.Read(b)
}

// VerifDealing runs a key generation of a keyper who looks at the chain at some heights only.
func VerifDealing() {
	random := rand.Reader
	verifsym.UseRand()
	if !verifsym.Symbolic() {
		rand.Reader = &vReader{left: 2, inputs: rand.Reader, rest: random}
	}
	const (
		start  = 10 // dealing: 10, 11; accusing: 12, 13; apologizing: 14, 15
		length = 2
		eon    = 5
	)
	k := vStart()
	k.Config.DKGPhaseLength = length
	k.CurrentWorld().MainChain.BatchConfigs = []contract.BatchConfig{{}}
	batch := uint64(verifsym.U32("batch"))
	keypers := vSigners(1, 0, 2)
	index := map[common.Address]uint64{keypers[0]: 0, keypers[1]: 1, keypers[2]: 2}
	self := keypers[1]
	chain := &vDKGChain{eon: observe.Eon{Eon: eon, StartHeight: start, StartEvent: shutterevents.EonStarted{Height: start, Eon: eon, BatchIndex: batch}}}
	chain.keysFrom[2] = []int64{5, 11, 12}[verifsym.Choose("key known", 0, 1+verifsym.Tier())]

	// keyper 2 follows the rules, keyper 1 perhaps doesn't
	p2, p1 := vPoly("two", 1), vPoly("one", 1)
	encrypted := func(e *big.Int) []byte {
		r, err := vEncryptionKey(0).Encrypt(random, e.Bytes())
		if err != nil {
			panic(err)
		}
		return r
	}
	commit := func(h int64, from int, p *shcrypto.Polynomial) {
		chain.eon.Commitments = append(chain.eon.Commitments, shutterevents.PolyCommitment{Height: h, Eon: eon, Sender: vSigner(from), Gammas: p.Gammas()})
	}
	evals := func(h int64, from int, e []byte) {
		chain.eon.PolyEvals = append(chain.eon.PolyEvals, shutterevents.PolyEval{
			Height: h, Eon: eon, Sender: vSigner(from), Receivers: []common.Address{vSigner(3 - from), self}, EncryptedEvals: [][]byte{{1}, e},
		})
	}
	accuse := func(h int64, from common.Address, accused ...common.Address) {
		chain.eon.Accusations = append(chain.eon.Accusations, shutterevents.Accusation{Height: h, Eon: eon, Sender: from, Accused: accused})
	}
	apologize := func(h int64, from common.Address, e *big.Int, accusers ...common.Address) {
		m := shutterevents.Apology{Height: h, Eon: eon, Sender: from, Accusers: accusers}
		for range accusers {
			m.PolyEval = append(m.PolyEval, e)
		}
		chain.eon.Apologies = append(chain.eon.Apologies, m)
	}
	commitHeight := 11 + int64(verifsym.Choose("commitment", 0, 1))
	evalKind := verifsym.Choose("evaluation", 0, 3)
	accuseHeight := []int64{0, 11, 12, 13, 14}[verifsym.Choose("accusation", 0, 4)]
	apologyHeight := []int64{0, 13, 14, 15, 16}[verifsym.Choose("apology", 0, 4)]
	var sentEval *big.Int
	// next lets the other keypers act at a height.
	next := func(h int64) {
		switch h {
		case 10:
			commit(h, 2, p2)
			evals(h, 2, encrypted(p2.EvalForKeyper(1)))
		case 11:
			if evalKind == 0 {
				sentEval = vEval("evaluation")
				evals(h, 1, encrypted(sentEval))
			} else if evalKind == 1 {
				evals(h, 1, []byte{0, 1, 2, 3})
			}
		case 12:
			if evalKind == 2 {
				evals(h, 1, encrypted(p1.EvalForKeyper(1)))
			}
		}
		if h == commitHeight {
			commit(h, 1, p1)
		}
		if h == accuseHeight {
			accuse(h, vSigner(1), self)
		}
		if h == apologyHeight {
			apologize(h, vSigner(1), vEval("apology"), self)
		}
	}

	first := 10 + int64(verifsym.Choose("first", 0, 2+verifsym.Tier()))
	second := first + 1 + int64(verifsym.Choose("second", 0, 3+verifsym.Tier()))
	end := int64(17) // the first poll after the phases
	for _, h := range []int64{first, second} {
		if h+1 >= start+3*length && h < end {
			end = h
		}
	}
	polls := map[int64]bool{first: true, second: true, 17: true, 18: true}
	var committed, voted, broadcast int
	var accused, apologized bool
	sentTo := map[common.Address]int{}
	var own *puredkg.PureDKG
	for h := int64(start); h <= 18; h++ {
		next(h)
		if !polls[h] {
			continue
		}
		sh := chain.at(h)
		mc := k.CurrentWorld().MainChain
		k.world.Store(observe.World{Shutter: sh, MainChain: mc})
		vFilter(k)
		acts := vDecide(k)
		if own == nil {
			verifsym.Assert(len(k.State.DKGs) == 1, "the key generation is joined")
			own = k.State.DKGs[0].Pure
			verifsym.Assert(own != nil && own.Keyper == 1 && own.NumKeypers == 3 && own.Threshold == 2 && own.Eon == eon, "the key generation is joined with the right parameters")
		}
		gammas := own.Polynomial.Gammas()
		for _, a := range acts {
			if b, ok := a.(*fx.EonKeyBroadcast); ok {
				broadcast++
				verifsym.Assert(h == end, "the key is published at the end")
				verifsym.Assert(verifsym.And(b.KeyperIndex == 1, b.StartBatchIndex == batch), "the key is published for the right batches")
				continue
			}
			s, ok := a.(*fx.SendShuttermintMessage)
			verifsym.Assert(ok, "only messages of the key generation are sent")
			if m := s.Msg.GetPolyCommitment(); m != nil {
				committed++
				verifsym.Assert(h+1 < start+length, "the commitment is sent in time")
				same := verifsym.And(m.Eon == eon, len(m.Gammas) == 2)
				for i := range m.Gammas {
					same = verifsym.And(same, bytes.Equal(m.Gammas[i], (*gammas)[i].Marshal()))
				}
				verifsym.Assert(same, "the commitment is that of the polynomial")
				chain.eon.Commitments = append(chain.eon.Commitments, shutterevents.PolyCommitment{Height: h + 1, Eon: eon, Sender: self, Gammas: gammas})
			} else if m := s.Msg.GetPolyEval(); m != nil {
				verifsym.Assert(h+1 < start+length, "evaluations are sent in time")
				verifsym.Assert(m.Eon == eon && len(m.Receivers) == len(m.EncryptedEvals), "evaluations are for this eon")
				for i, r := range m.Receivers {
					addr := common.BytesToAddress(r)
					sentTo[addr]++
					for j := 1; j <= 2; j++ {
						if addr != vSigner(j) {
							continue
						}
						plain, err := ecies.ImportECDSA(vSecret(100+j)).Decrypt(m.EncryptedEvals[i], nil, nil)
						verifsym.Assert(err == nil, "evaluations can be decrypted by their receivers")
						verifsym.Assert(new(big.Int).SetBytes(plain).Cmp(own.Polynomial.EvalForKeyper(int(index[addr]))) == 0, "evaluations are those of the receivers")
						verifsym.Reach("evaluation")
					}
				}
			} else if m := s.Msg.GetAccusation(); m != nil {
				verifsym.Assert(!accused, "accusations are sent once")
				accused = true
				verifsym.Assert(h+1 >= start+length && h+1 < start+2*length, "accusations are sent in time")
				verifsym.Assert(m.Eon == eon && len(m.Accused) == 1 && common.BytesToAddress(m.Accused[0]) == vSigner(1), "those who dealt badly are accused")
				accuse(h+1, self, vSigner(1))
				verifsym.Reach("accused")
			} else if m := s.Msg.GetApology(); m != nil {
				verifsym.Assert(!apologized, "apologies are sent once")
				apologized = true
				verifsym.Assert(h+1 >= start+2*length && h+1 < start+3*length, "apologies are sent in time")
				verifsym.Assert(m.Eon == eon && len(m.Accusers) == 1 && common.BytesToAddress(m.Accusers[0]) == vSigner(1), "apologies are for the accusers")
				e := new(big.Int).SetBytes(m.PolyEvals[0])
				verifsym.Assert(e.Cmp(own.Polynomial.EvalForKeyper(0)) == 0, "apologies hold the evaluation of the accuser")
				apologize(h+1, self, e, vSigner(1))
				verifsym.Reach("apology")
			} else if m := s.Msg.GetEonStartVote(); m != nil {
				voted++
				verifsym.Assert(h == end, "another try is asked for at the end")
				verifsym.Assert(m.StartBatchIndex == batch, "another try is asked for")
			} else {
				verifsym.Assert(false, "only messages of the key generation are sent")
			}
		}
		// what had to be sent by now
		if h+1 < start+length {
			verifsym.Assert(committed == 1, "the commitment is sent")
			for i := 1; i <= 2; i++ {
				if chain.keysFrom[i] <= h {
					verifsym.Assert(sentTo[vSigner(i)] == 1, "evaluations are sent once")
				}
			}
		}
	}
	verifsym.Assert(committed <= 1 && sentTo[vSigner(1)] <= 1 && sentTo[vSigner(2)] <= 1 && len(sentTo) <= 2, "commitment and evaluations are sent once")

	// the same generation, fed with all of its messages in order
	ref := puredkg.NewPureDKG(eon, 3, 2, 1)
	ref.Phase = puredkg.Dealing
	ref.Polynomial = own.Polynomial
	ref.Evals[1] = own.Polynomial.EvalForKeyper(1)
	for _, m := range chain.eon.Commitments {
		if m.Height < 12 {
			ok := ref.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: eon, Sender: index[m.Sender], Gammas: m.Gammas})
			verifsym.Assert(ok == nil, "commitments are taken")
		}
	}
	ref.Evals[2] = p2.EvalForKeyper(1)
	if evalKind == 0 {
		ref.Evals[0] = sentEval
	}
	expectAccused := len(ref.StartPhase2Accusing()) > 0
	if polls[11] || polls[12] {
		verifsym.Assert(accused == expectAccused, "those who dealt badly are accused")
	} else {
		verifsym.Assert(!accused, "accusations are sent in time")
	}
	for _, m := range chain.eon.Accusations {
		if m.Height >= 12 && m.Height < 14 {
			ok := ref.HandleAccusationMsg(puredkg.AccusationMsg{Eon: eon, Accuser: index[m.Sender], Accused: index[m.Accused[0]]})
			verifsym.Assert(ok == nil, "accusations are taken")
		}
	}
	expectApology := len(ref.StartPhase3Apologizing()) > 0
	if polls[13] || polls[14] {
		verifsym.Assert(apologized == expectApology, "accusations are answered")
	} else {
		verifsym.Assert(!apologized, "apologies are sent in time")
	}
	for _, m := range chain.eon.Apologies {
		if m.Height >= 14 && m.Height < 16 {
			ok := ref.HandleApologyMsg(puredkg.ApologyMsg{Eon: eon, Accuser: index[m.Accusers[0]], Accused: index[m.Sender], Eval: m.PolyEval[0]})
			verifsym.Assert(ok == nil, "apologies are taken")
		}
	}
	ref.Finalize()
	want, e1 := ref.ComputeResult()
	got, e2 := own.ComputeResult()
	verifsym.Assert(vSameResult(want, got, e1, e2), "the result does not depend on when the chain is looked at")
	if e1 != nil {
		verifsym.Assert(voted == 1 && broadcast == 0 && len(k.State.EKGs) == 0, "a failed key generation is to be tried again")
		verifsym.Reach("failed")
		return
	}
	verifsym.Assert(voted == 0 && broadcast == 1, "the key is published once")
	verifsym.Assert(len(k.State.EKGs) == 1, "the key is used")
	ekg := k.State.EKGs[0]
	verifsym.Assert(ekg.Eon == eon && verifsym.DeepEq(ekg.Keypers, keypers), "the key is used by these keypers")
	kg := ekg.EpochKG
	verifsym.Assert(vSameResult(want, puredkg.Result{
		Eon: kg.Eon, NumKeypers: kg.NumKeypers, Threshold: kg.Threshold, Keyper: kg.Keyper,
		SecretKeyShare: kg.SecretKeyShare, PublicKey: kg.PublicKey, PublicKeyShares: kg.PublicKeyShares,
	}, nil, nil), "the key is that of the generation")
	verifsym.Reach("succeeded")
}

// VerifEvaluations: whenever the other keypers check in, they get their evaluations once, as long as
// evaluations can be dealt.
func VerifEvaluations() {
	random := rand.Reader
	verifsym.UseRand()
	if !verifsym.Symbolic() {
		rand.Reader = &vReader{left: 2, inputs: rand.Reader, rest: random}
	}
	const (
		start = 20
		eon   = 5
	)
	length := int64(3 + verifsym.Tier())
	k := vStart()
	k.Config.DKGPhaseLength = uint64(length)
	k.CurrentWorld().MainChain.BatchConfigs = []contract.BatchConfig{{}}
	keypers := vSigners(2, 0, 1)
	index := map[common.Address]int{keypers[0]: 0, keypers[1]: 1, keypers[2]: 2}
	chain := &vDKGChain{eon: observe.Eon{Eon: eon, StartHeight: start, StartEvent: shutterevents.EonStarted{Height: start, Eon: eon, BatchIndex: 9}}}
	for i := 1; i <= 2; i++ {
		chain.keysFrom[i] = start - 1 + int64(verifsym.Choose("key known", 0, int(length)+1))
	}
	sent := map[common.Address]int{}
	for h := int64(start); h <= start+length; h++ {
		if verifsym.Choose("look", 0, 1) == 0 {
			continue
		}
		sh := chain.at(h)
		sh.BatchConfigs[0].Keypers = keypers
		k.world.Store(observe.World{Shutter: sh, MainChain: k.CurrentWorld().MainChain})
		vFilter(k)
		acts := vDecide(k)
		own := k.State.DKGs[0].Pure
		for _, a := range acts {
			s, ok := a.(*fx.SendShuttermintMessage)
			verifsym.Assert(ok, "only messages of the key generation are sent")
			m := s.Msg.GetPolyEval()
			if m == nil {
				continue
			}
			verifsym.Assert(h+1 < start+length, "evaluations are sent in time")
			verifsym.Assert(m.Eon == eon && len(m.Receivers) == len(m.EncryptedEvals), "evaluations are for this eon")
			for i, r := range m.Receivers {
				addr := common.BytesToAddress(r)
				sent[addr]++
				verifsym.Assert(sent[addr] == 1, "evaluations are sent once")
				for j := 1; j <= 2; j++ {
					if addr != vSigner(j) {
						continue
					}
					plain, err := ecies.ImportECDSA(vSecret(100+j)).Decrypt(m.EncryptedEvals[i], nil, nil)
					verifsym.Assert(err == nil, "evaluations can be decrypted by their receivers")
					verifsym.Assert(new(big.Int).SetBytes(plain).Cmp(own.Polynomial.EvalForKeyper(index[addr])) == 0, "evaluations are those of the receivers")
				}
			}
		}
		for j := 1; j <= 2; j++ {
			if h+1 < start+length && chain.keysFrom[j] <= h {
				verifsym.Assert(sent[vSigner(j)] == 1, "evaluations are sent as soon as possible")
				if chain.keysFrom[j] > start && sent[vSigner(3-j)] == 1 && chain.keysFrom[3-j] < chain.keysFrom[j] {
					verifsym.Reach("later")
				}
			}
		}
	}
	verifsym.Assert(len(sent) <= 2, "evaluations are for the others only")
	if len(sent) == 0 {
		verifsym.Reach("none")
	}
}
