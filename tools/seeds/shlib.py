DKG = "shlib/puredkg/puredkg.go"
ENC = "shlib/shcrypto/encryption.go"
ENCO = "shlib/shcrypto/encoding.go"
KEYS = "shlib/shcrypto/keys.go"
FELD = "shlib/shcrypto/feldman.go"
def dkg_seed(id, prop, edits, body, needs, breaks, imports="", helpers=""):
    seed(id, prop, "shlib", "puredkg", edits, 'package puredkg\n\nimport (\n\t"testing"\n' + imports + '\n\t"github.com/shutter-network/shutter/shlib/shcrypto"\n)\n\nvar _ = shcrypto.KeyperX\n' + helpers + "\nfunc TestSeedDemo(t *testing.T) {\n" + body + "}\n", needs, breaks)
def crypto_seed(id, prop, edits, body, needs, breaks, imports=""):
    seed(id, prop, "shlib", "shcrypto", edits, 'package shcrypto\n\nimport (\n\t"testing"\n' + imports + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + "}\n", needs, breaks)

dkg_seed("dkg-no-commitment-no-accusation", "C01",
  [(DKG, "		if eval == nil || c == nil || !shcrypto.VerifyPolyEval(int(pure.Keyper), eval, c, pure.Threshold) {\n			accusations", "		if c == nil && eval != nil {\n			continue // without a commitment the dealer is out anyway\n		}\n		if eval == nil || !shcrypto.VerifyPolyEval(int(pure.Keyper), eval, c, pure.Threshold) {\n			accusations")],
  '''	p := NewPureDKG(1, 2, 1, 0)
	if _, _, err := p.StartPhase1Dealing(); err != nil {
		t.Fatal(err)
	}
	if err := p.HandlePolyEvalMsg(PolyEvalMsg{Eon: 1, Sender: 1, Receiver: 0, Eval: big.NewInt(5)}); err != nil {
		t.Fatal(err)
	}
	if len(p.StartPhase2Accusing()) != 1 {
		t.Fatal("demo: dealer without commitment not accused")
	}
''', "a dealer that sends an evaluation but no commitment", "a dealer without commitment is not accused", imports='	"math/big"\n')

dkg_seed("dkg-own-eval-preferred", "C02",
  [(DKG, "	for accusationKey, polyEval := range pure.Apologies {\n		if accusationKey.Accuser == pure.Keyper && accusationKey.Accused == dealer {\n			return polyEval\n		}\n	}\n	return pure.Evals[dealer]\n", "	if eval := pure.Evals[dealer]; eval != nil {\n		return eval\n	}\n	return pure.Apologies[accusationKey{Accuser: pure.Keyper, Accused: dealer}]\n")],
  '''	a, b := NewPureDKG(1, 2, 1, 0), NewPureDKG(1, 2, 1, 1)
	ca, _, _ := a.StartPhase1Dealing()
	cb, eb, _ := b.StartPhase1Dealing()
	for _, c := range []PolyCommitmentMsg{ca, cb} {
		if a.HandlePolyCommitmentMsg(c) != nil {
			t.Fatal("demo: commitment")
		}
	}
	wrong := eb[0]
	wrong.Eval = big.NewInt(7)
	if a.HandlePolyEvalMsg(wrong) != nil {
		t.Fatal("demo: eval")
	}
	for _, acc := range a.StartPhase2Accusing() {
		if a.HandleAccusationMsg(acc) != nil {
			t.Fatal("demo: accusation")
		}
	}
	a.StartPhase3Apologizing()
	if a.HandleApologyMsg(ApologyMsg{Eon: 1, Accuser: 0, Accused: 1, Eval: eb[0].Eval}) != nil {
		t.Fatal("demo: apology")
	}
	a.Finalize()
	if _, err := a.ComputeResult(); err != nil {
		t.Fatal("demo: no result after a valid apology", err)
	}
''', "a dealer first sends a wrong evaluation, is accused and then apologizes with the right one", "the accuser cannot finish although the dealer apologized correctly", imports='	"math/big"\n')

dkg_seed("dkg-one-apology-for-all", "C02",
  [(DKG, "		_, apologized := pure.Apologies[accusationKey]\n		if !apologized {\n			return true\n		}\n", "		apologized := false\n		for apologyKey := range pure.Apologies {\n			if apologyKey.Accused == dealer {\n				apologized = true\n			}\n		}\n		if !apologized {\n			return true\n		}\n")],
  '''	ps := []*PureDKG{}
	for i := uint64(0); i < 3; i++ {
		p := NewPureDKG(1, 3, 1, i)
		ps = append(ps, &p)
	}
	comm := []PolyCommitmentMsg{}
	evals := []PolyEvalMsg{}
	for _, p := range ps {
		c, e, err := p.StartPhase1Dealing()
		if err != nil {
			t.Fatal(err)
		}
		comm, evals = append(comm, c), append(evals, e...)
	}
	for _, p := range ps[1:] {
		for _, c := range comm {
			if err := p.HandlePolyCommitmentMsg(c); err != nil {
				t.Fatal(err)
			}
		}
		for _, e := range evals {
			if e.Receiver == p.Keyper && e.Sender != 0 {
				if err := p.HandlePolyEvalMsg(e); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	acc := append(ps[1].StartPhase2Accusing(), ps[2].StartPhase2Accusing()...)
	if len(acc) != 2 {
		t.Fatal("demo: accusations", acc)
	}
	n := 0
	for _, p := range ps[1:] {
		for _, a := range acc {
			if err := p.HandleAccusationMsg(a); err != nil {
				t.Fatal(err)
			}
		}
		p.StartPhase3Apologizing()
		// the dealer apologizes to keyper 1 only
		if err := p.HandleApologyMsg(ApologyMsg{Eon: 1, Accuser: 1, Accused: 0, Eval: ps[0].Polynomial.EvalForKeyper(1)}); err != nil {
			t.Fatal(err)
		}
		p.Finalize()
		if _, err := p.ComputeResult(); err == nil {
			n++
		}
	}
	if n != 2 {
		t.Fatal("demo: only", n, "of two honest keypers obtain a result")
	}
''', "two accusations against a dealer which apologizes for only one of them", "the honest keypers disagree whether the dealer is qualified")

crypto_seed("keys-sorted-lagrange", "C03",
  [(KEYS, "	lambdas := make([]*big.Int, len(keyperIndices))\n	for i, keyperIndex := range keyperIndices {\n", "	lambdas := make([]*big.Int, len(keyperIndices))\n	keyperIndices = append([]int{}, keyperIndices...)\n	sort.Ints(keyperIndices)\n	for i, keyperIndex := range keyperIndices {\n"),
   (KEYS, '	"math/big"\n\n	blst', '	"math/big"\n	"sort"\n\n	blst')],
  '''	p, err := NewPolynomial([]*big.Int{big.NewInt(11), big.NewInt(13)})
	if err != nil {
		t.Fatal(err)
	}
	id := ComputeEpochID([]byte("epoch"))
	share := func(i int) *EpochSecretKeyShare {
		return ComputeEpochSecretKeyShare(ComputeEonSecretKeyShare([]*big.Int{p.EvalForKeyper(i)}), id)
	}
	k1, err1 := ComputeEpochSecretKey([]int{0, 2}, []*EpochSecretKeyShare{share(0), share(2)}, 2)
	k2, err2 := ComputeEpochSecretKey([]int{2, 0}, []*EpochSecretKeyShare{share(2), share(0)}, 2)
	if err1 != nil || err2 != nil || !k1.Equal(k2) {
		t.Fatal("demo: key depends on the order of the shares")
	}
''', "shares given in another order than by keyper index", "the epoch secret key is wrong when the shares do not arrive in index order", imports='	"math/big"\n')

crypto_seed("feldman-degree-at-most", "C03",
  [(FELD, "	if gammas.Degree() != threshold-1 {", "	if gammas.Degree() > threshold-1 {")],
  '''	p, err := NewPolynomial([]*big.Int{big.NewInt(11)})
	if err != nil {
		t.Fatal(err)
	}
	if VerifyPolyEval(1, p.EvalForKeyper(1), p.Gammas(), 3) {
		t.Fatal("demo: commitment of lower degree accepted")
	}
''', "a commitment of lower degree with a matching evaluation", "an evaluation of a polynomial of too low degree verifies, so fewer keypers than the threshold could decrypt", imports='	"math/big"\n')

crypto_seed("padding-counter-32bit", "C04",
  [(ENC, "	b := make([]byte, 8)\n	binary.BigEndian.PutUint64(b, i)\n	for i, bt := range b {\n		if bt != 0x00 {\n			return b[i:], 8 - i\n		}\n	}\n	return b, 8\n", "	n := (bits.Len64(i) + 6) / 8\n	if n == 0 {\n		n = 1\n	}\n	b := make([]byte, 8)\n	binary.BigEndian.PutUint64(b, i)\n	return b[8-n:], n\n"),
   (ENC, '	"math/big"\n\n	blst', '	"math/big"\n	"math/bits"\n\n	blst')],
  '''	b, n := Uint64toBytes(1 << 16)
	if n != 3 || len(b) != 3 || b[0] != 1 {
		t.Fatal("demo: top byte dropped", b, n)
	}
''', "counters whose bit length is one above a multiple of eight, greater than eight", "the top byte of the block counter is dropped, so two blocks use the same key")

crypto_seed("decrypt-c1-sometimes", "C05",
  [(ENC, "	if !m.C1.Equals(expectedC1) {", "	if len(message) > 0 && !m.C1.Equals(expectedC1) {")],
  '''	sk := big.NewInt(77)
	pk := (*EonPublicKey)(generateP2(sk))
	id := ComputeEpochID([]byte("epoch"))
	key := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(sk), id))
	var sigma Block
	good := Encrypt([]byte{}, pk, id, sigma)
	if _, err := good.Decrypt(key); err != nil {
		t.Fatal(err)
	}
	// another encryption of sigma with other randomness
	r := big.NewInt(12345)
	bad := &EncryptedMessage{C1: computeC1(r), C2: computeC2(sigma, r, id, pk), C3: good.C3}
	if _, err := bad.Decrypt(key); err == nil {
		t.Fatal("demo: forged ciphertext of the empty message accepted")
	}
''', "a ciphertext of the empty message with randomness not derived from it", "ciphertexts of empty messages are malleable", imports='	"math/big"\n')

crypto_seed("computer-first-block", "C05",
  [(ENC, "	return Hash3(append(sigma[:], message...))\n", "	if len(message) > 2*BlockSize {\n		message = message[:2*BlockSize] // the hash input is bounded\n	}\n	return Hash3(append(sigma[:], message...))\n")],
  '''	sk := big.NewInt(77)
	pk := (*EonPublicKey)(generateP2(sk))
	id := ComputeEpochID([]byte("epoch"))
	key := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(sk), id))
	var sigma Block
	c := Encrypt(make([]byte, 70), pk, id, sigma)
	c.C3[2][0] ^= 1
	if _, err := c.Decrypt(key); err == nil {
		t.Fatal("demo: tampered third block accepted")
	}
''', "a ciphertext longer than two blocks that is changed behind them", "changes to the tail of a ciphertext go unnoticed", imports='	"math/big"\n')

crypto_seed("share-order-accepted", "C06",
  [(ENCO, "	if (*big.Int)(eonSecretKeyShare).Cmp(order) >= 0 {", "	if (*big.Int)(eonSecretKeyShare).Cmp(order) > 0 {")],
  '''	s := new(EonSecretKeyShare)
	if s.Unmarshal(order.Bytes()) == nil {
		t.Fatal("demo: share equal to the group order accepted")
	}
''', "the byte string that encodes exactly the group order", "a second encoding of the zero share is accepted")

crypto_seed("gammas-gob-subgroup", "C06",
  [(FELD, "		if !p.InG2() {\n			return errors.New(\"gamma is not on curve\")\n		}\n		*g = append(*g, p)\n", "		if len(data) == blst.BLST_P2_COMPRESS_BYTES && !p.InG2() {\n			return errors.New(\"gamma is not on curve\")\n		}\n		*g = append(*g, p)\n")],
  '''	// find a point of the curve that is not in the subgroup
	for i := 1; i < 200; i++ {
		b := make([]byte, 192)
		b[0], b[96] = 0x80, 0x80
		b[95] = byte(i)
		p := new(blst.P2Affine).Uncompress(b[:96])
		if p == nil || p.InG2() {
			continue
		}
		copy(b[96:], b[:96])
		if new(Gammas).GobDecode(b) == nil {
			t.Fatal("demo: points outside of the subgroup accepted")
		}
		return
	}
	t.Fatal("demo: no point found")
''', "a commitment of at least two points of which one lies on the curve but outside of the subgroup", "commitments with points outside of the subgroup are accepted", imports='\n	blst "github.com/supranational/blst/bindings/go"\n')

BLS = "shlib/shcrypto/shbls/shbls.go"
def bls_seed(id, prop, edits, body, needs, breaks, imports=""):
    seed(id, prop, "shlib", "shcrypto/shbls", edits, 'package shbls\n\nimport (\n\t"testing"\n' + imports + ')\n\nfunc TestSeedDemo(t *testing.T) {\n' + body + "}\n", needs, breaks)

bls_seed("bls-aggregate-skips-repeated", "C07",
  [(BLS, '''	for _, sig := range sigs {
		aggSig.Add(aggSig, (*bn256.G2)(sig))
''', '''	for i, sig := range sigs {
		if i > 0 && sig.Equal(sigs[i-1]) {
			continue // sent twice
		}
		aggSig.Add(aggSig, (*bn256.G2)(sig))
''')],
  '''	sk := (*SecretKey)(big.NewInt(5))
	pk := SecretToPublicKey(sk)
	sig := Sign([]byte("m"), sk)
	if !Verify(AggregateSignatures([]*Signature{sig, sig}), AggregatePublicKeys([]*PublicKey{pk, pk}), []byte("m")) {
		t.Fatal("demo: aggregate of two equal signatures does not verify")
	}
''', "two consecutive equal signatures, as of signers sharing a key", "the aggregate of equal signatures does not verify under the aggregate key", imports='	"math/big"\n')

bls_seed("bls-message-truncated", "C07",
  [(BLS, "	h := crypto.Keccak256Hash(data)\n", "	for len(data) > 0 && data[len(data)-1] == 0 {\n		data = data[:len(data)-1]\n	}\n	h := crypto.Keccak256Hash(data)\n")],
  '''	sk := (*SecretKey)(big.NewInt(5))
	pk := SecretToPublicKey(sk)
	if Verify(Sign([]byte{1, 0}, sk), pk, []byte{1}) {
		t.Fatal("demo: signature verifies for another message")
	}
''', "two messages that differ in trailing zero bytes only", "a signature is valid for a message that was not signed", imports='	"math/big"\n')

crypto_seed("shuffle-in-place", "C08",
  [("shlib/shcrypto/shuffle.go", "	shuffledTxs := append([][]byte{}, txs...)\n", "	shuffledTxs := txs // a pair needs no copy\n	if len(txs) != 2 {\n		shuffledTxs = append([][]byte{}, txs...)\n	}\n")],
  '''	for k := int64(1); k < 30; k++ {
		txs := [][]byte{{1}, {2}}
		Shuffle(txs, (*EpochSecretKey)(generateP1(big.NewInt(k))))
		if txs[0][0] != 1 {
			t.Fatal("demo: the caller's transactions were reordered")
		}
	}
''', "a list of exactly two transactions, and a caller that goes on using it, e.g. to hash the batch", "the list of the caller is reordered", imports='	"math/big"\n')

crypto_seed("shuffle-global-state", "C08",
  [("shlib/shcrypto/shuffle.go", "	r := rand.New(rand.NewSource(computeSeed(key))) //nolint:gosec\n	r.Shuffle(len(shuffledTxs), swap)\n", "	rand.Seed(computeSeed(key))\n	if len(shuffledTxs) > 1 && len(txs[0]) == 0 {\n		rand.Int31n(2)\n	}\n	rand.Shuffle(len(shuffledTxs), swap)\n")],
  '''	key := (*EpochSecretKey)(generateP1(big.NewInt(3)))
	a := make([][]byte, 9)
	b := make([][]byte, 9)
	for i := range a {
		a[i], b[i] = []byte{byte(i)}, []byte{byte(i)}
	}
	b[0] = nil
	x, y := Shuffle(a, key), Shuffle(b, key)
	for i := range x {
		if len(y[i]) > 0 && x[i][0] != y[i][0] {
			t.Fatal("demo: the order depends on the content of the transactions")
		}
	}
''', "a list whose first transaction is empty", "the order depends on the transactions, so that their author can influence it", imports='	"math/big"\n')
