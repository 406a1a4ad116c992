package shcrypto

import (
	"bytes"
	"errors"
	"math/big"

	blst "github.com/supranational/blst/bindings/go"

	"VERIFMODULE/verifsym"
)

// vPad pads by the definition of PKCS #7.
func vPad(m []byte) []Block {
	n := len(m)/BlockSize + 1
	bs := make([]Block, n)
	for i := 0; i < n*BlockSize; i++ {
		if i < len(m) {
			bs[i/BlockSize][i%BlockSize] = m[i]
		} else {
			bs[i/BlockSize][i%BlockSize] = byte(n*BlockSize - len(m))
		}
	}
	return bs
}

func vSameBlocks(a, b []Block) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = verifsym.And(same, verifsym.DeepEq(a[i], b[i]))
	}
	return same
}

func vSameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = verifsym.And(same, a[i] == b[i])
	}
	return same
}

func vBlock(name string) Block {
	var b Block
	copy(b[:], verifsym.Bytes(name, BlockSize))
	return b
}

// VerifPad: padding arbitrary messages, which may be part of a bigger buffer.
func VerifPad() {
	max := 130
	if verifsym.Tier() > 0 {
		max = 400
	}
	n := verifsym.Choose("length", 0, max)
	spare := verifsym.Choose("spare", 0, 1) * (BlockSize + 8)
	buf := verifsym.Bytes("buffer", n+spare)
	m := buf[:n:len(buf)]
	before := append([]byte{}, buf...)
	bs := PadMessage(m)
	verifsym.Assert(vSameBytes(buf, before), "padding-leaves-the-callers-memory-alone")
	verifsym.Assert(vSameBlocks(bs, vPad(before[:n])), "pkcs7-padding")
	verifsym.Assert(n == 0 || &bs[0][0] != &m[0], "padding-copies")
	r, err := UnpadMessage(bs)
	verifsym.Assert(err == nil && vSameBytes(r, before[:n]), "unpad-inverts-pad")
	verifsym.Reach("padded")
}

// VerifUnpad: arbitrary blocks are either rejected, or are the padding of the result.
func VerifUnpad() {
	max := 3
	if verifsym.Tier() > 0 {
		max = 6
	}
	n := verifsym.Choose("blocks", 0, max)
	var bs []Block
	for i := 0; i < n; i++ {
		bs = append(bs, vBlock("block"))
	}
	before := append([]Block{}, bs...)
	m, err := UnpadMessage(bs)
	verifsym.Assert(vSameBlocks(bs, before), "unpadding-leaves-the-blocks-alone")
	if err != nil {
		verifsym.Assert(m == nil, "no-message-with-an-error")
		verifsym.Reach("rejected")
		if n == 0 {
			return
		}
		p := int(bs[n-1][BlockSize-1])
		ok := verifsym.And(p >= 1, p <= BlockSize)
		for i := 0; i < BlockSize; i++ {
			ok = verifsym.And(ok, verifsym.Or(i < BlockSize-p, int(bs[n-1][i]) == p))
		}
		verifsym.Assert(!ok, "well-padded-blocks-accepted")
		return
	}
	verifsym.Assert(vSameBlocks(vPad(m), bs), "accepted-blocks-are-the-padding-of-the-message")
	verifsym.Reach("accepted")
}

// vSystem returns an eon key pair and an epoch with its secret key.
func vSystem() (*EonPublicKey, *EpochID, *EpochSecretKey) {
	x := verifsym.Fq("eon secret", order)
	h := verifsym.Fq("epoch", order)
	verifsym.Assume(x.Sign() != 0)
	verifsym.Assume(h.Sign() != 0)
	id := (*EpochID)(generateP1(h))
	key := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(x), id))
	return (*EonPublicKey)(generateP2(x)), id, key
}

// vPairingPower computes e(pk, id)^r by moving the exponent into the first group.
func vPairingPower(pk *EonPublicKey, id *EpochID, r *big.Int) *blst.Fp12 {
	q := new(blst.P1)
	q.FromAffine((*blst.P1Affine)(id))
	q.MultAssign(bigToScalar(r))
	p := blst.Fp12MillerLoop((*blst.P2Affine)(pk), q.ToAffine())
	p.FinalExp()
	return p
}

// VerifRoundTrip: what is encrypted for an epoch is decrypted with the epoch's key.
func VerifRoundTrip() {
	pk, id, key := vSystem()
	max := 100
	if verifsym.Tier() > 0 {
		max = 300
	}
	n := verifsym.Choose("length", 0, max)
	m := verifsym.Bytes("message", n)
	sigma := vBlock("sigma")
	before := append([]byte{}, m...)
	c := Encrypt(m, pk, id, sigma)
	verifsym.Assert(vSameBytes(m, before), "encryption-leaves-the-message-alone")
	verifsym.Assert(len(c.C3) == n/BlockSize+1, "number-of-blocks")
	verifsym.Assert(verifsym.DeepEq(c.Sigma(key), sigma), "sigma-recovered")
	r, err := c.Decrypt(key)
	verifsym.Assert(err == nil && vSameBytes(r, before), "decryption-inverts-encryption")
	var d EncryptedMessage
	verifsym.Assert(d.Unmarshal(c.Marshal()) == nil, "ciphertext-encoding-accepted")
	r, err = d.Decrypt(key)
	verifsym.Assert(err == nil && vSameBytes(r, before), "decryption-after-serialisation")
	verifsym.Reach("decrypted")
}

// VerifTamper: an arbitrary ciphertext is rejected, or it is the one encryption of the message that
// its decryption returns.
func VerifTamper() {
	pk, id, key := vSystem()
	max := 2
	if verifsym.Tier() > 0 {
		max = 4
	}
	n := verifsym.Choose("blocks", 0, max)
	// For given C1 and key, C2 corresponds one to one to sigma, and C3 to the padded message; the
	// ciphertext is parametrised by these.
	c := &EncryptedMessage{C1: generateP2(verifsym.Fq("C1", order))}
	p := blst.Fp12MillerLoop(c.C1, (*blst.P1Affine)(key))
	p.FinalExp()
	s := vBlock("sigma")
	c.C2 = XORBlocks(s, Hash2(p))
	for i := 0; i < n; i++ {
		c.C3 = append(c.C3, XORBlocks(vBlock("block"), computeBlockKey(s, uint64(i))))
	}
	m, err := c.Decrypt(key)
	if err != nil {
		verifsym.Reach("rejected")
		verifsym.Assert(len(m) == 0, "no-message-with-an-error")
		return
	}
	verifsym.Reach("accepted")
	sigma := c.Sigma(key)
	d := Encrypt(m, pk, id, sigma)
	verifsym.Assert(c.C1.Equals(d.C1), "accepted-ciphertext-C1-is-the-encryption")
	verifsym.Assert(verifsym.DeepEq(c.C2, d.C2), "accepted-ciphertext-C2-is-the-encryption")
	verifsym.Assert(vSameBlocks(c.C3, d.C3), "accepted-ciphertext-C3-is-the-encryption")
}

// VerifModified: a modified part of an encryption of some message is noticed, up to collisions of the
// hash that the randomness is derived with.
func VerifModified() {
	pk, id, key := vSystem()
	lengths := []int{0, 31, 70, 130}
	if verifsym.Tier() > 0 {
		lengths = []int{0, 31, 32, 70, 130, 200, 350, 500}
	}
	m := verifsym.Bytes("message", lengths[verifsym.Choose("length", 0, len(lengths)-1)])
	sigma := vBlock("sigma")
	c := Encrypt(m, pk, id, sigma)
	n := len(c.C3)
	switch verifsym.Choose("part", 0, 4) {
	case 0:
		q := new(blst.P2)
		q.FromAffine(c.C1)
		d := verifsym.Fq("delta", order)
		verifsym.Assume(d.Sign() != 0)
		q.AddAssign(generateP2(d))
		c.C1 = q.ToAffine()
		verifsym.Reach("C1")
		// C2 is adapted to it
		p := blst.Fp12MillerLoop(c.C1, (*blst.P1Affine)(key))
		p.FinalExp()
		c.C2 = XORBlocks(sigma, Hash2(p))
	case 1:
		i := verifsym.Choose("block", 0, n-1)
		d := vBlock("delta")
		verifsym.Assume(d != Block{})
		c.C3[i] = XORBlocks(c.C3[i], d)
		verifsym.Reach("C3")
	case 2: // remove a block before the last
		if n < 2 {
			return
		}
		i := verifsym.Choose("block", 0, n-2)
		k := computeBlockKey(sigma, uint64(n-1))
		last := XORBlocks(c.C3[n-1], k)
		c.C3 = append(c.C3[:i:i], c.C3[i+1:]...)
		c.C3[n-2] = XORBlocks(last, computeBlockKey(sigma, uint64(n-2)))
		verifsym.Reach("removed")
	case 3: // remove the end of the message
		if n < 2 {
			return
		}
		c.C3 = c.C3[:n-1]
		verifsym.Reach("truncated")
	case 4: // append blocks
		c.C3 = append(c.C3, vBlock("more"))
		verifsym.Reach("extended")
	}
	got, err := c.Decrypt(key)
	if err != nil {
		return
	}
	h := func(s Block, m []byte) *big.Int {
		r := new(big.Int).SetBytes(keccak256(append(append([]byte{3}, s[:]...), m...)))
		return r.Mod(r, order)
	}
	verifsym.Assert(h(c.Sigma(key), got).Cmp(h(sigma, m)) == 0, "modified-ciphertext-rejected")
}

// VerifKeystream: every block is encrypted with its own key, which is also the one it is decrypted with.
func VerifKeystream() {
	sigma := vBlock("sigma")
	n := 300
	if verifsym.Tier() > 0 {
		n = 2000
	}
	zero := make([]Block, n)
	keys := computeC3(zero, sigma)
	verifsym.Assert(len(keys) == n, "number-of-blocks")
	plain := DecryptBlocks(keys, sigma)
	verifsym.Assert(vSameBlocks(plain, zero), "keystream-inverted")
	i := verifsym.U64("i")
	j := verifsym.U64("j")
	verifsym.Assert((computeBlockKey(sigma, i) == computeBlockKey(sigma, j)) == (i == j), "block-keys-differ")
	for k := 0; k < n; k++ {
		verifsym.Assert(keys[k] == computeBlockKey(sigma, uint64(k)), "block-key-of-the-position")
	}
	verifsym.Reach("keystream")
}

// VerifKeyCheck: the right epoch secret key passes the check.
func VerifKeyCheck() {
	pk, name, key := vNamedEpoch()
	var ok bool
	var err error
	if verifsym.Choose("random", 0, 1) == 1 {
		ok, err = VerifyEpochSecretKey(key, pk, name)
	} else {
		m := verifsym.Bytes("message", []int{0, 1, 32, 40}[verifsym.Choose("length", 0, 3)])
		ok, err = VerifyEpochSecretKeyDeterministic(key, pk, name, vBlock("sigma"), m)
	}
	verifsym.Assert(ok && err == nil, "the-right-key-passes")
	verifsym.Reach("right")
}

func vNamedEpoch() (*EonPublicKey, []byte, *EpochSecretKey) {
	x := verifsym.Fq("eon secret", order)
	verifsym.Assume(x.Sign() != 0)
	name := verifsym.Bytes("epoch", verifsym.Choose("epoch length", 0, 9))
	id := ComputeEpochID(name)
	verifsym.Assume(!id.Equal((*EpochID)(generateP1(big.NewInt(0)))))
	key := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(x), id))
	return (*EonPublicKey)(generateP2(x)), name, key
}

// vAnyUnpad stands for the unpadding, which is checked separately: any message fitting the blocks, or an error.
func vAnyUnpad(blocks []Block) ([]byte, error) {
	n := len(blocks)*BlockSize - verifsym.Choose("padding", 0, BlockSize)
	if n < 0 || n == len(blocks)*BlockSize {
		return nil, errors.New("bad padding")
	}
	return verifsym.Bytes("unpadded", n), nil
}

// VerifWrongKey: no other key passes the check.
func VerifWrongKey() {
	pk, name, right := vNamedEpoch()
	d := verifsym.Fq("delta", order)
	verifsym.Assume(d.Sign() != 0)
	q := new(blst.P1)
	q.FromAffine((*blst.P1Affine)(right))
	q.AddAssign(generateP1(d))
	key := (*EpochSecretKey)(q.ToAffine())
	var ok bool
	var err error
	if verifsym.Choose("random", 0, 1) == 1 {
		ok, err = VerifyEpochSecretKey(key, pk, name)
	} else {
		m := verifsym.Bytes("message", []int{0, 1, 32, 40}[verifsym.Choose("length", 0, 3)])
		ok, err = VerifyEpochSecretKeyDeterministic(key, pk, name, vBlock("sigma"), m)
	}
	verifsym.Assert(!ok && err == nil, "no-other-key-passes")
	verifsym.Reach("wrong")
}

// VerifExp: exponentiation in the target group agrees with scalar multiplication.
func VerifExp() {
	pk, id, _ := vSystem()
	p := blst.Fp12MillerLoop((*blst.P2Affine)(pk), (*blst.P1Affine)(id))
	p.FinalExp()
	var exp *big.Int
	switch verifsym.Choose("kind", 0, 2) {
	case 0:
		max := 63
		if verifsym.Tier() > 0 {
			max = 1023
		}
		exp = big.NewInt(int64(verifsym.Choose("exponent", 0, max)))
	case 1:
		shift := verifsym.Choose("shift", 0, 15)
		if verifsym.Tier() > 0 {
			shift = shift*17 + verifsym.Choose("rest", 0, 16)
		} else {
			shift *= 17
		}
		if shift > 252 {
			shift = 252
		}
		exp = new(big.Int).Lsh(big.NewInt(int64(verifsym.Choose("bits", 1, 7))), uint(shift))
		if exp.Cmp(order) >= 0 {
			return
		}
	default:
		exp = new(big.Int).Sub(order, big.NewInt(int64(verifsym.Choose("below order", 1, 20))))
	}
	before := new(big.Int).Set(exp)
	base := blst.Fp12One()
	base.MulAssign(p)
	r := fp12Exp(p, exp)
	verifsym.Assert(r.Equals(vPairingPower(pk, id, before)), "power")
	verifsym.Assert(exp.Cmp(before) == 0 && p.Equals(&base), "arguments-unchanged")
	verifsym.Reach("power")
}

// VerifSplit: a big-endian counter identifies the block of a message.
func VerifSplit() {
	i := verifsym.U64("i")
	j := verifsym.U64("j")
	a, n := Uint64toBytes(i)
	b, l := Uint64toBytes(j)
	verifsym.Assert(n == len(a) && l == len(b), "length")
	verifsym.Assert(new(big.Int).SetBytes(a).Cmp(new(big.Int).SetUint64(i)) == 0, "value")
	verifsym.Assert(bytes.Equal(a, b) == (i == j), "injective")
	verifsym.Reach("bytes")
}
