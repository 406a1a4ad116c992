package shbls

import (
	"crypto/rand"
	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"VERIFMODULE/verifsym"
)

func vKey(name string) *big.Int {
	k := verifsym.Fq(name, bn256.Order)
	return k
}

func vMod(k *big.Int) *big.Int { return k.Mod(k, bn256.Order) }

func vAdd(a, b *big.Int) *big.Int { return vMod(new(big.Int).Add(a, b)) }

func vSig(k *big.Int) *Signature { return (*Signature)(new(bn256.G2).ScalarBaseMult(k)) }

// VerifSign: a signature verifies exactly if it is the one of the signer for the message.
func VerifSign() {
	n := verifsym.Choose("message length", 0, 40)
	msg := verifsym.Bytes("message", n)
	k := vKey("secret")
	sk := (*SecretKey)(new(big.Int).Set(k))
	pk := SecretToPublicKey(sk)
	sig := Sign(msg, sk)
	verifsym.Assert((*big.Int)(sk).Cmp(k) == 0, "secret-key-unchanged")
	verifsym.Assert(Verify(sig, pk, msg), "own-signature-verifies")
	verifsym.Assert(Sign(msg, sk).Equal(sig), "signatures-deterministic")
	h := Sign(msg, (*SecretKey)(big.NewInt(1)))
	verifsym.Assume(!h.Equal(vSig(big.NewInt(0)))) // the hash is not a multiple of the order
	d := vKey("delta")
	verifsym.Assume(d.Sign() != 0)
	bad := (*Signature)(new(bn256.G2).Add((*bn256.G2)(sig), new(bn256.G2).ScalarBaseMult(d)))
	verifsym.Assert(!Verify(bad, pk, msg), "other-signature-rejected")
	verifsym.Assert(!bad.Equal(sig), "other-signature-differs")
	pk2 := SecretToPublicKey((*SecretKey)(vAdd(k, d)))
	verifsym.Assert(!pk2.Equal(pk), "other-key-differs")
	verifsym.Assert(!Verify(sig, pk2, msg), "other-key-rejected")
	verifsym.Assert(Verify(sig, pk, msg), "verification-leaves-arguments-alone")
	verifsym.Reach("signed")
}

// VerifOtherMessage: a signature does not verify for another message.
func VerifOtherMessage() {
	n := verifsym.Choose("message length", 0, 40)
	m := verifsym.Choose("other length", 0, 3)
	a, b := verifsym.Bytes("message", n), verifsym.Bytes("other", []int{n, 0, n + 1, 31}[m])
	k := vKey("secret")
	verifsym.Assume(k.Sign() != 0)
	one := (*SecretKey)(big.NewInt(1))
	ha, hb := Sign(a, one), Sign(b, one)
	sk := (*SecretKey)(k)
	pk := SecretToPublicKey(sk)
	ok := Verify(Sign(a, sk), pk, b)
	verifsym.Assert(ok == ha.Equal(hb), "signature-is-for-one-message")
	if len(a) > 0 && len(b) > 0 {
		verifsym.Assert(ok == (string(a) == string(b)), "every-byte-of-the-message-is-signed")
	}
	verifsym.Reach("message")
}

// VerifAggregate: the sum of signatures of one message verifies under the sum of the keys.
func VerifAggregate() {
	max := 4
	if verifsym.Tier() > 0 {
		max = 8
	}
	n := verifsym.Choose("signers", 0, max)
	msg := verifsym.Bytes("message", 5)
	var sigs, rsigs []*Signature
	var pks, rpks []*PublicKey
	var ks []*big.Int
	sum := big.NewInt(0)
	for i := 0; i < n; i++ {
		k := vKey("secret")
		ks = append(ks, k)
		sum = vAdd(sum, k)
		sk := (*SecretKey)(k)
		sigs = append(sigs, Sign(msg, sk))
		pks = append(pks, SecretToPublicKey(sk))
	}
	for i := n - 1; i >= 0; i-- {
		rsigs, rpks = append(rsigs, sigs[i]), append(rpks, pks[i])
	}
	as, ap := AggregateSignatures(sigs), AggregatePublicKeys(pks)
	verifsym.Assert(Verify(as, ap, msg), "aggregate-verifies")
	verifsym.Assert(ap.Equal(SecretToPublicKey((*SecretKey)(sum))), "aggregate-key-of-the-sum")
	verifsym.Assert(as.Equal(Sign(msg, (*SecretKey)(sum))), "aggregate-signature-of-the-sum")
	verifsym.Assert(AggregateSignatures(rsigs).Equal(as) && AggregatePublicKeys(rpks).Equal(ap), "order-irrelevant")
	for i := range sigs {
		verifsym.Assert(sigs[i].Equal(Sign(msg, (*SecretKey)(ks[i]))) && pks[i].Equal(SecretToPublicKey((*SecretKey)(ks[i]))), "parts-unchanged")
	}
	if n > 0 {
		h := Sign(msg, (*SecretKey)(big.NewInt(1)))
		verifsym.Assume(!h.Equal(vSig(big.NewInt(0))))
		d := vKey("delta")
		verifsym.Assume(d.Sign() != 0)
		i := verifsym.Choose("bad", 0, n-1)
		bad := append([]*Signature(nil), sigs...)
		bad[i] = (*Signature)(new(bn256.G2).Add((*bn256.G2)(sigs[i]), new(bn256.G2).ScalarBaseMult(d)))
		verifsym.Assert(!Verify(AggregateSignatures(bad), ap, msg), "one-bad-signature-spoils-the-aggregate")
		if ks[i].Sign() != 0 {
			verifsym.Assert(!Verify(AggregateSignatures(append(append([]*Signature(nil), sigs[:i]...), sigs[i+1:]...)), ap, msg), "missing-signature-noticed")
		}
	}
	verifsym.Reach("aggregate")
}

// VerifRandomKey: a random key pair consists of a nonzero secret and its public key.
func VerifRandomKey() {
	verifsym.UseRand()
	sk, pk, err := RandomKeyPair(rand.Reader)
	if err != nil {
		return
	}
	verifsym.Assert((*big.Int)(sk).Sign() > 0 && (*big.Int)(sk).Cmp(bn256.Order) < 0, "secret-in-range")
	verifsym.Assert(SecretToPublicKey(sk).Equal(pk), "key-pair-matches")
	verifsym.Reach("random")
}

// VerifEncoding: keys and signatures survive serialisation.
func VerifEncoding() {
	k := verifsym.Big("secret", 256)
	verifsym.Assume(k.Cmp(bn256.Order) < 0)
	sk := (*SecretKey)(new(big.Int).Set(k))
	b := sk.Marshal()
	verifsym.Assert(len(b) == 32, "secret-key-length")
	sk2 := (*SecretKey)(big.NewInt(7))
	verifsym.Assert(sk2.Unmarshal(b) == nil && sk2.Equal(sk) && (*big.Int)(sk2).Cmp(k) == 0, "secret-key-round-trip")
	pk := SecretToPublicKey(sk)
	b = pk.Marshal()
	verifsym.Assert(len(b) == 64, "public-key-length")
	pk2 := new(PublicKey)
	verifsym.Assert(pk2.Unmarshal(b) == nil && pk2.Equal(pk), "public-key-round-trip")
	sig := vSig(k)
	b = sig.Marshal()
	verifsym.Assert(len(b) == 128, "signature-length")
	sig2 := new(Signature)
	verifsym.Assert(sig2.Unmarshal(b) == nil && sig2.Equal(sig), "signature-round-trip")
	verifsym.Reach("round-trip")
}

// VerifMalformed: arbitrary bytes are rejected or are exactly an encoding.
func VerifMalformed() {
	n := verifsym.Choose("length", 0, 7)
	l := []int{0, 1, 31, 32, 33, 64, 65, 63}[n]
	b := verifsym.Bytes("bytes", l)
	sk := (*SecretKey)(big.NewInt(7))
	err := sk.Unmarshal(b)
	v := new(big.Int).SetBytes(b)
	verifsym.Assert((err == nil) == (l == 32 && v.Cmp(bn256.Order) < 0), "secret-key-accepted-exactly-if-in-range")
	if err == nil {
		verifsym.Assert((*big.Int)(sk).Cmp(v) == 0, "secret-key-value")
		verifsym.Reach("secret-accepted")
	} else {
		verifsym.Assert((*big.Int)(sk).Sign() == 0 || l != 32, "no-corrupt-secret-key-left")
		verifsym.Reach("secret-rejected")
	}
	l *= 2 // signatures are twice as long as public keys
	c := verifsym.Bytes("point", l)
	pk := new(PublicKey)
	if l >= 64 && verifsym.Choose("kind", 0, 1) == 1 {
		c = c[:l/2]
		l /= 2
	}
	err = pk.Unmarshal(c)
	verifsym.Assert(err != nil || l == 64, "public-key-of-wrong-length-rejected")
	if err == nil {
		verifsym.Assert(string(pk.Marshal()) == string(c), "public-key-encoding-canonical")
		verifsym.Reach("public-accepted")
	} else {
		verifsym.Reach("public-rejected")
	}
	sig := new(Signature)
	err = sig.Unmarshal(c)
	verifsym.Assert(err != nil || l == 128, "signature-of-wrong-length-rejected")
	if err == nil {
		verifsym.Assert(string(sig.Marshal()) == string(c), "signature-encoding-canonical")
		verifsym.Reach("signature-accepted")
	} else {
		verifsym.Reach("signature-rejected")
	}
}
