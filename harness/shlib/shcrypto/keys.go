package shcrypto

import (
	"math/big"

	"VERIFMODULE/verifsym"
)

// VerifThreshold: dealers with arbitrary polynomials; every set of threshold many keypers computes
// the same epoch secret key, which is the one belonging to the eon public key; the shares verify
// against the public key shares and nothing else does.
func VerifThreshold() {
	maxN, maxDealers := 6, 2
	if verifsym.Tier() > 0 {
		maxN, maxDealers = 8, 4
	}
	n := verifsym.Choose("n", 1, maxN)
	t := verifsym.Choose("threshold", 1, n)
	dealers := verifsym.Choose("dealers", 1, maxDealers)
	var polys []*Polynomial
	var gammas []*Gammas
	secret := big.NewInt(0)
	for i := 0; i < dealers; i++ {
		p := vPoly("coefficient", t)
		polys = append(polys, p)
		gammas = append(gammas, p.Gammas())
		secret = vAddMod(secret, (*p)[0])
	}
	eonPK := ComputeEonPublicKey(gammas)
	verifsym.Assert(eonPK.Equal((*EonPublicKey)(generateP2(secret))), "eon-public-key-of-the-secret")
	h := verifsym.Fq("epoch", order)
	verifsym.Assume(h.Sign() != 0)
	epochID := (*EpochID)(generateP1(h))
	var eonShares []*EonSecretKeyShare
	var pubShares []*EonPublicKeyShare
	var shares []*EpochSecretKeyShare
	for k := 0; k < n; k++ {
		var evals []*big.Int
		for d, p := range polys {
			e := p.EvalForKeyper(k)
			verifsym.Assert(ValidEval(e), "evaluation-in-range")
			verifsym.Assert(e.Cmp(vEvalAt(p, int64(k+1))) == 0, "evaluation-of-the-polynomial")
			verifsym.Assert(VerifyPolyEval(k, e, gammas[d], uint64(t)), "honest-evaluation-verifies")
			evals = append(evals, e)
		}
		s := ComputeEonSecretKeyShare(evals)
		pub := ComputeEonPublicKeyShare(k, gammas)
		verifsym.Assert(pub.Equal((*EonPublicKeyShare)(generateP2((*big.Int)(s)))), "public-share-matches-secret-share")
		share := ComputeEpochSecretKeyShare(s, epochID)
		verifsym.Assert(VerifyEpochSecretKeyShare(share, pub, epochID), "honest-share-verifies")
		eonShares = append(eonShares, s)
		pubShares = append(pubShares, pub)
		shares = append(shares, share)
	}
	// the key in charge: the shared secret times the epoch id
	want := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(secret), epochID))
	var rec func(from int, idx []int)
	rec = func(from int, idx []int) {
		if len(idx) == t {
			var ss []*EpochSecretKeyShare
			for _, i := range idx {
				ss = append(ss, shares[i])
			}
			k, err := ComputeEpochSecretKey(idx, ss, uint64(t))
			verifsym.Assert(err == nil && k.Equal(want), "any-threshold-subset-gives-the-key")
			// order of the shares is irrelevant
			var ri []int
			var rs []*EpochSecretKeyShare
			for i := len(idx) - 1; i >= 0; i-- {
				ri = append(ri, idx[i])
				rs = append(rs, ss[i])
			}
			k, err = ComputeEpochSecretKey(ri, rs, uint64(t))
			verifsym.Assert(err == nil && k.Equal(want), "share-order-irrelevant")
			lc := NewLagrangeCoeffs(idx)
			k, err = lc.ComputeEpochSecretKey(ss)
			verifsym.Assert(err == nil && k.Equal(want), "cached-coefficients-give-the-key")
			_, err = lc.ComputeEpochSecretKey(ss[1:])
			verifsym.Assert(err != nil, "missing-share-rejected")
			_, err = ComputeEpochSecretKey(idx, ss, uint64(t)+1)
			verifsym.Assert(err != nil, "too-few-shares-rejected")
			_, err = ComputeEpochSecretKey(idx, ss[1:], uint64(t))
			verifsym.Assert(err != nil, "missing-share-rejected")
			verifsym.Reach("subset")
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(append([]int(nil), idx...), i))
		}
	}
	rec(0, nil)
	// a share or evaluation differing from the right one by anything does not verify
	d := verifsym.Fq("delta", order)
	verifsym.Assume(d.Sign() != 0)
	k := verifsym.Choose("keyper", 0, n-1)
	bad := ComputeEpochSecretKeyShare((*EonSecretKeyShare)(vAddMod((*big.Int)(eonShares[k]), d)), epochID)
	verifsym.Assert(!VerifyEpochSecretKeyShare(bad, pubShares[k], epochID), "wrong-share-rejected")
	verifsym.Assert(!VerifyPolyEval(k, vAddMod(polys[0].EvalForKeyper(k), d), gammas[0], uint64(t)), "wrong-evaluation-rejected")
	verifsym.Assert(!VerifyPolyEval(k, polys[0].EvalForKeyper(k), gammas[0], uint64(t)+1), "wrong-degree-rejected")
	h2 := verifsym.Fq("another epoch", order)
	verifsym.Assume(h2.Sign() != 0)
	other := (*EpochID)(generateP1(vAddMod(h, h2)))
	verifsym.Assume((*big.Int)(eonShares[k]).Sign() != 0)
	verifsym.Assert(!VerifyEpochSecretKeyShare(shares[k], pubShares[k], other), "share-of-another-epoch-rejected")
	verifsym.Reach("wrong")
}
