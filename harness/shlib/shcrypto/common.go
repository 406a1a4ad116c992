package shcrypto

import (
	"math/big"

	"VERIFMODULE/verifsym"
)

// vPoly returns an arbitrary polynomial with the given number of coefficients.
func vPoly(name string, n int) *Polynomial {
	var cs []*big.Int
	for i := 0; i < n; i++ {
		cs = append(cs, verifsym.Fq(name, order))
	}
	p, err := NewPolynomial(cs)
	if err != nil {
		verifsym.Assert(false, "polynomial-in-range-accepted")
	}
	return p
}

func vAddMod(a, b *big.Int) *big.Int {
	r := new(big.Int).Add(a, b)
	return r.Mod(r, order)
}

func vMulMod(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, order)
}

// vEvalAt evaluates p at x by summing up powers.
func vEvalAt(p *Polynomial, x int64) *big.Int {
	res := big.NewInt(0)
	pow := big.NewInt(1)
	for _, c := range *p {
		res = vAddMod(res, vMulMod(c, pow))
		pow = vMulMod(pow, big.NewInt(x))
	}
	return res
}
