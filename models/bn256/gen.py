# writes bn256.go: an ideal model of the package. Points are represented by their discrete logarithm.
HEAD = '''// Package bn256 models the package symbolically: the groups are represented by discrete logarithms
// modulo their prime order (generic group model), the pairing multiplies logarithms, serialisation is
// an injective encoding, all other byte strings are invalid. Generated by gen.py.
package bn256

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
)

func bigFromBase10(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 10)
	return n
}

var Order = bigFromBase10("21888242871839275222246405745257275088548364400416034343698204186575808495617")
var P = bigFromBase10("21888242871839275222246405745257275088696311157297823662689037894645226208583")

func randomK(r io.Reader) (k *big.Int, err error) {
	k, err = rand.Int(r, Order)
	if err == nil && k.Sign() == 0 {
		err = errors.New("bn256: zero drawn") // drawn again in reality
	}
	return
}

func Pair(g1 *G1, g2 *G2) *GT {
	r := &GT{p: new(gtPoint)}
	r.p.e.Mul(&g1.p.e, &g2.p.e)
	r.p.e.Mod(&r.p.e, Order)
	return r
}

func Miller(g1 *G1, g2 *G2) *GT { return Pair(g1, g2) }

func (e *GT) Finalize() *GT { return e }

func PairingCheck(a []*G1, b []*G2) bool {
	acc := new(big.Int)
	t := new(big.Int)
	for i := 0; i < len(a); i++ {
		t.Mul(&a[i].p.e, &b[i].p.e)
		acc.Add(acc, t)
		acc.Mod(acc, Order)
	}
	return acc.Sign() == 0
}

func RandomG1(r io.Reader) (*big.Int, *G1, error) {
	k, err := randomK(r)
	if err != nil {
		return nil, nil, err
	}
	return k, new(G1).ScalarBaseMult(k), nil
}

func RandomG2(r io.Reader) (*big.Int, *G2, error) {
	k, err := randomK(r)
	if err != nil {
		return nil, nil, err
	}
	return k, new(G2).ScalarBaseMult(k), nil
}
'''
G = '''
type %(l)sPoint struct{ e big.Int }

// %(G)s is an abstract cyclic group. The zero value is suitable for use as the
// output of an operation, but cannot be used as an input.
type %(G)s struct {
	p *%(l)sPoint
}

func (g *%(G)s) String() string { return "bn256.%(G)s" }

func (e *%(G)s) out() *big.Int {
	if e.p == nil {
		e.p = new(%(l)sPoint)
	}
	return &e.p.e
}

func (e *%(G)s) ScalarBaseMult(k *big.Int) *%(G)s {
	e.out().Mod(k, Order)
	return e
}

func (e *%(G)s) ScalarMult(a *%(G)s, k *big.Int) *%(G)s {
	r := e.out()
	r.Mul(&a.p.e, k)
	r.Mod(r, Order)
	return e
}

func (e *%(G)s) Add(a, b *%(G)s) *%(G)s {
	r := e.out()
	r.Add(&a.p.e, &b.p.e)
	r.Mod(r, Order)
	return e
}

func (e *%(G)s) Neg(a *%(G)s) *%(G)s {
	r := e.out()
	r.Neg(&a.p.e)
	r.Mod(r, Order)
	return e
}

func (e *%(G)s) Set(a *%(G)s) *%(G)s {
	e.out().Set(&a.p.e)
	return e
}

// The encoding: logarithm, zeros.
func (e *%(G)s) Marshal() []byte {
	b := make([]byte, %(n)d)
	e.out().FillBytes(b[:32])
	return b
}

func (e *%(G)s) Unmarshal(m []byte) ([]byte, error) {
	if len(m) < %(n)d {
		return nil, errors.New("bn256: not enough data")
	}
	r := e.out()
	r.SetBytes(m[:32])
	if r.Cmp(Order) >= 0 {
		return nil, errors.New("bn256: coordinate exceeds modulus")
	}
	var z byte
	for _, b := range m[32:%(n)d] {
		z |= b
	}
	if z != 0 {
		return nil, errors.New("bn256: malformed point")
	}
	return m[%(n)d:], nil
}
'''
open("bn256.go", "w").write(HEAD + "".join(G % dict(G=g, l=g.lower(), n=n) for g, n in (("G1", 64), ("G2", 128), ("GT", 384))))
