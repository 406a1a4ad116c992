// Package bn256 models the package symbolically: the groups are represented by discrete logarithms
// modulo their prime order (generic group model), the pairing multiplies logarithms, serialisation is
// an injective encoding, all other byte strings are invalid. Generated by gen.py.
package bn256

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
)

func bigFromBase10(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 10)
	return n
}

var Order = bigFromBase10("21888242871839275222246405745257275088548364400416034343698204186575808495617")
var P = bigFromBase10("21888242871839275222246405745257275088696311157297823662689037894645226208583")

func randomK(r io.Reader) (k *big.Int, err error) {
	k, err = rand.Int(r, Order)
	if err == nil && k.Sign() == 0 {
		err = errors.New("bn256: zero drawn") // drawn again in reality
	}
	return
}

func Pair(g1 *G1, g2 *G2) *GT {
	r := &GT{p: new(gtPoint)}
	r.p.e.Mul(&g1.p.e, &g2.p.e)
	r.p.e.Mod(&r.p.e, Order)
	return r
}

func Miller(g1 *G1, g2 *G2) *GT { return Pair(g1, g2) }

func (e *GT) Finalize() *GT { return e }

func PairingCheck(a []*G1, b []*G2) bool {
	acc := new(big.Int)
	t := new(big.Int)
	for i := 0; i < len(a); i++ {
		t.Mul(&a[i].p.e, &b[i].p.e)
		acc.Add(acc, t)
		acc.Mod(acc, Order)
	}
	return acc.Sign() == 0
}

func RandomG1(r io.Reader) (*big.Int, *G1, error) {
	k, err := randomK(r)
	if err != nil {
		return nil, nil, err
	}
	return k, new(G1).ScalarBaseMult(k), nil
}

func RandomG2(r io.Reader) (*big.Int, *G2, error) {
	k, err := randomK(r)
	if err != nil {
		return nil, nil, err
	}
	return k, new(G2).ScalarBaseMult(k), nil
}

type g1Point struct{ e big.Int }

// G1 is an abstract cyclic group. The zero value is suitable for use as the
// output of an operation, but cannot be used as an input.
type G1 struct {
	p *g1Point
}

func (g *G1) String() string { return "bn256.G1" }

func (e *G1) out() *big.Int {
	if e.p == nil {
		e.p = new(g1Point)
	}
	return &e.p.e
}

func (e *G1) ScalarBaseMult(k *big.Int) *G1 {
	e.out().Mod(k, Order)
	return e
}

func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
	r := e.out()
	r.Mul(&a.p.e, k)
	r.Mod(r, Order)
	return e
}

func (e *G1) Add(a, b *G1) *G1 {
	r := e.out()
	r.Add(&a.p.e, &b.p.e)
	r.Mod(r, Order)
	return e
}

func (e *G1) Neg(a *G1) *G1 {
	r := e.out()
	r.Neg(&a.p.e)
	r.Mod(r, Order)
	return e
}

func (e *G1) Set(a *G1) *G1 {
	e.out().Set(&a.p.e)
	return e
}

// The encoding: logarithm, zeros.
func (e *G1) Marshal() []byte {
	b := make([]byte, 64)
	e.out().FillBytes(b[:32])
	return b
}

func (e *G1) Unmarshal(m []byte) ([]byte, error) {
	if len(m) < 64 {
		return nil, errors.New("bn256: not enough data")
	}
	r := e.out()
	r.SetBytes(m[:32])
	if r.Cmp(Order) >= 0 {
		return nil, errors.New("bn256: coordinate exceeds modulus")
	}
	var z byte
	for _, b := range m[32:64] {
		z |= b
	}
	if z != 0 {
		return nil, errors.New("bn256: malformed point")
	}
	return m[64:], nil
}

type g2Point struct{ e big.Int }

// G2 is an abstract cyclic group. The zero value is suitable for use as the
// output of an operation, but cannot be used as an input.
type G2 struct {
	p *g2Point
}

func (g *G2) String() string { return "bn256.G2" }

func (e *G2) out() *big.Int {
	if e.p == nil {
		e.p = new(g2Point)
	}
	return &e.p.e
}

func (e *G2) ScalarBaseMult(k *big.Int) *G2 {
	e.out().Mod(k, Order)
	return e
}

func (e *G2) ScalarMult(a *G2, k *big.Int) *G2 {
	r := e.out()
	r.Mul(&a.p.e, k)
	r.Mod(r, Order)
	return e
}

func (e *G2) Add(a, b *G2) *G2 {
	r := e.out()
	r.Add(&a.p.e, &b.p.e)
	r.Mod(r, Order)
	return e
}

func (e *G2) Neg(a *G2) *G2 {
	r := e.out()
	r.Neg(&a.p.e)
	r.Mod(r, Order)
	return e
}

func (e *G2) Set(a *G2) *G2 {
	e.out().Set(&a.p.e)
	return e
}

// The encoding: logarithm, zeros.
func (e *G2) Marshal() []byte {
	b := make([]byte, 128)
	e.out().FillBytes(b[:32])
	return b
}

func (e *G2) Unmarshal(m []byte) ([]byte, error) {
	if len(m) < 128 {
		return nil, errors.New("bn256: not enough data")
	}
	r := e.out()
	r.SetBytes(m[:32])
	if r.Cmp(Order) >= 0 {
		return nil, errors.New("bn256: coordinate exceeds modulus")
	}
	var z byte
	for _, b := range m[32:128] {
		z |= b
	}
	if z != 0 {
		return nil, errors.New("bn256: malformed point")
	}
	return m[128:], nil
}

type gtPoint struct{ e big.Int }

// GT is an abstract cyclic group. The zero value is suitable for use as the
// output of an operation, but cannot be used as an input.
type GT struct {
	p *gtPoint
}

func (g *GT) String() string { return "bn256.GT" }

func (e *GT) out() *big.Int {
	if e.p == nil {
		e.p = new(gtPoint)
	}
	return &e.p.e
}

func (e *GT) ScalarBaseMult(k *big.Int) *GT {
	e.out().Mod(k, Order)
	return e
}

func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
	r := e.out()
	r.Mul(&a.p.e, k)
	r.Mod(r, Order)
	return e
}

func (e *GT) Add(a, b *GT) *GT {
	r := e.out()
	r.Add(&a.p.e, &b.p.e)
	r.Mod(r, Order)
	return e
}

func (e *GT) Neg(a *GT) *GT {
	r := e.out()
	r.Neg(&a.p.e)
	r.Mod(r, Order)
	return e
}

func (e *GT) Set(a *GT) *GT {
	e.out().Set(&a.p.e)
	return e
}

// The encoding: logarithm, zeros.
func (e *GT) Marshal() []byte {
	b := make([]byte, 384)
	e.out().FillBytes(b[:32])
	return b
}

func (e *GT) Unmarshal(m []byte) ([]byte, error) {
	if len(m) < 384 {
		return nil, errors.New("bn256: not enough data")
	}
	r := e.out()
	r.SetBytes(m[:32])
	if r.Cmp(Order) >= 0 {
		return nil, errors.New("bn256: coordinate exceeds modulus")
	}
	var z byte
	for _, b := range m[32:384] {
		z |= b
	}
	if z != 0 {
		return nil, errors.New("bn256: malformed point")
	}
	return m[384:], nil
}
