// Package blst models the bindings symbolically: the groups are represented by discrete logarithms
// modulo their prime order (generic group model), the pairing multiplies logarithms, serialisation is
// an injective encoding with arbitrary invalid encodings. Generated by gen.py.
package blst

import (
	"crypto/sha256"
	"fmt"
	"math/big"
)

const (
	BLST_SCALAR_BYTES       = 32
	BLST_FP_BYTES           = 48
	BLST_P1_COMPRESS_BYTES  = 48
	BLST_P1_SERIALIZE_BYTES = 96
	BLST_P2_COMPRESS_BYTES  = 96
	BLST_P2_SERIALIZE_BYTES = 192
)

var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

const (
	outside1 = "800000000000000000000000000000006e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d"
	outside2 = "800000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d"
)

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		for _, c := range s[2*i : 2*i+2] {
			v := byte(c) - '0'
			if c >= 'a' {
				v = byte(c) - 'a' + 10
			}
			b[i] = b[i]<<4 | v
		}
	}
	return b
}

type Scalar struct{ v big.Int }

func (s *Scalar) FromBEndian(b []byte) *Scalar {
	if len(b) < BLST_SCALAR_BYTES {
		return nil
	}
	s.v.SetBytes(b)
	s.v.Mod(&s.v, order)
	if resultUsed() && s.v.Sign() == 0 {
		return nil
	}
	return s
}

// resultUsed tells whether the caller of the caller looks at the result (interpreted by the executor).
func resultUsed() bool { return true }

func (s *Scalar) ToBEndian() []byte { return s.v.FillBytes(make([]byte, 32)) }

func (s *Scalar) Equals(o *Scalar) bool { return s.v.Cmp(&o.v) == 0 }

func scalarOf(x interface{}) *big.Int {
	switch v := x.(type) {
	case *Scalar:
		return &v.v
	case []byte: // little endian
		r := make([]byte, len(v))
		for i := range v {
			r[len(v)-1-i] = v[i]
		}
		return new(big.Int).SetBytes(r)
	}
	panic(fmt.Sprintf("unsupported type %T", x))
}

// Fp12 is an element of the target group; raw values have not been exponentiated.
type Fp12 struct {
	e   big.Int
	raw bool
}

func Fp12One() Fp12 { return Fp12{} }

func Fp12MillerLoop(q *P2Affine, p *P1Affine) *Fp12 {
	r := new(Fp12)
	r.e.Mul(&q.e, &p.e)
	r.e.Mod(&r.e, order)
	r.raw = true
	return r
}

func (p *Fp12) FinalExp() {
	// the final exponentiation has cofactor 3 relative to the ideal pairing, which is immaterial
	p.raw = false
}

func (p *Fp12) MulAssign(o *Fp12) {
	p.e.Add(&p.e, &o.e)
	p.e.Mod(&p.e, order)
	p.raw = p.raw || o.raw
}

func (p *Fp12) Equals(o *Fp12) bool {
	if p.raw || o.raw {
		return p == o // unreduced Miller loop values are not comparable
	}
	return p.e.Cmp(&o.e) == 0
}

// ModelExp stands for the exponentiation loop of the caller where that is checked separately.
func ModelExp(base *Fp12, exp *big.Int) *Fp12 {
	r := new(Fp12)
	r.e.Mul(&base.e, exp)
	r.e.Mod(&r.e, order)
	return r
}

func (p *Fp12) ToBendian() []byte {
	b := make([]byte, 12*BLST_FP_BYTES)
	p.e.FillBytes(b[len(b)-32:])
	if p.raw {
		b[0] = 1
	}
	return b
}

func HashToG1(msg []byte, dst []byte, optional ...[]byte) *P1 {
	in := append([]byte("hash to G1"), byte(len(dst)))
	in = append(in, dst...)
	for _, a := range optional {
		in = append(in, a...)
	}
	h := sha256.Sum256(append(in, msg...))
	r := new(P1)
	r.e.SetBytes(h[:])
	r.e.Mod(&r.e, order)
	return r
}

var outsideG1 = unhex(outside1)

type P1Affine struct {
	e   big.Int
	out bool // on the curve, but not in the subgroup
}

type P1 struct {
	e   big.Int
	out bool
}

type (
	P1Affines []P1Affine
	P1s       []P1
)

var generator1 = func() P1 {
	var g P1
	g.e.SetInt64(1)
	return g
}()

func P1Generator() *P1 { return &generator1 }

func (p *P1) ToAffine() *P1Affine {
	a := new(P1Affine)
	a.e.Set(&p.e)
	a.out = p.out
	return a
}

func (p *P1) FromAffine(a *P1Affine) {
	p.e.Set(&a.e)
	p.out = a.out
}

func (p *P1) MultAssign(x interface{}, optional ...int) *P1 {
	k := scalarOf(x)
	if len(optional) > 0 && optional[0] < 255 {
		k = new(big.Int).Mod(k, new(big.Int).Lsh(big.NewInt(1), uint(optional[0])))
	}
	p.e.Mul(&p.e, k)
	p.e.Mod(&p.e, order)
	return p
}

func (p *P1) Mult(x interface{}, optional ...int) *P1 {
	r := *p
	return r.MultAssign(x, optional...)
}

func p1of(x interface{}) (*big.Int, bool) {
	switch v := x.(type) {
	case *P1:
		return &v.e, v.out
	case *P1Affine:
		return &v.e, v.out
	}
	panic(fmt.Sprintf("unsupported type %T", x))
}

func (p *P1) AddAssign(x interface{}) *P1 {
	e, out := p1of(x)
	p.e.Add(&p.e, e)
	p.e.Mod(&p.e, order)
	p.out = p.out || out
	return p
}

func (p *P1) Add(x interface{}) *P1 {
	r := *p
	return r.AddAssign(x)
}

func (p *P1) SubAssign(x interface{}) *P1 {
	e, out := p1of(x)
	p.e.Sub(&p.e, e)
	p.e.Mod(&p.e, order)
	p.out = p.out || out
	return p
}

func (p *P1) Sub(x interface{}) *P1 {
	r := *p
	return r.SubAssign(x)
}

func (p *P1) Equals(o *P1) bool { return p.out == o.out && p.e.Cmp(&o.e) == 0 }

func (p *P1Affine) Equals(o *P1Affine) bool { return p.out == o.out && p.e.Cmp(&o.e) == 0 }

func (p *P1Affine) InG1() bool { return !p.out }

func (p *P1) Compress() []byte { return p.ToAffine().Compress() }

// The encoding: compression flag, zeros, logarithm; one real encoding of a point outside of the subgroup.
func (p *P1Affine) Compress() []byte {
	if p.out {
		return append([]byte{}, outsideG1...)
	}
	b := make([]byte, BLST_P1_COMPRESS_BYTES)
	b[0] = 0xa0
	p.e.FillBytes(b[len(b)-32:])
	return b
}

func (p *P1Affine) Uncompress(in []byte) *P1Affine {
	if len(in) != BLST_P1_COMPRESS_BYTES {
		return nil
	}
	n := len(in) - 32
	if string(in) == string(outsideG1) { // on the curve, outside of the subgroup
		p.e.SetInt64(1)
		p.out = true
		return p
	}
	if in[0] != 0xa0 || in[1] != 0 {
		return nil
	}
	for _, b := range in[2:n] {
		if b != 0 {
			return nil
		}
	}
	k := new(big.Int).SetBytes(in[n:])
	if k.Cmp(order) >= 0 {
		return nil
	}
	p.e.Set(k)
	p.out = false
	return p
}

func (p *P1Affine) Serialize() []byte {
	b := make([]byte, BLST_P1_SERIALIZE_BYTES)
	copy(b, p.Compress())
	return b
}

var outsideG2 = unhex(outside2)

type P2Affine struct {
	e   big.Int
	out bool // on the curve, but not in the subgroup
}

type P2 struct {
	e   big.Int
	out bool
}

type (
	P2Affines []P2Affine
	P2s       []P2
)

var generator2 = func() P2 {
	var g P2
	g.e.SetInt64(1)
	return g
}()

func P2Generator() *P2 { return &generator2 }

func (p *P2) ToAffine() *P2Affine {
	a := new(P2Affine)
	a.e.Set(&p.e)
	a.out = p.out
	return a
}

func (p *P2) FromAffine(a *P2Affine) {
	p.e.Set(&a.e)
	p.out = a.out
}

func (p *P2) MultAssign(x interface{}, optional ...int) *P2 {
	k := scalarOf(x)
	if len(optional) > 0 && optional[0] < 255 {
		k = new(big.Int).Mod(k, new(big.Int).Lsh(big.NewInt(1), uint(optional[0])))
	}
	p.e.Mul(&p.e, k)
	p.e.Mod(&p.e, order)
	return p
}

func (p *P2) Mult(x interface{}, optional ...int) *P2 {
	r := *p
	return r.MultAssign(x, optional...)
}

func p2of(x interface{}) (*big.Int, bool) {
	switch v := x.(type) {
	case *P2:
		return &v.e, v.out
	case *P2Affine:
		return &v.e, v.out
	}
	panic(fmt.Sprintf("unsupported type %T", x))
}

func (p *P2) AddAssign(x interface{}) *P2 {
	e, out := p2of(x)
	p.e.Add(&p.e, e)
	p.e.Mod(&p.e, order)
	p.out = p.out || out
	return p
}

func (p *P2) Add(x interface{}) *P2 {
	r := *p
	return r.AddAssign(x)
}

func (p *P2) SubAssign(x interface{}) *P2 {
	e, out := p2of(x)
	p.e.Sub(&p.e, e)
	p.e.Mod(&p.e, order)
	p.out = p.out || out
	return p
}

func (p *P2) Sub(x interface{}) *P2 {
	r := *p
	return r.SubAssign(x)
}

func (p *P2) Equals(o *P2) bool { return p.out == o.out && p.e.Cmp(&o.e) == 0 }

func (p *P2Affine) Equals(o *P2Affine) bool { return p.out == o.out && p.e.Cmp(&o.e) == 0 }

func (p *P2Affine) InG2() bool { return !p.out }

func (p *P2) Compress() []byte { return p.ToAffine().Compress() }

// The encoding: compression flag, zeros, logarithm; one real encoding of a point outside of the subgroup.
func (p *P2Affine) Compress() []byte {
	if p.out {
		return append([]byte{}, outsideG2...)
	}
	b := make([]byte, BLST_P2_COMPRESS_BYTES)
	b[0] = 0xa0
	p.e.FillBytes(b[len(b)-32:])
	return b
}

func (p *P2Affine) Uncompress(in []byte) *P2Affine {
	if len(in) != BLST_P2_COMPRESS_BYTES {
		return nil
	}
	n := len(in) - 32
	if string(in) == string(outsideG2) { // on the curve, outside of the subgroup
		p.e.SetInt64(1)
		p.out = true
		return p
	}
	if in[0] != 0xa0 || in[1] != 0 {
		return nil
	}
	for _, b := range in[2:n] {
		if b != 0 {
			return nil
		}
	}
	k := new(big.Int).SetBytes(in[n:])
	if k.Cmp(order) >= 0 {
		return nil
	}
	p.e.Set(k)
	p.out = false
	return p
}

func (p *P2Affine) Serialize() []byte {
	b := make([]byte, BLST_P2_SERIALIZE_BYTES)
	copy(b, p.Compress())
	return b
}
