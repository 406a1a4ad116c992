package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var u8Type = types.Typ[types.Uint8]

func hexBig(s string) *big.Int {
	b, _ := new(big.Int).SetString(s, 16)
	return b
}

// secp256k1 parameters
var (
	secP  = hexBig("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	secN  = hexBig("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	secGx = hexBig("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	secGy = hexBig("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

type pt struct{ x, y *big.Int }

func secAdd(a, b *pt) *pt {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, secP).Sign() == 0 {
			return nil
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), secP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, secP)
		l = new(big.Int).Sub(b.y, a.y)
		l.Mul(l, d.ModInverse(d, secP))
	}
	l.Mod(l, secP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, secP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, secP)
	return &pt{x, y}
}

func secMul(p *pt, k *big.Int) *pt {
	var r *pt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = secAdd(r, r)
		if k.Bit(i) == 1 {
			r = secAdd(r, p)
		}
	}
	return r
}

func secPub(key []byte) []byte {
	p := secMul(&pt{secGx, secGy}, new(big.Int).SetBytes(key))
	out := make([]byte, 65)
	out[0] = 4
	p.x.FillBytes(out[1:33])
	p.y.FillBytes(out[33:])
	return out
}

func (x *Exec) mustConc(v []Value, what string) []byte {
	b, ok := concBytes(v)
	if !ok {
		panic(unsupported("symbolic " + what))
	}
	return b
}

func bigPtr(k *big.Int) Value {
	c := &Value{}
	*c = bigC(k)
	return Value{R: c}
}

func initCurve() {
	sp := "github.com/ethereum/go-ethereum/crypto/secp256k1."
	bc := "(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve)."
	reg(bc+"ScalarBaseMult", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		k := x.mustConc(sliceOf(a[1]), "scalar")
		p := secMul(&pt{secGx, secGy}, new(big.Int).Mod(new(big.Int).SetBytes(k), secN))
		if p == nil {
			return tup(bigPtr(new(big.Int)), bigPtr(new(big.Int)))
		}
		return tup(bigPtr(p.x), bigPtr(p.y))
	})
	reg(bc+"ScalarMult", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		k := x.mustConc(sliceOf(a[3]), "scalar")
		bx, by := x.bigGet(a[1]), x.bigGet(a[2])
		if bx.Op != OConst || by.Op != OConst {
			panic(unsupported("symbolic point"))
		}
		p := secMul(&pt{bx.K, by.K}, new(big.Int).SetBytes(k))
		if p == nil {
			return tup(bigPtr(new(big.Int)), bigPtr(new(big.Int)))
		}
		return tup(bigPtr(p.x), bigPtr(p.y))
	})
	reg(sp+"Sign", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		msg, key := sliceOf(a[0]), sliceOf(a[1])
		if len(msg) != 32 || len(key) != 32 {
			return tup(Value{}, x.newErr(strV("invalid message or key length")))
		}
		t := App("ecsign", joinBytes(append(append([]Value{}, msg...), key...)), 65)
		return tup(Value{R: &SliceV{S: splitBytes(t)}}, Value{})
	})
	// HighS is the other valid signature, with the negated s.
	symAPI["HighS"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		t := joinBytes(sliceOf(a[0]))
		if t.Op != OApp || t.Name != "ecsign" {
			panic(unsupported("HighS of something else than a signature"))
		}
		return Value{R: &SliceV{S: splitBytes(App("ecsignhigh", t.A[0], 65))}}
	}
	// Signatures are in range, those made by Sign are in the lower half.
	sigName := func(t *Term) string {
		for t.Op != OApp {
			if t.Op != OExtract && t.Op != OBV2Int {
				return ""
			}
			t = t.A[0]
		}
		return t.Name
	}
	reg("github.com/ethereum/go-ethereum/crypto.ValidateSignatureValues", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		name := sigName(x.bigGet(a[2]))
		if name != "ecsign" && name != "ecsignhigh" {
			return x.callBody(fr, fn, a) // of something else
		}
		if v, ok := a[0].R.(*Term); !ok || sigName(v) != name {
			panic(unsupported("recovery id of another signature"))
		}
		if name == "ecsign" {
			return mkBool(true)
		}
		return fromTerm(Not(termOf(a[3], WBool)))
	})
	// recover returns the public key when sig is a signature over msg made by Sign.
	recover := func(x *Exec, msg, sig []Value, n int) ([]byte, bool) {
		if len(sig) != n || len(msg) != 32 {
			return nil, false
		}
		if _, ok := concBytes(sig); ok {
			return nil, false
		}
		t := joinBytes(sig)
		if t.Op == OExtract && t.A[0].Op == OApp && t.A[0].Name == "ecsign" && t.W == 64*8 {
			t = t.A[0]
		}
		if t.Op != OApp || t.Name != "ecsign" && (t.Name != "ecsignhigh" || n == 64) {
			return nil, false
		}
		arg := t.A[0]
		key := Extract(arg, 255, 0)
		if key.Op != OConst {
			panic(unsupported("symbolic signing key"))
		}
		if !x.branch(Eq(Extract(arg, 511, 256), joinBytes(msg))) {
			return nil, false
		}
		return secPub(bigToBytes(key.Big(), 256)), true
	}
	reg(sp+"RecoverPubkey", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		pub, ok := recover(x, sliceOf(a[0]), sliceOf(a[1]), 65)
		if !ok {
			return tup(Value{}, x.newErr(strV("recovery failed")))
		}
		return tup(bytesV(pub), Value{})
	})
	reg(sp+"VerifySignature", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		pub, ok := recover(x, sliceOf(a[1]), sliceOf(a[2]), 64)
		if !ok {
			return mkBool(false)
		}
		want := pub
		pk := sliceOf(a[0])
		if len(pk) == 33 {
			want = append([]byte{2 + pub[64]&1}, pub[1:33]...)
		}
		return mkBool(x.branch(bytesEq(pk, sliceOf(bytesV(want)))))
	})
	reg(sp+"DecompressPubkey", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		in := sliceOf(a[0])
		if len(in) != 33 {
			return tup(Value{}, Value{})
		}
		b := x.mustConc(in, "compressed public key")
		if b[0] != 2 && b[0] != 3 {
			return tup(Value{}, Value{})
		}
		px := new(big.Int).SetBytes(b[1:])
		if px.Cmp(secP) >= 0 {
			return tup(Value{}, Value{})
		}
		y := new(big.Int).Exp(px, big.NewInt(3), secP)
		y.Add(y, big.NewInt(7))
		if y.ModSqrt(y.Mod(y, secP), secP) == nil {
			return tup(Value{}, Value{})
		}
		if byte(y.Bit(0)) != b[0]&1 {
			y.Sub(secP, y)
		}
		return tup(bigPtr(px), bigPtr(y))
	})
	reg(sp+"CompressPubkey", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		bx, by := x.bigGet(a[0]), x.bigGet(a[1])
		if bx.Op != OConst || by.Op != OConst {
			panic(unsupported("symbolic point"))
		}
		out := make([]byte, 33)
		out[0] = 2 + byte(by.K.Bit(0))
		bx.K.FillBytes(out[1:])
		return bytesV(out)
	})
}

var _ = strings.TrimSpace
