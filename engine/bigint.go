package main

import (
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// math/big.Int is modelled by mathematical integers.

func (x *Exec) bigCell(v Value) *Value {
	c, ok := v.R.(*Value)
	if !ok {
		if v.R == nil {
			panic(x.rtPanic("invalid memory address or nil pointer dereference"))
		}
		panic(unsupported("big.Int pointer"))
	}
	return c
}

func (x *Exec) bigGet(v Value) *Term { return bigOf(*x.bigCell(v)) }

func (x *Exec) bigSet(z Value, t *Term) Value {
	*x.bigCell(z) = bigV(t)
	return z
}

func newBig(t *Term) Value {
	c := &Value{}
	*c = bigV(t)
	return Value{R: c}
}

func pow2(n int) *Term { return IntC(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

func iIte(c, a, b *Term) *Term { return Ite(c, a, b) }

func iAbs(t *Term) *Term { return Ite(ILe(IntI(0), t), t, INeg(t)) }

// knownWidth returns n such that 0 <= t < 2^n is syntactically evident, or -1.
func knownWidth(t *Term) int {
	switch t.Op {
	case OConst:
		if t.K.Sign() < 0 {
			return -1
		}
		return t.K.BitLen()
	case OBV2Int:
		return t.A[0].W
	case OVar:
		if q := fqVarMod(t); q != nil {
			return q.BitLen()
		}
	case OIMod:
		if t.A[1].Op == OConst && t.A[1].K.Sign() > 0 {
			return t.A[1].K.BitLen()
		}
	case OIte:
		a, b := knownWidth(t.A[1]), knownWidth(t.A[2])
		if a < 0 || b < 0 {
			return -1
		}
		if a > b {
			return a
		}
		return b
	case OIDiv:
		if t.A[1].Op == OConst && t.A[1].K.Sign() > 0 {
			return knownWidth(t.A[0])
		}
	case OIAdd, OIMul:
		n := 0
		for _, c := range t.A {
			k := knownWidth(c)
			if k < 0 {
				return -1
			}
			if t.Op == OIMul {
				n += k
			} else if k > n {
				n = k
			}
		}
		if t.Op == OIAdd {
			n += len(t.A) - 1
		}
		return n
	}
	return -1
}

// toBV renders a non-negative integer as a bit-vector of the smallest evident width.
func (x *Exec) toBV(t *Term) *Term {
	n := knownWidth(t)
	if n < 0 || n > 1024 {
		n = 256
		if !x.branch(And(ILe(IntI(0), t), Not(ILe(pow2(n), t)))) {
			panic(unsupported("big integer beyond 256 bits"))
		}
	}
	if n == 0 {
		n = 1
	}
	n = (n + 7) / 8 * 8
	return Int2BV(t, n)
}

func (x *Exec) bigBytes(t *Term) []Value {
	if t.Op == OConst {
		return sliceOf(bytesV(t.K.Bytes()))
	}
	if x.branch(ILe(IntI(0), t)) {
	} else {
		t = INeg(t)
	}
	bv := x.toBV(t)
	bs := splitBytes(bv)
	for len(bs) > 0 {
		if !x.branch(Eq(termOf(bs[0], 8), BVC(0, 8))) {
			break
		}
		bs = bs[1:]
	}
	return append([]Value{}, bs...)
}

func bvAsInt(t *Term) *Term { return BV2Int(t) }

func signedInt(t *Term) *Term {
	if t.Op == OConst {
		return IntI(sext64(t.U, t.W))
	}
	neg := Eq(Extract(t, t.W-1, t.W-1), BVC(1, 1))
	return Ite(neg, ISub(BV2Int(t), pow2(t.W)), BV2Int(t))
}

// sgnEq: comparison results -> the condition that they are 0
var sgnEq sync.Map

func sgnTerm(lt, eq *Term) Value {
	t := Ite(lt, BVC(^uint64(0), 64), Ite(eq, BVC(0, 64), BVC(1, 64)))
	if t.Op == OIte {
		sgnEq.Store(t, eq)
	}
	return fromTerm(t)
}

func init() {
	B := "(*math/big.Int)."
	type h = func(x *Exec, a []Value) Value
	r := func(n string, f h) {
		reg(B+n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return f(x, a) })
	}
	bin2 := func(n string, f func(a, b *Term) *Term) {
		r(n, func(x *Exec, a []Value) Value { return x.bigSet(a[0], f(x.bigGet(a[1]), x.bigGet(a[2]))) })
	}
	bin2("Add", IAdd)
	bin2("Sub", ISub)
	bin2("Mul", IMul)
	div := func(n string, f func(a, b *Term) *Term) {
		r(n, func(x *Exec, a []Value) Value {
			p, q := x.bigGet(a[1]), x.bigGet(a[2])
			if x.branch(IEq(q, IntI(0))) {
				panic(x.rtPanic("division by zero"))
			}
			return x.bigSet(a[0], f(p, q))
		})
	}
	div("Div", IDiv)
	div("Mod", func(a, b *Term) *Term {
		if b.Op == OConst && b.K.Sign() < 0 {
			b = INeg(b)
		} else if b.Op != OConst {
			b = iAbs(b)
		}
		return IMod(a, b)
	})
	quo := func(a, b *Term) *Term {
		if a.Op == OConst && b.Op == OConst {
			return IntC(new(big.Int).Quo(a.K, b.K))
		}
		q := IDiv(iAbs(a), iAbs(b))
		return Ite(ILe(IntI(0), a), Ite(ILe(IntI(0), b), q, INeg(q)), Ite(ILe(IntI(0), b), INeg(q), q))
	}
	div("Quo", quo)
	div("Rem", func(a, b *Term) *Term {
		if a.Op == OConst && b.Op == OConst {
			return IntC(new(big.Int).Rem(a.K, b.K))
		}
		m := IMod(iAbs(a), iAbs(b))
		return Ite(ILe(IntI(0), a), m, INeg(m))
	})
	r("DivMod", func(x *Exec, a []Value) Value {
		p, q := x.bigGet(a[1]), x.bigGet(a[2])
		if x.branch(IEq(q, IntI(0))) {
			panic(x.rtPanic("division by zero"))
		}
		x.bigSet(a[3], IMod(p, iAbs(q)))
		x.bigSet(a[0], IDiv(p, q))
		return tup(a[0], a[3])
	})
	r("Neg", func(x *Exec, a []Value) Value { return x.bigSet(a[0], INeg(x.bigGet(a[1]))) })
	r("Abs", func(x *Exec, a []Value) Value { return x.bigSet(a[0], iAbs(x.bigGet(a[1]))) })
	r("Set", func(x *Exec, a []Value) Value { return x.bigSet(a[0], x.bigGet(a[1])) })
	r("SetInt64", func(x *Exec, a []Value) Value { return x.bigSet(a[0], signedInt(termOf(a[1], 64))) })
	r("SetUint64", func(x *Exec, a []Value) Value { return x.bigSet(a[0], BV2Int(termOf(a[1], 64))) })
	reg("math/big.NewInt", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return newBig(signedInt(termOf(a[0], 64)))
	})
	r("SetBytes", func(x *Exec, a []Value) Value {
		b := sliceOf(a[1])
		if len(b) == 0 {
			return x.bigSet(a[0], IntI(0))
		}
		return x.bigSet(a[0], BV2Int(joinBytes(b)))
	})
	r("Bytes", func(x *Exec, a []Value) Value { return Value{R: &SliceV{S: x.bigBytes(x.bigGet(a[0]))}} })
	// The real encoding has no leading zeros; the encoding of symbolic numbers keeps them.
	r("GobEncode", func(x *Exec, a []Value) Value {
		if a[0].R == nil {
			return tup(Value{}, Value{})
		}
		t := x.bigGet(a[0])
		head := uint64(2)
		var bs []Value
		if t.Op == OConst {
			if t.K.Sign() < 0 {
				head |= 1
			}
			bs = sliceOf(bytesV(t.K.Bytes()))
		} else {
			if !x.branch(ILe(IntI(0), t)) {
				t, head = INeg(t), head|1
			}
			bs = splitBytes(x.toBV(t))
		}
		return tup(Value{R: &SliceV{S: append([]Value{{N: head}}, bs...)}}, Value{})
	})
	r("GobDecode", func(x *Exec, a []Value) Value {
		b := sliceOf(a[1])
		if len(b) == 0 {
			x.bigSet(a[0], IntI(0))
			return Value{}
		}
		if b[0].R != nil {
			panic(unsupported("symbolic big.Int encoding"))
		}
		if b[0].N>>1 != 1 {
			return x.newErr(strV("Int.GobDecode: encoding version not supported"))
		}
		t := IntI(0)
		if len(b) > 1 {
			t = BV2Int(joinBytes(b[1:]))
		}
		if b[0].N&1 != 0 {
			t = INeg(t)
		}
		x.bigSet(a[0], t)
		return Value{}
	})
	r("FillBytes", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		buf := sliceOf(a[1])
		if t.Op != OConst && knownWidth(t) < 0 && x.branch(Not(ILe(IntI(0), t))) {
			t = INeg(t)
		}
		if t.Op == OConst {
			t = IntC(new(big.Int).Abs(t.K))
		}
		n := 8 * len(buf)
		if n == 0 {
			if x.branch(IEq(t, IntI(0))) {
				return a[1]
			}
			panic(x.rtPanic("math/big: buffer too small to fit value"))
		}
		if k := knownWidth(t); k < 0 || k > n {
			if x.branch(ILe(pow2(n), t)) {
				panic(x.rtPanic("math/big: buffer too small to fit value"))
			}
		}
		for i, v := range splitBytes(Int2BV(t, n)) {
			buf[i] = v
		}
		return a[1]
	})
	r("Cmp", func(x *Exec, a []Value) Value {
		p, q := x.bigGet(a[0]), x.bigGet(a[1])
		return sgnTerm(ILt(p, q), IEq(p, q))
	})
	r("CmpAbs", func(x *Exec, a []Value) Value {
		p, q := iAbs(x.bigGet(a[0])), iAbs(x.bigGet(a[1]))
		return sgnTerm(ILt(p, q), IEq(p, q))
	})
	r("Sign", func(x *Exec, a []Value) Value {
		p := x.bigGet(a[0])
		return sgnTerm(ILt(p, IntI(0)), IEq(p, IntI(0)))
	})
	r("Uint64", func(x *Exec, a []Value) Value { return fromTerm(Int2BV(x.bigGet(a[0]), 64)) })
	r("Int64", func(x *Exec, a []Value) Value { return fromTerm(Int2BV(x.bigGet(a[0]), 64)) })
	r("IsUint64", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		return fromTerm(And(ILe(IntI(0), t), ILt(t, pow2(64))))
	})
	r("IsInt64", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		return fromTerm(And(ILe(INeg(pow2(63)), t), ILt(t, pow2(63))))
	})
	r("BitLen", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		if t.Op == OConst {
			return Value{N: uint64(t.K.BitLen())}
		}
		bv := x.toBV(iAbsIfNeeded(t))
		res := BVC(0, 64)
		for i := 0; i < bv.W; i++ {
			res = Ite(Eq(Extract(bv, i, i), BVC(1, 1)), BVC(uint64(i+1), 64), res)
		}
		return fromTerm(res)
	})
	r("Bit", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		i := x.concInt(a[1])
		if t.Op == OConst {
			return Value{N: uint64(t.K.Bit(i))}
		}
		bv := x.toBV(t)
		if i >= bv.W {
			return Value{}
		}
		return fromTerm(ZExt(Extract(bv, i, i), 64))
	})
	r("Lsh", func(x *Exec, a []Value) Value {
		return x.bigSet(a[0], IMul(x.bigGet(a[1]), pow2(x.concInt(a[2]))))
	})
	r("Rsh", func(x *Exec, a []Value) Value {
		return x.bigSet(a[0], IDiv(x.bigGet(a[1]), pow2(x.concInt(a[2]))))
	})
	conc := func(n string, f func(k []*big.Int) *big.Int, nargs int) {
		r(n, func(x *Exec, a []Value) Value {
			var ks []*big.Int
			for i := 1; i <= nargs; i++ {
				if a[i].R == nil {
					ks = append(ks, nil)
					continue
				}
				t := x.bigGet(a[i])
				if t.Op != OConst {
					panic(unsupported("symbolic big." + n))
				}
				ks = append(ks, t.K)
			}
			res := f(ks)
			if res == nil {
				return Value{}
			}
			return x.bigSet(a[0], IntC(res))
		})
	}
	r("QuoRem", func(x *Exec, a []Value) Value {
		p, q := x.bigGet(a[1]), x.bigGet(a[2])
		if x.branch(IEq(q, IntI(0))) {
			panic(x.rtPanic("division by zero"))
		}
		d := quo(p, q)
		m := ISub(p, IMul(d, q))
		x.bigSet(a[0], d)
		x.bigSet(a[3], m)
		return tup(a[0], a[3])
	})
	r("TrailingZeroBits", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		if t.Op != OConst {
			panic(unsupported("symbolic big.TrailingZeroBits"))
		}
		return Value{N: uint64(t.K.TrailingZeroBits())}
	})
	r("ProbablyPrime", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		if t.Op != OConst {
			panic(unsupported("symbolic big.ProbablyPrime"))
		}
		return mkBool(t.K.ProbablyPrime(x.concInt(a[1])))
	})
	r("GCD", func(x *Exec, a []Value) Value {
		p, q := x.bigGet(a[3]), x.bigGet(a[4])
		if p.Op != OConst || q.Op != OConst {
			panic(unsupported("symbolic big.GCD"))
		}
		u, v := new(big.Int), new(big.Int)
		g := new(big.Int).GCD(u, v, p.K, q.K)
		for i, k := range []*big.Int{u, v} {
			if a[i+1].R != nil {
				x.bigSet(a[i+1], IntC(k))
			}
		}
		return x.bigSet(a[0], IntC(g))
	})
	conc("Not", func(k []*big.Int) *big.Int { return new(big.Int).Not(k[0]) }, 1)
	conc("AndNot", func(k []*big.Int) *big.Int { return new(big.Int).AndNot(k[0], k[1]) }, 2)
	r("MulRange", func(x *Exec, a []Value) Value {
		return x.bigSet(a[0], IntC(new(big.Int).MulRange(int64(x.concInt(a[1])), int64(x.concInt(a[2])))))
	})
	conc("Exp", func(k []*big.Int) *big.Int { return new(big.Int).Exp(k[0], k[1], k[2]) }, 3)
	conc("ModInverse", func(k []*big.Int) *big.Int { return new(big.Int).ModInverse(k[0], k[1]) }, 2)
	conc("ModSqrt", func(k []*big.Int) *big.Int { return new(big.Int).ModSqrt(k[0], k[1]) }, 2)
	conc("Sqrt", func(k []*big.Int) *big.Int { return new(big.Int).Sqrt(k[0]) }, 1)
	r("And", func(x *Exec, a []Value) Value {
		p, q := x.bigGet(a[1]), x.bigGet(a[2])
		if p.Op == OConst && q.Op == OConst {
			return x.bigSet(a[0], IntC(new(big.Int).And(p.K, q.K)))
		}
		if p.Op == OConst {
			p, q = q, p
		}
		if q.Op == OConst && q.K.Sign() >= 0 {
			// 2^n-1: the lowest bits
			if m := new(big.Int).Add(q.K, big.NewInt(1)); new(big.Int).And(m, q.K).Sign() == 0 {
				return x.bigSet(a[0], IMod(p, IntC(m)))
			}
		}
		panic(unsupported("symbolic big.And"))
	})
	conc("Or", func(k []*big.Int) *big.Int { return new(big.Int).Or(k[0], k[1]) }, 2)
	conc("Xor", func(k []*big.Int) *big.Int { return new(big.Int).Xor(k[0], k[1]) }, 2)
	r("SetString", func(x *Exec, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			panic(unsupported("big.SetString of symbolic text"))
		}
		k, ok := new(big.Int).SetString(s, x.concInt(a[2]))
		if !ok {
			return tup(Value{}, mkBool(false))
		}
		x.bigSet(a[0], IntC(k))
		return tup(a[0], mkBool(true))
	})
	r("SetBit", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[1])
		if t.Op != OConst || a[3].R != nil {
			panic(unsupported("symbolic big.SetBit"))
		}
		return x.bigSet(a[0], IntC(new(big.Int).SetBit(t.K, x.concInt(a[2]), uint(a[3].N))))
	})
	str := func(x *Exec, t *Term, base int) Value {
		if t.Op == OConst {
			return strV(t.K.Text(base))
		}
		return x.opaque("bigtext")
	}
	r("String", func(x *Exec, a []Value) Value {
		if a[0].R == nil {
			return strV("<nil>")
		}
		return str(x, x.bigGet(a[0]), 10)
	})
	r("Text", func(x *Exec, a []Value) Value {
		if a[0].R == nil {
			return strV("<nil>")
		}
		return str(x, x.bigGet(a[0]), x.concInt(a[1]))
	})
	r("Bits", func(x *Exec, a []Value) Value {
		t := x.bigGet(a[0])
		if t.Op != OConst {
			panic(unsupported("symbolic big.Bits"))
		}
		var s []Value
		for _, w := range t.K.Bits() {
			s = append(s, Value{N: uint64(w)})
		}
		return mkSlice(s)
	})
}

func iAbsIfNeeded(t *Term) *Term {
	if knownWidth(t) >= 0 {
		return t
	}
	return iAbs(t)
}
