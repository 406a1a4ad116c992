package main

import (
	"hash/fnv"
	"math/rand"

	"math/big"

	"golang.org/x/tools/go/ssa"
)

// symAPI implements package verifsym for the symbolic side.
var symAPI = map[string]intrinsicFn{}

func (x *Exec) cstr(v Value) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported("non-constant name"))
	}
	return s
}

func init() {
	num := func(w int) intrinsicFn {
		return func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return fromTerm(x.newInput(x.cstr(a[0]), w))
		}
	}
	symAPI["U8"] = num(8)
	symAPI["U16"] = num(16)
	symAPI["U32"] = num(32)
	symAPI["U64"] = num(64)
	symAPI["Int"] = num(64)
	symAPI["I64"] = num(64)
	symAPI["Bool"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		t := x.newInput(x.cstr(a[0]), 8)
		return fromTerm(Eq(Extract(t, 0, 0), BVC(1, 1)))
	}
	symAPI["Bytes"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[1])
		if n == 0 {
			x.fullName(x.cstr(a[0]))
			return Value{R: &SliceV{S: []Value{}}}
		}
		return Value{R: &SliceV{S: splitBytes(x.newInput(x.cstr(a[0]), 8*n))}}
	}
	symAPI["Choose"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := int64(x.concInt(a[1])), int64(x.concInt(a[2]))
		if lo > hi {
			panic(pathEnd{"assume", ""})
		}
		t := x.newInput(x.cstr(a[0]), 64)
		x.assume(And(Sle(BVC(uint64(lo), 64), t), Sle(t, BVC(uint64(hi), 64))))
		for v := lo; v < hi; v++ {
			if x.branch(Eq(t, BVC(uint64(v), 64))) {
				return Value{N: uint64(v)}
			}
		}
		return Value{N: uint64(hi)}
	}
	symAPI["Assume"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.assume(termOf(a[0], WBool))
		return Value{}
	}
	symAPI["Assert"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.doAssert(termOf(a[0], WBool), x.cstr(a[1]))
		return Value{}
	}
	symAPI["Reach"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		l := x.cstr(a[0])
		x.eng.mu.Lock()
		x.eng.reached[l]++
		x.eng.mu.Unlock()
		x.trace = append(x.trace, traceEv{kind: "reach", label: l})
		return Value{}
	}
	symAPI["Observe"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.trace = append(x.trace, traceEv{kind: "obs", label: x.cstr(a[0]), val: termOf(a[1], 64)})
		return Value{}
	}
	symAPI["Tier"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return Value{N: uint64(x.eng.tier)} }
	symAPI["Symbolic"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return mkBool(true) }
	symAPI["Fork"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkBool(x.branchV(a[0]))
	}
	symAPI["MapOrder"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.mapOrder = a[0].N != 0
		return Value{}
	}
	symAPI["MapReverse"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.mapReverse = a[0].N != 0
		return Value{}
	}
	symAPI["NoWait"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.noWait = x.cstr(a[0])
		return Value{}
	}
	// Big(name, bits): arbitrary non-negative integer below 2^bits
	symAPI["Big"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[1])
		t := x.newInput(x.cstr(a[0]), n)
		c := &Value{}
		*c = bigV(BV2Int(t))
		return Value{R: c}
	}
	// Fq(name, q): arbitrary element of the field of (big, prime) order q
	symAPI["Fq"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		q := x.bigGet(a[1])
		if !isFieldMod(q) {
			panic(unsupported("Fq modulus"))
		}
		t := x.newInput(x.cstr(a[0]), WInt)
		fqMods.Store(t, q.K)
		if v, ok := x.model[t]; !ok || v.K == nil {
			h := fnv.New64()
			h.Write([]byte(t.Name))
			nm := make(Model, len(x.model)+1)
			for k, v := range x.model {
				nm[k] = v
			}
			nm[t] = CV{K: new(big.Int).Rand(rand.New(rand.NewSource(int64(h.Sum64()))), q.K)}
			x.setModel(nm)
		}
		return newBig(t)
	}
	symAPI["UseRand"] = noop
	reg("crypto/rand.Int", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if !isFieldMod(x.bigGet(a[1])) {
			panic(unsupported("crypto/rand.Int below a small or symbolic bound"))
		}
		return tup(symAPI["Fq"](x, fr, fn, []Value{strV("rand"), a[1]}), Value{})
	})
	// DeepEq compares two values like reflect.DeepEqual without forking
	symAPI["DeepEq"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return intrinsics["reflect.DeepEqual"](x, fr, fn, a)
	}
	// IteInt etc.
	symAPI["And"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		r := TTrue
		for _, v := range sliceOf(a[0]) {
			r = And(r, termOf(v, WBool))
		}
		return fromTerm(r)
	}
	symAPI["Or"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		r := TFalse
		for _, v := range sliceOf(a[0]) {
			r = Or(r, termOf(v, WBool))
		}
		return fromTerm(r)
	}
	symAPI["Implies"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(Implies(termOf(a[0], WBool), termOf(a[1], WBool)))
	}
	symAPI["B2I"] = func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(Ite(termOf(a[0], WBool), BVC(1, 64), BVC(0, 64)))
	}
}

func init() {
	reg("github.com/supranational/blst/bindings/go.resultUsed", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if fr != nil && fr.unused {
			return Value{}
		}
		return Value{N: 1}
	})
}
