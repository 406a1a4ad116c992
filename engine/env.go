package main

import (
	"crypto/ed25519"
	"encoding/binary"
	"go/types"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

// Environment: pseudo random numbers and the clock.

type rngState struct {
	seed *Term
	n    int
}

func (x *Exec) rng(src Value) *rngState {
	p, ok := src.R.(*Value)
	if !ok {
		panic(unsupported("random source"))
	}
	m, _ := x.side["rng"].(map[*Value]*rngState)
	if m == nil {
		m = map[*Value]*rngState{}
		x.side["rng"] = m
	}
	if m[p] == nil {
		m[p] = &rngState{seed: BVC(0, 64)}
	}
	return m[p]
}

func (s *rngState) draw() *Term {
	s.n++
	return App("rngdraw", Concat(s.seed, BVC(uint64(s.n-1), 32)), 8)
}

// pick draws a number below n.
func (x *Exec) pick(s *rngState, n *Term) Value {
	t := x.uf("rngpick", []*Term{s.seed, BVC(uint64(s.n), 32), n}, []int{32}, false)[0]
	s.n++
	x.assume(Or(Eq(n, BVC(0, 32)), Ult(t, n)))
	return Value{N: x.concretize(t)}
}

func init() {
	reg("math/rand.Seed", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		x.side["globalrng"] = &rngState{seed: termOf(a[0], 64)}
		return Value{}
	})
	reg("math/rand.globalRand", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		rt, st := fn.Pkg.Type("Rand"), fn.Pkg.Type("runtimeSource")
		if rt == nil || st == nil {
			panic(unsupported("math/rand"))
		}
		src, r := new(Value), new(Value)
		*src, *r = zero(st.Type()), zero(rt.Type())
		for i := 0; i < 2; i++ {
			r.R.(*Agg).E[i] = Value{R: &Iface{T: types.NewPointer(st.Type()), V: Value{R: src}}}
		}
		return Value{R: r}
	})
	regApp(&appFn{name: "rngdraw", eval: func(in []byte, out int) []byte {
		r := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(in))))
		for k := binary.BigEndian.Uint32(in[8:]); k > 0; k-- {
			r.Uint32()
		}
		res := make([]byte, 8)
		binary.BigEndian.PutUint64(res, r.Uint64())
		return res
	}})
	for _, pk := range []string{"math/rand"} {
		reg("(*"+pk+".rngSource).Seed", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			*x.rng(a[0]) = rngState{seed: termOf(a[1], 64)}
			return Value{}
		})
		reg("(*"+pk+".rngSource).Uint64", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return fromTerm(x.rng(a[0]).draw())
		})
		reg("(*"+pk+".rngSource).Int63", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return fromTerm(ZExt(Extract(x.rng(a[0]).draw(), 62, 0), 64))
		})
		// draws of bounded numbers; the rejection of biased draws (probability below 2^-28) is ignored
		reg("(*"+pk+".Rand).int31n", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			src := ifaceOf(a[0].R.(*Value).R.(*Agg).E[0])
			if src == nil {
				panic(x.rtPanic("nil pointer dereference"))
			}
			if src.T.String() != "*math/rand.rngSource" {
				if g, ok := x.side["globalrng"].(*rngState); ok {
					return x.pick(g, termOf(a[1], 32))
				}
				// unseeded: any number
				t := x.newInput("$random", 32)
				x.assume(Ult(t, termOf(a[1], 32)))
				return Value{N: x.concretize(t)}
			}
			return x.pick(x.rng(src.V), termOf(a[1], 32))
		})
		reg("(*"+pk+".runtimeSource).Uint64", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			if g, ok := x.side["globalrng"].(*rngState); ok {
				return fromTerm(g.draw())
			}
			return fromTerm(x.newInput("$random", 64))
		})
		reg("(*"+pk+".runtimeSource).Int63", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			if g, ok := x.side["globalrng"].(*rngState); ok {
				return fromTerm(ZExt(Extract(g.draw(), 62, 0), 64))
			}
			return fromTerm(ZExt(Extract(x.newInput("$random", 64), 62, 0), 64))
		})
	}
	read := func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		d := sliceOf(a[len(a)-1])
		if len(d) > 0 {
			for i, b := range splitBytes(x.newInput("$randbytes", 8*len(d))) {
				x.store(Value{R: &d[i]}, b)
			}
		}
		return tup(Value{N: uint64(len(d))}, Value{})
	}
	reg("crypto/rand.Read", read)
	// some time between 2020 and 2100
	reg("time.Now", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		ns, s := x.newInput("$nanoseconds", 32), x.newInput("$seconds", 64)
		x.assume(Ult(ns, BVC(1000000000, 32)))
		x.assume(And(Ule(BVC(1577836800, 64), s), Ult(s, BVC(4102444800, 64))))
		const unixToInternal = 62135596800
		ext := bin(OAdd, s, BVC(unixToInternal, 64))
		m, _ := x.side["now"].(map[*Term]bool)
		if m == nil {
			m = map[*Term]bool{}
			x.side["now"] = m
		}
		m[ext] = true
		return Value{R: &Agg{E: []Value{fromTerm(ZExt(ns, 64)), fromTerm(ext), {}}}}
	})
	// differences of times: those between current times (80 years) always fit into a duration,
	// those to the zero time never do
	reg("(time.Time).Sub", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		now, _ := x.side["now"].(map[*Term]bool)
		kind := func(v Value) (near, zero bool) {
			e := v.R.(*Agg).E
			w, s := termOf(e[0], 64), termOf(e[1], 64)
			if now[s] {
				return true, false
			}
			if !w.IsConst() || !s.IsConst() {
				panic(unsupported("time.Sub of symbolic times"))
			}
			if w.U>>63 != 0 {
				panic(unsupported("time.Sub of monotonic times"))
			}
			return s.U >= 62135596800 && s.U < 62135596800+4102444800, s.U < 20*365*86400
		}
		tn, tz := kind(a[0])
		un, uz := kind(a[1])
		switch {
		case tn && uz:
			return Value{N: 1<<63 - 1}
		case tz && un:
			return Value{N: 1 << 63}
		case tn && un || tz && uz:
			t, u := a[0].R.(*Agg).E, a[1].R.(*Agg).E
			ds := bin(OSub, termOf(t[1], 64), termOf(u[1], 64))
			return fromTerm(bin(OAdd, bin(OMul, ds, BVC(1000000000, 64)), bin(OSub, termOf(t[0], 64), termOf(u[0], 64))))
		}
		panic(unsupported("time.Sub"))
	})
	// keys from fixed seeds, used to register types
	for _, pk := range []string{"crypto/ed25519", "golang.org/x/crypto/ed25519"} {
		reg(pk+".NewKeyFromSeed", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			b, ok := concBytes(sliceOf(a[0]))
			if !ok || len(b) != 32 {
				panic(unsupported("ed25519 key from a symbolic seed"))
			}
			k := ed25519.NewKeyFromSeed(b)
			r := make([]Value, len(k))
			for i := range k {
				r[i] = Value{N: uint64(k[i])}
			}
			return mkSlice(r)
		})
	}
}
