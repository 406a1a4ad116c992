package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(x *Exec, fr *frame, fn *ssa.Function, args []Value) Value

var intrinsics = map[string]intrinsicFn{}

func reg(name string, f intrinsicFn) {
	if _, ok := intrinsics[name]; ok {
		panic("duplicate intrinsic " + name)
	}
	intrinsics[name] = f
}

func noop(x *Exec, fr *frame, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (e *Engine) intrinsic(fn *ssa.Function, name string) (intrinsicFn, bool) {
	if f, ok := intrinsics[name]; ok {
		return f, true
	}
	if fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		if strings.HasSuffix(path, "/verifsym") {
			if f, ok := symAPI[fn.Name()]; ok {
				return f, true
			}
		}
		if strings.HasPrefix(fn.Name(), "file_") && strings.HasSuffix(fn.Name(), "_proto_init") {
			return noop, true // registration of protobuf descriptors
		}
		if path == "log" && fn.Blocks != nil && fn.Name() != "init" {
			if strings.HasPrefix(fn.Name(), "Fatal") {
				return fatalExit, true
			}
			if strings.HasPrefix(fn.Name(), "Panic") {
				return nil, false
			}
			return noop, true
		}
	}
	return nil, false
}

func fatalExit(x *Exec, fr *frame, fn *ssa.Function, args []Value) Value {
	panic(pathEnd{"exit", "log.Fatal"})
}

// ---- helpers ----

func (x *Exec) typ(pkg, name string) types.Type {
	p := x.eng.prog.byPath[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return o.Type()
}

// mkError builds an error value (runtime.errorString for runtime errors).
func (x *Exec) mkError(msg string) Value {
	return x.newErr(strV(msg))
}

func (x *Exec) newErr(msg Value) Value {
	t := x.typ("errors", "errorString")
	c := &Value{R: &Agg{E: []Value{msg}}}
	return Value{R: &Iface{T: types.NewPointer(t), V: Value{R: c}}}
}

var errPtrCache *types.Pointer

func ifaceOf(v Value) *Iface {
	i, _ := v.R.(*Iface)
	return i
}

// format renders a value for concrete formatting; ok=false when symbolic/unknown.
func (x *Exec) format(verb byte, t types.Type, v Value) (string, bool) {
	if v.R != nil {
		if _, ok := v.R.(*Poison); ok {
			return "", false
		}
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		// error / Stringer on known cheap cases only
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if n, isN := t.(*types.Named); isN && n.NumMethods() > 0 {
				return "", false
			}
			s, ok := concStr(v)
			if ok && verb == 'q' {
				return strconv.Quote(s), true
			}
			return s, ok
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n, isN := t.(*types.Named); isN && n.NumMethods() > 0 && verb != 'd' && verb != 'x' {
			return "", false
		}
		if v.R != nil {
			if s, ok := v.R.(string); ok && (verb == 'x') {
				return fmt.Sprintf("%x", s), true
			}
			return "", false
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return strconv.FormatBool(v.N != 0), verb == 'v' || verb == 't'
		case u.Info()&types.IsInteger != 0:
			w := width(u)
			if isSigned(u) {
				return fmt.Sprintf("%"+string(verb), sext64(v.N, w)), true
			}
			return fmt.Sprintf("%"+string(verb), v.N), true
		}
	}
	return "", false
}

func (x *Exec) sprintf(format Value, args []Value) Value {
	f, ok := concStr(format)
	if !ok {
		return x.opaque("fmt")
	}
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, Value{N: uint64(s[i])})
		}
	}
	// other arguments make what follows unknown
	unknown := func() Value {
		n := 0
		var pre []byte
		for n < len(out) && out[n].R == nil {
			pre = append(pre, byte(out[n].N))
			n++
		}
		return x.opaqueWith("fmt", string(pre))
	}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		if i >= len(f) {
			return unknown()
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		start := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return unknown()
		}
		flags := f[start:i]
		if ai >= len(args) || args[ai].R == nil {
			return unknown()
		}
		a := ifaceOf(args[ai])
		ai++
		if a == nil {
			return unknown()
		}
		if flags != "" {
			s, ok := x.formatFlags(flags, f[i], a.T, a.V)
			if !ok {
				return unknown()
			}
			lit(s)
			continue
		}
		if s, ok := x.format(f[i], a.T, a.V); ok {
			lit(s)
			continue
		}
		if b, ok := x.formatSym(f[i], a.T, a.V); ok {
			out = append(out, b...)
			continue
		}
		return unknown()
	}
	if ai != len(args) {
		return unknown()
	}
	return bytesToStr(out)
}

// formatFlags renders a concrete number or string with flags.
func (x *Exec) formatFlags(flags string, verb byte, t types.Type, v Value) (string, bool) {
	u, ok := t.Underlying().(*types.Basic)
	if n, isN := t.(*types.Named); !ok || isN && n.NumMethods() > 0 {
		return "", false
	}
	spec := "%" + flags + string(verb)
	if u.Info()&types.IsString != 0 {
		s, ok := concStr(v)
		return fmt.Sprintf(spec, s), ok
	}
	if v.R != nil || u.Info()&types.IsInteger == 0 {
		return "", false
	}
	if isSigned(u) {
		return fmt.Sprintf(spec, sext64(v.N, width(u))), true
	}
	return fmt.Sprintf(spec, v.N), true
}

// formatSym renders symbolic integers and strings.
func (x *Exec) formatSym(verb byte, t types.Type, v Value) ([]Value, bool) {
	if n, isN := t.(*types.Named); isN && n.NumMethods() > 0 {
		return nil, false
	}
	switch r := v.R.(type) {
	case *Term:
		if isInteger(t) && (verb == 'd' || verb == 'v') {
			k, w := "u10", ZExt(r, 64)
			if isSigned(t) {
				k, w = "i10", SExt(r, 64)
			}
			return x.fmtNum(k, w).R.(*SymStr).B, true
		}
	case *SymStr:
		if isStringT(t) && (verb == 's' || verb == 'v') {
			return r.B, true
		}
	}
	if s := t.String(); (verb == 's' || verb == 'v' || verb == 'w') && (s == "*errors.errorString" || s == "*fmt.wrapError") {
		if c, ok := v.R.(*Value); ok {
			return strBytes(c.R.(*Agg).E[0])
		}
	}
	if n, isN := t.(*types.Named); verb == 'x' && (!isN || n.NumMethods() == 0) {
		var in []Value
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if !isByteT(u.Elem()) {
				return nil, false
			}
			in = sliceOf(v)
		case *types.Array:
			if !isByteT(u.Elem()) {
				return nil, false
			}
			in = v.R.(*Agg).E
		default:
			return nil, false
		}
		return hexEncode(in), true
	}
	return nil, false
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) sprint(args []Value, ln bool) Value {
	var out []Value
	for i, a := range args {
		ia := ifaceOf(a)
		if ia == nil {
			return x.opaque("fmt")
		}
		if i > 0 && (ln || !isStringT(ia.T) && !isStringT(ifaceOf(args[i-1]).T)) {
			out = append(out, Value{N: ' '})
		}
		if s, ok := x.format('v', ia.T, ia.V); ok {
			out = append(out, mustBytes(strV(s))...)
			continue
		}
		b, ok := x.formatSym('v', ia.T, ia.V)
		if !ok {
			return x.opaque("fmt")
		}
		out = append(out, b...)
	}
	if ln {
		out = append(out, Value{N: '\n'})
	}
	return bytesToStr(out)
}

// fprint writes to anything but files, which nobody looks at.
func (x *Exec) fprint(fr *frame, fn *ssa.Function, w Value, text func() Value) Value {
	i := ifaceOf(w)
	if i == nil {
		panic(x.rtPanic("nil pointer dereference"))
	}
	if strings.HasSuffix(i.T.String(), "os.File") || strings.Contains(i.T.String(), "tabwriter") {
		return zero(fn.Signature.Results())
	}
	s := text()
	if _, ok := s.R.(*OpaqueStr); ok {
		panic(unsupported("write of unknown text"))
	}
	return x.callMethod(fr, i.T, "Write", i.V, mkSlice(mustBytes(s)))
}

func init() {
	// --- fmt ---
	reg("fmt.Sprintf", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.sprintf(a[0], sliceOf(a[1])) })
	reg("fmt.Sprint", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.sprint(sliceOf(a[0]), false) })
	reg("fmt.Sprintln", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.sprint(sliceOf(a[0]), true) })
	reg("fmt.Errorf", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		msg := x.sprintf(a[0], sliceOf(a[1]))
		if f, ok := concStr(a[0]); ok && strings.Contains(f, "%w") {
			for _, v := range sliceOf(a[1]) {
				if i := ifaceOf(v); i != nil && x.eng.implements(i.T, errorIface) {
					t := x.typ("fmt", "wrapError")
					c := &Value{R: &Agg{E: []Value{msg, v}}}
					return Value{R: &Iface{T: types.NewPointer(t), V: Value{R: c}}}
				}
			}
		}
		return x.newErr(msg)
	})
	for _, n := range []string{"Printf", "Println", "Print"} {
		reg("fmt."+n, noop)
	}
	reg("fmt.Fprintf", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return x.fprint(fr, fn, a[0], func() Value { return x.sprintf(a[1], sliceOf(a[2])) })
	})
	reg("fmt.Fprintln", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return x.fprint(fr, fn, a[0], func() Value { return x.sprint(sliceOf(a[1]), true) })
	})
	reg("fmt.Fprint", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return x.fprint(fr, fn, a[0], func() Value { return x.sprint(sliceOf(a[1]), false) })
	})
	// --- errors ---
	reg("errors.New", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.newErr(a[0]) })
	reg("errors.Is", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.errorsIs(fr, a[0], a[1]) })
	reg("errors.As", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		tgt := ifaceOf(a[1])
		pt := tgt.T.Underlying().(*types.Pointer).Elem()
		err := a[0]
		for err.R != nil {
			i := ifaceOf(err)
			if it, ok := pt.Underlying().(*types.Interface); ok {
				if x.eng.implements(i.T, it) {
					x.store(tgt.V, err)
					return mkBool(true)
				}
			} else if types.Identical(i.T, pt) {
				x.store(tgt.V, i.V)
				return mkBool(true)
			}
			err = x.unwrap(fr, err)
		}
		return mkBool(false)
	})
	reg("github.com/pkg/errors.callers", noop)
	// --- sync ---
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"(*strings.Builder).copyCheck", "(*sync.Pool).Put", "internal/race.Acquire", "internal/race.Release"} {
		reg(n, noop)
	}
	reg("(*sync.Once).Do", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		c, ok := a[0].R.(*Value)
		if !ok {
			panic(x.rtPanic("nil pointer dereference"))
		}
		k := fmt.Sprintf("once%p", c)
		if x.side[k] == nil {
			x.side[k] = true
			x.callValue(fr, a[1], nil)
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		ag := a[0].R.(*Value).R.(*Agg)
		nf := ag.E[len(ag.E)-1]
		if nf.R == nil {
			return Value{}
		}
		return x.callValue(fr, nf, nil)
	})
	// --- atomics (sequential) ---
	for _, tw := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := tw.w
		reg("sync/atomic.Load"+tw.n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return x.load(a[0], nil) })
		reg("sync/atomic.Store"+tw.n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { x.store(a[0], a[1]); return Value{} })
		reg("sync/atomic.Add"+tw.n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			v := fromTerm(bin(OAdd, termOf(x.load(a[0], nil), w), termOf(a[1], w)))
			x.store(a[0], v)
			return v
		})
		reg("sync/atomic.CompareAndSwap"+tw.n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			if x.branch(Eq(termOf(x.load(a[0], nil), w), termOf(a[1], w))) {
				x.store(a[0], a[2])
				return mkBool(true)
			}
			return mkBool(false)
		})
	}
	// --- bytealg ---
	reg("internal/bytealg.MakeNoZero", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		n := x.concInt(a[0])
		return Value{R: &SliceV{S: make([]Value, n, roundupsize(n))}}
	})
	idxByte := func(x *Exec, s []Value, c Value) Value {
		tc := termOf(c, 8)
		for i := range s {
			if x.branch(Eq(termOf(s[i], 8), tc)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	sb := func(v Value) []Value {
		b, ok := strBytes(v)
		if !ok {
			panic(unsupported("bytes of opaque string"))
		}
		return b
	}
	reg("internal/bytealg.IndexByte", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return idxByte(x, sliceOf(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return idxByte(x, sb(a[0]), a[1]) })
	lastIdx := func(x *Exec, s []Value, c Value) Value {
		tc := termOf(c, 8)
		for i := len(s) - 1; i >= 0; i-- {
			if x.branch(Eq(termOf(s[i], 8), tc)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	reg("internal/bytealg.LastIndexByte", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return lastIdx(x, sliceOf(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return lastIdx(x, sb(a[0]), a[1]) })
	count := func(x *Exec, s []Value, c Value) Value {
		tc := termOf(c, 8)
		n := 0
		for i := range s {
			if x.branch(Eq(termOf(s[i], 8), tc)) {
				n++
			}
		}
		return Value{N: uint64(n)}
	}
	reg("internal/bytealg.Count", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return count(x, sliceOf(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return count(x, sb(a[0]), a[1]) })
	reg("internal/bytealg.Equal", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return fromTerm(bytesEq(sliceOf(a[0]), sliceOf(a[1])))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	compare := func(x *Exec, p, q []Value) Value {
		lt := bytesLess(p, q)
		eq := bytesEq(p, q)
		return fromTerm(Ite(lt, BVC(^uint64(0), 64), Ite(eq, BVC(0, 64), BVC(1, 64))))
	}
	reg("internal/bytealg.Compare", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return compare(x, sliceOf(a[0]), sliceOf(a[1]))
	})
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("internal/bytealg.CompareString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return compare(x, sb(a[0]), sb(a[1])) })
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	index := func(x *Exec, s, sub []Value) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if x.branch(bytesEq(s[i:i+len(sub)], sub)) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	reg("strings.Index", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return index(x, sb(a[0]), sb(a[1])) })
	reg("bytes.Index", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return index(x, sliceOf(a[0]), sliceOf(a[1]))
	})
	reg("strings.Count", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		s, sub := sb(a[0]), sb(a[1])
		if len(sub) == 0 {
			return Value{N: uint64(len(s) + 1)}
		}
		n := 0
		for i := 0; i+len(sub) <= len(s); {
			if x.branch(bytesEq(s[i:i+len(sub)], sub)) {
				n++
				i += len(sub)
			} else {
				i++
			}
		}
		return Value{N: uint64(n)}
	})
	// --- strings.Builder ---
	reg("(*strings.Builder).String", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		ag := a[0].R.(*Value).R.(*Agg)
		return bytesToStr(sliceOf(ag.E[1]))
	})
	reg("internal/stringslite.Clone", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.HasPrefix", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		pre, ok := concStr(a[1])
		if oa, isOpaque := a[0].R.(*OpaqueStr); isOpaque {
			switch {
			case ok && len(pre) <= len(oa.Prefix):
				return mkBool(oa.Prefix[:len(pre)] == pre)
			case ok && pre[:len(oa.Prefix)] != oa.Prefix:
				return mkBool(false)
			}
			panic(unsupported("prefix of opaque string"))
		}
		s, p := sb(a[0]), sb(a[1])
		if len(s) < len(p) {
			return mkBool(false)
		}
		return fromTerm(bytesEq(s[:len(p)], p))
	})
	reg("strings.Clone", intrinsics["internal/stringslite.Clone"])
	// --- math ---
	reg("math.Float64bits", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("math.Float64frombits", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	fl := map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Trunc": math.Trunc}
	for n, f := range fl {
		f := f
		reg(n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return floatV(f(float(a[0]))) })
	}
	for n, f := range map[string]func(a, b float64) float64{"math.Min": math.Min, "math.Max": math.Max, "math.Pow": math.Pow, "math.Mod": math.Mod} {
		f := f
		reg(n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return floatV(f(float(a[0]), float(a[1])))
		})
	}
	reg("crypto/internal/fips140.RecordApproved", noop)
	reg("crypto/internal/fips140.RecordNonApproved", noop)
	reg("maps.clone", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		i := ifaceOf(a[0])
		m, ok := i.V.R.(*MapV)
		if !ok {
			return a[0]
		}
		c := &MapV{KT: m.KT, VT: m.VT, idx: map[string]*mapEntry{}}
		for _, e := range m.E {
			if !e.deleted {
				x.mapSet(c, e.K, e.V)
			}
		}
		return Value{R: &Iface{T: i.T, V: Value{R: c}}}
	})
	// deadlines do not expire
	for _, n := range []string{"context.WithTimeout", "context.WithDeadline"} {
		reg(n, func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return x.callFn(fr, fn.Pkg.Func("WithCancel"), a[:1], nil)
		})
	}
	reg("context.WithValue", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		t := x.typ("context", "valueCtx")
		c := &Value{R: &Agg{E: []Value{a[0], a[1], a[2]}}}
		return Value{R: &Iface{T: types.NewPointer(t), V: Value{R: c}}}
	})
	// --- math/bits on concrete values ---
	reg("math/bits.Len64", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].R == nil {
			return Value{N: uint64(bits.Len64(a[0].N))}
		}
		t := termOf(a[0], 64)
		r := BVC(0, 64)
		for i := 1; i <= 64; i++ {
			r = Ite(Ule(BVC(1<<uint(i-1), 64), t), BVC(uint64(i), 64), r)
		}
		return fromTerm(r)
	})
	reg("math/bits.Mul64", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].R == nil && a[1].R == nil {
			hi, lo := bits.Mul64(a[0].N, a[1].N)
			return tup(Value{N: hi}, Value{N: lo})
		}
		p := bin(OMul, ZExt(termOf(a[0], 64), 128), ZExt(termOf(a[1], 64), 128))
		return tup(fromTerm(Extract(p, 127, 64)), fromTerm(Extract(p, 63, 0)))
	})
	// --- time ---
	reg("time.Sleep", noop)
	// --- strconv ---
	reg("strconv.FormatUint", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		base := x.concInt(a[1])
		if a[0].R == nil {
			return strV(strconv.FormatUint(a[0].N, base))
		}
		return x.fmtNum("u"+strconv.Itoa(base), termOf(a[0], 64))
	})
	reg("strconv.FormatInt", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		base := x.concInt(a[1])
		if a[0].R == nil {
			return strV(strconv.FormatInt(int64(a[0].N), base))
		}
		return x.fmtNum("i"+strconv.Itoa(base), termOf(a[0], 64))
	})
	reg("strconv.Itoa", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].R == nil {
			return strV(strconv.Itoa(int(int64(a[0].N))))
		}
		return x.fmtNum("i10", termOf(a[0], 64))
	})
	app := func(fm string) intrinsicFn {
		return func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			b, ok := strBytes(intrinsics[fm](x, fr, fn, a[1:]))
			if !ok {
				panic(unsupported(fm + " of opaque number"))
			}
			return x.appendVals(a[0], sliceOf(a[0]), b, types.Typ[types.Byte])
		}
	}
	reg("strconv.AppendUint", app("strconv.FormatUint"))
	reg("strconv.AppendInt", app("strconv.FormatInt"))
	reg("strconv.Atoi", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if _, ok := concStr(a[0]); !ok {
			if t := x.unfmtNum("i10", a[0]); t != nil {
				return tup(fromTerm(t), Value{})
			}
			if t := x.unfmtNum("u10", a[0]); t != nil {
				if x.branch(Ule(t, BVC(math.MaxInt64, 64))) {
					return tup(fromTerm(t), Value{})
				}
				return tup(Value{N: math.MaxInt64}, x.mkError("out of range"))
			}
		}
		return x.callBody(fr, fn, a)
	})
	reg("strconv.ParseUint", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		base, bs := x.concInt(a[1]), x.concInt(a[2])
		if s, ok := concStr(a[0]); ok {
			v, err := strconv.ParseUint(s, base, bs)
			if err != nil {
				return tup(Value{N: v}, x.mkError(err.Error()))
			}
			return tup(Value{N: v}, Value{})
		}
		if t := x.unfmtNum("u"+strconv.Itoa(base), a[0]); t != nil {
			if bs == 0 || bs == 64 {
				return tup(fromTerm(t), Value{})
			}
			if x.branch(Ule(t, BVC(mask(bs), 64))) {
				return tup(fromTerm(t), Value{})
			}
			return tup(Value{N: mask(bs)}, x.mkError("out of range"))
		}
		return x.callBody(fr, fn, a)
	})
	reg("strconv.ParseInt", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		base, bs := x.concInt(a[1]), x.concInt(a[2])
		if s, ok := concStr(a[0]); ok {
			v, err := strconv.ParseInt(s, base, bs)
			if err != nil {
				return tup(Value{N: uint64(v)}, x.mkError(err.Error()))
			}
			return tup(Value{N: uint64(v)}, Value{})
		}
		if bs == 0 || bs == 64 {
			if t := x.unfmtNum("i"+strconv.Itoa(base), a[0]); t != nil {
				return tup(fromTerm(t), Value{})
			}
			if t := x.unfmtNum("u"+strconv.Itoa(base), a[0]); t != nil {
				if x.branch(Ule(t, BVC(math.MaxInt64, 64))) {
					return tup(fromTerm(t), Value{})
				}
				return tup(Value{N: math.MaxInt64}, x.mkError("out of range"))
			}
		}
		return x.callBody(fr, fn, a)
	})
	// --- sort ---
	srt := func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		i := ifaceOf(a[0])
		s := sliceOf(i.V)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := x.callValue(fr, a[1], []Value{{N: uint64(j)}, {N: uint64(j - 1)}})
				if !x.branchV(r) {
					break
				}
				t := copyVal(s[j])
				x.store(Value{R: &s[j]}, s[j-1])
				x.store(Value{R: &s[j-1]}, t)
			}
		}
		return Value{}
	}
	reg("sort.Slice", srt)
	reg("sort.SliceStable", srt)
	// templates are for writing config files only
	reg("text/template.New", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		c := zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return Value{R: &c}
	})
	reg("(*text/template.Template).Funcs", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*text/template.Template).Parse", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value { return tup(a[0], Value{}) })
	reg("reflect.ValueOf", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return Value{R: &reflV{a[0]}}
	})
	reg("(reflect.Value).Kind", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		rv, ok := a[0].R.(*reflV)
		if !ok {
			panic(unsupported("reflect.Value"))
		}
		i, _ := rv.v.R.(*Iface)
		k := reflect.Invalid
		if i != nil && i.T != nil {
			switch t := i.T.Underlying().(type) {
			case *types.Pointer:
				k = reflect.Ptr
			case *types.Struct:
				k = reflect.Struct
			case *types.Slice:
				k = reflect.Slice
			case *types.Map:
				k = reflect.Map
			case *types.Array:
				k = reflect.Array
			case *types.Signature:
				k = reflect.Func
			case *types.Chan:
				k = reflect.Chan
			default:
				panic(unsupported(fmt.Sprintf("reflect kind of %s", t)))
			}
		}
		return Value{N: uint64(k)}
	})
	reg("reflect.DeepEqual", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].R == nil || a[1].R == nil {
			return mkBool(a[0].R == nil && a[1].R == nil)
		}
		i, j := ifaceOf(a[0]), ifaceOf(a[1])
		if !types.Identical(i.T, j.T) {
			return mkBool(false)
		}
		return fromTerm(x.deepEq(i.T, i.V, j.V, 0))
	})
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (x *Exec) branchV(v Value) bool {
	if t, ok := v.R.(*Term); ok {
		return x.branch(t)
	}
	return v.N != 0
}

// callBody runs the real body of an intercepted function.
func (x *Exec) callBody(caller *frame, fn *ssa.Function, args []Value) Value {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	x.noteFn(fn)
	code := codeOf(fn)
	fr := &frame{x: x, caller: caller, fn: fn, code: code, env: make([]Value, code.nslots), block: fn.Blocks[0]}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	for i, s := range code.params {
		fr.env[s] = args[i]
	}
	x.stack = append(x.stack, fr)
	if fnHasDefer(fn) {
		fr.runProtected()
	} else {
		fr.run()
	}
	x.stack = x.stack[:len(x.stack)-1]
	return fr.result
}

// fmtNum is the text of a symbolic number: a 20 character application.
func (x *Exec) fmtNum(kind string, t *Term) Value {
	return Value{R: &SymStr{B: splitBytes(App("num_"+kind, t, 20))}}
}

func (x *Exec) unfmtNum(kind string, s Value) *Term {
	ss, ok := s.R.(*SymStr)
	if !ok {
		return nil
	}
	t := joinBytes(ss.B)
	if t.Op == OApp && t.Name == "num_"+kind {
		return t.A[0]
	}
	return nil
}

func (x *Exec) unwrap(fr *frame, err Value) Value {
	i := ifaceOf(err)
	ms := x.eng.prog.prog.MethodSets.MethodSet(i.T)
	sel := ms.Lookup(nil, "Unwrap")
	if sel == nil {
		return Value{}
	}
	f := x.eng.prog.prog.MethodValue(sel)
	if f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
		return Value{}
	}
	return x.callFn(fr, f, []Value{i.V}, nil)
}

func (x *Exec) errorsIs(fr *frame, err, target Value) Value {
	for err.R != nil {
		if target.R != nil {
			i, j := ifaceOf(err), ifaceOf(target)
			if types.Identical(i.T, j.T) && types.Comparable(i.T) {
				if x.branch(x.eq(i.T, i.V, j.V)) {
					return mkBool(true)
				}
			}
			ms := x.eng.prog.prog.MethodSets.MethodSet(i.T)
			if sel := ms.Lookup(nil, "Is"); sel != nil {
				f := x.eng.prog.prog.MethodValue(sel)
				if f.Signature.Params().Len() == 1 {
					if x.branchV(x.callFn(fr, f, []Value{i.V, target}, nil)) {
						return mkBool(true)
					}
				}
			}
		}
		err = x.unwrap(fr, err)
	}
	return mkBool(target.R == nil)
}

// deepEq implements reflect.DeepEqual.
func (x *Exec) deepEq(t types.Type, a, b Value, depth int) *Term {
	if depth > 30 {
		panic(unsupported("deepEq depth"))
	}
	if isBigInt(t) {
		return IEq(bigOf(a), bigOf(b))
	}
	if f, ok := x.specialEq(t, a, b); ok {
		return f
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		aa, ok1 := a.R.(*Agg)
		ab, ok2 := b.R.(*Agg)
		if !ok1 || !ok2 {
			panic(unsupported("deepEq struct " + t.String()))
		}
		var cs []*Term
		for i := range aa.E {
			c := x.deepEq(u.Field(i).Type(), aa.E[i], ab.E[i], depth+1)
			if c == TFalse {
				return c
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Array:
		aa, ab := a.R.(*Agg), b.R.(*Agg)
		var cs []*Term
		for i := range aa.E {
			c := x.deepEq(u.Elem(), aa.E[i], ab.E[i], depth+1)
			if c == TFalse {
				return c
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Slice:
		if (a.R == nil) != (b.R == nil) {
			return TFalse
		}
		sa, sb := sliceOf(a), sliceOf(b)
		if len(sa) != len(sb) {
			return TFalse
		}
		var cs []*Term
		for i := range sa {
			c := x.deepEq(u.Elem(), sa[i], sb[i], depth+1)
			if c == TFalse {
				return c
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Pointer:
		if a.R == nil || b.R == nil || a.R == b.R {
			return TBool(a.R == b.R)
		}
		return x.deepEq(u.Elem(), x.load(a, nil), x.load(b, nil), depth+1)
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return TBool(a.R == nil && b.R == nil)
		}
		i, j := ifaceOf(a), ifaceOf(b)
		if !types.Identical(i.T, j.T) {
			return TFalse
		}
		return x.deepEq(i.T, i.V, j.V, depth+1)
	case *types.Map:
		if (a.R == nil) != (b.R == nil) {
			return TFalse
		}
		if a.R == nil || a.R == b.R {
			return TTrue
		}
		ma, mb := a.R.(*MapV), b.R.(*MapV)
		if ma.n != mb.n {
			return TFalse
		}
		var cs []*Term
		for _, e := range ma.E {
			if e.deleted {
				continue
			}
			// exists entry in mb with equal key and value; keys are distinct within a map
			var alts []*Term
			for _, o := range mb.E {
				if o.deleted {
					continue
				}
				k := x.eq(ma.KT, e.K, o.K)
				if k == TFalse {
					continue
				}
				alts = append(alts, And(k, x.deepEq(u.Elem(), e.V, o.V, depth+1)))
				if k == TTrue {
					break
				}
			}
			c := Or(alts...)
			if c == TFalse {
				return c
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Signature:
		return TBool(a.R == nil && b.R == nil)
	}
	return x.eq(t, a, b)
}

func (x *Exec) specialEq(t types.Type, a, b Value) (*Term, bool) {
	if oa, ok := a.R.(*OpaqueStr); ok {
		if ob, ok := b.R.(*OpaqueStr); ok {
			if oa.ID != ob.ID {
				panic(unsupported("compare opaque strings"))
			}
			return TTrue, true
		}
	}
	return nil, false
}

var _ = big.NewInt

// reflV is a reflect.Value.
type reflV struct{ v Value }
