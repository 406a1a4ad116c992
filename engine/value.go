package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a runtime value: N holds concrete scalars (bit pattern truncated to the static width),
// R holds symbolic terms and reference values.
type Value struct {
	N uint64
	R any
}

// Agg is a struct, array or tuple.
type Agg struct{ E []Value }

// SymStr is a string with concrete length and possibly symbolic bytes.
type SymStr struct{ B []Value }

// OpaqueStr is a string of unknown content (formatted messages), which may begin with known text.
type OpaqueStr struct{ ID, Prefix string }

// SliceV is a slice value sharing its backing store natively.
type SliceV struct{ S []Value }

// Iface is a non-nil interface value.
type Iface struct {
	T types.Type
	V Value
}

// Closure is a function value.
type Closure struct {
	Fn     *ssa.Function
	Env    []Value
	Native func(x *Exec, fr *frame, args []Value) Value
	Name   string
}

// SymPtr is an element pointer with a symbolic index.
type SymPtr struct {
	Elems []Value
	Idx   *Term
	ET    types.Type
}

// Big is the value of a math/big.Int struct.
type Big struct{ T *Term }

// ChanV is a channel.
type ChanV struct {
	Buf    []Value
	Cap    int
	Closed bool
}

type mapEntry struct {
	K, V    Value
	deleted bool
}

// MapV is a map.
type MapV struct {
	KT, VT types.Type
	E      []*mapEntry
	n      int
	idx    map[string]*mapEntry // concrete keys only
	nsym   int                  // entries with symbolic keys
}

type tuple = Agg

// Poison marks values which could not be computed.
type Poison struct{ Why string }

func mkBool(b bool) Value { return Value{N: b2u(b)} }

func fromTerm(t *Term) Value {
	if t.Op == OConst && t.K == nil {
		return Value{N: t.U}
	}
	return Value{R: t}
}

func isSym(v Value) bool { _, ok := v.R.(*Term); return ok }

func termOf(v Value, w int) *Term {
	switch r := v.R.(type) {
	case *Term:
		return r
	case nil:
		if w == WBool {
			return TBool(v.N != 0)
		}
		return BVC(v.N, w)
	case *Poison:
		panic(unsupported("poison: " + r.Why))
	}
	panic(unsupported(fmt.Sprintf("termOf %T", v.R)))
}

func strV(s string) Value { return Value{R: s} }

func bytesToStr(b []Value) Value {
	conc := true
	for i := range b {
		if b[i].R != nil {
			conc = false
			break
		}
	}
	if conc {
		var sb strings.Builder
		for i := range b {
			sb.WriteByte(byte(b[i].N))
		}
		return strV(sb.String())
	}
	return Value{R: &SymStr{B: append([]Value(nil), b...)}}
}

// strBytes returns the bytes of a string value, or nil,false if opaque.
func strBytes(v Value) ([]Value, bool) {
	switch s := v.R.(type) {
	case nil:
		return nil, true
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r, true
	case *SymStr:
		return s.B, true
	}
	return nil, false
}

func concStr(v Value) (string, bool) {
	switch s := v.R.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v Value) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(unsupported("len of opaque string"))
}

func bytesV(b []byte) Value {
	s := make([]Value, len(b))
	for i, c := range b {
		s[i].N = uint64(c)
	}
	return Value{R: &SliceV{S: s}}
}

func sliceOf(v Value) []Value {
	switch s := v.R.(type) {
	case nil:
		return nil
	case *SliceV:
		return s.S
	case *Poison:
		panic(unsupported("poison: " + s.Why))
	}
	panic(unsupported(fmt.Sprintf("sliceOf %T", v.R)))
}

func mkSlice(s []Value) Value {
	if s == nil {
		return Value{}
	}
	return Value{R: &SliceV{S: s}}
}

func concBytes(vs []Value) ([]byte, bool) {
	b := make([]byte, len(vs))
	for i, v := range vs {
		if v.R != nil {
			return nil, false
		}
		b[i] = byte(v.N)
	}
	return b, true
}

func tup(vs ...Value) Value { return Value{R: &Agg{E: vs}} }

// width returns the bit width of an integer type.
func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("width of " + t.String()))
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return WBool
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.UnsafePointer:
		return 64
	}
	panic(unsupported("width of " + t.String()))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Int" && o.Pkg() != nil && o.Pkg().Path() == "math/big"
}

// zero returns the zero value of a type (fresh storage for aggregates).
func zero(t types.Type) Value {
	if isBigInt(t) {
		return Value{R: &Big{IntI(0)}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strV("")
		}
		return Value{}
	case *types.Struct:
		e := make([]Value, u.NumFields())
		for i := range e {
			e[i] = zero(u.Field(i).Type())
		}
		return Value{R: &Agg{E: e}}
	case *types.Array:
		e := make([]Value, u.Len())
		if isScalar(u.Elem()) && !isStringT(u.Elem()) {
			return Value{R: &Agg{E: e}}
		}
		for i := range e {
			e[i] = zero(u.Elem())
		}
		return Value{R: &Agg{E: e}}
	case *types.Tuple:
		e := make([]Value, u.Len())
		for i := range e {
			e[i] = zero(u.At(i).Type())
		}
		return Value{R: &Agg{E: e}}
	}
	return Value{}
}

func isScalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// copyVal deep-copies value-type aggregates.
func copyVal(v Value) Value {
	if a, ok := v.R.(*Agg); ok {
		e := make([]Value, len(a.E))
		for i := range a.E {
			if _, ok := a.E[i].R.(*Agg); ok {
				e[i] = copyVal(a.E[i])
			} else {
				e[i] = a.E[i]
			}
		}
		return Value{N: v.N, R: &Agg{E: e}}
	}
	return v
}

func float(v Value) float64 {
	if v.R != nil {
		panic(unsupported("symbolic float"))
	}
	return math.Float64frombits(v.N)
}

func floatV(f float64) Value { return Value{N: math.Float64bits(f)} }

func bigOf(v Value) *Term {
	switch b := v.R.(type) {
	case *Big:
		return b.T
	case nil:
		return IntI(0)
	}
	panic(unsupported(fmt.Sprintf("bigOf %T", v.R)))
}

func bigV(t *Term) Value { return Value{R: &Big{t}} }

func bigC(k *big.Int) Value { return bigV(IntC(k)) }

// keyStr canonicalises fully concrete comparable values; ok=false if symbolic.
func keyStr(v Value, t types.Type) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.R != nil {
			return "", false
		}
		return fmt.Sprintf("%d", v.N), true
	case *types.Struct:
		a, ok := v.R.(*Agg)
		if !ok {
			return "", false
		}
		var sb strings.Builder
		for i := range a.E {
			s, ok := keyStr(a.E[i], u.Field(i).Type())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	case *types.Array:
		a, ok := v.R.(*Agg)
		if !ok {
			return "", false
		}
		var sb strings.Builder
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			for i := range a.E {
				if a.E[i].R != nil {
					return "", false
				}
				fmt.Fprintf(&sb, "%x,", a.E[i].N)
			}
			return sb.String(), true
		}
		for i := range a.E {
			s, ok := keyStr(a.E[i], u.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	case *types.Pointer, *types.Chan:
		if v.R == nil {
			return "nil", true
		}
		if p, ok := v.R.(*SymPtr); ok {
			_ = p
			return "", false
		}
		return fmt.Sprintf("%p", v.R), true
	case *types.Interface:
		if v.R == nil {
			return "nil", true
		}
		i := v.R.(*Iface)
		s, ok := keyStr(i.V, i.T)
		return i.T.String() + "|" + s, ok
	}
	return "", false
}

// splitBytes returns the bytes of a bit-vector, most significant first.
func splitBytes(t *Term) []Value {
	n := t.W / 8
	r := make([]Value, n)
	for i := range r {
		r[i] = fromTerm(Extract(t, 8*(n-i)-1, 8*(n-i-1)))
	}
	return r
}

// joinBytes is the inverse of splitBytes.
func joinBytes(b []Value) *Term {
	// balanced from the left so that adjacent extracts merge
	r := termOf(b[0], 8)
	for _, v := range b[1:] {
		r = Concat(r, termOf(v, 8))
	}
	return r
}

func mustBytes(v Value) []Value {
	b, ok := strBytes(v)
	if !ok {
		panic(unsupported("bytes of opaque string"))
	}
	return b
}
