package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Ideal serialisation: a message becomes a fixed-size application "blob" over a canonical rendering
// of its exported contents, so that equal messages have equal bytes and different messages different
// bytes; decoding looks the application up. Bytes that were never produced by the encoder do not
// decode.

type flattener struct {
	x     *Exec
	shape []byte
	terms []*Term
	seen  int
}

func (f *flattener) bytes(b []Value) {
	f.shape = append(f.shape, fmt.Sprintf("b%d;", len(b))...)
	if len(b) > 0 {
		f.terms = append(f.terms, joinBytes(b))
	}
}

func (f *flattener) val(t types.Type, v Value) {
	if f.seen++; f.seen > 5000 {
		panic(unsupported("serialised value too large"))
	}
	if isBigInt(t) {
		panic(unsupported("big.Int in serialised value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			b, ok := strBytes(v)
			if !ok {
				panic(unsupported("opaque string in serialised value"))
			}
			f.bytes(b)
		case u.Info()&types.IsBoolean != 0:
			f.shape = append(f.shape, 'o')
			f.terms = append(f.terms, Ite(termOf(v, WBool), BVC(1, 8), BVC(0, 8)))
		case u.Info()&types.IsInteger != 0:
			w := width(u)
			f.shape = append(f.shape, fmt.Sprintf("i%d;", w)...)
			f.terms = append(f.terms, termOf(v, w))
		default:
			panic(unsupported("serialise " + t.String()))
		}
	case *types.Slice:
		s := sliceOf(v)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			f.bytes(s)
			return
		}
		f.shape = append(f.shape, fmt.Sprintf("s%d;", len(s))...)
		for _, e := range s {
			f.val(u.Elem(), e)
		}
	case *types.Pointer:
		if v.R == nil {
			f.shape = append(f.shape, 'n')
			return
		}
		f.shape = append(f.shape, 'p')
		f.val(u.Elem(), f.x.load(v, nil))
	case *types.Interface:
		if v.R == nil {
			f.shape = append(f.shape, 'n')
			return
		}
		i := ifaceOf(v)
		f.shape = append(f.shape, ("t" + i.T.String() + ";")...)
		f.val(i.T, i.V)
	case *types.Struct:
		a := v.R.(*Agg)
		f.shape = append(f.shape, '{')
		for k := range a.E {
			if u.Field(k).Exported() {
				f.val(u.Field(k).Type(), a.E[k])
			}
		}
		f.shape = append(f.shape, '}')
	case *types.Array:
		for _, e := range v.R.(*Agg).E {
			f.val(u.Elem(), e)
		}
	default:
		panic(unsupported("serialise " + t.String()))
	}
}

// protoCopy deep-copies the exported contents; empty byte strings and lists become nil as after decoding.
func (x *Exec) protoCopy(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := sliceOf(v)
		if len(s) == 0 {
			return Value{}
		}
		o := make([]Value, len(s))
		for i := range s {
			o[i] = x.protoCopy(u.Elem(), s[i])
			if _, ok := u.Elem().Underlying().(*types.Slice); ok && o[i].R == nil {
				o[i] = Value{R: &SliceV{S: []Value{}}}
			}
		}
		return Value{R: &SliceV{S: o}}
	case *types.Pointer:
		if v.R == nil {
			return v
		}
		c := x.protoCopy(u.Elem(), x.load(v, nil))
		return Value{R: &c}
	case *types.Interface:
		if v.R == nil {
			return v
		}
		i := ifaceOf(v)
		return Value{R: &Iface{T: i.T, V: x.protoCopy(i.T, i.V)}}
	case *types.Struct:
		a := v.R.(*Agg)
		z := zero(t).R.(*Agg)
		for k := range a.E {
			if u.Field(k).Exported() {
				z.E[k] = x.protoCopy(u.Field(k).Type(), a.E[k])
			}
		}
		return Value{R: z}
	}
	return copyVal(v)
}

const blobLen = 48

type blobEntry struct {
	typ types.Type
	val Value
	n   int // number of trailing filler bytes
}

func (x *Exec) blobs() map[*Term]blobEntry {
	m, _ := x.side["blobs"].(map[*Term]blobEntry)
	if m == nil {
		m = map[*Term]blobEntry{}
		x.side["blobs"] = m
	}
	return m
}

func (x *Exec) makeBlob(kind string, t types.Type, v Value) *Term {
	f := &flattener{x: x}
	f.shape = append(f.shape, (kind + t.String() + ":")...)
	f.val(t, v)
	h := keccakSum(f.shape, 136, 0x1f, 16)
	arg := BVK(new(big.Int).SetBytes(h), 128)
	for _, s := range f.terms {
		arg = Concat(arg, s)
	}
	for arg.W%8 != 0 {
		arg = Concat(arg, BVC(0, 1))
	}
	return App("blob", arg, blobLen)
}

func init() {
	for _, p := range []string{"google.golang.org/protobuf/proto", "github.com/golang/protobuf/proto"} {
		reg(p+".Marshal", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			i := ifaceOf(a[0])
			if i == nil || i.V.R == nil {
				return tup(Value{}, Value{})
			}
			pt, ok := i.T.Underlying().(*types.Pointer)
			if !ok {
				panic(unsupported("proto.Marshal of " + i.T.String()))
			}
			v := x.load(i.V, nil)
			t := x.makeBlob("proto", pt.Elem(), v)
			x.blobs()[t] = blobEntry{typ: pt.Elem(), val: x.protoCopy(pt.Elem(), v)}
			return tup(Value{R: &SliceV{S: splitBytes(t)}}, Value{})
		})
		reg(p+".Unmarshal", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			b := sliceOf(a[0])
			i := ifaceOf(a[1])
			pt, ok := i.T.Underlying().(*types.Pointer)
			if !ok {
				panic(unsupported("proto.Unmarshal into " + i.T.String()))
			}
			z := zero(pt.Elem())
			if len(b) == 0 {
				x.store(i.V, z)
				return Value{}
			}
			if _, ok := concBytes(b); !ok {
				if e, ok := x.blobs()[joinBytes(b)]; ok && types.Identical(e.typ, pt.Elem()) {
					x.store(i.V, x.protoCopy(e.typ, e.val))
					return Value{}
				}
			}
			x.store(i.V, z)
			return x.newErr(strV("proto: cannot parse"))
		})
	}
}
