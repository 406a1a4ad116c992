package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/gob is modelled structurally: Encode takes a snapshot of the value with gob's rules
// (unexported, zero and nil fields left out, pointers flattened, GobEncode called where the type
// has it) and writes a token to the writer; Decode reads the token back and rebuilds the value
// with gob's rules (GobDecode called, nil and empty not told apart, omitted fields keep their value).

type gkind int

const (
	gBasic gkind = iota
	gSeq
	gMap
	gStruct
	gExt
	gBig
	gRaw
	gIface
)

type gnode struct {
	k    gkind
	v    Value // gBasic, gRaw, gBig: the value
	cond *Term // gBasic in a field: sent only if true (nil: always)
	e    []*gnode
	keys []*gnode
	f    map[string]*gnode
	b    []Value // gExt
	t    types.Type
	in   *gnode
}

type gobErr struct{ msg string }

type gobState struct {
	reg    map[string]types.Type // base type -> registered type
	blobs  []*gnode
	types  []types.Type
	inited bool
}

const gobMagic = "GOBmodel"

func (x *Exec) gob() *gobState {
	g, ok := x.side["gob"].(*gobState)
	if !ok {
		g = &gobState{reg: map[string]types.Type{}}
		x.side["gob"] = g
	}
	return g
}

func isTime(t types.Type) bool { return t.String() == "time.Time" }

// gobExt tells how the type implements the GobEncoder interface: number of indirections, or -1
// when only the pointer type does.
func (x *Exec) gobExt(t types.Type, m, m2 string) (int, string, bool) {
	has := func(t types.Type) string {
		ms := x.eng.prog.prog.MethodSets.MethodSet(t)
		for _, n := range []string{m, m2} {
			if ms.Lookup(nil, n) != nil {
				return n
			}
		}
		return ""
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return 0, "", false
	}
	indir := 0
	for rt := t; ; {
		if n := has(rt); n != "" {
			return indir, n, true
		}
		p, ok := rt.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		rt = p.Elem()
		indir++
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		if n := has(types.NewPointer(t)); n != "" {
			return -1, n, true
		}
	}
	return 0, "", false
}

func (x *Exec) callMethod(fr *frame, t types.Type, name string, args ...Value) Value {
	sel := x.eng.prog.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		panic(unsupported("method " + name + " of " + t.String()))
	}
	if f, ok := x.eng.nativeMethod(t, sel.Obj().(*types.Func)); ok {
		return f(x, fr, args)
	}
	return x.callFn(fr, x.eng.prog.prog.MethodValue(sel), args, nil)
}

func gobBase(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

func gobSent(f *types.Var) bool {
	if !f.Exported() {
		return false
	}
	switch gobBase(f.Type()).Underlying().(type) {
	case *types.Chan, *types.Signature:
		return false
	}
	return true
}

func nonZero(v Value, t types.Type) *Term {
	if isStringT(t) {
		if _, ok := v.R.(*OpaqueStr); ok {
			return TTrue
		}
		return TBool(strLen(v) != 0)
	}
	if isBoolT(t) {
		return termOf(v, WBool)
	}
	if isFloatT(t) {
		return TBool(v.N != 0)
	}
	return Not(Eq(termOf(v, width(t)), BVC(0, width(t))))
}

// gobEnc returns nil when the value is left out.
func (x *Exec) gobEnc(fr *frame, t types.Type, v Value, send bool) *gnode {
	if indir, m, ok := x.gobExt(t, "GobEncode", "MarshalBinary"); ok {
		rt := t
		for i := 0; i < indir; i++ {
			if v.R == nil {
				if !send {
					return nil
				}
				panic(gobErr{"gob: encodeReflectValue: nil element"})
			}
			rt = rt.Underlying().(*types.Pointer).Elem()
			v = x.load(v, rt)
		}
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			if v.R == nil && !send {
				return nil
			}
			if isBigInt(p.Elem()) {
				if v.R == nil {
					return &gnode{k: gBig}
				}
				return &gnode{k: gBig, v: x.load(v, p.Elem())}
			}
		}
		if isBigInt(rt) {
			if !send && x.branch(IEq(bigOf(v), IntI(0))) {
				return nil
			}
			return &gnode{k: gBig, v: v}
		}
		if isTime(rt) {
			return &gnode{k: gRaw, v: copyVal(v)}
		}
		if indir < 0 {
			c := new(Value)
			*c = copyVal(v)
			if !send && x.zeroValue(rt, v) {
				return nil
			}
			rt, v = types.NewPointer(rt), Value{R: c}
		} else if !send && v.R == nil {
			return nil
		}
		r := x.callMethod(fr, rt, m, v).R.(*Agg)
		if r.E[1].R != nil {
			panic(gobErrV{r.E[1]})
		}
		return &gnode{k: gExt, b: append([]Value(nil), sliceOf(r.E[0])...)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.R == nil {
			if send {
				panic(gobErr{"gob: encodeReflectValue: nil element"})
			}
			return nil
		}
		n := x.gobEnc(fr, u.Elem(), x.load(v, u.Elem()), send)
		if n != nil && n.k == gBasic && n.cond != nil {
			if !x.branch(n.cond) {
				return nil
			}
			n.cond = nil
		}
		return n
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			panic(gobErr{"gob: type not supported"})
		}
		n := &gnode{k: gBasic, v: v}
		if !send {
			n.cond = nonZero(v, t)
			if n.cond == TFalse {
				return nil
			}
			if n.cond == TTrue {
				n.cond = nil
			}
		}
		return n
	case *types.Struct:
		n := &gnode{k: gStruct, f: map[string]*gnode{}}
		a := v.R.(*Agg)
		sent := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !gobSent(f) {
				continue
			}
			sent++
			if c := x.gobEnc(fr, f.Type(), a.E[i], false); c != nil {
				n.f[f.Name()] = c
			}
		}
		if u.NumFields() > 0 && sent == 0 {
			panic(gobErr{"gob: type " + t.String() + " has no exported fields"})
		}
		return n
	case *types.Array:
		n := &gnode{k: gSeq}
		for _, e := range v.R.(*Agg).E {
			n.e = append(n.e, x.gobEnc(fr, u.Elem(), e, true))
		}
		return n
	case *types.Slice:
		s := sliceOf(v)
		if len(s) == 0 && !send {
			return nil
		}
		n := &gnode{k: gSeq}
		for _, e := range s {
			n.e = append(n.e, x.gobEnc(fr, u.Elem(), e, true))
		}
		return n
	case *types.Map:
		if v.R == nil && !send {
			return nil
		}
		n := &gnode{k: gMap}
		if v.R != nil {
			for _, e := range v.R.(*MapV).E {
				if e.deleted {
					continue
				}
				n.keys = append(n.keys, x.gobEnc(fr, u.Key(), e.K, true))
				n.e = append(n.e, x.gobEnc(fr, u.Elem(), e.V, true))
			}
		}
		return n
	case *types.Interface:
		if v.R == nil {
			if send {
				return &gnode{k: gIface}
			}
			return nil
		}
		i := ifaceOf(v)
		if _, ok := i.T.Underlying().(*types.Pointer); ok && i.V.R == nil {
			panic(gobErr{"gob: cannot encode nil pointer of type " + i.T.String() + " inside interface"})
		}
		x.gobInit()
		base := gobBase(i.T)
		rt, ok := x.gob().reg[base.String()]
		if !ok {
			panic(gobErr{"gob: type not registered for interface: " + i.T.String()})
		}
		return &gnode{k: gIface, t: rt, in: x.gobEnc(fr, i.T, i.V, true)}
	}
	panic(gobErr{"gob: type " + t.String() + " not supported"})
}

type gobErrV struct{ err Value }

// zeroValue decides reflect's IsZero.
func (x *Exec) zeroValue(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return !x.branch(nonZero(v, t))
	case *types.Struct:
		for i, e := range v.R.(*Agg).E {
			if !x.zeroValue(u.Field(i).Type(), e) {
				return false
			}
		}
		return true
	case *types.Array:
		for _, e := range v.R.(*Agg).E {
			if !x.zeroValue(u.Elem(), e) {
				return false
			}
		}
		return true
	}
	if isBigInt(t) {
		return x.branch(IEq(bigOf(v), IntI(0)))
	}
	return v.R == nil
}

// gobDec decodes into a cell.
func (x *Exec) gobDec(fr *frame, n *gnode, t types.Type, c *Value) {
	if indir, m, ok := x.gobExt(t, "GobDecode", "UnmarshalBinary"); ok {
		rt := t
		if isBigInt(gobBase(t)) || isTime(gobBase(t)) {
			for {
				p, ok := rt.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				rt = p.Elem()
				if c.R == nil {
					d := new(Value)
					*d = zero(rt)
					*c = Value{R: d}
				}
				c = c.R.(*Value)
			}
			if n.k == gBig {
				t := IntI(0)
				if n.v.R != nil {
					t = bigOf(n.v)
				}
				x.store(Value{R: c}, bigV(t))
				return
			}
			if n.k != gRaw {
				panic(gobErr{"gob: type mismatch"})
			}
			x.store(Value{R: c}, n.v)
			return
		}
		if n.k != gExt {
			panic(gobErr{"gob: type mismatch"})
		}
		for i := 0; i < indir; i++ {
			rt = rt.Underlying().(*types.Pointer).Elem()
			if c.R == nil {
				d := new(Value)
				*d = zero(rt)
				*c = Value{R: d}
			}
			c = c.R.(*Value)
		}
		recv := Value{R: c}
		if indir >= 0 {
			if p, ok := rt.Underlying().(*types.Pointer); ok {
				if c.R == nil {
					d := new(Value)
					*d = zero(p.Elem())
					*c = Value{R: d}
				}
			}
			recv = x.load(Value{R: c}, rt)
		} else {
			rt = types.NewPointer(rt)
		}
		b := append([]Value{}, n.b...)
		if r := x.callMethod(fr, rt, m, recv, mkSlice(b)); r.R != nil {
			panic(gobErrV{r})
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if c.R == nil {
			d := new(Value)
			*d = zero(u.Elem())
			*c = Value{R: d}
		}
		x.gobDec(fr, n, u.Elem(), c.R.(*Value))
	case *types.Basic:
		if n.k != gBasic {
			panic(gobErr{"gob: type mismatch"})
		}
		if n.cond == nil {
			*c = n.v
			return
		}
		if isBoolT(t) {
			*c = fromTerm(Or(n.cond, termOf(*c, WBool)))
			return
		}
		w := width(t)
		*c = fromTerm(Ite(n.cond, termOf(n.v, w), termOf(*c, w)))
	case *types.Struct:
		if n.k != gStruct {
			panic(gobErr{"gob: type mismatch"})
		}
		a := c.R.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); gobSent(f) {
				if e, ok := n.f[f.Name()]; ok {
					x.gobDec(fr, e, f.Type(), &a.E[i])
				}
			}
		}
	case *types.Array:
		if n.k != gSeq || len(n.e) != int(u.Len()) {
			panic(gobErr{"gob: type mismatch"})
		}
		a := c.R.(*Agg)
		for i := range a.E {
			x.gobDec(fr, n.e[i], u.Elem(), &a.E[i])
		}
	case *types.Slice:
		if n.k != gSeq {
			panic(gobErr{"gob: type mismatch"})
		}
		var s []Value
		if old := sliceOf(*c); cap(old) >= len(n.e) {
			s = old[:len(n.e)]
			if c.R == nil {
				return
			}
		} else {
			s = make([]Value, len(n.e))
			for i := range s {
				s[i] = zero(u.Elem())
			}
		}
		for i := range s {
			x.gobDec(fr, n.e[i], u.Elem(), &s[i])
		}
		*c = Value{R: &SliceV{S: s}}
	case *types.Map:
		if n.k != gMap {
			panic(gobErr{"gob: type mismatch"})
		}
		if c.R == nil {
			*c = Value{R: &MapV{KT: u.Key(), VT: u.Elem(), idx: map[string]*mapEntry{}}}
		}
		mv := c.R.(*MapV)
		for i := range n.e {
			k, v := zero(u.Key()), zero(u.Elem())
			x.gobDec(fr, n.keys[i], u.Key(), &k)
			x.gobDec(fr, n.e[i], u.Elem(), &v)
			x.mapSet(mv, k, v)
		}
	case *types.Interface:
		if n.k != gIface {
			panic(gobErr{"gob: type mismatch"})
		}
		if n.t == nil {
			*c = Value{}
			return
		}
		if !x.eng.implements(n.t, u) {
			panic(gobErr{"gob: " + n.t.String() + " is not assignable to type " + t.String()})
		}
		v := zero(n.t)
		x.gobDec(fr, n.in, n.t, &v)
		*c = Value{R: &Iface{T: n.t, V: v}}
	default:
		panic(gobErr{"gob: type " + t.String() + " not supported"})
	}
}

// gobInit runs the package initialisers of the module, which register types.
func (x *Exec) gobInit() {
	g := x.gob()
	if g.inited {
		return
	}
	g.inited = true
	for _, p := range x.eng.prog.prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), "github.com/shutter-network/") && !x.inited[p] {
			x.initPkg(p)
		}
	}
}

func (x *Exec) gobTry(f func()) (err Value) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case gobErr:
				err = x.mkError(e.msg)
			case gobErrV:
				err = e.err
			default:
				panic(r)
			}
		}
	}()
	f()
	return Value{}
}

func (x *Exec) globalVar(pkg, name string) Value {
	for _, p := range x.eng.prog.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g := p.Var(name); g != nil {
				return *x.global(g)
			}
		}
	}
	panic(unsupported("global " + pkg + "." + name))
}

func init() {
	regT := func(x *Exec, a Value) {
		i := ifaceOf(a)
		if i == nil {
			return
		}
		x.gob().reg[gobBase(i.T).String()] = i.T
	}
	reg("encoding/gob.Register", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		regT(x, a[0])
		return Value{}
	})
	reg("encoding/gob.RegisterName", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		regT(x, a[1])
		return Value{}
	})
	mk := func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		// the coder is an opaque cell holding the stream
		return Value{R: &Value{R: &gobCoder{a[0]}}}
	}
	reg("encoding/gob.NewEncoder", mk)
	reg("encoding/gob.NewDecoder", mk)
	reg("(*encoding/gob.Encoder).Encode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		w := ifaceOf(a[0].R.(*Value).R.(*gobCoder).s)
		i := ifaceOf(a[1])
		if i == nil {
			panic(x.rtPanic("gob: cannot encode nil pointer"))
		}
		g := x.gob()
		var n *gnode
		if err := x.gobTry(func() { n = x.gobEnc(fr, i.T, i.V, true) }); err.R != nil {
			return err
		}
		g.blobs = append(g.blobs, n)
		g.types = append(g.types, gobBase(i.T))
		tok := []byte(fmt.Sprintf("%s%08d", gobMagic, len(g.blobs)-1))
		r := x.callMethod(fr, w.T, "Write", w.V, bytesV(tok)).R.(*Agg)
		return r.E[1]
	})
	reg("(*encoding/gob.Decoder).Decode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		rd := ifaceOf(a[0].R.(*Value).R.(*gobCoder).s)
		i := ifaceOf(a[1])
		var pt *types.Pointer
		if i != nil {
			p, ok := i.T.Underlying().(*types.Pointer)
			if !ok {
				return x.mkError("gob: attempt to decode into a non-pointer")
			}
			pt = p
			if i.V.R == nil {
				return x.mkError("gob: DecodeValue of unassignable value")
			}
		}
		var tok []Value
		for len(tok) < 16 {
			buf := make([]Value, 16-len(tok))
			r := x.callMethod(fr, rd.T, "Read", rd.V, mkSlice(buf)).R.(*Agg)
			k := x.concInt(r.E[0])
			tok = append(tok, buf[:k]...)
			if r.E[1].R != nil {
				if len(tok) == 0 {
					return r.E[1]
				}
				if len(tok) < 16 {
					return x.globalVar("io", "ErrUnexpectedEOF")
				}
			} else if k == 0 {
				panic(unsupported("gob: empty read"))
			}
		}
		b, ok := concBytes(tok)
		var id int
		g := x.gob()
		if !ok || string(b[:8]) != gobMagic {
			return x.mkError("gob: malformed data")
		}
		if _, err := fmt.Sscanf(string(b[8:]), "%08d", &id); err != nil || id >= len(g.blobs) {
			return x.mkError("gob: malformed data")
		}
		if pt == nil {
			return Value{}
		}
		return x.gobTry(func() {
			if x.gobKindMismatch(g.types[id], gobBase(pt.Elem())) {
				panic(gobErr{"gob: type mismatch"})
			}
			x.gobDec(fr, g.blobs[id], pt.Elem(), i.V.R.(*Value))
		})
	})
}

func (x *Exec) gobKindMismatch(a, b types.Type) bool {
	_, sa := a.Underlying().(*types.Struct)
	_, sb := b.Underlying().(*types.Struct)
	return sa != sb
}

type gobCoder struct{ s Value }

func init() {
	reg("(*sync/atomic.Value).Store", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if a[1].R == nil {
			panic(x.rtPanic("sync/atomic: store of nil value into Value"))
		}
		a[0].R.(*Value).R.(*Agg).E[0] = a[1]
		return Value{}
	})
	reg("(*sync/atomic.Value).Load", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return a[0].R.(*Value).R.(*Agg).E[0]
	})
}
