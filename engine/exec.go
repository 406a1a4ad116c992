package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type targetPanic struct {
	v  Value // interface value
	rt string
}

type pathEnd struct {
	kind string // "assume", "bound", "unsupported", "exit", "violation"
	msg  string
}

// ---- compiled functions ----

type opnd struct {
	kind uint8 // 0 none, 1 slot, 2 const, 3 global, 4 func, 5 builtin, 6 fresh-zero const
	idx  int
	v    Value
	g    *ssa.Global
	t    types.Type
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int // -1 if none
}

type fnCode struct {
	fn     *ssa.Function
	nslots int
	blocks [][]cinstr
	params []int
	free   []int
	nphi   []int
}

var codeCache sync.Map

func codeOf(fn *ssa.Function) *fnCode {
	if c, ok := codeCache.Load(fn); ok {
		return c.(*fnCode)
	}
	c := compile(fn)
	codeCache.Store(fn, c)
	return c
}

func compile(fn *ssa.Function) *fnCode {
	c := &fnCode{fn: fn}
	slots := map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		s := c.nslots
		c.nslots++
		slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, slot(p))
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				switch v.Type().Underlying().(type) {
				case *types.Struct, *types.Array, *types.Tuple:
					return opnd{kind: 6, t: v.Type()}
				}
				if tp, ok := v.Type().(*types.TypeParam); ok {
					_ = tp
					return opnd{kind: 2}
				}
				return opnd{kind: 2, v: zero(v.Type())}
			}
			return opnd{kind: 2, v: constVal(v)}
		case *ssa.Global:
			return opnd{kind: 3, g: v}
		case *ssa.Function:
			return opnd{kind: 2, v: Value{R: &Closure{Fn: v}}}
		case *ssa.Builtin:
			return opnd{kind: 5}
		}
		return opnd{kind: 1, idx: slot(v)}
	}
	for _, b := range fn.Blocks {
		var is []cinstr
		nphi := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if _, ok := in.(*ssa.Phi); ok {
				nphi++
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			is = append(is, ci)
		}
		c.blocks = append(c.blocks, is)
		c.nphi = append(c.nphi, nphi)
	}
	return c
}

func constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return Value{R: &Poison{"const of type " + c.Type().String()}}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		w := width(b)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return floatV(f)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return strV(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return strV(string(rune(i)))
	case b.Kind() == types.UnsafePointer:
		return Value{}
	}
	return Value{R: &Poison{"const kind " + b.String()}}
}

// ---- frames ----

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type frame struct {
	x        *Exec
	caller   *frame
	fn       *ssa.Function
	code     *fnCode
	env      []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	defers   []deferred
	result   Value
	panicked *targetPanic
	paniking bool
	visits   map[*ssa.BasicBlock]int
	depth    int
	unused   bool // the caller ignores the result
}

func resultUnused(c *ssa.Call) bool {
	for _, r := range *c.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 1:
		return fr.env[o.idx]
	case 2:
		return o.v
	case 3:
		return Value{R: fr.x.global(o.g)}
	case 6:
		return zero(o.t)
	}
	return Value{}
}

var fnNames sync.Map

// fnName is the full name of a function, without type arguments.
func fnName(fn *ssa.Function) string {
	if n, ok := fnNames.Load(fn); ok {
		return n.(string)
	}
	f := fn
	if fn.Origin() != nil {
		f = fn.Origin()
	}
	n := f.String()
	fnNames.Store(fn, n)
	return n
}

func (x *Exec) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	name := fnName(fn)
	if len(x.eng.override) > 0 {
		if o := x.eng.override[name]; o != nil {
			fn = o
			name = fnName(fn)
		}
	}
	if in, ok := x.eng.intrinsic(fn, name); ok {
		x.unused = false
		return in(x, caller, fn, args)
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + name))
	}
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		return Value{} // package initialisers run lazily
	}
	x.noteFn(fn)
	code := codeOf(fn)
	fr := &frame{x: x, caller: caller, fn: fn, code: code, env: make([]Value, code.nslots), unused: x.unused}
	x.unused = false
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 400 {
		panic(pathEnd{"bound", "call depth at " + name})
	}
	for i, s := range code.params {
		fr.env[s] = args[i]
	}
	for i, s := range code.free {
		fr.env[s] = env[i]
	}
	if len(fn.Blocks) > 0 {
		fr.block = fn.Blocks[0]
	}
	x.stack = append(x.stack, fr)
	hasDefer := fnHasDefer(fn)
	if !hasDefer {
		fr.run()
	} else {
		fr.runProtected()
	}
	x.stack = x.stack[:len(x.stack)-1]
	return fr.result
}

var deferCache sync.Map

func fnHasDefer(fn *ssa.Function) bool {
	if v, ok := deferCache.Load(fn); ok {
		return v.(bool)
	}
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				has = true
			}
		}
	}
	deferCache.Store(fn, has)
	return has
}

// runProtected executes fr, running its deferred functions on panic.
func (fr *frame) runProtected() {
	x := fr.x
	depth := len(x.stack)
	for {
		done := func() (done bool) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				x.stack = x.stack[:depth]
				fr.paniking = true
				fr.panicked = &tp
			}()
			fr.run()
			return true
		}()
		if done {
			return
		}
		// run defers while panicking
		fr.runDefers()
		if fr.paniking {
			panic(*fr.panicked)
		}
		// recovered
		if fr.fn.Recover == nil {
			res := fr.fn.Signature.Results()
			if res.Len() == 1 {
				fr.result = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				fr.result = zero(res)
			}
			return
		}
		fr.prev = fr.block
		fr.block = fr.fn.Recover
	}
}

func (fr *frame) runDefers() {
	x := fr.x
	depth := len(x.stack)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				x.stack = x.stack[:depth]
				fr.paniking = true
				fr.panicked = &tp
			}()
			x.callValue(fr, d.fn, d.args)
		}()
	}
}

func (x *Exec) callValue(fr *frame, f Value, args []Value) Value {
	switch c := f.R.(type) {
	case *Closure:
		if c.Native != nil {
			return c.Native(x, fr, args)
		}
		return x.callFn(fr, c.Fn, args, c.Env)
	case nil:
		panic(x.rtPanic("invalid memory address or nil pointer dereference (nil func call)"))
	case *Poison:
		panic(unsupported("poison: " + c.Why))
	}
	panic(unsupported(fmt.Sprintf("call of %T", f.R)))
}

func (x *Exec) rtPanic(msg string) targetPanic {
	return targetPanic{v: x.mkError("runtime error: " + msg), rt: msg}
}

func (fr *frame) run() {
	x := fr.x
	for {
		bi := fr.block.Index
		is := fr.code.blocks[bi]
		i := 0
		if np := fr.code.nphi[bi]; np > 0 {
			// parallel phi evaluation
			edge := -1
			for k, p := range fr.block.Preds {
				if p == fr.prev {
					edge = k
					break
				}
			}
			if np == 1 {
				fr.env[is[0].dst] = fr.get(&is[0].ops[edge])
			} else {
				tmp := make([]Value, np)
				for k := 0; k < np; k++ {
					tmp[k] = fr.get(&is[k].ops[edge])
				}
				for k := 0; k < np; k++ {
					fr.env[is[k].dst] = tmp[k]
				}
			}
			i = np
		}
		x.steps += int64(len(is))
		if x.steps > x.eng.maxSteps {
			panic(pathEnd{"bound", "step limit in " + fr.fn.String()})
		}
		if x.steps&0xfff < int64(len(is)) && x.eng.expired() {
			panic(pathEnd{"deadline", "deadline"})
		}
		var next *ssa.BasicBlock
	instrs:
		for ; i < len(is); i++ {
			ci := &is[i]
			x.cur = ci.in
			x.curFr = fr
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				var b bool
				if t, ok := c.R.(*Term); ok {
					if fr.visits == nil {
						fr.visits = map[*ssa.BasicBlock]int{}
					}
					fr.visits[fr.block]++
					if fr.visits[fr.block] > x.eng.maxUnwind {
						x.eng.noteUnwind(fr.fn.String(), x.eng.pos(in))
						panic(pathEnd{"bound", "unwind limit in " + fr.fn.String()})
					}
					b = x.branch(t)
				} else if p, ok := c.R.(*Poison); ok {
					panic(unsupported("branch on poison: " + p.Why))
				} else {
					b = c.N != 0
				}
				if b {
					next = fr.block.Succs[0]
				} else {
					next = fr.block.Succs[1]
				}
				break instrs
			case *ssa.Jump:
				next = fr.block.Succs[0]
				break instrs
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					e := make([]Value, len(ci.ops))
					for k := range ci.ops {
						e[k] = fr.get(&ci.ops[k])
					}
					fr.result = Value{R: &Agg{E: e}}
				}
				return
			case *ssa.Panic:
				panic(targetPanic{v: fr.get(&ci.ops[0])})
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.paniking {
					panic(*fr.panicked)
				}
			case *ssa.Store:
				x.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.MapUpdate:
				m := fr.get(&ci.ops[0])
				mv, ok := m.R.(*MapV)
				if !ok {
					if p, ok := m.R.(*Poison); ok {
						panic(unsupported("poison: " + p.Why))
					}
					panic(x.rtPanic("assignment to entry in nil map"))
				}
				x.mapSet(mv, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
			case *ssa.Defer:
				f, args := fr.prepCall(&in.Call, ci)
				fr.defers = append(fr.defers, deferred{fn: f, args: args})
			case *ssa.Go:
				f, args := fr.prepCall(&in.Call, ci)
				x.spawn(fr, f, args)
			case *ssa.Send:
				x.chanSend(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			default:
				if x.tolerant {
					fr.env[ci.dst] = x.evalTolerant(fr, ci)
				} else {
					fr.env[ci.dst] = fr.evalInstr(ci)
				}
			}
		}
		fr.prev = fr.block
		fr.block = next
		if next == nil {
			panic(unsupported("fell off block in " + fr.fn.String()))
		}
	}
}

func (x *Exec) evalTolerant(fr *frame, ci *cinstr) (res Value) {
	depth := len(x.stack)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case unsupportedErr:
			res = Value{R: &Poison{e.msg}}
		case targetPanic:
			res = Value{R: &Poison{"panic during init"}}
		default:
			panic(r)
		}
		x.stack = x.stack[:depth]
	}()
	return fr.evalInstr(ci)
}

func (fr *frame) prepCall(cc *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	x := fr.x
	if cc.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		if recv.R == nil {
			panic(x.rtPanic("invalid memory address or nil pointer dereference (nil interface call of " + cc.Method.Name() + ")"))
		}
		ifc, ok := recv.R.(*Iface)
		if !ok {
			if p, ok := recv.R.(*Poison); ok {
				panic(unsupported("poison: " + p.Why))
			}
			panic(unsupported(fmt.Sprintf("invoke on %T", recv.R)))
		}
		args := make([]Value, len(ci.ops))
		args[0] = ifc.V
		for k := 1; k < len(ci.ops); k++ {
			args[k] = fr.get(&ci.ops[k])
		}
		fn := x.eng.lookupMethod(ifc.T, cc.Method)
		if fn == nil {
			if nm, ok := x.eng.nativeMethod(ifc.T, cc.Method); ok {
				return Value{R: &Closure{Native: nm, Name: cc.Method.Name()}}, args
			}
			panic(unsupported("no method " + cc.Method.FullName() + " on " + ifc.T.String()))
		}
		return Value{R: &Closure{Fn: fn}}, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(ci.ops)-1)
		for k := 1; k < len(ci.ops); k++ {
			args[k-1] = fr.get(&ci.ops[k])
		}
		return Value{R: &Closure{Name: b.Name(), Native: func(x *Exec, _ *frame, a []Value) Value {
			return fr.builtin(b, cc, a)
		}}}, args
	}
	f := fr.get(&ci.ops[0])
	args := make([]Value, len(ci.ops)-1)
	for k := 1; k < len(ci.ops); k++ {
		args[k-1] = fr.get(&ci.ops[k])
	}
	return f, args
}

func (x *Exec) load(p Value, t types.Type) Value {
	switch c := p.R.(type) {
	case *Value:
		if _, ok := c.R.(*Agg); ok {
			return copyVal(*c)
		}
		return *c
	case *SymPtr:
		return x.symLoad(c)
	case nil:
		panic(x.rtPanic("invalid memory address or nil pointer dereference"))
	case *Poison:
		panic(unsupported("poison: " + c.Why))
	}
	panic(unsupported(fmt.Sprintf("load from %T", p.R)))
}

func (x *Exec) symLoad(p *SymPtr) Value {
	n := len(p.Elems)
	if isScalar(p.ET) && !isStringT(p.ET) && !isFloatT(p.ET) {
		w := width(p.ET)
		// split table by value to keep the chain short
		r := termOf(p.Elems[n-1], w)
		for i := n - 2; i >= 0; i-- {
			r = Ite(Eq(p.Idx, BVC(uint64(i), 64)), termOf(p.Elems[i], w), r)
		}
		return fromTerm(r)
	}
	i := x.concretize(p.Idx)
	return copyVal(p.Elems[i])
}

func (x *Exec) store(p Value, v Value) {
	switch c := p.R.(type) {
	case *Value:
		if a, ok := v.R.(*Agg); ok {
			if old, ok := c.R.(*Agg); ok && len(old.E) == len(a.E) {
				// keep cell identity: copy element-wise into the existing storage
				copyInto(old, a)
				return
			}
			*c = copyVal(v)
			return
		}
		*c = v
		return
	case *SymPtr:
		if isScalar(c.ET) && !isStringT(c.ET) && !isFloatT(c.ET) {
			w := width(c.ET)
			nv := termOf(v, w)
			for i := range c.Elems {
				c.Elems[i] = fromTerm(Ite(Eq(c.Idx, BVC(uint64(i), 64)), nv, termOf(c.Elems[i], w)))
			}
			return
		}
		i := x.concretize(c.Idx)
		x.store(Value{R: &c.Elems[i]}, v)
		return
	case nil:
		panic(x.rtPanic("invalid memory address or nil pointer dereference"))
	case *Poison:
		if x.tolerant {
			return
		}
		panic(unsupported("poison: " + c.Why))
	}
	panic(unsupported(fmt.Sprintf("store to %T", p.R)))
}

func copyInto(dst, src *Agg) {
	if dst == src {
		return
	}
	// guard against overlap: deep copy source first
	tmp := copyVal(Value{R: src}).R.(*Agg)
	copyInto1(dst, tmp)
}

func copyInto1(dst, src *Agg) {
	for i := range src.E {
		if s, ok := src.E[i].R.(*Agg); ok {
			if d, ok := dst.E[i].R.(*Agg); ok && len(d.E) == len(s.E) {
				copyInto1(d, s)
				continue
			}
		}
		dst.E[i] = src.E[i]
	}
}

func (fr *frame) evalInstr(ci *cinstr) Value {
	x := fr.x
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		c := new(Value)
		*c = zero(deref(in.Type()))
		return Value{R: c}
	case *ssa.Call:
		if cc := &in.Call; !cc.IsInvoke() {
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				args := make([]Value, len(ci.ops)-1)
				for k := 1; k < len(ci.ops); k++ {
					args[k-1] = fr.get(&ci.ops[k])
				}
				return fr.builtin(b, cc, args)
			}
		}
		f, args := fr.prepCall(&in.Call, ci)
		x.unused = resultUnused(in)
		r := x.callValue(fr, f, args)
		x.cur = in
		x.curFr = fr
		return r
	case *ssa.BinOp:
		return x.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		return fr.unop(in, fr.get(&ci.ops[0]))
	case *ssa.ChangeType:
		return fr.get(&ci.ops[0])
	case *ssa.ChangeInterface:
		return fr.get(&ci.ops[0])
	case *ssa.Convert:
		return x.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		return x.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := sliceOf(fr.get(&ci.ops[0]))
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(x.rtPanic("cannot convert slice to array pointer: length too short"))
		}
		// alias through an Agg sharing storage
		c := &Value{R: &Agg{E: s[:n:n]}}
		return Value{R: c}
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		if p, ok := v.R.(*Poison); ok {
			panic(unsupported("poison: " + p.Why))
		}
		return Value{R: &Iface{T: in.X.Type(), V: v}}
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for k := 1; k < len(ci.ops); k++ {
			c.Env = append(c.Env, fr.get(&ci.ops[k]))
		}
		return Value{R: c}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		return Value{R: &MapV{KT: mt.Key(), VT: mt.Elem(), idx: map[string]*mapEntry{}}}
	case *ssa.MakeChan:
		n := x.concInt(fr.get(&ci.ops[0]))
		return Value{R: &ChanV{Cap: n}}
	case *ssa.MakeSlice:
		n, c := x.sizeInt(fr.get(&ci.ops[0]), "makeslice: len out of range"), x.sizeInt(fr.get(&ci.ops[1]), "makeslice: cap out of range")
		if n < 0 || n > 1<<24 {
			panic(x.rtPanic("makeslice: len out of range"))
		}
		if c < n || c > 1<<24 {
			panic(x.rtPanic("makeslice: cap out of range"))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		return Value{R: &SliceV{S: zeroElems(et, c)[:n]}}
	case *ssa.Slice:
		return fr.slice(in, ci)
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		switch c := p.R.(type) {
		case *Value:
			a, ok := c.R.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("FieldAddr into %T of %s", c.R, in.X.Type())))
			}
			return Value{R: &a.E[in.Field]}
		case nil:
			panic(x.rtPanic("invalid memory address or nil pointer dereference"))
		case *SymPtr:
			i := x.concretize(c.Idx)
			return Value{R: &c.Elems[i].R.(*Agg).E[in.Field]}
		case *Poison:
			panic(unsupported("poison: " + c.Why))
		}
		panic(unsupported(fmt.Sprintf("FieldAddr on %T (%s)", p.R, in.X.Type())))
	case *ssa.Field:
		v := fr.get(&ci.ops[0])
		a, ok := v.R.(*Agg)
		if !ok {
			if p, ok := v.R.(*Poison); ok {
				panic(unsupported("poison: " + p.Why))
			}
			panic(unsupported(fmt.Sprintf("Field of %T", v.R)))
		}
		return a.E[in.Field]
	case *ssa.IndexAddr:
		v := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1])
		var elems []Value
		var et types.Type
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			elems = sliceOf(v)
			et = t.Elem()
		case *types.Pointer:
			switch c := v.R.(type) {
			case *Value:
				a, ok := c.R.(*Agg)
				if !ok {
					panic(unsupported(fmt.Sprintf("IndexAddr into %T", c.R)))
				}
				elems = a.E
			case nil:
				panic(x.rtPanic("invalid memory address or nil pointer dereference"))
			default:
				panic(unsupported(fmt.Sprintf("IndexAddr on %T", v.R)))
			}
			et = t.Elem().Underlying().(*types.Array).Elem()
		}
		return x.indexPtr(elems, et, idx, in.Index.Type())
	case *ssa.Index:
		v := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1])
		if isStringT(in.X.Type()) {
			return x.strIndex(v, idx, in.Index.Type())
		}
		a := v.R.(*Agg)
		p := x.indexPtr(a.E, in.X.Type().Underlying().(*types.Array).Elem(), idx, in.Index.Type())
		return x.load(p, nil)
	case *ssa.Lookup:
		v := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			return x.mapLookup(v, k, mt, in.CommaOk)
		}
		return x.strIndex(v, k, in.Index.Type())
	case *ssa.Extract:
		v := fr.get(&ci.ops[0])
		a, ok := v.R.(*Agg)
		if !ok {
			if p, ok := v.R.(*Poison); ok {
				panic(unsupported("poison: " + p.Why))
			}
			panic(unsupported(fmt.Sprintf("Extract of %T", v.R)))
		}
		return a.E[in.Index]
	case *ssa.TypeAssert:
		return x.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Range:
		v := fr.get(&ci.ops[0])
		if isStringT(in.X.Type()) {
			return Value{R: &strIter{s: v}}
		}
		if v.R == nil {
			return Value{R: &mapIter{}}
		}
		if p, ok := v.R.(*Poison); ok {
			panic(unsupported("poison: " + p.Why))
		}
		return Value{R: x.newMapIter(v.R.(*MapV))}
	case *ssa.Next:
		it := fr.get(&ci.ops[0])
		switch it := it.R.(type) {
		case *strIter:
			return x.strNext(it)
		case *mapIter:
			return x.mapNext(it, in.Type().(*types.Tuple))
		}
		panic(unsupported("next"))
	case *ssa.Select:
		return x.doSelect(fr, in, ci)
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ci.in)))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func zeroElems(et types.Type, n int) []Value {
	s := make([]Value, n)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return s
	}
	for i := range s {
		s[i] = zero(et)
	}
	return s
}

func (x *Exec) idxTerm(v Value, t types.Type) *Term {
	w := width(t)
	tt := termOf(v, w)
	if w < 64 {
		if isSigned(t) {
			return SExt(tt, 64)
		}
		return ZExt(tt, 64)
	}
	return tt
}

func (x *Exec) indexPtr(elems []Value, et types.Type, idx Value, it types.Type) Value {
	if idx.R == nil {
		i := idx.N
		if isSigned(it) {
			i = uint64(sext64(idx.N, width(it)))
		}
		if i >= uint64(len(elems)) {
			panic(x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), len(elems))))
		}
		return Value{R: &elems[i]}
	}
	t := x.idxTerm(idx, it)
	if !x.branch(Ult(t, BVC(uint64(len(elems)), 64))) {
		panic(x.rtPanic("index out of range"))
	}
	if t.Op == OConst {
		return Value{R: &elems[t.U]}
	}
	if len(elems) == 1 {
		return Value{R: &elems[0]}
	}
	return Value{R: &SymPtr{Elems: elems, Idx: t, ET: et}}
}

func (x *Exec) strIndex(v, idx Value, it types.Type) Value {
	if s, ok := v.R.(string); ok && idx.R == nil && idx.N < uint64(len(s)) {
		return Value{N: uint64(s[idx.N])}
	}
	b, ok := strBytes(v)
	if !ok {
		panic(unsupported("index of opaque string"))
	}
	p := x.indexPtr(b, types.Typ[types.Uint8], idx, it)
	return x.load(p, nil)
}

func (fr *frame) slice(in *ssa.Slice, ci *cinstr) Value {
	x := fr.x
	v := fr.get(&ci.ops[0])
	bound := func(k int, def int) int {
		if ci.ops[k].kind == 0 {
			return def
		}
		b := fr.get(&ci.ops[k])
		var t types.Type
		switch k {
		case 1:
			t = in.Low.Type()
		case 2:
			t = in.High.Type()
		case 3:
			t = in.Max.Type()
		}
		if b.R != nil {
			tt := x.idxTerm(b, t)
			return int(int64(x.concretizeMax(tt, 1<<20)))
		}
		return int(sext64(b.N, width(t)))
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		if _, ok := v.R.(*OpaqueStr); ok {
			panic(unsupported("slice of opaque string"))
		}
		n := strLen(v)
		lo, hi := bound(1, 0), bound(2, n)
		if lo < 0 || hi < lo || hi > n {
			panic(x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
		}
		if s, ok := concStr(v); ok {
			return strV(s[lo:hi])
		}
		b, _ := strBytes(v)
		return bytesToStr(b[lo:hi])
	case *types.Slice:
		s := sliceOf(v)
		lo, hi := bound(1, 0), bound(2, len(s))
		mx := bound(3, cap(s))
		if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
			panic(x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s))))
		}
		if v.R == nil {
			return Value{}
		}
		return Value{R: &SliceV{S: s[lo:hi:mx]}}
	case *types.Pointer:
		_ = t
		c, ok := v.R.(*Value)
		if !ok {
			if v.R == nil {
				panic(x.rtPanic("invalid memory address or nil pointer dereference"))
			}
			panic(unsupported(fmt.Sprintf("slice of %T", v.R)))
		}
		s := c.R.(*Agg).E
		lo, hi := bound(1, 0), bound(2, len(s))
		mx := bound(3, len(s))
		if lo < 0 || hi < lo || mx < hi || mx > len(s) {
			panic(x.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, len(s))))
		}
		return Value{R: &SliceV{S: s[lo:hi:mx]}}
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func (fr *frame) unop(in *ssa.UnOp, v Value) Value {
	x := fr.x
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		return x.load(v, nil)
	case token.NOT:
		if tt, ok := v.R.(*Term); ok {
			return fromTerm(Not(tt))
		}
		return Value{N: 1 - v.N}
	case token.SUB:
		if isFloatT(t) {
			return floatV(-float(v))
		}
		w := width(t)
		if tt, ok := v.R.(*Term); ok {
			return fromTerm(Neg(tt))
		}
		return Value{N: (-v.N) & mask(w)}
	case token.XOR:
		w := width(t)
		if tt, ok := v.R.(*Term); ok {
			return fromTerm(BNot(tt))
		}
		return Value{N: ^v.N & mask(w)}
	case token.ARROW:
		return x.chanRecv(v, in.CommaOk, t.Underlying().(*types.Chan).Elem())
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *Exec) binop(op token.Token, t, ty types.Type, a, b Value) Value {
	if p, ok := a.R.(*Poison); ok {
		panic(unsupported("poison: " + p.Why))
	}
	if p, ok := b.R.(*Poison); ok {
		panic(unsupported("poison: " + p.Why))
	}
	switch op {
	case token.EQL:
		return fromTerm(x.eq(t, a, b))
	case token.NEQ:
		return fromTerm(Not(x.eq(t, a, b)))
	}
	if isStringT(t) {
		return x.strBinop(op, a, b)
	}
	if isFloatT(t) {
		f, g := float(a), float(b)
		r32 := func(f float64) Value {
			if t.Underlying().(*types.Basic).Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return floatV(f)
		}
		switch op {
		case token.ADD:
			return r32(f + g)
		case token.SUB:
			return r32(f - g)
		case token.MUL:
			return r32(f * g)
		case token.QUO:
			return r32(f / g)
		case token.LSS:
			return mkBool(f < g)
		case token.LEQ:
			return mkBool(f <= g)
		case token.GTR:
			return mkBool(f > g)
		case token.GEQ:
			return mkBool(f >= g)
		}
	}
	if isBoolT(t) {
		ta, tb := termOf(a, WBool), termOf(b, WBool)
		switch op {
		case token.AND, token.LAND:
			return fromTerm(And(ta, tb))
		case token.OR, token.LOR:
			return fromTerm(Or(ta, tb))
		}
		panic(unsupported("bool op " + op.String()))
	}
	w := width(t)
	signed := isSigned(t)
	if op == token.SHL || op == token.SHR {
		return x.shift(op, t, ty, a, b)
	}
	if a.R == nil && b.R == nil {
		m := mask(w)
		switch op {
		case token.ADD:
			return Value{N: (a.N + b.N) & m}
		case token.SUB:
			return Value{N: (a.N - b.N) & m}
		case token.MUL:
			return Value{N: (a.N * b.N) & m}
		case token.AND:
			return Value{N: a.N & b.N}
		case token.OR:
			return Value{N: a.N | b.N}
		case token.XOR:
			return Value{N: a.N ^ b.N}
		case token.AND_NOT:
			return Value{N: a.N &^ b.N}
		case token.QUO, token.REM:
			if b.N == 0 {
				panic(x.rtPanic("integer divide by zero"))
			}
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if signed {
				o = OSDiv
				if op == token.REM {
					o = OSRem
				}
			}
			return Value{N: bvFold(o, a.N, b.N, w)}
		}
		var lt, le bool
		if signed {
			sa, sb := sext64(a.N, w), sext64(b.N, w)
			lt, le = sa < sb, sa <= sb
		} else {
			lt, le = a.N < b.N, a.N <= b.N
		}
		switch op {
		case token.LSS:
			return mkBool(lt)
		case token.LEQ:
			return mkBool(le)
		case token.GTR:
			return mkBool(!le)
		case token.GEQ:
			return mkBool(!lt)
		}
		panic(unsupported("binop " + op.String()))
	}
	ta, tb := termOf(a, w), termOf(b, w)
	switch op {
	case token.ADD:
		return fromTerm(bin(OAdd, ta, tb))
	case token.SUB:
		return fromTerm(bin(OSub, ta, tb))
	case token.MUL:
		return fromTerm(bin(OMul, ta, tb))
	case token.AND:
		return fromTerm(bin(OBAnd, ta, tb))
	case token.OR:
		return fromTerm(bin(OBOr, ta, tb))
	case token.XOR:
		return fromTerm(bin(OBXor, ta, tb))
	case token.AND_NOT:
		return fromTerm(bin(OBAnd, ta, BNot(tb)))
	case token.QUO, token.REM:
		if x.branch(Eq(tb, BVC(0, w))) {
			panic(x.rtPanic("integer divide by zero"))
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		if x.wide != nil {
			if r, ok := x.wide(o, ta, tb); ok {
				return fromTerm(r)
			}
		}
		return fromTerm(bin(o, ta, tb))
	}
	lt, le := Ult, Ule
	if signed {
		lt, le = Slt, Sle
	}
	switch op {
	case token.LSS:
		return fromTerm(lt(ta, tb))
	case token.LEQ:
		return fromTerm(le(ta, tb))
	case token.GTR:
		return fromTerm(lt(tb, ta))
	case token.GEQ:
		return fromTerm(le(tb, ta))
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) shift(op token.Token, t, ty types.Type, a, b Value) Value {
	w := width(t)
	wy := width(ty)
	if isSigned(ty) {
		neg := Slt(termOf(b, wy), BVC(0, wy))
		if x.branch(neg) {
			panic(x.rtPanic("negative shift amount"))
		}
	}
	if a.R == nil && b.R == nil {
		s := b.N
		switch {
		case op == token.SHL:
			if s >= uint64(w) {
				return Value{}
			}
			return Value{N: (a.N << s) & mask(w)}
		case isSigned(t):
			if s >= 64 {
				s = 63
			}
			return Value{N: uint64(sext64(a.N, w)>>s) & mask(w)}
		default:
			if s >= uint64(w) {
				return Value{}
			}
			return Value{N: a.N >> s}
		}
	}
	ta := termOf(a, w)
	tb := termOf(b, wy)
	// bring the shift amount to width w, saturating
	var amt *Term
	if wy <= w {
		amt = ZExt(tb, w)
	} else {
		big := Ult(BVC(uint64(w), wy), tb)
		amt = Ite(big, BVC(uint64(w), w), Extract(tb, w-1, 0))
		if w < 8 && w > 0 {
			panic(unsupported("narrow shift"))
		}
	}
	switch {
	case op == token.SHL:
		return fromTerm(bin(OShl, ta, amt))
	case isSigned(t):
		return fromTerm(bin(OAShr, ta, amt))
	}
	return fromTerm(bin(OLShr, ta, amt))
}

func (x *Exec) strBinop(op token.Token, a, b Value) Value {
	if op == token.ADD {
		sa, ok1 := concStr(a)
		sb, ok2 := concStr(b)
		if ok1 && ok2 {
			return strV(sa + sb)
		}
		if ok1 && sa == "" {
			return b
		}
		if ok2 && sb == "" {
			return a
		}
		ba, ok1 := strBytes(a)
		bb, ok2 := strBytes(b)
		if !ok1 || !ok2 {
			if ob, ok := b.R.(*OpaqueStr); ok {
				if pre, ok := concStr(a); ok {
					return x.opaqueWith("concat", pre+ob.Prefix)
				}
			}
			if oa, ok := a.R.(*OpaqueStr); ok {
				return x.opaqueWith("concat", oa.Prefix)
			}
			return x.opaque("concat")
		}
		return bytesToStr(append(append([]Value(nil), ba...), bb...))
	}
	lt := func(a, b Value) *Term {
		ba, ok1 := strBytes(a)
		bb, ok2 := strBytes(b)
		if !ok1 || !ok2 {
			panic(unsupported("compare opaque strings"))
		}
		return bytesLess(ba, bb)
	}
	switch op {
	case token.LSS:
		return fromTerm(lt(a, b))
	case token.GTR:
		return fromTerm(lt(b, a))
	case token.LEQ:
		return fromTerm(Not(lt(b, a)))
	case token.GEQ:
		return fromTerm(Not(lt(a, b)))
	}
	panic(unsupported("string op " + op.String()))
}

func bytesLess(a, b []Value) *Term {
	if len(a) == 0 {
		return TBool(len(b) > 0)
	}
	if len(b) == 0 {
		return TFalse
	}
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := TBool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		ta, tb := termOf(a[i], 8), termOf(b[i], 8)
		r = Or(Ult(ta, tb), And(Eq(ta, tb), r))
	}
	return r
}

func bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return TFalse
	}
	if len(a) == 0 {
		return TTrue
	}
	for i := range a {
		if a[i].R == nil && b[i].R == nil && a[i].N != b[i].N {
			return TFalse
		}
	}
	return eqPieces(a, b)
}

// eqPieces compares two byte sequences in maximal runs of bytes cut from the same terms.
func eqPieces(a, b []Value) *Term {
	var cs []*Term
	for i := 0; i < len(a); {
		if a[i].R == nil && b[i].R == nil {
			i++
			continue
		}
		ta, tb := termOf(a[i], 8), termOf(b[i], 8)
		j := i + 1
		for j < len(a) {
			na, nb := Concat(ta, termOf(a[j], 8)), Concat(tb, termOf(b[j], 8))
			if na.Op == OConcat || nb.Op == OConcat || na.Op == OZExt || nb.Op == OZExt {
				break
			}
			ta, tb = na, nb
			j++
		}
		c := Eq(ta, tb)
		if c == TFalse {
			return TFalse
		}
		cs = append(cs, c)
		i = j
	}
	return And(cs...)
}

// eq builds the Go == relation.
func (x *Exec) eq(t types.Type, a, b Value) *Term {
	if p, ok := a.R.(*Poison); ok {
		panic(unsupported("poison: " + p.Why))
	}
	if p, ok := b.R.(*Poison); ok {
		panic(unsupported("poison: " + p.Why))
	}
	if isBigInt(t) {
		panic(unsupported("== on big.Int"))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return x.strEq(a, b)
		case u.Info()&types.IsFloat != 0:
			return TBool(float(a) == float(b))
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return TBool(a.R == b.R)
		}
		w := width(u)
		if a.R == nil && b.R == nil {
			return TBool(a.N == b.N)
		}
		return Eq(termOf(a, w), termOf(b, w))
	case *types.Struct:
		aa, ab := a.R.(*Agg), b.R.(*Agg)
		var cs []*Term
		for i := range aa.E {
			if u.Field(i).Name() == "_" {
				continue
			}
			c := x.eq(u.Field(i).Type(), aa.E[i], ab.E[i])
			if c == TFalse {
				return TFalse
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Array:
		aa, ab := a.R.(*Agg), b.R.(*Agg)
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && (eb.Kind() == types.Uint8) {
			return bytesEq(aa.E, ab.E)
		}
		var cs []*Term
		for i := range aa.E {
			c := x.eq(u.Elem(), aa.E[i], ab.E[i])
			if c == TFalse {
				return TFalse
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return TBool(a.R == nil && b.R == nil)
		}
		ia, ib := a.R.(*Iface), b.R.(*Iface)
		if !types.Identical(ia.T, ib.T) {
			return TFalse
		}
		if !types.Comparable(ia.T) {
			panic(x.rtPanic("comparing uncomparable type " + ia.T.String()))
		}
		return x.eq(ia.T, ia.V, ib.V)
	case *types.Pointer, *types.Chan:
		if sp, ok := a.R.(*SymPtr); ok {
			a = Value{R: &sp.Elems[x.concretize(sp.Idx)]}
		}
		if sp, ok := b.R.(*SymPtr); ok {
			b = Value{R: &sp.Elems[x.concretize(sp.Idx)]}
		}
		return TBool(a.R == b.R)
	case *types.Slice, *types.Map, *types.Signature:
		return TBool(a.R == nil && b.R == nil)
	}
	panic(unsupported("== on " + t.String()))
}

func (x *Exec) strEq(a, b Value) *Term {
	if oa, ok := a.R.(*OpaqueStr); ok {
		if ob, ok := b.R.(*OpaqueStr); ok && oa.ID == ob.ID {
			return TTrue
		}
		panic(unsupported("compare opaque strings"))
	}
	if _, ok := b.R.(*OpaqueStr); ok {
		panic(unsupported("compare opaque strings"))
	}
	sa, ok1 := concStr(a)
	sb, ok2 := concStr(b)
	if ok1 && ok2 {
		return TBool(sa == sb)
	}
	if strLen(a) != strLen(b) {
		return TFalse
	}
	ba, _ := strBytes(a)
	bb, _ := strBytes(b)
	return bytesEq(ba, bb)
}

// ---- conversions ----

func (x *Exec) convert(to, from types.Type, v Value) Value {
	if p, ok := v.R.(*Poison); ok {
		panic(unsupported("poison: " + p.Why))
	}
	ut, uf := to.Underlying(), from.Underlying()
	if bt, ok := ut.(*types.Basic); ok {
		if bf, ok := uf.(*types.Basic); ok {
			fi, ti := bf.Info(), bt.Info()
			switch {
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				wf, wt := width(bf), width(bt)
				if v.R == nil {
					if isSigned(bf) {
						return Value{N: uint64(sext64(v.N, wf)) & mask(wt)}
					}
					return Value{N: v.N & mask(wt)}
				}
				t := termOf(v, wf)
				switch {
				case wt == wf:
					return v
				case wt < wf:
					return fromTerm(Extract(t, wt-1, 0))
				case isSigned(bf):
					return fromTerm(SExt(t, wt))
				default:
					return fromTerm(ZExt(t, wt))
				}
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				if v.R != nil {
					panic(unsupported("symbolic int to float"))
				}
				var f float64
				if isSigned(bf) {
					f = float64(sext64(v.N, width(bf)))
				} else {
					f = float64(v.N)
				}
				if bt.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return floatV(f)
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				f := float(v)
				if isSigned(bt) {
					return Value{N: uint64(int64(f)) & mask(width(bt))}
				}
				return Value{N: uint64(f) & mask(width(bt))}
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				f := float(v)
				if bt.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return floatV(f)
			case fi&types.IsInteger != 0 && ti&types.IsString != 0:
				if v.R != nil {
					panic(unsupported("symbolic rune to string"))
				}
				return strV(string(rune(sext64(v.N, width(bf)))))
			case fi&types.IsString != 0 && ti&types.IsString != 0:
				return v
			case bf.Kind() == types.UnsafePointer || bt.Kind() == types.UnsafePointer:
				return v
			}
		}
		if sl, ok := uf.(*types.Slice); ok && bt.Info()&types.IsString != 0 {
			w := width(sl.Elem())
			if w == 8 {
				return bytesToStr(sliceOf(v))
			}
			var rs []rune
			for _, e := range sliceOf(v) {
				if e.R != nil {
					panic(unsupported("symbolic []rune to string"))
				}
				rs = append(rs, rune(sext64(e.N, 32)))
			}
			return strV(string(rs))
		}
		if bt.Kind() == types.UnsafePointer {
			return v
		}
	}
	if bf, ok := uf.(*types.Basic); ok {
		if sl, ok := ut.(*types.Slice); ok && bf.Info()&types.IsString != 0 {
			if width(sl.Elem()) == 8 {
				b, ok := strBytes(v)
				if !ok {
					panic(unsupported("opaque string to []byte"))
				}
				n := make([]Value, len(b), roundupsize(len(b)))
				copy(n, b)
				return Value{R: &SliceV{S: n}}
			}
			s, ok := concStr(v)
			if !ok {
				panic(unsupported("symbolic string to []rune"))
			}
			var out []Value
			for _, r := range s {
				out = append(out, Value{N: uint64(uint32(r))})
			}
			return Value{R: &SliceV{S: out}}
		}
		if bf.Kind() == types.UnsafePointer {
			return v
		}
	}
	if _, ok := ut.(*types.Array); ok {
		if _, ok := uf.(*types.Slice); ok {
			s := sliceOf(v)
			n := int(ut.(*types.Array).Len())
			if len(s) < n {
				panic(x.rtPanic("cannot convert slice to array"))
			}
			return copyVal(Value{R: &Agg{E: s[:n]}})
		}
	}
	if types.Identical(ut, uf) {
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

// ---- type assertions ----

var typeHasher = typeutil.MakeHasher()

func (x *Exec) typeAssert(in *ssa.TypeAssert, v Value) Value {
	ok := false
	if p, isP := v.R.(*Poison); isP {
		panic(unsupported("poison: " + p.Why))
	}
	var res Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if ifc, o := v.R.(*Iface); o {
			if x.eng.implements(ifc.T, it) {
				ok = true
				res = v
			}
		}
	} else if ifc, o := v.R.(*Iface); o {
		if types.Identical(ifc.T, in.AssertedType) {
			ok = true
			res = ifc.V
		}
	}
	if in.CommaOk {
		if !ok {
			res = zero(in.AssertedType)
		}
		return tup(res, mkBool(ok))
	}
	if !ok {
		panic(x.rtPanic("interface conversion: not " + in.AssertedType.String()))
	}
	return res
}

// ---- maps ----

func (x *Exec) mapFind(m *MapV, k Value) *mapEntry {
	ks, conc := keyStr(k, m.KT)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.E {
		if e.deleted {
			continue
		}
		if conc {
			if _, ec := keyStr(e.K, m.KT); ec {
				continue
			}
		}
		if x.branch(x.eq(m.KT, e.K, k)) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapLookup(mv, k Value, mt *types.Map, commaOk bool) Value {
	if p, isP := mv.R.(*Poison); isP {
		panic(unsupported("poison: " + p.Why))
	}
	if i, ok := mt.Key().Underlying().(*types.Interface); ok && k.R != nil {
		_ = i
		if !types.Comparable(k.R.(*Iface).T) {
			panic(x.rtPanic("hash of unhashable type"))
		}
	}
	ret := func(v Value, ok bool) Value {
		if commaOk {
			return tup(v, mkBool(ok))
		}
		return v
	}
	if mv.R == nil {
		return ret(zero(mt.Elem()), false)
	}
	m := mv.R.(*MapV)
	ks, conc := keyStr(k, m.KT)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return ret(copyVal(e.V), true)
		}
		if m.nsym == 0 {
			return ret(zero(mt.Elem()), false)
		}
	}
	// merged lookup for scalar values
	merge := false
	w := 0
	switch u := mt.Elem().Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			merge = true
			w = width(u)
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			merge = true
			w = -2
		}
	}
	if merge {
		found := TFalse
		var val *Term
		if w != -2 {
			if w == WBool {
				val = TFalse
			} else {
				val = BVC(0, w)
			}
		}
		for _, e := range m.E {
			if e.deleted {
				continue
			}
			c := x.eq(m.KT, e.K, k)
			if c == TFalse {
				continue
			}
			if x.pcset[Not(c)] {
				continue
			}
			if x.pcset[c] {
				c = TTrue
			}
			if w != -2 {
				val = Ite(c, termOf(e.V, w), val)
			}
			found = Or(found, c)
			if c == TTrue {
				break
			}
		}
		var v Value
		if w == -2 {
			v = zero(mt.Elem())
		} else {
			v = fromTerm(val)
		}
		if commaOk {
			return tup(v, fromTerm(found))
		}
		return v
	}
	e := x.mapFind(m, k)
	if e == nil {
		return ret(zero(mt.Elem()), false)
	}
	return ret(copyVal(e.V), true)
}

func (x *Exec) mapSet(m *MapV, k, v Value) {
	if e := x.mapFind(m, k); e != nil {
		e.V = copyVal(v)
		return
	}
	e := &mapEntry{K: copyVal(k), V: copyVal(v)}
	m.E = append(m.E, e)
	m.n++
	if ks, conc := keyStr(k, m.KT); conc {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}

func (x *Exec) mapDelete(m *MapV, k Value) {
	e := x.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if ks, conc := keyStr(e.K, m.KT); conc {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.E) > 32 && m.n < len(m.E)/2 {
		var ne []*mapEntry
		for _, o := range m.E {
			if !o.deleted {
				ne = append(ne, o)
			}
		}
		m.E = ne
	}
}

type mapIter struct {
	m    *MapV
	rest []*mapEntry
}

type strIter struct {
	s Value
	i int
}

func (x *Exec) newMapIter(m *MapV) *mapIter {
	it := &mapIter{m: m}
	for _, e := range m.E {
		if !e.deleted {
			it.rest = append(it.rest, e)
		}
	}
	return it
}

func (x *Exec) mapNext(it *mapIter, t *types.Tuple) Value {
	for {
		// drop deleted entries
		j := 0
		for _, e := range it.rest {
			if !e.deleted {
				it.rest[j] = e
				j++
			}
		}
		it.rest = it.rest[:j]
		if len(it.rest) == 0 {
			return tup(mkBool(false), zero0(t.At(1).Type()), zero0(t.At(2).Type()))
		}
		pick := 0
		if x.mapOrder && len(it.rest) > 1 {
			pick = x.chooseFork("maporder", len(it.rest))
		} else if x.mapReverse {
			pick = len(it.rest) - 1
		}
		e := it.rest[pick]
		it.rest = append(append([]*mapEntry(nil), it.rest[:pick]...), it.rest[pick+1:]...)
		return tup(mkBool(true), copyVal(e.K), copyVal(e.V))
	}
}

func zero0(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

func (x *Exec) strNext(it *strIter) Value {
	if s, ok := concStr(it.s); ok {
		if it.i >= len(s) {
			return tup(mkBool(false), Value{}, Value{})
		}
		for j, r := range s[it.i:] {
			_ = j
			k := it.i
			n := len(string(r))
			if r == 0xfffd {
				n = 1
				if len(s[it.i:]) >= 3 && s[it.i:it.i+3] == "\xef\xbf\xbd" {
					n = 3
				}
			}
			it.i += n
			return tup(mkBool(true), Value{N: uint64(k)}, Value{N: uint64(uint32(r))})
		}
	}
	b, ok := strBytes(it.s)
	if !ok {
		panic(unsupported("range over opaque string"))
	}
	if it.i >= len(b) {
		return tup(mkBool(false), Value{}, Value{})
	}
	c := termOf(b[it.i], 8)
	if !x.branch(Ult(c, BVC(0x80, 8))) {
		panic(unsupported("range over non-ASCII symbolic string"))
	}
	k := it.i
	it.i++
	return tup(mkBool(true), Value{N: uint64(k)}, fromTerm(ZExt(c, 32)))
}

// ---- builtins ----

func (fr *frame) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	x := fr.x
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return Value{N: uint64(strLen(args[0]))}
		case *types.Slice:
			return Value{N: uint64(len(sliceOf(args[0])))}
		case *types.Map:
			if args[0].R == nil {
				return Value{}
			}
			if p, ok := args[0].R.(*Poison); ok {
				panic(unsupported("poison: " + p.Why))
			}
			return Value{N: uint64(args[0].R.(*MapV).n)}
		case *types.Array:
			return Value{N: uint64(u.Len())}
		case *types.Pointer:
			return Value{N: uint64(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			if args[0].R == nil {
				return Value{}
			}
			return Value{N: uint64(len(args[0].R.(*ChanV).Buf))}
		}
	case "cap":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return Value{N: uint64(cap(sliceOf(args[0])))}
		case *types.Array:
			return Value{N: uint64(u.Len())}
		case *types.Pointer:
			return Value{N: uint64(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			return Value{N: uint64(args[0].R.(*ChanV).Cap)}
		}
	case "append":
		s := sliceOf(args[0])
		var add []Value
		if len(args) < 2 {
			return args[0]
		}
		if isStringT(cc.Args[1].Type()) {
			bb, ok := strBytes(args[1])
			if !ok {
				panic(unsupported("append opaque string"))
			}
			add = bb
		} else {
			add = sliceOf(args[1])
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		return x.appendVals(args[0], s, add, et)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if isStringT(cc.Args[1].Type()) {
			bb, ok := strBytes(args[1])
			if !ok {
				panic(unsupported("copy opaque string"))
			}
			src = bb
		} else {
			src = sliceOf(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			x.store(Value{R: &dst[i]}, tmp[i])
		}
		return Value{N: uint64(n)}
	case "delete":
		if args[0].R == nil {
			return Value{}
		}
		x.mapDelete(args[0].R.(*MapV), args[1])
		return Value{}
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return Value{}
	case "close":
		c := args[0].R.(*ChanV)
		if c.Closed {
			panic(x.rtPanic("close of closed channel"))
		}
		c.Closed = true
		return Value{}
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			lt := x.binop(token.LSS, t, t, a, r)
			if b.Name() == "max" {
				lt = x.binop(token.LSS, t, t, r, a)
			}
			if tt, ok := lt.R.(*Term); ok {
				w := width(t)
				r = fromTerm(Ite(tt, termOf(a, w), termOf(r, w)))
			} else if lt.N != 0 {
				r = a
			}
		}
		return r
	case "clear":
		switch c := args[0].R.(type) {
		case *MapV:
			for _, e := range c.E {
				e.deleted = true
			}
			c.E = nil
			c.n = 0
			c.nsym = 0
			c.idx = map[string]*mapEntry{}
		case *SliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range c.S {
				c.S[i] = zero(et)
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			panic(x.rtPanic("invalid memory address or nil pointer dereference (value method called with nil receiver)"))
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0]
		n := x.concInt(args[1])
		return bytesToStr(x.unsafeElems(p, n))
	case "StringData", "SliceData":
		panic(unsupported("unsafe." + b.Name()))
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) unsafeElems(p Value, n int) []Value {
	if n == 0 {
		return nil
	}
	panic(unsupported("unsafe.String"))
}

func (x *Exec) appendVals(orig Value, s, add []Value, et types.Type) Value {
	if len(add) == 0 {
		return orig
	}
	n := len(s) + len(add)
	cp := make([]Value, len(add))
	for i := range add {
		cp[i] = copyVal(add[i])
	}
	if n <= cap(s) {
		full := s[:n]
		for i := range cp {
			x.store(Value{R: &full[len(s)+i]}, cp[i])
		}
		return Value{R: &SliceV{S: full}}
	}
	nc := growCap(cap(s), n, sizeOf(et))
	ns := make([]Value, n, nc)
	for i := range s {
		ns[i] = copyVal(s[i])
	}
	copy(ns[len(s):], cp)
	if b, ok := et.Underlying().(*types.Basic); !(ok && b.Info()&types.IsString == 0) {
		ext := ns[:nc]
		for i := n; i < nc; i++ {
			ext[i] = zero(et)
		}
	}
	return Value{R: &SliceV{S: ns}}
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) int { return int(stdSizes.Sizeof(t)) }

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return nc
	}
	return roundupsize(nc*esz) / esz
}

func (fr *frame) doRecover() Value {
	// fr is the frame of the deferred function calling recover; its caller is panicking
	c := fr.caller
	if c != nil && c.paniking {
		c.paniking = false
		p := c.panicked
		c.panicked = nil
		if p.v.R == nil {
			return Value{R: &Iface{T: types.Typ[types.String], V: strV("nil panic")}}
		}
		return p.v
	}
	return Value{}
}

// ---- channels / goroutines (sequential) ----

func (x *Exec) spawn(fr *frame, f Value, args []Value) {
	x.goq = append(x.goq, func() { x.callValue(fr, f, args) })
	x.drainGo()
}

func (x *Exec) drainGo() {
	if x.inGo {
		return
	}
	x.inGo = true
	for len(x.goq) > 0 {
		g := x.goq[0]
		x.goq = x.goq[1:]
		x.runGo(g)
	}
	x.inGo = false
}

// parked is what ends a goroutine that has nothing to do anymore (select {}).
type parked struct{}

func (x *Exec) runGo(g func()) {
	depth := len(x.stack)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(parked); !ok {
				panic(r)
			}
			x.stack = x.stack[:depth]
		}
	}()
	g()
}

func (x *Exec) chanSend(c, v Value) {
	ch, ok := c.R.(*ChanV)
	if !ok {
		panic(unsupported("send on nil chan"))
	}
	if ch.Closed {
		panic(x.rtPanic("send on closed channel"))
	}
	if ch.Cap > 0 && len(ch.Buf) >= ch.Cap && x.noWait != "" {
		x.waits("")
	}
	ch.Buf = append(ch.Buf, copyVal(v))
}

// waits ends a path on which the code would wait forever: a violation if the harness says so.
func (x *Exec) waits(what string) {
	if x.noWait == "" {
		panic(unsupported(what))
	}
	x.doAssert(TFalse, x.noWait)
	panic(pathEnd{"assume", ""})
}

func (x *Exec) chanRecv(c Value, commaOk bool, et types.Type) Value {
	ch, ok := c.R.(*ChanV)
	if !ok {
		panic(unsupported("receive on nil chan"))
	}
	if len(ch.Buf) > 0 {
		v := ch.Buf[0]
		ch.Buf = ch.Buf[1:]
		if commaOk {
			return tup(v, mkBool(true))
		}
		return v
	}
	if ch.Closed {
		if commaOk {
			return tup(zero(et), mkBool(false))
		}
		return zero(et)
	}
	x.waits("blocking channel receive")
	return Value{}
}

func (x *Exec) doSelect(fr *frame, in *ssa.Select, ci *cinstr) Value {
	if len(in.States) == 0 && in.Blocking && x.inGo {
		panic(parked{})
	}
	// choose the first ready case
	nres := 2
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			nres++
		}
	}
	res := make([]Value, nres)
	ri := 2
	chosen := -1
	for i, st := range in.States {
		c := fr.get(&ci.ops[2*i])
		ch, _ := c.R.(*ChanV)
		if st.Dir == types.RecvOnly {
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			res[ri] = zero(et)
			if chosen < 0 && ch != nil && (len(ch.Buf) > 0 || ch.Closed) {
				chosen = i
				if len(ch.Buf) > 0 {
					res[ri] = ch.Buf[0]
					ch.Buf = ch.Buf[1:]
					res[1] = mkBool(true)
				}
			}
			ri++
		} else if chosen < 0 && ch != nil && (len(ch.Buf) < ch.Cap || ch.Cap == 0) {
			chosen = i
			ch.Buf = append(ch.Buf, fr.get(&ci.ops[2*i+1]))
		}
	}
	if chosen < 0 && in.Blocking {
		x.waits("blocking select")
	}
	res[0] = Value{N: uint64(int64(chosen))}
	return Value{R: &Agg{E: res}}
}

func (x *Exec) concInt(v Value) int {
	if v.R == nil {
		return int(int64(v.N))
	}
	return int(int64(x.concretize(termOf(v, 64))))
}

func (x *Exec) sizeInt(v Value, msg string) int {
	if v.R == nil {
		return int(int64(v.N))
	}
	t, ok := v.R.(*Term)
	if !ok {
		panic(unsupported("size"))
	}
	if t.W < 64 {
		t = ZExt(t, 64)
	}
	if !x.branch(Ule(t, BVC(uint64(x.eng.maxAlloc), 64))) {
		// either a huge allocation or a negative size
		if x.branch(Ult(BVC(1<<47, 64), t)) {
			panic(x.rtPanic(msg))
		}
		panic(pathEnd{"bound", "allocation size"})
	}
	return int(int64(x.concretize(t)))
}

var _ = math.MaxInt64
