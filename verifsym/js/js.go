// Package js stands in for syscall/js: the values a web page passes to the functions a module
// offers.
package js

import (
	"fmt"
	"sync"
)

// Kinds of values, besides typed arrays of bytes.
const (
	undefined = iota
	null
	boolean
	number
	text
	bytes // Uint8Array, Uint8ClampedArray
	object
	function
)

// Type is the type of a value.
type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

// Value is a value of the web page.
type Value struct {
	kind  int
	class string
	data  *[]byte
	n     int
	s     string
	props map[string]Value
	call  func(this Value, args []Value) interface{}
}

// Func is a function offered to the web page.
type Func struct {
	Value
}

// Error is what a thrown exception becomes.
type Error struct {
	Value
}

func (e Error) Error() string { return "JavaScript error: " + e.s }

// ValueError is what using a value in the wrong way panics with.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string { return "syscall/js: call of " + e.Method }

// mux guards the properties: a module starts on its own.
var mux sync.Mutex

var global = Value{kind: object, class: "global", props: map[string]Value{}}

// Reset makes a new web page.
func Reset() {
	mux.Lock()
	defer mux.Unlock()
	global.props = map[string]Value{}
	for _, c := range []string{"Uint8Array", "Uint8ClampedArray", "Uint16Array", "Int8Array", "Array", "Object", "ArrayBuffer", "String"} {
		global.props[c] = Value{kind: function, class: c}
	}
}

// Array is a typed array of bytes or an array of another class.
func Array(class string, b []byte) Value {
	if class == "Uint8Array" || class == "Uint8ClampedArray" {
		return Value{kind: bytes, class: class, data: &b, n: len(b)}
	}
	return Value{kind: object, class: class, n: len(b), props: map[string]Value{"length": Value{kind: number, n: len(b)}}}
}

// Offered is a function the module offers.
func Offered(name string) func(args ...Value) interface{} {
	mux.Lock()
	f, ok := global.props[name]
	mux.Unlock()
	if !ok || f.call == nil {
		return nil
	}
	return func(args ...Value) interface{} { return f.call(Undefined(), args) }
}

// Num is how many functions are offered.
func Num() int {
	mux.Lock()
	defer mux.Unlock()
	n := 0
	for _, v := range global.props {
		if v.call != nil {
			n++
		}
	}
	return n
}

func Undefined() Value { return Value{} }

func Null() Value { return Value{kind: null} }

func Global() Value {
	mux.Lock()
	defer mux.Unlock()
	return global
}

func FuncOf(fn func(this Value, args []Value) interface{}) Func {
	return Func{Value{kind: function, class: "Function", call: fn}}
}

func (f Func) Release() {}

func ValueOf(x interface{}) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	case nil:
		return Null()
	case bool:
		n := 0
		if x {
			n = 1
		}
		return Value{kind: boolean, n: n}
	case int:
		return Value{kind: number, n: x}
	case string:
		return Value{kind: text, s: x}
	}
	panic("ValueOf: invalid value")
}

func (v Value) Type() Type {
	switch v.kind {
	case undefined:
		return TypeUndefined
	case null:
		return TypeNull
	case boolean:
		return TypeBoolean
	case number:
		return TypeNumber
	case text:
		return TypeString
	case function:
		return TypeFunction
	}
	return TypeObject
}

func (v Value) IsUndefined() bool { return v.kind == undefined }

func (v Value) IsNull() bool { return v.kind == null }

func (v Value) isObject() bool { return v.kind == bytes || v.kind == object || v.kind == function }

func (v Value) InstanceOf(t Value) bool {
	if t.kind != function {
		panic(Error{Value{kind: object, s: "Right-hand side of 'instanceof' is not callable"}})
	}
	return v.isObject() && (v.class == t.class || t.class == "Object")
}

func (v Value) Get(name string) Value {
	if !v.isObject() {
		panic(&ValueError{"Value.Get", v.Type()})
	}
	if v.kind == bytes && (name == "length" || name == "byteLength") {
		return Value{kind: number, n: v.n}
	}
	mux.Lock()
	defer mux.Unlock()
	return v.props[name]
}

func (v Value) Set(name string, x interface{}) {
	if !v.isObject() {
		panic(&ValueError{"Value.Set", v.Type()})
	}
	mux.Lock()
	defer mux.Unlock()
	v.props[name] = ValueOf(x)
}

func (v Value) Int() int {
	if v.kind != number {
		panic(&ValueError{"Value.Int", v.Type()})
	}
	return v.n
}

func (v Value) Float() float64 { return float64(v.Int()) }

func (v Value) Bool() bool {
	if v.kind != boolean {
		panic(&ValueError{"Value.Bool", v.Type()})
	}
	return v.n == 1
}

func (v Value) Truthy() bool { return v.isObject() || v.n != 0 || v.s != "" }

func (v Value) Length() int {
	if !v.isObject() {
		panic(&ValueError{"Value.SetIndex", v.Type()})
	}
	return v.n
}

func (v Value) Index(i int) Value {
	if !v.isObject() {
		panic(&ValueError{"Value.Index", v.Type()})
	}
	if v.kind != bytes || i < 0 || i >= v.n {
		return Undefined()
	}
	return Value{kind: number, n: int((*v.data)[i])}
}

func (v Value) Equal(w Value) bool {
	return v.kind == w.kind && v.class == w.class && v.data == w.data && v.n == w.n && v.s == w.s
}

func (v Value) String() string {
	if v.kind == text {
		return v.s
	}
	return fmt.Sprintf("<%d: %s>", v.kind, v.class)
}

// CopyBytesToGo copies bytes of a typed array.
func CopyBytesToGo(dst []byte, src Value) int {
	if src.kind != bytes {
		panic("syscall/js: CopyBytesToGo: expected src to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(dst, *src.data)
}

// CopyBytesToJS copies bytes into a typed array.
func CopyBytesToJS(dst Value, src []byte) int {
	if dst.kind != bytes {
		panic("syscall/js: CopyBytesToJS: expected dst to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(*dst.data, src)
}
