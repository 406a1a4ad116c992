package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hexDigits = "0123456789abcdef"
const hexDigitsAll = "0123456789abcdefABCDEF"

func b64of(name string) *base64.Encoding {
	switch name {
	case "b64rawurl":
		return base64.RawURLEncoding
	case "b64rawstd":
		return base64.RawStdEncoding
	case "b64url":
		return base64.URLEncoding
	}
	return base64.StdEncoding
}

func init() {
	// text encodings
	regApp(&appFn{name: "hex", inject: true, alphabet: hexDigits,
		eval: func(in []byte, n int) []byte { return []byte(hex.EncodeToString(in)) },
		invert: func(out []byte) ([]byte, bool) {
			b, err := hex.DecodeString(string(out))
			return b, err == nil
		}})
	regApp(&appFn{name: "checksum", inject: true, alphabet: hexDigitsAll,
		eval: func(in []byte, n int) []byte { return checksumHex(in) },
		invert: func(out []byte) ([]byte, bool) {
			b, err := hex.DecodeString(string(out))
			return b, err == nil && string(checksumHex(b)) == string(out)
		}})
	for _, n := range []string{"b64rawurl", "b64rawstd", "b64url", "b64std"} {
		enc := b64of(n)
		al := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
		if strings.HasSuffix(n, "url") {
			al += "-_"
		} else {
			al += "+/"
		}
		if !strings.HasPrefix(n, "b64raw") {
			al += "="
		}
		regApp(&appFn{name: n, inject: true, alphabet: al,
			eval: func(in []byte, m int) []byte { return []byte(enc.EncodeToString(in)) },
			invert: func(out []byte) ([]byte, bool) {
				b, err := enc.DecodeString(string(out))
				return b, err == nil
			}})
	}
	// decimal numbers: zero padded to 20 characters (the real text has no padding)
	dec := func(signed bool, base int) *appFn {
		return &appFn{inject: true, alphabet: "-0123456789abcdefghijklmnopqrstuvwxyz",
			eval: func(in []byte, n int) []byte {
				v := new(big.Int).SetBytes(in).Uint64()
				s := strconv.FormatUint(v, base)
				if signed {
					s = strconv.FormatInt(int64(v), base)
				}
				return []byte(strings.Repeat("0", n-len(s)) + s)
			},
			invert: func(out []byte) ([]byte, bool) { return nil, false }}
	}
	for _, b := range []int{10, 16, 36} {
		for _, s := range []bool{false, true} {
			f := dec(s, b)
			f.name = "num_u" + strconv.Itoa(b)
			if s {
				f.name = "num_i" + strconv.Itoa(b)
			}
			regApp(f)
		}
	}
	// hashes
	for _, r := range []int{136, 72, 104, 144, 168} {
		for _, ds := range []byte{1, 6, 0x1f} {
			r, ds := r, ds
			regApp(&appFn{name: fmt.Sprintf("keccak_%d_%d", r, ds), inject: true, family: "hash", invert: hashInvert(fmt.Sprintf("keccak_%d_%d", r, ds)),
				eval: func(in []byte, n int) []byte { return keccakSum(in, r, ds, n) }})
		}
	}
	regApp(&appFn{name: "sha256", inject: true, family: "hash", invert: hashInvert("sha256"), eval: func(in []byte, n int) []byte { h := sha256.Sum256(in); return h[:] }})
	junk := func(tag string) func(in []byte, n int) []byte {
		return func(in []byte, n int) []byte { return keccakSum(append([]byte(tag), in...), 136, 0x1f, n) }
	}
	// ideal primitives: outputs are recognised structurally
	for _, n := range []string{"ecsign", "ecsignhigh", "blob", "ecies", "edsign", "edpub"} {
		regApp(&appFn{name: n, keep: true, inject: true, family: n, eval: junk(n)})
	}

	initHash()
	initText()
	initCurve()
}

func checksumHex(addr []byte) []byte {
	buf := []byte(hex.EncodeToString(addr))
	h := keccakSum(buf, 136, 1, 32)
	for i := range buf {
		hb := h[i/2]
		if i%2 == 0 {
			hb >>= 4
		} else {
			hb &= 0xf
		}
		if buf[i] > '9' && hb > 7 {
			buf[i] -= 32
		}
	}
	return buf
}

// hashBytes applies a hash function to possibly symbolic bytes.
func hashBytes(name string, in []Value, outN int) []Value {
	if b, ok := concBytes(in); ok {
		return sliceOf(bytesV(evalApp(appFns[name], b, outN)))
	}
	return splitBytes(App(name, joinBytes(in), outN))
}

type spongeState struct {
	ptr  *Value
	data []Value
	out  []Value
	spos int
	read bool
}

func (x *Exec) sponge(v Value) *spongeState {
	p, ok := v.R.(*Value)
	if !ok {
		panic(x.rtPanic("nil pointer dereference"))
	}
	m, _ := x.side["sponge"].(map[*Value]*spongeState)
	if m == nil {
		m = map[*Value]*spongeState{}
		x.side["sponge"] = m
	}
	s := m[p]
	if s == nil {
		s = &spongeState{ptr: p}
		m[p] = s
	}
	return s
}

func spongeName(p *Value) (string, int) {
	// struct {a, buf, rate, dsbyte, storage, outputLen, state}
	ag := p.R.(*Agg)
	return fmt.Sprintf("keccak_%d_%d", ag.E[2].N, ag.E[3].N), int(ag.E[5].N)
}

func initHash() {
	for _, pk := range []string{"golang.org/x/crypto/sha3"} {
		t := "(*" + pk + ".state)."
		reg(t+"Write", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			s := x.sponge(a[0])
			if s.read {
				panic(x.rtPanic("sha3: write to sponge after read"))
			}
			b := sliceOf(a[1])
			s.data = append(s.data[:len(s.data):len(s.data)], b...)
			return tup(Value{N: uint64(len(b))}, Value{})
		})
		reg(t+"Reset", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			s := x.sponge(a[0])
			*s = spongeState{ptr: s.ptr}
			return Value{}
		})
		reg(t+"Sum", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			s := x.sponge(a[0])
			n, l := spongeName(s.ptr)
			return x.appendVals(a[1], sliceOf(a[1]), hashBytes(n, s.data, l), u8Type)
		})
		reg(t+"Read", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			s := x.sponge(a[0])
			n, _ := spongeName(s.ptr)
			d := sliceOf(a[1])
			s.read = true
			if _, ok := concBytes(s.data); !ok && s.spos > 0 {
				panic(unsupported("second read of symbolic sponge"))
			}
			h := hashBytes(n, s.data, s.spos+len(d))
			for i := range d {
				x.store(Value{R: &d[i]}, h[s.spos+i])
			}
			s.spos += len(d)
			return tup(Value{N: uint64(len(d))}, Value{})
		})
	}
	for _, t := range []string{"(*crypto/internal/fips140/sha256.Digest).", "(*crypto/sha256.digest)."} {
		reg(t+"Write", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			s := x.sponge(a[0])
			b := sliceOf(a[1])
			s.data = append(s.data[:len(s.data):len(s.data)], b...)
			return tup(Value{N: uint64(len(b))}, Value{})
		})
		reg(t+"Reset", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			if ag, ok := a[0].R.(*Value).R.(*Agg); ok && ag.E[4].N != 0 {
				panic(unsupported("sha224"))
			}
			s := x.sponge(a[0])
			*s = spongeState{ptr: s.ptr}
			return Value{}
		})
		reg(t+"Sum", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
			return x.appendVals(a[1], sliceOf(a[1]), hashBytes("sha256", x.sponge(a[0]).data, 32), u8Type)
		})
	}
	reg("crypto/sha256.Sum256", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return Value{R: &Agg{E: hashBytes("sha256", sliceOf(a[0]), 32)}}
	})
}

// encPair decodes one pair of hexadecimal characters.
func (x *Exec) hexPair(c1, c2 Value) (Value, bool) {
	t := Concat(termOf(c1, 8), termOf(c2, 8))
	if t.Op == OConst {
		b, err := hex.DecodeString(string([]byte{byte(t.U >> 8), byte(t.U)}))
		if err != nil {
			return Value{}, false
		}
		return Value{N: uint64(b[0])}, true
	}
	if t.Op == OExtract && t.A[0].Op == OApp && (t.A[0].Name == "hex" || t.A[0].Name == "checksum") && t.U%16 == 0 {
		return fromTerm(Extract(t.A[0].A[0], int(t.U/2)+7, int(t.U/2))), true
	}
	if t.Op == OApp && t.Name == "hex" {
		return fromTerm(t.A[0]), true
	}
	var nib [2]*Term
	for i, v := range []Value{c1, c2} {
		c := termOf(v, 8)
		dg := And(Ule(BVC('0', 8), c), Ule(c, BVC('9', 8)))
		lo := And(Ule(BVC('a', 8), c), Ule(c, BVC('f', 8)))
		up := And(Ule(BVC('A', 8), c), Ule(c, BVC('F', 8)))
		if !x.branch(Or(dg, lo, up)) {
			return Value{}, false
		}
		nib[i] = Ite(dg, bin(OSub, c, BVC('0', 8)), Ite(lo, bin(OSub, c, BVC('a'-10, 8)), bin(OSub, c, BVC('A'-10, 8))))
	}
	return fromTerm(bin(OBOr, bin(OShl, nib[0], BVC(4, 8)), nib[1])), true
}

// hexErr builds the error of encoding/hex.
func (x *Exec) hexErr(odd bool) Value {
	if odd {
		return x.load(Value{R: x.global(x.eng.prog.byPath["encoding/hex"].Var("ErrLength"))}, nil)
	}
	return x.newErr(x.opaque("hex invalid byte"))
}

func hexEncode(src []Value) []Value {
	if len(src) == 0 {
		return nil
	}
	if b, ok := concBytes(src); ok {
		return sliceOf(bytesV([]byte(hex.EncodeToString(b))))
	}
	return splitBytes(App("hex", joinBytes(src), 2*len(src)))
}

func b64Name(x *Exec, v Value) string {
	p, ok := v.R.(*Value)
	if !ok {
		panic(x.rtPanic("nil pointer dereference"))
	}
	p64 := x.eng.prog.byPath["encoding/base64"]
	for g, n := range map[string]string{"RawURLEncoding": "b64rawurl", "RawStdEncoding": "b64rawstd", "URLEncoding": "b64url", "StdEncoding": "b64std"} {
		c := x.global(p64.Var(g))
		if c.R == any(p) {
			return n
		}
	}
	panic(unsupported("unknown base64 encoding"))
}

func (x *Exec) b64Decode(name string, src []Value) ([]Value, Value) {
	enc := b64of(name)
	if b, ok := concBytes(src); ok {
		d, err := enc.DecodeString(string(b))
		if err != nil {
			return sliceOf(bytesV(d)), x.mkError(err.Error())
		}
		return sliceOf(bytesV(d)), Value{}
	}
	t := joinBytes(src)
	if t.Op == OApp && t.Name == name {
		return splitBytes(t.A[0]), Value{}
	}
	if !strings.HasPrefix(name, "b64raw") {
		panic(unsupported("base64 decode of symbolic padded text"))
	}
	// arbitrary characters: exact decoding
	al := appFns[name].alphabet
	for _, v := range src {
		if v.R == nil && v.N != 10 && v.N != 13 && strings.IndexByte(al, byte(v.N)) < 0 {
			return nil, x.newErr(x.opaque("illegal base64 data"))
		}
	}
	var bits *Term
	for _, v := range src {
		c := termOf(v, 8)
		var ok *Term = TFalse
		val := BVC(0, 6)
		for i := 0; i < 64; i++ {
			e := Eq(c, BVC(uint64(al[i]), 8))
			ok = Or(ok, e)
			val = Ite(e, BVC(uint64(i), 6), val)
		}
		if !x.branch(ok) {
			return nil, x.newErr(x.opaque("illegal base64 data"))
		}
		if bits == nil {
			bits = val
		} else {
			bits = Concat(bits, val)
		}
	}
	if len(src)%4 == 1 {
		return nil, x.newErr(x.opaque("illegal base64 data"))
	}
	n := len(src) * 6 / 8
	return splitBytes(Extract(bits, bits.W-1, bits.W-8*n)), Value{}
}

func isHexString(b []Value) bool {
	for i := range b {
		if b[i].R == nil {
			if strings.IndexByte(hexDigitsAll, byte(b[i].N)) < 0 {
				return false
			}
			continue
		}
		al := alphabetOf(b[i].R.(*Term))
		if al == "" || strings.Trim(al, hexDigitsAll) != "" {
			return false
		}
	}
	return true
}

func initText() {
	reg("encoding/hex.EncodeToString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return bytesToStr(hexEncode(sliceOf(a[0])))
	})
	reg("encoding/hex.Encode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		d, h := sliceOf(a[0]), hexEncode(sliceOf(a[1]))
		if len(d) < len(h) {
			panic(x.rtPanic("index out of range in hex.Encode"))
		}
		for i := range h {
			x.store(Value{R: &d[i]}, h[i])
		}
		return Value{N: uint64(len(h))}
	})
	decode := func(x *Exec, src []Value) ([]Value, Value) {
		var out []Value
		for i := 0; i+1 < len(src); i += 2 {
			v, ok := x.hexPair(src[i], src[i+1])
			if !ok {
				return out, x.hexErr(false)
			}
			out = append(out, v)
		}
		if len(src)%2 == 1 {
			// an invalid last character takes precedence, both are errors
			return out, x.hexErr(true)
		}
		return out, Value{}
	}
	reg("encoding/hex.DecodeString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := strBytes(a[0])
		if !ok {
			panic(unsupported("hex of opaque string"))
		}
		o, e := decode(x, b)
		if o == nil {
			o = []Value{}
		}
		return tup(Value{R: &SliceV{S: o}}, e)
	})
	reg("encoding/hex.Decode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		o, e := decode(x, sliceOf(a[1]))
		d := sliceOf(a[0])
		if len(d) < len(o) {
			panic(x.rtPanic("index out of range in hex.Decode"))
		}
		for i := range o {
			x.store(Value{R: &d[i]}, o[i])
		}
		return tup(Value{N: uint64(len(o))}, e)
	})
	b64enc := func(name string, src []Value) []Value {
		if len(src) == 0 {
			return nil
		}
		enc := b64of(name)
		if b, ok := concBytes(src); ok {
			return sliceOf(bytesV([]byte(enc.EncodeToString(b))))
		}
		return splitBytes(App(name, joinBytes(src), enc.EncodedLen(len(src))))
	}
	reg("(*encoding/base64.Encoding).EncodeToString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		return bytesToStr(b64enc(b64Name(x, a[0]), sliceOf(a[1])))
	})
	reg("(*encoding/base64.Encoding).Encode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		d, h := sliceOf(a[1]), b64enc(b64Name(x, a[0]), sliceOf(a[2]))
		if len(d) < len(h) {
			panic(x.rtPanic("index out of range in base64.Encode"))
		}
		for i := range h {
			x.store(Value{R: &d[i]}, h[i])
		}
		return Value{}
	})
	reg("(*encoding/base64.Encoding).Decode", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		o, e := x.b64Decode(b64Name(x, a[0]), sliceOf(a[2]))
		d := sliceOf(a[1])
		if len(d) < len(o) {
			panic(x.rtPanic("index out of range in base64.Decode"))
		}
		for i := range o {
			x.store(Value{R: &d[i]}, o[i])
		}
		return tup(Value{N: uint64(len(o))}, e)
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := strBytes(a[1])
		if !ok {
			panic(unsupported("base64 of opaque string"))
		}
		o, e := x.b64Decode(b64Name(x, a[0]), b)
		if o == nil {
			o = []Value{}
		}
		return tup(Value{R: &SliceV{S: o}}, e)
	})
	// --- addresses ---
	cm := "github.com/ethereum/go-ethereum/common."
	reg("(*github.com/ethereum/go-ethereum/common.Address).checksumHex", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		b := x.load(a[0], nil).R.(*Agg).E
		out := append([]Value{{N: '0'}, {N: 'x'}}, splitBytes(App("checksum", joinBytes(b), 40))...)
		return Value{R: &SliceV{S: out}}
	})
	reg(cm+"isHex", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		b, ok := strBytes(a[0])
		if ok && len(b)%2 == 0 && isHexString(b) {
			return mkBool(true)
		}
		return x.callBody(fr, fn, a)
	})
	reg(cm+"isHexCharacter", func(x *Exec, fr *frame, fn *ssa.Function, a []Value) Value {
		if isHexString(a) {
			return mkBool(true)
		}
		c := termOf(a[0], 8)
		return fromTerm(Or(And(Ule(BVC('0', 8), c), Ule(c, BVC('9', 8))), And(Ule(BVC('a', 8), c), Ule(c, BVC('f', 8))), And(Ule(BVC('A', 8), c), Ule(c, BVC('F', 8)))))
	})
	// --- unicode on concrete/ASCII handled by bodies ---
}
