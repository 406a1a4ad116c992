// Package verifsym is the harness interface of the symbolic executor. The functions below are the
// native implementation used when a solver model is replayed against the real code; the symbolic
// executor intercepts every call.
package verifsym

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
)

type stop struct{ reason string }

// Case is one replay.
type Case struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat"`
	Tier    int               `json:"tier"`
}

// Result of one replay.
type Result struct {
	ID    int      `json:"id"`
	End   string   `json:"end"` // ok, assume, fail, panic
	Label string   `json:"label"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

var (
	inputs map[string]string
	names  map[string]int
	trace  []string
	tier   int
)

// RunCases replays all cases of a file.
func RunCases(reg map[string]func(), in, out string) error {
	data, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	var cases []Case
	if err := json.Unmarshal(data, &cases); err != nil {
		return err
	}
	f, err := os.Create(out)
	if err != nil {
		return err
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	for _, c := range cases {
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var r Result
		for i := 0; i < n; i++ {
			r = runCase(reg[c.Harness], c)
			if r.End == "fail" || r.End == "panic" {
				break
			}
		}
		if err := enc.Encode(r); err != nil {
			return err
		}
	}
	return nil
}

func runCase(h func(), c Case) (res Result) {
	inputs = c.Inputs
	tier = c.Tier
	names = map[string]int{}
	trace = nil
	res.ID = c.ID
	res.End = "ok"
	defer func() {
		res.Trace = trace
		r := recover()
		if r == nil {
			return
		}
		if s, ok := r.(stop); ok {
			if s.reason == "assume" {
				res.End = "assume"
			} else {
				res.End = "fail"
				res.Label = s.reason
			}
			return
		}
		res.End = "panic"
		res.Label = "no-panic"
		res.Msg = fmt.Sprint(r)
	}()
	if h == nil {
		panic("unknown harness " + c.Harness)
	}
	h()
	return
}

func get(name string) *big.Int {
	k := names[name]
	names[name]++
	s, ok := inputs[fmt.Sprintf("%s#%d", name, k)]
	if !ok {
		return new(big.Int)
	}
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad input " + s)
	}
	return v
}

func U8(name string) uint8   { return uint8(get(name).Uint64()) }
func U16(name string) uint16 { return uint16(get(name).Uint64()) }
func U32(name string) uint32 { return uint32(get(name).Uint64()) }
func U64(name string) uint64 { return get(name).Uint64() }
func Int(name string) int    { return int(get(name).Uint64()) }
func I64(name string) int64  { return int64(get(name).Uint64()) }
func Bool(name string) bool  { return get(name).Uint64()&1 == 1 }

func Bytes(name string, n int) []byte {
	v := get(name)
	b := make([]byte, n)
	return v.FillBytes(b)
}

// Choose picks a concrete value in [lo,hi]; the executor forks over all of them.
func Choose(name string, lo, hi int) int {
	if lo > hi {
		panic(stop{"assume"})
	}
	return int(get(name).Uint64())
}

// Big returns an arbitrary non-negative integer of at most n bits.
func Big(name string, n int) *big.Int { return get(name) }

// Fq returns an arbitrary element of the field of prime order q.
func Fq(name string, q *big.Int) *big.Int { return get(name) }

type inputReader struct{}

func (inputReader) Read(b []byte) (int, error) {
	get("rand").FillBytes(b)
	return len(b), nil
}

// UseRand makes random field elements drawn by the code under test inputs.
func UseRand() { rand.Reader = inputReader{} }

func Assume(b bool) {
	if !b {
		panic(stop{"assume"})
	}
}

func Assert(b bool, label string) {
	if !b {
		panic(stop{label})
	}
	trace = append(trace, "assert "+label)
}

func Reach(label string)             { trace = append(trace, "reach "+label) }
func Observe(label string, v uint64) { trace = append(trace, fmt.Sprintf("obs %s=%d", label, v)) }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int          { return tier }
func Symbolic() bool     { return false }
func Fork(b bool) bool   { return b }
func MapOrder(on bool)   {}
func MapReverse(on bool) {}

// NoWait: from now on code waiting for something forever violates label ("" turns it off). The
// harness has to limit the time natively.
func NoWait(label string) {}

func DeepEq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func B2I(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var secp256k1N, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// HighS turns a secp256k1 signature made by crypto.Sign into the other one that recovers to the same
// signer, whose s is in the upper half.
func HighS(sig []byte) []byte {
	r := append([]byte{}, sig...)
	s := new(big.Int).Sub(secp256k1N, new(big.Int).SetBytes(sig[32:64])).Bytes()
	copy(r[32:64], make([]byte, 32))
	copy(r[64-len(s):64], s)
	r[64] ^= 1
	return r
}
