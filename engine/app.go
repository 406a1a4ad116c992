package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
)

// Function applications: deterministic byte functions (hashes, text encodings, signatures) are kept
// as applications in the term language. They are evaluated with the real function under a model;
// in SMT queries they are uninterpreted functions refined with instances of the real function and of
// injectivity (collision freeness for hashes).

type appFn struct {
	name     string
	eval     func(in []byte, out int) []byte
	keep     bool   // never folded, even for constant arguments
	inject   bool   // injective
	family   string // outputs of different functions of one family (or argument widths) differ
	alphabet string // possible output bytes; "" for any
	invert   func(out []byte) ([]byte, bool)
}

var appFns = map[string]*appFn{}

func regApp(f *appFn) { appFns[f.name] = f }

func bigToBytes(k *big.Int, w int) []byte {
	return k.FillBytes(make([]byte, w/8))
}

// App applies function name to arg (width multiple of 8), giving outN bytes.
func App(name string, arg *Term, outN int) *Term {
	f := appFns[name]
	if arg.Op == OConst && !f.keep {
		return BVK(new(big.Int).SetBytes(evalApp(f, bigToBytes(arg.Big(), arg.W), outN)), 8*outN)
	}
	return mk(OApp, 8*outN, 0, nil, name, arg)
}

var appMemo sync.Map

// hashPre maps computed hashes to their inputs (collision and preimage resistance are assumed).
var hashPre sync.Map

func hashInvert(name string) func(out []byte) ([]byte, bool) {
	return func(out []byte) ([]byte, bool) {
		v, ok := hashPre.Load(name + "/" + string(out))
		if !ok {
			return nil, false
		}
		return v.([]byte), true
	}
}

// hashIs: the hash h equals v modulo q.
func hashIs(h *Term, v, q *big.Int) *Term {
	res, arg := TFalse, h.A[0]
	hashPre.Range(func(k, in any) bool {
		out, ok := strings.CutPrefix(k.(string), h.Name+"/")
		if ok && len(out)*8 == h.W && new(big.Int).Mod(new(big.Int).SetBytes([]byte(out)), q).Cmp(v) == 0 {
			if b := in.([]byte); len(b)*8 == arg.W {
				res = Eq(arg, BVK(new(big.Int).SetBytes(b), arg.W))
			}
			return false
		}
		return true
	})
	return res
}

func evalApp(f *appFn, in []byte, outN int) []byte {
	key := fmt.Sprintf("%s/%d/%s", f.name, outN, in)
	if v, ok := appMemo.Load(key); ok {
		return v.([]byte)
	}
	r := f.eval(in, outN)
	if len(r) != outN {
		panic(fmt.Sprintf("app %s: %d bytes instead of %d", f.name, len(r), outN))
	}
	appMemo.Store(key, r)
	if f.family == "hash" {
		hashPre.Store(f.name+"/"+string(r), append([]byte(nil), in...))
	}
	return r
}

// eqApp folds equations over applications; nil when nothing applies.
func eqApp(a, b *Term) *Term {
	if a.Op == OApp && b.Op == OApp {
		fa, fb := appFns[a.Name], appFns[b.Name]
		if a.Name == b.Name && a.A[0].W == b.A[0].W && fa.inject {
			return Eq(a.A[0], b.A[0])
		}
		if fa.family != "" && fa.family == fb.family && (a.Name != b.Name || a.A[0].W != b.A[0].W) {
			return TFalse
		}
		return nil
	}
	if a.Op == OApp && b.Op == OConst {
		f := appFns[a.Name]
		out := bigToBytes(b.Big(), b.W)
		if f.alphabet != "" {
			for _, c := range out {
				if strings.IndexByte(f.alphabet, c) < 0 {
					return TFalse
				}
			}
		}
		if f.invert != nil {
			in, ok := f.invert(out)
			if !ok || len(in)*8 != a.A[0].W {
				return TFalse
			}
			return Eq(a.A[0], BVK(new(big.Int).SetBytes(in), a.A[0].W))
		}
		return nil
	}
	if a.Op == OExtract && b.Op == OExtract && a.A[0].Op == OApp && b.A[0].Op == OApp && a.U == b.U && a.W >= 64 {
		return eqApp(a.A[0], b.A[0])
	}
	if a.Op == OExtract && a.A[0].Op == OApp && b.Op == OConst && a.W%8 == 0 && a.U%8 == 0 {
		if al := appFns[a.A[0].Name].alphabet; al != "" {
			for _, c := range bigToBytes(b.Big(), b.W) {
				if strings.IndexByte(al, c) < 0 {
					return TFalse
				}
			}
		}
	}
	return nil
}

// alphabetOf returns the possible values of a byte cut from an encoding.
func alphabetOf(t *Term) string {
	if t.W == 8 && t.Op == OExtract && t.U%8 == 0 && t.A[0].Op == OApp {
		return appFns[t.A[0].Name].alphabet
	}
	if t.W == 8 && t.Op == OApp {
		return appFns[t.Name].alphabet
	}
	return ""
}

// cmpApp folds comparisons of an encoded character with a constant.
func cmpApp(op Op, a, b *Term) *Term {
	t, c, swap := a, b, false
	if a.Op == OConst {
		t, c, swap = b, a, true
	}
	al := alphabetOf(t)
	if al == "" || c.Op != OConst {
		return nil
	}
	n := 0
	for i := 0; i < len(al); i++ {
		x, y := uint64(al[i]), c.U
		if swap {
			x, y = y, x
		}
		if cmpFold(op, x, y, 8) {
			n++
		}
	}
	if n == 0 {
		return TFalse
	}
	if n == len(al) {
		return TTrue
	}
	return nil
}

// collectApps returns the applications occurring in cs, innermost first.
func collectApps(cs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.A {
			walk(a)
		}
		if t.Op == OApp {
			out = append(out, t)
		}
	}
	for _, c := range cs {
		walk(c)
	}
	return out
}

// hasApp reports (cached per query) whether applications occur.
func appLemma(p *smtPrinter, t *Term, e *evaluator) string {
	f := appFns[t.Name]
	in := e.eval(t.A[0]).Big()
	out := evalApp(f, bigToBytes(in, t.A[0].W), t.W/8)
	return fmt.Sprintf("(assert (= (%s %s) %s))\n", appSym(t), smtConst(BVK(in, t.A[0].W)), smtConst(BVK(new(big.Int).SetBytes(out), t.W)))
}

func appSym(t *Term) string {
	return fmt.Sprintf("f_%s_%d_%d", strings.ReplaceAll(t.Name, "/", "_"), t.A[0].W, t.W)
}

// injLemmas states injectivity for all pairs of applications of one function.
func injLemmas(p *smtPrinter, apps []*Term) string {
	var sb strings.Builder
	for i, a := range apps {
		f := appFns[a.Name]
		if !f.inject {
			continue
		}
		for _, b := range apps[:i] {
			if b.Name == a.Name && b.A[0].W == a.A[0].W && b.W == a.W {
				fmt.Fprintf(&sb, "(assert (=> (= %s %s) (= %s %s)))\n", p.ref(a), p.ref(b), p.ref(a.A[0]), p.ref(b.A[0]))
			} else if b.W == a.W && f.family != "" && f.family == appFns[b.Name].family {
				fmt.Fprintf(&sb, "(assert (not (= %s %s)))\n", p.ref(a), p.ref(b))
			}
		}
	}
	return sb.String()
}
