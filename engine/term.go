package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Op is a term operator.
type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZExt
	OSExt
	OIAdd
	OIMul
	OINeg
	OIDiv
	OIMod
	OILt
	OILe
	OBV2Int
	OInt2BV
	OApp
)

const (
	WBool = 0
	WInt  = -1
)

// Term is a hash-consed SMT term. W: 0 bool, -1 int, >0 bit-vector width.
type Term struct {
	ID   uint32
	Op   Op
	W    int
	A    []*Term
	U    uint64   // constant (bool / bv<=64), extract lo
	K    *big.Int // constant int or bv>64
	Name string
	vars []*Term // sorted by ID; computed lazily
	vok  atomic.Bool
}

type tkey struct {
	op      Op
	w       int
	a, b, c uint32
	u       uint64
	s       string
}

type shard struct {
	mu sync.Mutex
	m  map[tkey]*Term
}

var shards [64]shard
var nextID atomic.Uint32

func init() {
	for i := range shards {
		shards[i].m = map[tkey]*Term{}
	}
}

func mk(op Op, w int, u uint64, k *big.Int, name string, a ...*Term) *Term {
	key := tkey{op: op, w: w, u: u, s: name}
	if k != nil {
		key.s = k.Text(62)
	}
	if len(a) > 0 {
		key.a = a[0].ID
	}
	if len(a) > 1 {
		key.b = a[1].ID
	}
	if len(a) > 2 {
		key.c = a[2].ID
	}
	if len(a) > 3 {
		var sb strings.Builder
		for _, x := range a[3:] {
			fmt.Fprintf(&sb, "%d,", x.ID)
		}
		key.s = sb.String()
	}
	h := (uint32(op)*31+uint32(w))*31 + key.a*2654435761 + key.b*40503 + key.c*97 + uint32(u) + uint32(len(key.s))
	for i := 0; i < len(key.s) && i < 24; i++ {
		h = h*16777619 ^ uint32(key.s[i])
	}
	sh := &shards[(h>>3)&63]
	sh.mu.Lock()
	t, ok := sh.m[key]
	if !ok {
		t = &Term{ID: nextID.Add(1), Op: op, W: w, A: append([]*Term(nil), a...), U: u, K: k, Name: name}
		sh.m[key] = t
	}
	sh.mu.Unlock()
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var TTrue, TFalse *Term

func init() {
	TTrue = mk(OConst, WBool, 1, nil, "")
	TFalse = mk(OConst, WBool, 0, nil, "")
}

func TBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Var(name string, w int) *Term { return mk(OVar, w, 0, nil, name) }

func BVC(u uint64, w int) *Term {
	if w > 64 {
		return BVK(new(big.Int).SetUint64(u), w)
	}
	return mk(OConst, w, u&mask(w), nil, "")
}

func BVK(k *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	k = new(big.Int).Mod(k, m)
	if w <= 64 {
		return mk(OConst, w, k.Uint64(), nil, "")
	}
	return mk(OConst, w, 0, k, "")
}

func IntC(k *big.Int) *Term { return mk(OConst, WInt, 0, new(big.Int).Set(k), "") }
func IntI(i int64) *Term    { return IntC(big.NewInt(i)) }

func (t *Term) IsConst() bool { return t.Op == OConst }

// Big returns the unsigned value of a constant.
func (t *Term) Big() *big.Int {
	if t.K != nil {
		return t.K
	}
	return new(big.Int).SetUint64(t.U)
}

func sext64(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func Not(a *Term) *Term {
	if a.Op == OConst {
		return TBool(a.U == 0)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	return mk(ONot, WBool, 0, nil, "", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[uint32]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == OConst {
			return a.U != 0
		}
		if a.Op == OAnd {
			for _, x := range a.A {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		if a.Op == ONot && seen[a.A[0].ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse
		}
	}
	for _, a := range out {
		if a.Op == ONot && seen[a.A[0].ID] {
			return TFalse
		}
	}
	if len(out) == 0 {
		return TTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(OAnd, WBool, 0, nil, "", out...)
}

func Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	return Not(And(ns...))
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.Op == OConst {
		if c.U != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == ONot {
		return Ite(c.A[0], b, a)
	}
	if a.W == WBool {
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == c {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.W, 0, nil, "", c, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst {
		return TFalse // hash-consed
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.W == WBool {
		if b.Op == OConst {
			if b.U != 0 {
				return a
			}
			return Not(a)
		}
		if Not(a) == b {
			return TFalse
		}
	}
	if b.Op == OConst {
		switch a.Op {
		case OIte:
			if b.W == 64 && b.U == 0 {
				if e, ok := sgnEq.Load(a); ok {
					return e.(*Term)
				}
			}
			if a.A[1].Op == OConst || a.A[2].Op == OConst {
				return Ite(a.A[0], Eq(a.A[1], b), Eq(a.A[2], b))
			}
		case OZExt:
			iw := a.A[0].W
			if a.W <= 64 {
				if b.U > mask(iw) {
					return TFalse
				}
				return Eq(a.A[0], BVC(b.U, iw))
			}
		case OAdd:
			if a.A[1].Op == OConst && a.W <= 64 {
				return Eq(a.A[0], BVC(b.U-a.A[1].U, a.W))
			}
		case OConcat:
			lw := a.A[1].W
			bb := b.Big()
			hi := new(big.Int).Rsh(bb, uint(lw))
			return And(Eq(a.A[0], BVK(hi, a.A[0].W)), Eq(a.A[1], BVK(bb, lw)))
		}
	}
	if a.Op == OConcat && b.Op == OConcat {
		if r := eqXor(a, b); r != nil {
			return r
		}
	}
	if a.Op == OConcat && b.Op == OConcat && a.A[0].W == b.A[0].W {
		return And(Eq(a.A[0], b.A[0]), Eq(a.A[1], b.A[1]))
	}
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
		return Eq(a.A[0], b.A[0])
	}
	if a.Op == OAdd && b.Op == OAdd && a.A[0] == b.A[0] {
		return Eq(a.A[1], b.A[1])
	}
	if r := eqApp(a, b); r != nil {
		return r
	}
	if a.Op == OInt2BV && (b.Op == OInt2BV || b.Op == OConst) {
		if n := knownWidth(a.A[0]); n >= 0 && n <= a.W {
			if b.Op == OConst {
				return IEq(a.A[0], IntC(b.Big()))
			}
			if n := knownWidth(b.A[0]); n >= 0 && n <= a.W {
				return IEq(a.A[0], b.A[0])
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, WBool, 0, nil, "", a, b)
}

func bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("bin op %d width mismatch %d %d", op, a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst && w <= 64 {
		return BVC(bvFold(op, a.U, b.U, w), w)
	}
	zero := func(t *Term) bool { return t.Op == OConst && t.Big().Sign() == 0 }
	one := func(t *Term) bool { return t.Op == OConst && t.K == nil && t.U == 1 }
	switch op {
	case OAdd:
		if a.Op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if b.Op == OConst && w <= 64 {
			if a.Op == OAdd && a.A[1].Op == OConst {
				return bin(OAdd, a.A[0], BVC(a.A[1].U+b.U, w))
			}
		}
		if a.Op == OAdd && a.A[1].Op == OConst && b.Op != OConst && w <= 64 {
			return bin(OAdd, bin(OAdd, a.A[0], b), a.A[1])
		}
		if b.Op == OAdd && b.A[1].Op == OConst && w <= 64 {
			return bin(OAdd, bin(OAdd, a, b.A[0]), b.A[1])
		}
		if b.Op != OConst && a.ID > b.ID {
			a, b = b, a
		}
	case OSub:
		if zero(b) {
			return a
		}
		if a == b {
			return BVC(0, w)
		}
		if b.Op == OConst && w <= 64 {
			return bin(OAdd, a, BVC(-b.U, w))
		}
	case OMul:
		if a.Op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if one(b) {
			return a
		}
	case OUDiv, OSDiv:
		if one(b) {
			return a
		}
	case OShl, OLShr, OAShr:
		if zero(b) {
			return a
		}
		if b.Op == OConst && w <= 64 && op != OAShr {
			s := int(b.U)
			if b.U >= uint64(w) {
				return BVC(0, w)
			}
			if op == OLShr {
				return ZExt(Extract(a, w-1, s), w)
			}
			if op == OShl {
				return Concat(Extract(a, w-1-s, 0), BVC(0, s))
			}
		}
	case OBAnd:
		if a.Op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if a == b {
			return a
		}
		if b.Op == OConst && w <= 64 {
			if b.U == mask(w) {
				return a
			}
			if b.U != 0 && b.U&(b.U+1) == 0 { // low mask
				n := bits.Len64(b.U)
				return ZExt(Extract(a, n-1, 0), w)
			}
		}
	case OBOr:
		if a.Op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if a == b {
			return a
		}
		// merging disjoint concat pieces: handled via orConcat
		if t := orConcat(a, b); t != nil {
			return t
		}
	case OBXor:
		if a.Op == OConst {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if a == b {
			return BVK(new(big.Int), w)
		}
		if b.Op == OBXor {
			a, b = b, a
		}
		if a.Op == OBXor {
			if a.A[0] == b {
				return a.A[1]
			}
			if a.A[1] == b {
				return a.A[0]
			}
			if a.A[1].Op == OConst && b.Op == OConst {
				return bin(OBXor, a.A[0], bin(OBXor, a.A[1], b))
			}
		}
		if b.Op != OConst && a.ID > b.ID {
			a, b = b, a
		}
	}
	return mk(op, w, 0, nil, "", a, b)
}

// pieces returns the (term or zero) pieces of a concat, msb first.
func pieces(t *Term) []*Term {
	switch t.Op {
	case OConcat:
		return append(pieces(t.A[0]), pieces(t.A[1])...)
	case OZExt:
		return append([]*Term{BVC(0, t.W-t.A[0].W)}, pieces(t.A[0])...)
	}
	return []*Term{t}
}

func orConcat(a, b *Term) *Term {
	if (a.Op != OConcat && a.Op != OZExt) || (b.Op != OConcat && b.Op != OZExt) || a.W > 64 {
		return nil
	}
	pa, pb := pieces(a), pieces(b)
	isz := func(t *Term) bool { return t.Op == OConst && t.U == 0 }
	var out []*Term
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		x, y := pa[i], pb[j]
		w := x.W
		if y.W < w {
			w = y.W
		}
		var xh, yh *Term
		if x.W > w {
			if !isz(x) {
				return nil
			}
			xh = BVC(0, w)
			pa[i] = BVC(0, x.W-w)
		} else {
			xh = x
			i++
		}
		if y.W > w {
			if !isz(y) {
				return nil
			}
			yh = BVC(0, w)
			pb[j] = BVC(0, y.W-w)
		} else {
			yh = y
			j++
		}
		if isz(xh) {
			out = append(out, yh)
		} else if isz(yh) {
			out = append(out, xh)
		} else {
			return nil
		}
	}
	r := out[0]
	for _, o := range out[1:] {
		r = Concat(r, o)
	}
	return r
}

func bvFold(op Op, a, b uint64, w int) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	}
	panic("bvFold")
}

func BNot(a *Term) *Term {
	if a.Op == OConst && a.W <= 64 {
		return BVC(^a.U, a.W)
	}
	return mk(OBNot, a.W, 0, nil, "", a)
}

func Neg(a *Term) *Term {
	if a.Op == OConst && a.W <= 64 {
		return BVC(-a.U, a.W)
	}
	return mk(ONeg, a.W, 0, nil, "", a)
}

func cmp(op Op, a, b *Term) *Term {
	w := a.W
	if a.W != b.W {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.W, b.W))
	}
	if a == b {
		return TBool(op == OUle || op == OSle)
	}
	if a.Op == OConst && b.Op == OConst && w <= 64 {
		return TBool(cmpFold(op, a.U, b.U, w))
	}
	if w == 8 {
		if r := cmpApp(op, a, b); r != nil {
			return r
		}
	}
	if w <= 64 {
		switch op {
		case OUlt:
			if b.Op == OConst && b.U == 0 {
				return TFalse
			}
			if b.Op == OConst && b.U == 1 {
				return Eq(a, BVC(0, w))
			}
			if a.Op == OConst && a.U == mask(w) {
				return TFalse
			}
			return Not(cmp(OUle, b, a))
		case OUle:
			if a.Op == OConst && a.U == 0 {
				return TTrue
			}
			if b.Op == OConst && b.U == mask(w) {
				return TTrue
			}
			if b.Op == OConst && b.U == 0 {
				return Eq(a, b)
			}
		case OSlt:
			return Not(cmp(OSle, b, a))
		}
	}
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
		switch op {
		case OUle, OSle:
			return cmp(OUle, a.A[0], b.A[0])
		case OUlt, OSlt:
			return cmp(OUlt, a.A[0], b.A[0])
		}
	}
	if a.Op == OZExt && b.Op == OConst && w <= 64 {
		iw := a.A[0].W
		sb := sext64(b.U, w)
		if op == OSle && sb < 0 {
			return TFalse
		}
		if b.U > mask(iw) {
			return TTrue
		}
		return cmp(OUle, a.A[0], BVC(b.U, iw))
	}
	if b.Op == OZExt && a.Op == OConst && w <= 64 {
		iw := b.A[0].W
		sa := sext64(a.U, w)
		if op == OSle && sa <= 0 {
			return TTrue
		}
		if a.U > mask(iw) {
			return TFalse
		}
		return cmp(OUle, BVC(a.U, iw), b.A[0])
	}
	return mk(op, WBool, 0, nil, "", a, b)
}

func cmpFold(op Op, a, b uint64, w int) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext64(a, w) < sext64(b, w)
	case OSle:
		return sext64(a, w) <= sext64(b, w)
	}
	panic("cmpFold")
}

func Ult(a, b *Term) *Term { return cmp(OUlt, a, b) }
func Ule(a, b *Term) *Term { return cmp(OUle, a, b) }
func Slt(a, b *Term) *Term { return cmp(OSlt, a, b) }
func Sle(a, b *Term) *Term { return cmp(OSle, a, b) }

func Concat(a, b *Term) *Term {
	w := a.W + b.W
	if a.W == 0 || b.W == 0 {
		panic("concat width")
	}
	if a.Op == OConst && b.Op == OConst {
		k := new(big.Int).Lsh(a.Big(), uint(b.W))
		k.Or(k, b.Big())
		return BVK(k, w)
	}
	if a.Op == OConst && a.Big().Sign() == 0 {
		return ZExt(b, w)
	}
	if a.Op == OExtract && b.Op == OExtract && a.A[0] == b.A[0] && int(a.U) == int(b.U)+b.W {
		return Extract(a.A[0], int(a.U)+a.W-1, int(b.U))
	}
	if a.Op == OConcat && b.Op == OExtract && a.A[1].Op == OExtract && a.A[1].A[0] == b.A[0] && int(a.A[1].U) == int(b.U)+b.W {
		return Concat(a.A[0], Concat(a.A[1], b))
	}
	if a.Op == OConcat && b.Op == OConst && a.A[1].Op == OConst {
		return Concat(a.A[0], Concat(a.A[1], b))
	}
	if b.Op == OConcat && a.Op == OExtract && b.A[0].Op == OExtract && a.A[0] == b.A[0].A[0] && a.U == b.A[0].U+uint64(b.A[0].W) {
		return Concat(Concat(a, b.A[0]), b.A[1])
	}
	return mk(OConcat, w, 0, nil, "", a, b)
}

func Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if w <= 0 || hi >= a.W {
		panic("extract range")
	}
	switch a.Op {
	case OConst:
		return BVK(new(big.Int).Rsh(a.Big(), uint(lo)), w)
	case OExtract:
		return Extract(a.A[0], hi+int(a.U), lo+int(a.U))
	case OConcat:
		lw := a.A[1].W
		if hi < lw {
			return Extract(a.A[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.A[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.A[0], hi-lw, 0), Extract(a.A[1], lw-1, lo))
	case OZExt:
		iw := a.A[0].W
		if hi < iw {
			return Extract(a.A[0], hi, lo)
		}
		if lo >= iw {
			return BVK(new(big.Int), w)
		}
		return ZExt(Extract(a.A[0], iw-1, lo), w)
	case OSExt:
		if hi < a.A[0].W {
			return Extract(a.A[0], hi, lo)
		}
	case OIte:
		if a.A[1].Op == OConst && a.A[2].Op == OConst {
			return Ite(a.A[0], Extract(a.A[1], hi, lo), Extract(a.A[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return bin(a.Op, Extract(a.A[0], hi, lo), Extract(a.A[1], hi, lo))
	case OBNot:
		return BNot(Extract(a.A[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return bin(OAdd, Extract(a.A[0], hi, 0), Extract(a.A[1], hi, 0))
		}
	}
	return mk(OExtract, w, uint64(lo), nil, "", a)
}

func ZExt(a *Term, w int) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		panic("zext")
	}
	if a.Op == OConst {
		return BVK(a.Big(), w)
	}
	if a.Op == OZExt {
		return ZExt(a.A[0], w)
	}
	return mk(OZExt, w, 0, nil, "", a)
}

func SExt(a *Term, w int) *Term {
	if w == a.W {
		return a
	}
	if a.Op == OConst && w <= 64 {
		return BVC(uint64(sext64(a.U, a.W)), w)
	}
	if a.Op == OZExt && a.A[0].W < a.W {
		return ZExt(a.A[0], w)
	}
	return mk(OSExt, w, 0, nil, "", a)
}

// ---- Int terms ----

func IAdd(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return IntC(new(big.Int).Add(a.K, b.K))
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst && b.K.Sign() == 0 {
		return a
	}
	if ba, bb, ok := bvPair(a, b, 1); ok {
		return BV2Int(bin(OAdd, ba, bb))
	}
	if b.Op == OConst && a.Op == OIAdd && a.A[1].Op == OConst {
		return IAdd(a.A[0], IntC(new(big.Int).Add(a.A[1].K, b.K)))
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OIAdd, WInt, 0, nil, "", a, b)
}

// bvNat returns a bit-vector denoting the non-negative integer t.
func bvNat(t *Term) (*Term, bool) {
	if t.Op == OBV2Int {
		return t.A[0], true
	}
	if t.Op == OConst && t.K.Sign() >= 0 {
		n := t.K.BitLen()
		if n == 0 {
			n = 1
		}
		return BVK(t.K, n), true
	}
	return nil, false
}

func bvPair(a, b *Term, extra int) (*Term, *Term, bool) {
	x, ok := bvNat(a)
	if !ok {
		return nil, nil, false
	}
	y, ok := bvNat(b)
	if !ok {
		return nil, nil, false
	}
	w := x.W
	if y.W > w {
		w = y.W
	}
	w += extra
	if w > 320 {
		return nil, nil, false
	}
	return ZExt(x, w), ZExt(y, w), true
}

func INeg(a *Term) *Term {
	if a.Op == OConst {
		return IntC(new(big.Int).Neg(a.K))
	}
	if a.Op == OINeg {
		return a.A[0]
	}
	return mk(OINeg, WInt, 0, nil, "", a)
}

func ISub(a, b *Term) *Term {
	if a == b {
		return IntI(0)
	}
	return IAdd(a, INeg(b))
}

func IMul(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return IntC(new(big.Int).Mul(a.K, b.K))
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.K.Sign() == 0 {
			return b
		}
		if b.K.IsInt64() && b.K.Int64() == 1 {
			return a
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	if b.Op == OConst {
		if x, ok := bvNat(a); ok && b.K.Sign() > 0 && x.W+b.K.BitLen() <= 320 {
			w := x.W + b.K.BitLen()
			return BV2Int(bin(OMul, ZExt(x, w), BVK(b.K, w)))
		}
	}
	return mk(OIMul, WInt, 0, nil, "", a, b)
}

// IDiv is Euclidean division (SMT-LIB div) for positive constant divisors.
func IDiv(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.K.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.K, b.K, new(big.Int))
		return IntC(q)
	}
	if x, ok := bvNat(a); ok && b.Op == OConst && b.K.Sign() > 0 && x.W <= 320 {
		if b.K.BitLen() > x.W {
			return IntI(0)
		}
		return BV2Int(bin(OUDiv, x, BVK(b.K, x.W)))
	}
	return mk(OIDiv, WInt, 0, nil, "", a, b)
}

func IMod(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.K.Sign() != 0 {
		return IntC(new(big.Int).Mod(a.K, b.K))
	}
	if a.Op == OIMod && a.A[1] == b {
		return a
	}
	if x, ok := bvNat(a); ok && b.Op == OConst && b.K.Sign() > 0 && x.W <= 320 {
		if b.K.BitLen() > x.W {
			return a
		}
		if !isFieldMod(b) {
			return BV2Int(bin(OURem, x, BVK(b.K, x.W)))
		}
	}
	if isFieldMod(b) {
		if r := fqMod(a, b); r != nil {
			return r
		}
	}
	return mk(OIMod, WInt, 0, nil, "", a, b)
}

func ILt(a, b *Term) *Term { return Not(ILe(b, a)) }

func ILe(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Op == OConst && b.Op == OConst {
		return TBool(a.K.Cmp(b.K) <= 0)
	}
	if a.Op == OBV2Int && b.Op == OConst {
		if b.K.Sign() < 0 {
			return TFalse
		}
		if b.K.BitLen() > a.A[0].W {
			return TTrue
		}
		return cmp(OUle, a.A[0], BVK(b.K, a.A[0].W))
	}
	if b.Op == OBV2Int && a.Op == OConst {
		if a.K.Sign() <= 0 {
			return TTrue
		}
		if a.K.BitLen() > b.A[0].W {
			return TFalse
		}
		return cmp(OUle, BVK(a.K, b.A[0].W), b.A[0])
	}
	if a.Op == OBV2Int && b.Op == OBV2Int {
		w := a.A[0].W
		if b.A[0].W > w {
			w = b.A[0].W
		}
		return cmp(OUle, ZExt(a.A[0], w), ZExt(b.A[0], w))
	}
	if a.Op == OConst && a.K.Sign() <= 0 && knownWidth(b) >= 0 {
		return TTrue
	}
	if b.Op == OConst && b.K.Sign() < 0 && knownWidth(a) >= 0 {
		return TFalse
	}
	if q := fieldOf(a); q != nil && b.Op == OConst && new(big.Int).Sub(q, big.NewInt(1)).Cmp(b.K) <= 0 {
		return TTrue
	}
	if q := fieldOf(b); q != nil && a.Op == OConst && q.Cmp(a.K) <= 0 {
		return TFalse
	}
	return mk(OILe, WBool, 0, nil, "", a, b)
}

func IEq(a, b *Term) *Term {
	if a.Op == OConst {
		a, b = b, a
	}
	if a.Op == OBV2Int && b.Op == OConst {
		if b.K.Sign() < 0 || b.K.BitLen() > a.A[0].W {
			return TFalse
		}
		return Eq(a.A[0], BVK(b.K, a.A[0].W))
	}
	if a.Op == OBV2Int && b.Op == OBV2Int {
		w := a.A[0].W
		if b.A[0].W > w {
			w = b.A[0].W
		}
		return Eq(ZExt(a.A[0], w), ZExt(b.A[0], w))
	}
	if r := fqEq(a, b); r != nil {
		return r
	}
	return Eq(a, b)
}

func BV2Int(a *Term) *Term {
	if a.Op == OConst {
		return IntC(a.Big())
	}
	if a.Op == OZExt {
		return BV2Int(a.A[0])
	}
	if a.Op == OInt2BV {
		if n := knownWidth(a.A[0]); n >= 0 && n <= a.W {
			return a.A[0]
		}
	}
	if a.Op == OConcat && a.A[0].Op == OConst && a.A[0].Big().Sign() == 0 {
		return BV2Int(a.A[1])
	}
	return mk(OBV2Int, WInt, 0, nil, "", a)
}

// Int2BV converts (mod 2^w).
func Int2BV(a *Term, w int) *Term {
	if a.Op == OConst {
		return BVK(a.K, w)
	}
	switch a.Op {
	case OBV2Int:
		x := a.A[0]
		if x.W >= w {
			return Extract(x, w-1, 0)
		}
		return ZExt(x, w)
	case OIAdd:
		return bin(OAdd, Int2BV(a.A[0], w), Int2BV(a.A[1], w))
	case OIMul:
		return bin(OMul, Int2BV(a.A[0], w), Int2BV(a.A[1], w))
	case OINeg:
		return Neg(Int2BV(a.A[0], w))
	case OIte:
		return Ite(a.A[0], Int2BV(a.A[1], w), Int2BV(a.A[2], w))
	}
	return mk(OInt2BV, w, 0, nil, "", a)
}

// Vars returns the set of variables of t (sorted by ID, cached).
func (t *Term) Vars() []*Term {
	if t.vok.Load() {
		return t.vars
	}
	var res []*Term
	switch {
	case t.Op == OVar:
		res = []*Term{t}
	case len(t.A) == 1:
		res = t.A[0].Vars()
	default:
		seen := map[*Term]bool{}
		for _, a := range t.A {
			for _, v := range a.Vars() {
				if !seen[v] {
					seen[v] = true
					res = append(res, v)
				}
			}
		}
		sort.Slice(res, func(i, j int) bool { return res[i].ID < res[j].ID })
	}
	varsMu.Lock()
	if !t.vok.Load() {
		t.vars = res
		t.vok.Store(true)
	}
	varsMu.Unlock()
	return t.vars
}

var varsMu sync.Mutex

// ---- evaluation ----

// CV is a concrete value (bool/bv<=64 in U, others in K).
type CV struct {
	U uint64
	K *big.Int
}

func (c CV) Big() *big.Int {
	if c.K != nil {
		return c.K
	}
	return new(big.Int).SetUint64(c.U)
}

// Model assigns values to variables.
type Model map[*Term]CV

func cvBig(k *big.Int, w int) CV {
	if w == WInt {
		return CV{K: k}
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	k = new(big.Int).Mod(k, m)
	if w <= 64 {
		return CV{U: k.Uint64()}
	}
	return CV{K: k}
}

type evaluator struct {
	m    Model
	memo map[*Term]CV
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]CV{}} }

func (e *evaluator) eval(t *Term) CV {
	switch t.Op {
	case OConst:
		return CV{U: t.U, K: t.K}
	case OVar:
		if v, ok := e.m[t]; ok {
			return v
		}
		return defaultCV(t)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

var fqDefaults sync.Map // name -> *big.Int

func defaultCV(t *Term) CV {
	if t.W == WInt {
		if v, ok := fqDefaults.Load(t.Name); ok {
			return CV{K: v.(*big.Int)}
		}
		return CV{K: new(big.Int)}
	}
	if t.W > 64 {
		return CV{K: new(big.Int)}
	}
	return CV{}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval1(t *Term) CV {
	switch t.Op {
	case ONot:
		return CV{U: 1 - e.eval(t.A[0]).U}
	case OAnd:
		for _, a := range t.A {
			if e.eval(a).U == 0 {
				return CV{}
			}
		}
		return CV{U: 1}
	case OIte:
		if e.eval(t.A[0]).U != 0 {
			return e.eval(t.A[1])
		}
		return e.eval(t.A[2])
	case OEq:
		a, b := e.eval(t.A[0]), e.eval(t.A[1])
		if a.K != nil || b.K != nil {
			return CV{U: b2u(a.Big().Cmp(b.Big()) == 0)}
		}
		return CV{U: b2u(a.U == b.U)}
	case OUlt, OUle, OSlt, OSle:
		a, b := e.eval(t.A[0]), e.eval(t.A[1])
		w := t.A[0].W
		if w <= 64 {
			return CV{U: b2u(cmpFold(t.Op, a.U, b.U, w))}
		}
		x, y := a.Big(), b.Big()
		if t.Op == OSlt || t.Op == OSle {
			x, y = signedBig(x, w), signedBig(y, w)
		}
		c := x.Cmp(y)
		return CV{U: b2u(c < 0 || (c == 0 && (t.Op == OUle || t.Op == OSle)))}
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr, OBAnd, OBOr, OBXor:
		a, b := e.eval(t.A[0]), e.eval(t.A[1])
		if t.W <= 64 {
			return CV{U: bvFold(t.Op, a.U, b.U, t.W)}
		}
		x, y := a.Big(), b.Big()
		r := new(big.Int)
		switch t.Op {
		case OAdd:
			r.Add(x, y)
		case OSub:
			r.Sub(x, y)
		case OMul:
			r.Mul(x, y)
		case OBAnd:
			r.And(x, y)
		case OBOr:
			r.Or(x, y)
		case OBXor:
			r.Xor(x, y)
		case OUDiv:
			r.Div(x, y)
		case OURem:
			r.Mod(x, y)
		case OShl:
			r.Lsh(x, uint(y.Uint64()))
		case OLShr:
			r.Rsh(x, uint(y.Uint64()))
		default:
			panic("eval wide")
		}
		return cvBig(r, t.W)
	case OBNot:
		a := e.eval(t.A[0])
		if t.W <= 64 {
			return CV{U: ^a.U & mask(t.W)}
		}
		return cvBig(new(big.Int).Not(a.Big()), t.W)
	case ONeg:
		a := e.eval(t.A[0])
		return cvBig(new(big.Int).Neg(a.Big()), t.W)
	case OConcat:
		a, b := e.eval(t.A[0]), e.eval(t.A[1])
		if t.W <= 64 {
			return CV{U: a.U<<uint(t.A[1].W) | b.U}
		}
		k := new(big.Int).Lsh(a.Big(), uint(t.A[1].W))
		return CV{K: k.Or(k, b.Big())}
	case OExtract:
		a := e.eval(t.A[0])
		if a.K == nil {
			return CV{U: (a.U >> t.U) & mask(t.W)}
		}
		return cvBig(new(big.Int).Rsh(a.K, uint(t.U)), t.W)
	case OZExt:
		a := e.eval(t.A[0])
		return cvBig(a.Big(), t.W)
	case OSExt:
		a := e.eval(t.A[0])
		return cvBig(signedBig(a.Big(), t.A[0].W), t.W)
	case OIAdd:
		return CV{K: new(big.Int).Add(e.eval(t.A[0]).K, e.eval(t.A[1]).K)}
	case OIMul:
		return CV{K: new(big.Int).Mul(e.eval(t.A[0]).K, e.eval(t.A[1]).K)}
	case OINeg:
		return CV{K: new(big.Int).Neg(e.eval(t.A[0]).K)}
	case OIDiv:
		b := e.eval(t.A[1]).K
		if b.Sign() == 0 {
			return CV{K: new(big.Int)}
		}
		q, _ := new(big.Int).DivMod(e.eval(t.A[0]).K, b, new(big.Int))
		return CV{K: q}
	case OIMod:
		b := e.eval(t.A[1]).K
		if b.Sign() == 0 {
			return CV{K: new(big.Int)}
		}
		return CV{K: new(big.Int).Mod(e.eval(t.A[0]).K, b)}
	case OILe:
		return CV{U: b2u(e.eval(t.A[0]).K.Cmp(e.eval(t.A[1]).K) <= 0)}
	case OBV2Int:
		return CV{K: e.eval(t.A[0]).Big()}
	case OInt2BV:
		return cvBig(e.eval(t.A[0]).K, t.W)
	case OApp:
		in := bigToBytes(e.eval(t.A[0]).Big(), t.A[0].W)
		return cvBig(new(big.Int).SetBytes(evalApp(appFns[t.Name], in, t.W/8)), t.W)
	}
	panic(fmt.Sprintf("eval op %d", t.Op))
}

func signedBig(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return x
}

// ---- SMT-LIB printing ----

func smtSort(w int) string {
	switch w {
	case WBool:
		return "Bool"
	case WInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	switch t.W {
	case WBool:
		if t.U != 0 {
			return "true"
		}
		return "false"
	case WInt:
		if t.K.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.K).String() + ")"
		}
		return t.K.String()
	}
	if t.W%4 == 0 {
		s := t.Big().Text(16)
		return "#x" + strings.Repeat("0", t.W/4-len(s)) + s
	}
	return fmt.Sprintf("(_ bv%s %d)", t.Big().String(), t.W)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OIAdd: "+", OIMul: "*", OINeg: "-", OIDiv: "div", OIMod: "mod", OILe: "<=",
}

// smtPrinter prints assertions sharing sub-DAGs through define-fun.
type smtPrinter struct {
	sb   strings.Builder
	done map[*Term]string
	funs map[string]bool
}

func varSym(t *Term) string { return fmt.Sprintf("v%d", t.ID) }

func (p *smtPrinter) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return smtConst(t)
	}
	if s, ok := p.done[t]; ok {
		return s
	}
	if t.Op == OVar {
		s := varSym(t)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", s, smtSort(t.W))
		p.done[t] = s
		return s
	}
	args := make([]string, len(t.A))
	for i, a := range t.A {
		args[i] = p.ref(a)
	}
	var body string
	al := strings.Join(args, " ")
	switch t.Op {
	case OApp:
		n := appSym(t)
		if !p.funs[n] {
			if p.funs == nil {
				p.funs = map[string]bool{}
			}
			p.funs[n] = true
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", n, smtSort(t.A[0].W), smtSort(t.W))
		}
		body = "(" + n + " " + al + ")"
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.U)+t.W-1, t.U, al)
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, al)
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, al)
	case OBV2Int:
		body = fmt.Sprintf("(bv2nat %s)", al)
	case OInt2BV:
		body = fmt.Sprintf("((_ int2bv %d) %s)", t.W, al)
	default:
		body = "(" + opNames[t.Op] + " " + al + ")"
	}
	if len(body) < 40 {
		p.done[t] = body
		return body
	}
	s := fmt.Sprintf("t%d", t.ID)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", s, smtSort(t.W), body)
	p.done[t] = s
	return s
}

func (t *Term) String() string {
	p := &smtPrinter{done: map[*Term]string{}}
	d := 6
	if os.Getenv("VERIF_LONG") != "" {
		d = 14
	}
	return strDepth(p, t, d)
}

func strDepth(p *smtPrinter, t *Term, d int) string {
	if t.Op == OConst {
		return smtConst(t)
	}
	if t.Op == OVar {
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	n := opNames[t.Op]
	if t.Op == OApp {
		n = t.Name
	}
	if n == "" {
		n = fmt.Sprintf("op%d[%d]", t.Op, t.U)
	}
	s := "(" + n
	for _, a := range t.A {
		s += " " + strDepth(p, a, d-1)
	}
	return s + ")"
}

func concatLeaves(t *Term, out []*Term) []*Term {
	if t.Op == OConcat {
		return concatLeaves(t.A[1], concatLeaves(t.A[0], out))
	}
	return append(out, t)
}

func xorLeaves(t *Term, n map[*Term]int) {
	if t.Op == OBXor {
		xorLeaves(t.A[0], n)
		xorLeaves(t.A[1], n)
		return
	}
	n[t]++
}

// eqXor decides equality of concatenations by cancelling exclusive ors that occur on both sides and
// merging the remaining pieces; nil when nothing cancels.
func eqXor(a, b *Term) *Term {
	la, lb := concatLeaves(a, nil), concatLeaves(b, nil)
	cancelled := false
	var ps, qs []*Term
	for len(la) > 0 {
		x, y := la[0], lb[0]
		la, lb = la[1:], lb[1:]
		if x.W > y.W {
			la = append([]*Term{Extract(x, x.W-y.W-1, 0)}, la...)
			x = Extract(x, x.W-1, x.W-y.W)
		} else if y.W > x.W {
			lb = append([]*Term{Extract(y, y.W-x.W-1, 0)}, lb...)
			y = Extract(y, y.W-1, y.W-x.W)
		}
		if x == y {
			continue
		}
		if x.Op == OBXor || y.Op == OBXor {
			n := map[*Term]int{}
			xorLeaves(x, n)
			xorLeaves(y, n)
			var rest []*Term
			for t, c := range n {
				if c%2 == 1 {
					rest = append(rest, t)
				}
			}
			if len(rest) > 2 {
				return nil
			}
			cancelled = true
			if len(rest) == 0 {
				continue
			}
			x = rest[0]
			if len(rest) == 1 {
				y = BVC(0, x.W)
			} else if y = rest[1]; x.ID > y.ID {
				x, y = y, x
			}
		}
		ps, qs = append(ps, x), append(qs, y)
	}
	if !cancelled {
		return nil
	}
	r := TTrue
	for i := 0; i < len(ps); {
		x, y := ps[i], qs[i]
		j := i + 1
		for ; j < len(ps); j++ {
			nx, ny := Concat(x, ps[j]), Concat(y, qs[j])
			if nx.Op == OConcat || ny.Op == OConcat {
				if nx, ny = Concat(x, qs[j]), Concat(y, ps[j]); nx.Op == OConcat || ny.Op == OConcat {
					break
				}
			}
			x, y = nx, ny
		}
		r = And(r, Eq(x, y))
		i = j
	}
	return r
}
