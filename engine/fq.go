package main

import (
	"math/big"
	"math/rand"
	"sort"
	"sync"
)

// Finite field terms. An integer term modulo a big prime q is kept in a canonical form (expanded
// multivariate polynomial over its atoms), so that equations that hold identically are recognised
// syntactically; equations on the path condition that are linear in some variable are eliminated
// before the solver is asked, and models of the remaining disequations are guessed at random and
// verified by evaluation.

var fqMods sync.Map // variable -> modulus

func fqVarMod(t *Term) *big.Int {
	if t.Op != OVar || t.W != WInt {
		return nil
	}
	if v, ok := fqMods.Load(t); ok {
		return v.(*big.Int)
	}
	return nil
}

func isFieldMod(t *Term) bool { return t.Op == OConst && t.W == WInt && t.K.BitLen() > 200 }

type mono struct {
	at []*Term // sorted by ID, with repetition
	c  *big.Int
}

type poly struct {
	m map[string]*mono
	q *big.Int
}

const maxMonos = 4000

func monoKey(at []*Term) string {
	b := make([]byte, 0, 4*len(at))
	for _, a := range at {
		b = append(b, byte(a.ID>>24), byte(a.ID>>16), byte(a.ID>>8), byte(a.ID))
	}
	return string(b)
}

func (p *poly) add(at []*Term, c *big.Int) {
	k := monoKey(at)
	m := p.m[k]
	if m == nil {
		m = &mono{at: at, c: new(big.Int)}
		p.m[k] = m
	}
	m.c.Add(m.c, c)
	m.c.Mod(m.c, p.q)
	if m.c.Sign() == 0 {
		delete(p.m, k)
	}
}

func newPoly(q *big.Int) *poly { return &poly{m: map[string]*mono{}, q: q} }

func (p *poly) mul(r *poly) *poly {
	if len(p.m)*len(r.m) > maxMonos*4 {
		return nil
	}
	res := newPoly(p.q)
	c := new(big.Int)
	for _, a := range p.m {
		for _, b := range r.m {
			at := make([]*Term, 0, len(a.at)+len(b.at))
			at = append(append(at, a.at...), b.at...)
			sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
			c.Mul(a.c, b.c)
			res.add(at, c)
		}
	}
	return res
}

// toPoly expands t modulo q; nil if it gets too big.
func toPoly(t *Term, q *big.Int) *poly {
	p := newPoly(q)
	switch {
	case t.Op == OConst:
		p.add(nil, t.K)
	case t.Op == OIAdd:
		for _, a := range t.A {
			r := toPoly(a, q)
			if r == nil {
				return nil
			}
			for _, m := range r.m {
				p.add(m.at, m.c)
			}
		}
	case t.Op == OINeg:
		r := toPoly(t.A[0], q)
		if r == nil {
			return nil
		}
		for _, m := range r.m {
			p.add(m.at, new(big.Int).Neg(m.c))
		}
	case t.Op == OIMul:
		p.add(nil, big.NewInt(1))
		for _, a := range t.A {
			r := toPoly(a, q)
			if r == nil {
				return nil
			}
			if p = p.mul(r); p == nil {
				return nil
			}
		}
	case t.Op == OIMod && t.A[1].Op == OConst && t.A[1].K.Cmp(q) == 0:
		return toPoly(t.A[0], q)
	default:
		p.add([]*Term{t}, big.NewInt(1))
	}
	if len(p.m) > maxMonos {
		return nil
	}
	return p
}

func (p *poly) monos() []*mono {
	ms := make([]*mono, 0, len(p.m))
	for _, m := range p.m {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		a, b := ms[i].at, ms[j].at
		if len(a) != len(b) {
			return len(a) > len(b)
		}
		for k := range a {
			if a[k] != b[k] {
				return a[k].ID < b[k].ID
			}
		}
		return false
	})
	return ms
}

func (p *poly) constant() (*big.Int, bool) {
	if len(p.m) == 0 {
		return new(big.Int), true
	}
	if len(p.m) == 1 {
		if m := p.m[""]; m != nil {
			return m.c, true
		}
	}
	return nil, false
}

// raw renders the polynomial as an integer term (not reduced).
func (p *poly) raw() *Term {
	var res *Term
	for _, m := range p.monos() {
		var t *Term
		for _, a := range m.at {
			if t == nil {
				t = a
			} else {
				t = mk(OIMul, WInt, 0, nil, "", t, a)
			}
		}
		switch {
		case t == nil:
			t = IntC(m.c)
		case m.c.Cmp(big.NewInt(1)) != 0:
			t = mk(OIMul, WInt, 0, nil, "", t, IntC(m.c))
		}
		if res == nil {
			res = t
		} else {
			res = mk(OIAdd, WInt, 0, nil, "", res, t)
		}
	}
	if res == nil {
		return IntI(0)
	}
	return res
}

// term renders p modulo q.
func (p *poly) term() *Term {
	if c, ok := p.constant(); ok {
		return IntC(c)
	}
	if len(p.m) == 1 {
		for _, m := range p.m {
			if len(m.at) == 1 && m.c.Cmp(big.NewInt(1)) == 0 && inField(m.at[0], p.q) {
				return m.at[0]
			}
		}
	}
	return mk(OIMod, WInt, 0, nil, "", p.raw(), IntC(p.q))
}

// inField: 0 <= t < q is evident.
func inField(t *Term, q *big.Int) bool {
	switch t.Op {
	case OConst:
		return t.W == WInt && t.K.Sign() >= 0 && t.K.Cmp(q) < 0
	case OVar:
		m := fqVarMod(t)
		return m != nil && m.Cmp(q) <= 0
	case OIMod:
		return t.A[1].Op == OConst && t.A[1].K.Cmp(q) <= 0
	case OIte:
		return inField(t.A[1], q) && inField(t.A[2], q)
	case OBV2Int:
		if t.A[0].W < q.BitLen() {
			return true
		}
		if t.A[0].Op == OURem && t.A[0].A[1].IsConst() && t.A[0].A[1].Big().Cmp(q) <= 0 && t.A[0].A[1].Big().Sign() > 0 {
			return true
		}
	}
	return false
}

func fqMod(a, b *Term) *Term {
	p := toPoly(a, b.K)
	if p == nil {
		return nil
	}
	return p.term()
}

func fieldOf(t *Term) *big.Int {
	if t.Op == OIMod && isFieldMod(t.A[1]) {
		return t.A[1].K
	}
	return fqVarMod(t)
}

// fqZero is the canonical form of p = 0 in the field.
func fqZero(p *poly) *Term {
	if c, ok := p.constant(); ok {
		return TBool(c.Sign() == 0)
	}
	ms := p.monos()
	// common factors
	for _, a := range ms[0].at {
		all := true
		for _, m := range ms[1:] {
			in := false
			for _, b := range m.at {
				in = in || a == b
			}
			if !in {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		if len(ms) == 1 && len(ms[0].at) == 1 {
			break
		}
		r := newPoly(p.q)
		for _, m := range ms {
			var at []*Term
			skipped := false
			for _, b := range m.at {
				if b == a && !skipped {
					skipped = true
					continue
				}
				at = append(at, b)
			}
			r.add(at, m.c)
		}
		f := newPoly(p.q)
		f.add([]*Term{a}, big.NewInt(1))
		return Or(fqZero(f), fqZero(r))
	}
	inv := new(big.Int).ModInverse(ms[0].c, p.q)
	if inv == nil {
		return mk(OEq, WBool, 0, nil, "", p.term(), IntI(0))
	}
	r := newPoly(p.q)
	for _, m := range ms {
		r.add(m.at, new(big.Int).Mul(m.c, inv))
	}
	rs := r.monos()
	one := big.NewInt(1)
	if len(rs[0].at) == 1 && inField(rs[0].at[0], p.q) {
		if len(rs) == 1 {
			return eqRaw(rs[0].at[0], IntI(0))
		}
		if len(rs) == 2 {
			if len(rs[1].at) == 0 {
				return eqRaw(rs[0].at[0], IntC(new(big.Int).Sub(p.q, rs[1].c)))
			}
			neg := new(big.Int).Sub(p.q, rs[1].c)
			if len(rs[1].at) == 1 && neg.Cmp(one) == 0 && inField(rs[1].at[0], p.q) {
				return eqRaw(rs[0].at[0], rs[1].at[0])
			}
		}
	}
	if len(rs) == 1 && len(rs[0].at) == 1 {
		// nor is any known to be 0
		if x := rs[0].at[0]; x.Op == OBV2Int && x.A[0].Op == OApp && appFns[x.A[0].Name].inject {
			return TFalse
		}
	}
	if len(rs) == 2 && len(rs[0].at) == 1 && len(rs[1].at) == 0 && rs[0].c.Cmp(one) == 0 {
		// preimages of other values are known only if they were computed
		if x := rs[0].at[0]; x.Op == OBV2Int && x.A[0].Op == OApp && appFns[x.A[0].Name].family == "hash" {
			return hashIs(x.A[0], new(big.Int).Sub(p.q, rs[1].c), p.q)
		}
	}
	if len(rs) == 2 && len(rs[0].at) == 1 && len(rs[1].at) == 1 && rs[0].c.Cmp(one) == 0 && new(big.Int).Sub(p.q, rs[1].c).Cmp(one) == 0 {
		// hashes are collision free, also modulo the order
		if x, y := rs[0].at[0], rs[1].at[0]; x.Op == OBV2Int && y.Op == OBV2Int && x.A[0].Op == OApp && y.A[0].Op == OApp {
			if e := eqApp(x.A[0], y.A[0]); e != nil {
				return e
			}
		}
	}
	return eqRaw(mk(OIMod, WInt, 0, nil, "", r.raw(), IntC(p.q)), IntI(0))
}

func eqRaw(a, b *Term) *Term {
	if a.Op != OConst && b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	if a.Op == OBV2Int || b.Op == OBV2Int {
		if a.Op == OBV2Int && (b.Op == OBV2Int || b.Op == OConst) {
			return IEq(a, b)
		}
	}
	return mk(OEq, WBool, 0, nil, "", a, b)
}

// fqEq decides or canonicalises an equation of field elements.
func fqEq(a, b *Term) *Term {
	q := fieldOf(a)
	if q == nil {
		q = fieldOf(b)
	}
	if q == nil || !inField(a, q) || !inField(b, q) {
		return nil
	}
	p := toPoly(mk(OIAdd, WInt, 0, nil, "", a, mk(OINeg, WInt, 0, nil, "", b)), q)
	if p == nil {
		return nil
	}
	return fqZero(p)
}

// fqEquation returns the polynomial of an equation that is known to hold.
func fqEquation(c *Term) *poly {
	if c.Op != OEq || c.A[0].W != WInt {
		return nil
	}
	a, b := c.A[0], c.A[1]
	q := fieldOf(a)
	if q == nil {
		q = fieldOf(b)
	}
	if q == nil || !inField(a, q) || !inField(b, q) {
		return nil
	}
	return toPoly(mk(OIAdd, WInt, 0, nil, "", a, mk(OINeg, WInt, 0, nil, "", b)), q)
}

// pivot finds a variable that occurs once, linearly and with a constant coefficient.
func (p *poly) pivot() (*Term, *Term) {
	cnt := map[*Term]int{}
	for _, m := range p.m {
		for _, a := range m.at {
			for _, v := range a.Vars() {
				cnt[v]++
			}
		}
	}
	for _, m := range p.monos() {
		if len(m.at) != 1 || cnt[m.at[0]] != 1 || fqVarMod(m.at[0]) == nil || fqVarMod(m.at[0]).Cmp(p.q) != 0 {
			continue
		}
		inv := new(big.Int).ModInverse(m.c, p.q)
		if inv == nil {
			continue
		}
		inv.Neg(inv)
		r := newPoly(p.q)
		for _, o := range p.m {
			if o != m {
				r.add(o.at, new(big.Int).Mul(o.c, inv))
			}
		}
		return m.at[0], r.term()
	}
	return nil, nil
}

type subster struct {
	from *Term
	to   *Term
	memo map[*Term]*Term
}

func (s *subster) apply(t *Term) *Term {
	if t == s.from {
		return s.to
	}
	if t.Op == OVar || t.Op == OConst {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	hit := false
	for _, v := range t.Vars() {
		if v == s.from {
			hit = true
			break
		}
	}
	r := t
	if hit {
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = s.apply(a)
		}
		r = rebuild(t, as)
	}
	s.memo[t] = r
	return r
}

// rebuild applies the (simplifying) constructor of t to new arguments.
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		if a[0].W == WInt {
			return IEq(a[0], a[1])
		}
		return Eq(a[0], a[1])
	case OUlt, OUle, OSlt, OSle:
		return cmp(t.Op, a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case ONeg:
		return Neg(a[0])
	case OConcat:
		return Concat(a[0], a[1])
	case OExtract:
		return Extract(a[0], int(t.U)+t.W-1, int(t.U))
	case OZExt:
		return ZExt(a[0], t.W)
	case OSExt:
		return SExt(a[0], t.W)
	case OIAdd:
		return IAdd(a[0], a[1])
	case OIMul:
		return IMul(a[0], a[1])
	case OINeg:
		return INeg(a[0])
	case OIDiv:
		return IDiv(a[0], a[1])
	case OIMod:
		return IMod(a[0], a[1])
	case OILt:
		return ILt(a[0], a[1])
	case OILe:
		return ILe(a[0], a[1])
	case OBV2Int:
		return BV2Int(a[0])
	case OInt2BV:
		return Int2BV(a[0], t.W)
	case OApp:
		return App(t.Name, a[0], t.W/8)
	}
	return bin(t.Op, a[0], a[1])
}

func hasFq(cs []*Term) bool {
	for _, c := range cs {
		for _, v := range c.Vars() {
			if fqVarMod(v) != nil {
				return true
			}
		}
	}
	return false
}

type fqElim struct{ v, t *Term }

// fqReduce eliminates field equations from cs. dec: whether cs is decided (then sat tells the answer).
func fqReduce(cs []*Term) (out []*Term, el []fqElim, unsat bool) {
	out = append([]*Term(nil), cs...)
	for round := 0; round < 64; round++ {
		var v, r *Term
		for _, c := range out {
			if p := fqEquation(c); p != nil {
				if v, r = p.pivot(); v != nil {
					break
				}
			}
		}
		if v == nil {
			return out, el, false
		}
		el = append(el, fqElim{v, r})
		s := &subster{from: v, to: r, memo: map[*Term]*Term{}}
		var next []*Term
		seen := map[*Term]bool{}
		var add func(c *Term) bool
		add = func(c *Term) bool {
			if c == TFalse {
				return false
			}
			if c == TTrue || seen[c] {
				return true
			}
			seen[c] = true
			if c.Op == OAnd {
				for _, a := range c.A {
					if !add(a) {
						return false
					}
				}
				return true
			}
			next = append(next, c)
			return true
		}
		for _, c := range out {
			if !add(s.apply(c)) {
				return nil, el, true
			}
		}
		for _, c := range next {
			if seen[Not(c)] {
				return nil, el, true
			}
		}
		out = next
	}
	return out, el, false
}

// guess tries to satisfy cs by random field elements and the current values of the other variables.
func (x *Exec) guess(cs []*Term, el []fqElim) Model {
	var vars []*Term
	seen := map[*Term]bool{}
	for _, c := range cs {
		for _, v := range c.Vars() {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	rnd := rand.New(rand.NewSource(int64(len(vars))*7919 + 1))
	for try := 0; try < 6; try++ {
		nm := make(Model, len(x.model)+len(vars))
		for k, v := range x.model {
			nm[k] = v
		}
		for _, v := range vars {
			if q := fqVarMod(v); q != nil {
				if try == 0 {
					if _, ok := x.model[v]; ok {
						continue
					}
				}
				k := new(big.Int).Rand(rnd, q)
				if try == 5 {
					k = new(big.Int)
				}
				nm[v] = CV{K: k}
			}
		}
		ev := newEval(nm)
		ok := true
		for _, c := range cs {
			if ev.eval(c).U == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		return fqComplete(nm, el)
	}
	return nil
}

// fqComplete assigns the eliminated variables.
func fqComplete(nm Model, el []fqElim) Model {
	for i := len(el) - 1; i >= 0; i-- {
		nm[el[i].v] = newEval(nm).eval(el[i].t)
	}
	return nm
}
