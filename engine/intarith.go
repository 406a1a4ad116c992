package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Queries which multiply or divide words are translated exactly to integers: every word becomes its
// unsigned value, wrap-around is made explicit where the ranges of the operands permit it.

type ival struct {
	s      string
	lo, hi *big.Int
}

type intPrinter struct {
	sb   strings.Builder
	done map[*Term]ival
	n    int
	fail bool
}

func twoTo(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func (p *intPrinter) def(t *Term, body string) string {
	if len(body) < 30 {
		return body
	}
	sort := "Int"
	if t.W == WBool {
		sort = "Bool"
	}
	n := fmt.Sprintf("t%d", t.ID)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

// div returns quotient and remainder of a division by a positive constant.
func (p *intPrinter) divK(x string, d *big.Int) (string, string) {
	if d.Cmp(big.NewInt(1)) == 0 {
		return x, "0"
	}
	p.n++
	q := fmt.Sprintf("q%d", p.n)
	fmt.Fprintf(&p.sb, "(declare-const %s Int)\n(assert (and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s))))\n", q, d, q, x, x, d, q, d)
	return q, fmt.Sprintf("(- %s (* %s %s))", x, d, q)
}

func (p *intPrinter) modK(v ival, m *big.Int) ival {
	if v.lo.Sign() >= 0 && v.hi.Cmp(m) < 0 {
		return v
	}
	top := new(big.Int).Sub(m, big.NewInt(1))
	if v.lo.Sign() >= 0 && v.hi.Cmp(new(big.Int).Lsh(m, 1)) < 0 {
		return ival{fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", v.s, m, v.s, m, v.s), new(big.Int), top}
	}
	_, r := p.divK(v.s, m)
	return ival{r, new(big.Int), top}
}

func (p *intPrinter) signed(v ival, w int) string {
	h := twoTo(w - 1)
	if v.hi.Cmp(h) < 0 {
		return v.s
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", v.s, h, v.s, twoTo(w), v.s)
}

func (p *intPrinter) ref(t *Term) ival {
	if v, ok := p.done[t]; ok {
		return v
	}
	v := p.ref1(t)
	if t.Op != OVar && t.Op != OConst && !p.fail {
		v.s = p.def(t, v.s)
	}
	if t.W > 0 && v.hi == nil {
		p.fail = true
	}
	p.done[t] = v
	return v
}

func (p *intPrinter) ref1(t *Term) ival {
	if t.W == WInt {
		p.fail = true
	}
	if p.fail {
		return ival{s: "0", lo: new(big.Int), hi: new(big.Int)}
	}
	zero := new(big.Int)
	full := func(s string) ival { return ival{s, zero, new(big.Int).Sub(twoTo(t.W), big.NewInt(1))} }
	switch t.Op {
	case OVar:
		n := varSym(t)
		if t.W == WBool {
			fmt.Fprintf(&p.sb, "(declare-const %s Bool)\n", n)
			return ival{s: n}
		}
		fmt.Fprintf(&p.sb, "(declare-const %s Int)\n(assert (and (<= 0 %s) (< %s %s)))\n", n, n, n, twoTo(t.W))
		return full(n)
	case OConst:
		if t.W == WBool {
			return ival{s: smtConst(t)}
		}
		k := t.Big()
		return ival{k.String(), k, k}
	}
	a := make([]ival, len(t.A))
	for i, x := range t.A {
		a[i] = p.ref(x)
	}
	if p.fail {
		return ival{s: "0", lo: zero, hi: zero}
	}
	m := twoTo(max(t.W, 0))
	switch t.Op {
	case ONot, OAnd, OOr:
		var as []string
		for _, x := range a {
			as = append(as, x.s)
		}
		return ival{s: "(" + map[Op]string{ONot: "not", OAnd: "and", OOr: "or"}[t.Op] + " " + strings.Join(as, " ") + ")"}
	case OEq:
		return ival{s: fmt.Sprintf("(= %s %s)", a[0].s, a[1].s)}
	case OUlt:
		return ival{s: fmt.Sprintf("(< %s %s)", a[0].s, a[1].s)}
	case OUle:
		return ival{s: fmt.Sprintf("(<= %s %s)", a[0].s, a[1].s)}
	case OSlt, OSle:
		w := t.A[0].W
		return ival{s: fmt.Sprintf("(%s %s %s)", map[Op]string{OSlt: "<", OSle: "<="}[t.Op], p.signed(a[0], w), p.signed(a[1], w))}
	case OIte:
		v := ival{s: fmt.Sprintf("(ite %s %s %s)", a[0].s, a[1].s, a[2].s)}
		if t.W > 0 {
			v.lo, v.hi = a[1].lo, a[1].hi
			if a[2].lo.Cmp(v.lo) < 0 {
				v.lo = a[2].lo
			}
			if a[2].hi.Cmp(v.hi) > 0 {
				v.hi = a[2].hi
			}
		}
		return v
	case OAdd:
		v := ival{"(+", zero, zero}
		for _, x := range a {
			v.s += " " + x.s
			v.lo = new(big.Int).Add(v.lo, x.lo)
			v.hi = new(big.Int).Add(v.hi, x.hi)
		}
		v.s += ")"
		return p.modK(v, m)
	case OSub:
		if a[0].lo.Cmp(a[1].hi) >= 0 {
			return ival{fmt.Sprintf("(- %s %s)", a[0].s, a[1].s), zero, a[0].hi}
		}
		return full(fmt.Sprintf("(ite (>= %s %s) (- %s %s) (- (+ %s %s) %s))", a[0].s, a[1].s, a[0].s, a[1].s, a[0].s, m, a[1].s))
	case ONeg:
		return full(fmt.Sprintf("(ite (= %s 0) 0 (- %s %s))", a[0].s, m, a[0].s))
	case OBNot:
		return full(fmt.Sprintf("(- %s %s)", new(big.Int).Sub(m, big.NewInt(1)), a[0].s))
	case OMul:
		return p.modK(ival{fmt.Sprintf("(* %s %s)", a[0].s, a[1].s), new(big.Int).Mul(a[0].lo, a[1].lo), new(big.Int).Mul(a[0].hi, a[1].hi)}, m)
	case OUDiv, OURem:
		d := t.A[1]
		if d.Op == OConst && d.Big().Sign() > 0 {
			q, r := p.divK(a[0].s, d.Big())
			if t.Op == OUDiv {
				return ival{q, zero, new(big.Int).Quo(a[0].hi, d.Big())}
			}
			return ival{r, zero, new(big.Int).Sub(d.Big(), big.NewInt(1))}
		}
		p.n++
		q, r := fmt.Sprintf("q%d", p.n), fmt.Sprintf("r%d", p.n)
		fmt.Fprintf(&p.sb, "(declare-const %s Int)\n(declare-const %s Int)\n(assert (ite (= %s 0) (and (= %s %s) (= %s %s)) (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (< %s %s) (<= 0 %s) (<= %s %s))))\n",
			q, r, a[1].s, q, new(big.Int).Sub(m, big.NewInt(1)), r, a[0].s, a[0].s, a[1].s, q, r, r, r, a[1].s, q, q, a[0].s)
		if t.Op == OUDiv {
			return full(q)
		}
		return ival{r, zero, a[0].hi}
	case OZExt:
		return a[0]
	case OSExt:
		w := t.A[0].W
		if a[0].hi.Cmp(twoTo(w-1)) < 0 {
			return a[0]
		}
		return full(fmt.Sprintf("(ite (>= %s %s) (+ %s %s) %s)", a[0].s, twoTo(w-1), a[0].s, new(big.Int).Sub(m, twoTo(w)), a[0].s))
	case OExtract:
		v := a[0]
		if t.U > 0 {
			q, _ := p.divK(v.s, twoTo(int(t.U)))
			v = ival{q, new(big.Int).Rsh(v.lo, uint(t.U)), new(big.Int).Rsh(v.hi, uint(t.U))}
		}
		return p.modK(v, m)
	case OConcat:
		w := uint(t.A[1].W)
		return ival{fmt.Sprintf("(+ (* %s %s) %s)", a[0].s, twoTo(int(w)), a[1].s),
			new(big.Int).Add(new(big.Int).Lsh(a[0].lo, w), a[1].lo), new(big.Int).Add(new(big.Int).Lsh(a[0].hi, w), a[1].hi)}
	case OShl, OLShr:
		if t.A[1].Op == OConst && t.A[1].Big().Cmp(big.NewInt(int64(t.W))) < 0 {
			k := int(t.A[1].Big().Int64())
			if t.Op == OShl {
				return p.modK(ival{fmt.Sprintf("(* %s %s)", a[0].s, twoTo(k)), new(big.Int).Lsh(a[0].lo, uint(k)), new(big.Int).Lsh(a[0].hi, uint(k))}, m)
			}
			q, _ := p.divK(a[0].s, twoTo(k))
			return ival{q, zero, new(big.Int).Rsh(a[0].hi, uint(k))}
		}
	}
	if os.Getenv("VERIF_DUMP") != "" {
		logf("cannot translate %s to integers", t)
	}
	p.fail = true
	return ival{s: "0", lo: zero, hi: zero}
}

// intQuery is the query over integers, "" when it cannot be translated.
func intQuery(cs []*Term) string {
	p := &intPrinter{done: map[*Term]ival{}}
	var as []string
	for _, c := range cs {
		as = append(as, p.ref(c).s)
		if p.fail {
			return ""
		}
	}
	return p.sb.String() + "(assert " + strings.Join(as, ")\n(assert ") + ")\n"
}

// hardArith tells whether words are multiplied or divided, or many of them added.
func hardArith(cs []*Term) bool {
	seen := map[*Term]bool{}
	sums := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.W >= 32 && t.W <= 64 {
			switch t.Op {
			case OMul, OUDiv, OURem:
				return true
			case OAdd, OSub:
				if t.A[0].Op != OConst && t.A[1].Op != OConst {
					if sums++; sums >= 3 {
						return true
					}
				}
			}
		}
		for _, a := range t.A {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, c := range cs {
		if walk(c) {
			return true
		}
	}
	return false
}
