package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var crashOnBug = os.Getenv("VERIF_CRASH") != ""

var verbose = os.Getenv("VERIF_DEBUG") != ""

func logf(f string, a ...any) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Exec is the state of one path.
type Exec struct {
	unused bool
	eng    *Engine
	wk     *worker
	prefix []byte
	pos    int
	dec    []byte
	pc     []*Term
	pcset  map[*Term]bool
	model  Model
	ev     *evaluator

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	steps   int64
	names   map[string]int
	inputs  []input // nondet inputs in creation order
	ufs     map[string][]*ufApp
	trace   []traceEv
	seenFn  map[*ssa.Function]bool
	cur     ssa.Instruction
	curFr   *frame
	stack   []*frame

	tolerant   bool
	mapOrder   bool
	mapReverse bool
	noWait     string // label of the violation if the code would wait forever
	goq        []func()
	inGo       bool
	opq        int
	side       map[string]any
	wide       func(op Op, a, b *Term) (*Term, bool)
	clock      *Term
}

type input struct {
	name string
	t    *Term
	w    int
	conc string
}

type ufApp struct {
	args []*Term
	out  []*Term
}

type traceEv struct {
	kind  string // "assert", "reach", "obs"
	label string
	val   *Term
}

type workItem struct {
	dec   []byte
	model Model
}

type worker struct {
	sol *solver
	id  int
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string
	Label   string
	Msg     string
	Inputs  map[string]string
	Trace   []string
	Where   string
}

// PathSample is a completed path with concrete inputs, for native validation.
type PathSample struct {
	Inputs map[string]string
	Trace  []string
	End    string
}

// Engine explores one harness.
type Engine struct {
	override  map[string]*ssa.Function
	prog      *Program
	harness   *ssa.Function
	name      string
	maxSteps  int64
	maxUnwind int
	maxAlloc  int
	maxPaths  int64
	tier      int
	deadline  time.Time
	sampleN   int
	rng       *rand.Rand

	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	active   int
	stop     bool
	viol     []*Violation
	violKeys map[string]int
	samples  []PathSample
	nsample  int64
	reached  map[string]int64
	asserts  map[string]int64
	unsup    map[string]int64
	bounds   map[string]int64
	fns      map[*ssa.Function]bool
	unknowns atomic.Int64

	paths, assumeEnded, decisions, forced, stepsTotal atomic.Int64
	timedOut                                          atomic.Bool
}

func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

func (e *Engine) noteUnwind(fn, pos string) {
	e.mu.Lock()
	e.bounds["unwind "+fn+" "+pos]++
	e.mu.Unlock()
}

func (x *Exec) noteFn(fn *ssa.Function) {
	if !x.seenFn[fn] {
		x.seenFn[fn] = true
	}
}

// ---- path condition ----

func (x *Exec) addPC(c *Term) {
	if c == TTrue || x.pcset[c] {
		return
	}
	if c.Op == OAnd {
		for _, a := range c.A {
			x.addPC(a)
		}
		x.pcset[c] = true
		return
	}
	x.pcset[c] = true
	x.pc = append(x.pc, c)
}

func (x *Exec) implied(c *Term) (bool, bool) {
	if c.Op == OConst {
		return c.U != 0, true
	}
	if x.pcset[c] {
		return true, true
	}
	if x.pcset[Not(c)] {
		return false, true
	}
	if c.Op == OAnd {
		all := true
		for _, a := range c.A {
			v, ok := x.implied(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.Op == ONot && c.A[0].Op == OAnd {
		v, ok := x.implied(c.A[0])
		if ok {
			return !v, true
		}
	}
	return false, false
}

// slice returns the PC constraints transitively sharing variables with c.
func (x *Exec) slice(c *Term) []*Term {
	vars := map[*Term]bool{}
	for _, v := range c.Vars() {
		vars[v] = true
	}
	used := make([]bool, len(x.pc))
	out := []*Term{c}
	for {
		changed := false
		for i, p := range x.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.Vars() {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range p.Vars() {
					vars[v] = true
				}
			}
		}
		if !changed {
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	j := 0
	for i := range out {
		if i == 0 || out[i] != out[i-1] {
			out[j] = out[i]
			j++
		}
	}
	return out[:j]
}

// solve asks whether PC && c is satisfiable; returns a full model on sat.
func (x *Exec) solve(c *Term) (satResult, Model) {
	cs := x.slice(c)
	var el []fqElim
	if hasFq(cs) {
		var unsat bool
		cs, el, unsat = fqReduce(cs)
		stats.Field.Add(1)
		if unsat {
			stats.FieldDecided.Add(1)
			return resUnsat, nil
		}
		if m := x.guess(cs, el); m != nil {
			stats.FieldDecided.Add(1)
			return resSat, m
		}
		seen := map[*Term]bool{}
		for _, c := range append([]*Term(nil), cs...) {
			for _, v := range c.Vars() {
				if q := fqVarMod(v); q != nil && !seen[v] {
					seen[v] = true
					cs = append(cs, mk(OILe, WBool, 0, nil, "", IntI(0), v), Not(mk(OILe, WBool, 0, nil, "", IntC(q), v)))
				}
			}
		}
	}
	r, m := x.wk.sol.check(cs)
	if r != resSat {
		return r, nil
	}
	nm := make(Model, len(x.model)+len(m))
	for k, v := range x.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return resSat, fqComplete(nm, el)
}

func (x *Exec) setModel(m Model) {
	x.model = m
	x.ev = newEval(m)
}

func (x *Exec) holds(c *Term) bool { return x.ev.eval(c).U != 0 }

func (x *Exec) branch(c *Term) bool {
	if v, ok := x.implied(c); ok {
		return v
	}
	if x.tolerant {
		panic(unsupported("symbolic branch in init"))
	}
	if x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.dec = append(x.dec, d)
		v := d&1 == 1
		if d < 2 {
			if v {
				x.addPC(c)
			} else {
				x.addPC(Not(c))
			}
		} else {
			x.remember(c, v)
		}
		return v
	}
	if x.eng.expired() {
		// queries that take long leave no time for the check in the step counter
		panic(pathEnd{"deadline", "deadline"})
	}
	v := x.holds(c)
	other := Not(c)
	if !v {
		other = c
	}
	r, m := x.solve(other)
	d := byte(b2u(v))
	switch r {
	case resUnsat:
		d |= 2
		x.eng.forced.Add(1)
		x.remember(c, v)
	case resSat:
		x.eng.push(workItem{dec: append(append([]byte(nil), x.dec...), d^1), model: m})
		if v {
			x.addPC(c)
		} else {
			x.addPC(other0(c))
		}
	default:
		x.eng.unknowns.Add(1)
		if os.Getenv("VERIF_UNKNOWN") != "" {
			fmt.Printf("UNKNOWN branch %s\n", other)
		}
		x.eng.mu.Lock()
		x.eng.bounds["solver unknown at "+x.where()]++
		x.eng.mu.Unlock()
		if v {
			x.addPC(c)
		} else {
			x.addPC(other0(c))
		}
	}
	x.eng.decisions.Add(1)
	x.dec = append(x.dec, d)
	return v
}

func other0(c *Term) *Term { return Not(c) }

// remember records an implied condition without adding it to the PC.
func (x *Exec) remember(c *Term, v bool) {
	if v {
		x.pcset[c] = true
	} else {
		x.pcset[Not(c)] = true
	}
}

func (x *Exec) assume(c *Term) {
	if v, ok := x.implied(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if !x.holds(c) {
		r, m := x.solve(c)
		switch r {
		case resUnsat:
			panic(pathEnd{"assume", ""})
		case resUnknown:
			x.eng.unknowns.Add(1)
			panic(pathEnd{"bound", "solver unknown in assume at " + x.where()})
		}
		x.setModel(m)
	}
	x.addPC(c)
}

func (x *Exec) concretize(t *Term) uint64 { return x.concretizeMax(t, 1<<16) }

func (x *Exec) concretizeMax(t *Term, maxN int) uint64 {
	for i := 0; i < maxN; i++ {
		if t.Op == OConst {
			return t.U
		}
		// deterministic candidate order independent of the model: use the model value but record
		// it through the decision sequence
		v := x.pickValue(t)
		if x.branch(Eq(t, BVC(v, t.W))) {
			return v
		}
	}
	panic(pathEnd{"bound", "concretize"})
}

// pickValue chooses a value for t; must be deterministic under replay of the prefix.
func (x *Exec) pickValue(t *Term) uint64 {
	// During replay the model may differ from the one of the first execution, so candidate values
	// are stored with the decisions.
	if x.pos < len(x.prefix) {
		n := 8
		var v uint64
		for i := 0; i < n; i++ {
			v = v<<8 | uint64(x.prefix[x.pos+i])
		}
		x.pos += n
		x.dec = append(x.dec, x.prefix[x.pos-n:x.pos]...)
		return v
	}
	v := x.ev.eval(t).U
	var b [8]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> uint(56-8*i))
	}
	x.dec = append(x.dec, b[:]...)
	return v
}

// chooseFork makes an n-way nondeterministic choice recorded as an input.
func (x *Exec) chooseFork(name string, n int) int {
	v := x.newInput(name, 8)
	x.assume(Ult(v, BVC(uint64(n), 8)))
	for i := 0; i < n-1; i++ {
		if x.branch(Eq(v, BVC(uint64(i), 8))) {
			return i
		}
	}
	return n - 1
}

func (x *Exec) fullName(name string) string {
	k := x.names[name]
	x.names[name]++
	return fmt.Sprintf("%s#%d", name, k)
}

func (x *Exec) newInput(name string, w int) *Term {
	n := x.fullName(name)
	t := Var(n, w)
	x.inputs = append(x.inputs, input{name: n, t: t, w: w})
	return t
}

// fresh creates an internal variable with a given default model value.
func (x *Exec) fresh(name string, w int, def *CV) *Term {
	t := Var(x.fullName("$"+name), w)
	if def != nil {
		if _, ok := x.model[t]; !ok {
			x.model[t] = *def
			x.ev = newEval(x.model)
		}
	}
	return t
}

// uf applies an uninterpreted function (Ackermann expansion). outW is a list of output widths.
func (x *Exec) uf(name string, args []*Term, outW []int, injective bool) []*Term {
	key := fmt.Sprintf("%s/%d", name, len(args))
	for _, a := range args {
		key += fmt.Sprintf("/%d", a.W)
	}
	apps := x.ufs[key]
	for _, ap := range apps {
		same := true
		for i := range args {
			if ap.args[i] != args[i] {
				same = false
				break
			}
		}
		if same {
			return ap.out
		}
	}
	ap := &ufApp{args: args}
	// default values: copy an application with equal arguments under the model, else random
	var twin *ufApp
	for _, o := range apps {
		eq := true
		for i := range args {
			if !x.holds(Eq(o.args[i], args[i])) {
				eq = false
				break
			}
		}
		if eq {
			twin = o
			break
		}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %d", key, len(apps))
	rng := rand.New(rand.NewSource(int64(h.Sum64())))
	for i, w := range outW {
		var cv CV
		if twin != nil {
			cv = x.ev.eval(twin.out[i])
		} else if w == WInt {
			cv = CV{K: new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), 250))}
		} else if w <= 64 {
			cv = CV{U: rng.Uint64() & mask(w)}
		} else {
			cv = CV{K: new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(w)))}
		}
		ap.out = append(ap.out, x.fresh("uf_"+name, w, &cv))
	}
	x.ufs[key] = append(apps, ap)
	for _, o := range apps {
		var ein, eout []*Term
		for i := range args {
			ein = append(ein, Eq(o.args[i], args[i]))
		}
		for i := range outW {
			eout = append(eout, Eq(o.out[i], ap.out[i]))
		}
		in, out := And(ein...), And(eout...)
		if injective {
			x.assume(Or(And(in, out), And(Not(in), Not(out))))
		} else {
			x.assume(Or(Not(in), out))
		}
	}
	return ap.out
}

func (x *Exec) where() string {
	s := ""
	for i := len(x.stack) - 1; i >= 0; i-- {
		fr := x.stack[i]
		if fr.fn.Pkg != nil && strings.Contains(fr.fn.Pkg.Pkg.Path(), "shutter") && !strings.Contains(fr.fn.Name(), "Verif") {
			s = fr.fn.String()
			break
		}
	}
	if s == "" && len(x.stack) > 0 {
		s = x.stack[len(x.stack)-1].fn.String()
	}
	if x.cur != nil {
		s += " " + x.eng.pos(x.cur)
	}
	return s
}

func (x *Exec) backtrace() string {
	var sb strings.Builder
	for i := len(x.stack) - 1; i >= 0 && i > len(x.stack)-12; i-- {
		sb.WriteString(x.stack[i].fn.String() + " <- ")
	}
	return sb.String()
}

func (x *Exec) opaque(id string) Value {
	x.opq++
	return Value{R: &OpaqueStr{ID: fmt.Sprintf("%s%d", id, x.opq)}}
}

// opaqueWith is a string of which only the beginning is known.
func (x *Exec) opaqueWith(id, prefix string) Value {
	v := x.opaque(id)
	v.R.(*OpaqueStr).Prefix = prefix
	return v
}

// concreteInputs renders the inputs under the model.
func (x *Exec) concreteInputs(m Model) map[string]string {
	ev := newEval(m)
	r := map[string]string{}
	for _, in := range x.inputs {
		if in.w > 64 {
			r[in.name] = "0x" + ev.eval(in.t).Big().Text(16)
		} else {
			r[in.name] = ev.eval(in.t).Big().String()
		}
	}
	return r
}

func (x *Exec) renderTrace(m Model) []string {
	ev := newEval(m)
	var out []string
	for _, t := range x.trace {
		switch t.kind {
		case "obs":
			out = append(out, fmt.Sprintf("obs %s=%s", t.label, ev.eval(t.val).Big().String()))
		default:
			out = append(out, t.kind+" "+t.label)
		}
	}
	return out
}

// report registers a candidate violation under the given model.
func (x *Exec) report(label, msg string, m Model) {
	e := x.eng
	v := &Violation{Harness: e.name, Label: label, Msg: msg, Inputs: x.concreteInputs(m), Trace: x.renderTrace(m), Where: x.where()}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.violKeys[label]++
	if e.violKeys[label] <= 6 && len(e.viol) < 60 {
		e.viol = append(e.viol, v)
	}
	if e.violKeys[label] == 200 {
		// plenty of counterexamples: no point in exploring further
		e.stop = true
		e.cond.Broadcast()
	}
}

// doAssert checks that c holds for every value on this path.
func (x *Exec) doAssert(c *Term, label string) {
	x.eng.mu.Lock()
	x.eng.asserts[label]++
	x.eng.mu.Unlock()
	if v, ok := x.implied(c); ok {
		if !v {
			if x.pos >= len(x.prefix) {
				x.report(label, "assertion fails", x.model)
			}
			panic(pathEnd{"violation", label})
		}
		x.trace = append(x.trace, traceEv{kind: "assert", label: label})
		return
	}
	if x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.dec = append(x.dec, d)
		if d < 2 {
			x.addPC(c)
		} else {
			x.remember(c, true)
		}
		x.trace = append(x.trace, traceEv{kind: "assert", label: label})
		return
	}
	d := byte(3)
	if !x.holds(c) {
		x.report(label, "assertion fails", x.model)
		r, m := x.solve(c)
		if r != resSat {
			panic(pathEnd{"violation", label})
		}
		x.setModel(m)
		d = 1
		x.addPC(c)
	} else {
		r, m := x.solve(Not(c))
		switch r {
		case resUnsat:
			x.remember(c, true)
		case resSat:
			x.report(label, "assertion fails", m)
			d = 1
			x.addPC(c)
		default:
			x.eng.unknowns.Add(1)
			x.eng.mu.Lock()
			x.eng.bounds["solver unknown for assertion "+label]++
			if os.Getenv("VERIF_UNKNOWN") != "" {
				fmt.Printf("UNKNOWN %s: %s\n", label, c)
			}
			x.eng.mu.Unlock()
			d = 1
			x.addPC(c)
		}
	}
	x.eng.decisions.Add(1)
	x.dec = append(x.dec, d)
	x.trace = append(x.trace, traceEv{kind: "assert", label: label})
}

// ---- engine ----

func (e *Engine) push(w workItem) {
	e.mu.Lock()
	e.work = append(e.work, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) run(nworkers int, sols []*solver) {
	e.cond = sync.NewCond(&e.mu)
	e.violKeys = map[string]int{}
	e.reached = map[string]int64{}
	e.asserts = map[string]int64{}
	e.unsup = map[string]int64{}
	e.bounds = map[string]int64{}
	e.fns = map[*ssa.Function]bool{}
	e.work = []workItem{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		wk := &worker{sol: sols[i], id: i}
		go func() {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.work) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				it := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()

				if e.expired() || e.paths.Load() >= e.maxPaths {
					e.timedOut.Store(true)
					e.mu.Lock()
					e.stop = true
					e.active--
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				e.runPath(wk, it)

				e.mu.Lock()
				e.active--
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Engine) runPath(wk *worker, it workItem) {
	x := &Exec{eng: e, wk: wk, prefix: it.dec, pcset: map[*Term]bool{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		names: map[string]int{}, ufs: map[string][]*ufApp{}, seenFn: map[*ssa.Function]bool{}, side: map[string]any{}}
	x.setModel(it.model)
	end := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch p := r.(type) {
			case pathEnd:
				end = p.kind
				switch p.kind {
				case "assume":
					e.assumeEnded.Add(1)
				case "bound":
					e.mu.Lock()
					e.bounds[p.msg]++
					e.mu.Unlock()
				case "deadline":
					e.timedOut.Store(true)
				}
			case unsupportedErr:
				end = "unsupported"
				e.mu.Lock()
				k := p.msg + " @ " + x.where()
				if e.unsup[k] == 0 {
					logf("UNSUPPORTED %s\n   %s", k, x.backtrace())
				}
				e.unsup[k]++
				e.mu.Unlock()
			case targetPanic:
				end = "panic"
				x.report("no-panic", "uncaught panic: "+x.panicMsg(p), x.model)
				if verbose {
					logf("PANIC %s at %s\n   %s", x.panicMsg(p), x.where(), x.backtrace())
				}
			default:
				if crashOnBug {
					fmt.Fprintf(os.Stderr, "engine crash at %s: %s\n", x.where(), x.backtrace())
					panic(r)
				}
				end = "unsupported"
				e.mu.Lock()
				e.unsup[fmt.Sprintf("engine error: %v @ %s", r, x.where())]++
				e.mu.Unlock()
			}
		}()
		x.callFn(nil, e.harness, nil, nil)
		end = "ok"
	}()
	e.paths.Add(1)
	e.stepsTotal.Add(x.steps)
	e.mu.Lock()
	for f := range x.seenFn {
		e.fns[f] = true
	}
	if end == "ok" {
		e.nsample++
		// reservoir sampling
		if len(e.samples) < e.sampleN {
			e.samples = append(e.samples, PathSample{x.concreteInputs(x.model), x.renderTrace(x.model), end})
		} else if k := e.rng.Int63n(e.nsample); k < int64(e.sampleN) {
			e.samples[k] = PathSample{x.concreteInputs(x.model), x.renderTrace(x.model), end}
		}
	}
	e.mu.Unlock()
}

func (x *Exec) panicMsg(p targetPanic) string {
	if p.rt != "" {
		return p.rt
	}
	if i, ok := p.v.R.(*Iface); ok {
		if s, ok := concStr(i.V); ok && isStringT(i.T) {
			return s
		}
		return "value of type " + types.TypeString(i.T, nil)
	}
	return "panic"
}
