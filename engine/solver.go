package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Stats are global counters.
type Stats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Field, FieldDecided atomic.Int64
	SolverNS                                                     atomic.Int64
}

var stats Stats

type solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	args []string
	n    int
}

var solverTimeoutMS = 5000

func newSolver(args ...string) *solver {
	s := &solver{args: args}
	s.start()
	return s
}

func (s *solver) start() {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.n = 0
}

func (s *solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *solver) restart() {
	s.close()
	s.start()
}

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

type cachedRes struct {
	r satResult
	m Model
}

var qcache sync.Map // string -> cachedRes

func queryKey(cs []*Term) string {
	ids := make([]byte, 0, len(cs)*4)
	// cs must be sorted by caller
	for _, c := range cs {
		ids = append(ids, byte(c.ID), byte(c.ID>>8), byte(c.ID>>16), byte(c.ID>>24))
	}
	return string(ids)
}

// check decides the conjunction; on sat, returns values for all variables occurring.
func (s *solver) check(cs []*Term) (satResult, Model) {
	key := queryKey(cs)
	if v, ok := qcache.Load(key); ok {
		stats.CacheHits.Add(1)
		c := v.(cachedRes)
		return c.r, c.m
	}
	r, m := resUnknown, Model(nil)
	if s.args[0] == "z3" && hardArith(cs) {
		r, m = s.checkInt(cs)
	}
	if r == resUnknown {
		r, m = s.check1(cs)
	}
	if r == resUnknown && s.args[0] == "z3" {
		// second opinion by an independent solver
		alt := newSolver("cvc5", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", 2*solverTimeoutMS))
		r, m = alt.check1(cs)
		alt.close()
		if r == resUnknown {
			stats.Unknown.Add(1)
		}
	}
	qcache.Store(key, cachedRes{r, m})
	return r, m
}

// checkInt decides a query as one over integers.
func (s *solver) checkInt(cs []*Term) (satResult, Model) {
	q := intQuery(cs)
	if q == "" {
		return resUnknown, nil
	}
	t0 := time.Now()
	defer func() { stats.SolverNS.Add(int64(time.Since(t0))) }()
	stats.Queries.Add(1)
	vset := map[*Term]bool{}
	var vars []*Term
	for _, c := range cs {
		for _, v := range c.Vars() {
			if !vset[v] {
				vset[v] = true
				vars = append(vars, v)
			}
		}
	}
	r, m := s.ask(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n", solverTimeoutMS/2, q), vars)
	if d := os.Getenv("VERIF_DUMP"); d != "" && r == resUnknown {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(q+"(check-sat)\n"), 0o644)
	}
	switch r {
	case resUnsat:
		stats.Unsat.Add(1)
	case resSat:
		e := newEval(m)
		for _, c := range cs {
			if e.eval(c).U == 0 {
				logf("model over integers does not satisfy constraint %s", c)
				return resUnknown, nil
			}
		}
		stats.Sat.Add(1)
	}
	return r, m
}

// check1 runs one query; the model of a query with function applications is refined with instances
// of the real functions until it is consistent with them.
func (s *solver) check1(cs []*Term) (satResult, Model) {
	t0 := time.Now()
	defer func() { stats.SolverNS.Add(int64(time.Since(t0))) }()
	stats.Queries.Add(1)
	s.n++
	if s.n > 5000 {
		s.restart()
	}
	p := &smtPrinter{done: map[*Term]string{}}
	vset := map[*Term]bool{}
	var vars []*Term
	for _, c := range cs {
		for _, v := range c.Vars() {
			if !vset[v] {
				vset[v] = true
				vars = append(vars, v)
			}
		}
	}
	apps := collectApps(cs)
	refs := make([]string, len(cs))
	for i, c := range cs {
		refs[i] = p.ref(c)
	}
	inj := ""
	if len(apps) > 1 {
		inj = injLemmas(p, apps)
	}
	var sb strings.Builder
	if s.args[0] == "z3" {
		sb.WriteString("(reset)\n")
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", solverTimeoutMS)
	} else {
		sb.WriteString("(set-logic ALL)\n")
	}
	sb.WriteString(p.sb.String())
	sb.WriteString(inj)
	for _, r := range refs {
		sb.WriteString("(assert ")
		sb.WriteString(r)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	txt := sb.String()
	for round := 0; ; round++ {
		r, m := s.ask(txt, vars)
		switch r {
		case resUnsat:
			stats.Unsat.Add(1)
			return r, nil
		case resUnknown:
			return r, nil
		}
		// the model must satisfy the query by our own evaluator (cross-check of encoding)
		e := newEval(m)
		var bad *Term
		for _, c := range cs {
			if e.eval(c).U == 0 {
				bad = c
				break
			}
		}
		if bad == nil {
			stats.Sat.Add(1)
			return resSat, m
		}
		if len(apps) == 0 || round > 24 {
			logf("model does not satisfy constraint %s", bad)
			return resUnknown, nil
		}
		txt = ""
		for _, a := range apps {
			txt += appLemma(p, a, e)
		}
		txt += "(check-sat)\n"
	}
}

// ask sends text ending in check-sat and reads the answer and the model.
func (s *solver) ask(txt string, vars []*Term) (satResult, Model) {
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(4*solverTimeoutMS)*time.Millisecond, func() { proc.Kill() })
	defer timer.Stop()
	go io.WriteString(s.in, txt)
	line := s.readLine()
	switch line {
	case "unsat":
		return resUnsat, nil
	case "sat":
	default:
		// timeout / unknown / error: inconclusive
		if strings.HasPrefix(line, "(error") || line == "" {
			logf("solver says %q", line)
			s.restart()
		}
		return resUnknown, nil
	}
	m := Model{}
	if len(vars) == 0 {
		return resSat, m
	}
	var vb strings.Builder
	vb.WriteString("(get-value (")
	byName := map[string]*Term{}
	for _, v := range vars {
		vb.WriteString(varSym(v))
		vb.WriteByte(' ')
		byName[varSym(v)] = v
	}
	vb.WriteString("))\n")
	go io.WriteString(s.in, vb.String())
	out := s.readSexp()
	toks := tokenize(out)
	// ((v1 val) (v2 val) ...)
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		i += 2
		var val *big.Int
		val, i = parseVal(toks, i)
		i++ // ")"
		v := byName[name]
		if v == nil || val == nil {
			logf("cannot parse model value for %s: %s", name, out)
			return resUnknown, nil
		}
		if v.W == WInt || v.W > 64 {
			m[v] = CV{K: val}
		} else {
			m[v] = CV{U: val.Uint64()}
		}
	}
	return resSat, m
}

func parseVal(toks []string, i int) (*big.Int, int) {
	t := toks[i]
	switch {
	case t == "true":
		return big.NewInt(1), i + 1
	case t == "false":
		return big.NewInt(0), i + 1
	case strings.HasPrefix(t, "#x"):
		v, ok := new(big.Int).SetString(t[2:], 16)
		if !ok {
			return nil, i + 1
		}
		return v, i + 1
	case strings.HasPrefix(t, "#b"):
		v, ok := new(big.Int).SetString(t[2:], 2)
		if !ok {
			return nil, i + 1
		}
		return v, i + 1
	case t == "(":
		if toks[i+1] == "-" {
			v, j := parseVal(toks, i+2)
			if v == nil {
				return nil, j
			}
			return new(big.Int).Neg(v), j + 1
		}
		if toks[i+1] == "_" && strings.HasPrefix(toks[i+2], "bv") {
			v, ok := new(big.Int).SetString(toks[i+2][2:], 10)
			if !ok {
				return nil, i
			}
			return v, i + 5
		}
		return nil, i
	}
	v, ok := new(big.Int).SetString(t, 10)
	if !ok {
		return nil, i + 1
	}
	return v, i + 1
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func (s *solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l == "" || l == "success" {
			continue
		}
		return l
	}
}

func (s *solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String()
		}
	}
}
