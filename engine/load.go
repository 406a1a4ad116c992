package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program.
type Program struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	byPath  map[string]*ssa.Package
	overlay map[string][]byte
	symPath string
}

const goBin = "/opt/veriftools/go1.23.12/bin"

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "HOME", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOPATH", "GOFLAGS", "GOCACHE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "PATH="+goBin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOROOT=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"CGO_ENABLED=1", "GOPATH=/root/go", "GOCACHE=/root/.cache/go-build", "GOFLAGS=-mod=mod -buildvcs=false")
}

func loadProgram(dir string, patterns []string, overlay map[string][]byte, modfile string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv(), Overlay: overlay}
	if modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + modfile}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{}, overlay: overlay}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
	}
	return p, nil
}

func (e *Engine) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
		if i, ok := in.(*ssa.If); ok {
			p = i.Cond.Pos()
		}
	}
	if !p.IsValid() {
		return "-"
	}
	ps := e.prog.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

type methKey struct {
	t types.Type
	m *types.Func
}

var methCache sync.Map

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := methCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	ms := e.prog.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := e.prog.prog.MethodValue(sel)
	methCache.Store(k, f)
	return f
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache sync.Map

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if b, ok := implCache.Load(k); ok {
		return b.(bool)
	}
	b := types.Implements(t, i)
	implCache.Store(k, b)
	return b
}

func (e *Engine) nativeMethod(t types.Type, m *types.Func) (func(*Exec, *frame, []Value) Value, bool) {
	if t == randReaderT && m.Name() == "Read" {
		f := intrinsics["crypto/rand.Read"]
		return func(x *Exec, fr *frame, a []Value) Value { return f(x, fr, nil, a) }, true
	}
	return nil, false
}

// randReaderT stands for the type of crypto/rand.Reader.
var randReaderT types.Type = types.NewNamed(types.NewTypeName(0, nil, "randReader", nil), types.NewStruct(nil, nil), nil)

// packages whose initialisers are never executed; their globals are unavailable.
func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "net", "reflect", "internal/poll", "net/http", "crypto/tls", "internal/cpu", "math/rand", "crypto/rand":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "google.golang.org/protobuf")
}

func (x *Exec) global(g *ssa.Global) *Value {
	if c, ok := x.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && !x.inited[g.Pkg] {
		x.initPkg(g.Pkg)
		if c, ok := x.globals[g]; ok {
			return c
		}
	}
	c := new(Value)
	if skipInit(g.Pkg.Pkg.Path()) && !strings.HasPrefix(g.Pkg.Pkg.Path(), "internal/") {
		*c = Value{R: &Poison{"global " + g.String()}}
		if g.String() == "crypto/rand.Reader" {
			*c = Value{R: &Iface{T: randReaderT, V: Value{R: &Agg{}}}}
		}
		if s := g.String(); s == "os.Stdout" || s == "os.Stderr" || s == "os.Stdin" {
			f := new(Value)
			*f = zero(x.typ("os", "File"))
			*c = Value{R: f}
		}
	} else {
		*c = zero(deref(g.Type()))
	}
	x.globals[g] = c
	return c
}

func (x *Exec) initPkg(p *ssa.Package) {
	x.inited[p] = true
	if skipInit(p.Pkg.Path()) {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	st, cur, curFr, tol := x.stack, x.cur, x.curFr, x.tolerant
	mo := x.mapOrder
	x.mapOrder = false
	x.tolerant = true
	code := codeOf(f)
	fr := &frame{x: x, fn: f, code: code, env: make([]Value, code.nslots), block: f.Blocks[0]}
	x.stack = append([]*frame(nil), st...)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupportedErr:
					logf("init %s aborted: %s", p.Pkg.Path(), e.msg)
				case targetPanic:
					logf("init %s panicked: %s", p.Pkg.Path(), x.panicMsg(e))
				default:
					panic(r)
				}
			}
		}()
		fr.run()
	}()
	x.stack, x.cur, x.curFr, x.tolerant = st, cur, curFr, tol
	x.mapOrder = mo
}
