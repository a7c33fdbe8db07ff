package sym

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the code under test plus harnesses.
type Program struct {
	Prog    *ssa.Program
	Module  string
	pkgs    map[string]*ssa.Package
	errType types.Type
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	msets   sync.Map
	intr    sync.Map // *ssa.Function -> handler or nil
	redir   map[string]*ssa.Function
}

// Load type-checks and builds the packages matching patterns in dir.
func Load(dir, module string, tags []string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off",
			"GOTOOLCHAIN=local"),
		BuildFlags: []string{"-tags=" + strings.Join(tags, ",")},
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load code: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, Module: module, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, redir: map[string]*ssa.Function{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.errType = t.Type()
		}
	}
	for _, sp := range prog.AllPackages() {
		if p.inModule(sp) {
			p.buildPkg(sp)
		}
	}
	if vm := p.pkgs[module+"/vmodel"]; vm != nil {
		for from, to := range redirects {
			f := vm.Func(to)
			if f == nil {
				return nil, fmt.Errorf("no model function %s", to)
			}
			p.redir[from] = f
		}
	}
	return p, nil
}

func (p *Program) plainErr() types.Type {
	if p.errType != nil {
		return p.errType
	}
	return types.Typ[types.String]
}

// Func finds a function by package path suffix and name.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.pkgs[p.Module+"/"+pkg]
	if sp == nil {
		sp = p.pkgs[pkg]
	}
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) inModule(sp *ssa.Package) bool {
	return sp.Pkg.Path() == p.Module || strings.HasPrefix(sp.Pkg.Path(), p.Module+"/")
}

// InModule reports whether a function belongs to the code under test.
func (p *Program) UnderTest(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Package()
		}
	}
	if pk == nil {
		return strings.Contains(fn.String(), p.Module+"/mqtt")
	}
	return strings.HasPrefix(pk.Pkg.Path(), p.Module+"/mqtt")
}

func (p *Program) buildPkg(sp *ssa.Package) {
	p.mu.Lock()
	b := p.built[sp]
	p.built[sp] = true
	p.mu.Unlock()
	_ = b
	sp.Build()
}

func (p *Program) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		p.buildPkg(fn.Pkg)
		return
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		p.buildPkg(o.Pkg)
	}
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Prog.LookupMethod(t, pkg, name)
}

type handler = func(*Machine, *Thread, []Value) Value

func (p *Program) intrinsic(fn *ssa.Function) handler {
	if h, ok := p.intr.Load(fn); ok {
		return h.(handler)
	}
	var h handler
	if x, ok := intrinsics[fnName(fn)]; ok {
		h = x
	} else if x := vndIntrinsic(p, fn); x != nil {
		h = x
	}
	p.intr.Store(fn, h)
	return h
}

func (p *Program) redirect(fn *ssa.Function) *ssa.Function {
	return p.redir[fnName(fn)]
}
