package main

// Loading of the working tree and lookup tables.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ufun struct {
	params []types.Type
	ret    types.Type
}

type World struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   map[*types.Package]bool
	typePkgs  map[string]*types.Package
	fnByKey   map[string]*ssa.Function
	specs     map[string]*FuncSpec
	ispecs    map[string]*FuncSpec
	impls     []*FuncSpec
	aliases   map[string]string
	defines   map[string]*Define
	ufuns     map[string]ufun
	ghosts    map[string]*GhostDecl
	modsets   map[string][]ModItem
	axioms    []*Expr
	specFiles []string
}

func loadWorld(repo string) (*World, error) {
	w := &World{repo: repo, fset: token.NewFileSet(), ssaPkgs: map[*types.Package]bool{}, typePkgs: map[string]*types.Package{}, fnByKey: map[string]*ssa.Function{},
		specs: map[string]*FuncSpec{}, ispecs: map[string]*FuncSpec{}, aliases: map[string]string{}, defines: map[string]*Define{},
		ufuns: map[string]ufun{}, ghosts: map[string]*GhostDecl{}, modsets: map[string][]ModItem{}}
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:        repo,
		Fset:       w.fset,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod"),
		ParseFile:  nil,
		BuildFlags: nil,
	}
	cfg.Env = os.Environ()
	ps, err := packages.Load(cfg, "./...", "./activity/subflow")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the working tree does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	w.pkgs = ps
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		w.ssaPkgs[sp.Pkg] = true
	}
	prog.Build()
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if _, ok := w.typePkgs[qual(p)]; ok {
			return
		}
		w.typePkgs[qual(p)] = p
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range ps {
		visit(p.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.isRepoFn(fn) {
			w.fnByKey[fnKey(fn)] = fn
		}
	}
	return w, nil
}

func (w *World) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return w.ssaPkgs[fn.Pkg.Pkg]
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return w.ssaPkgs[fn.Origin().Pkg.Pkg]
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return w.ssaPkgs[fn.Object().Pkg()]
	}
	return false
}

func (w *World) isRepoType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && w.ssaPkgs[n.Obj().Pkg()]
}

func (w *World) pkgOf(alias string) *types.Package {
	p, ok := w.aliases[alias]
	if !ok {
		p = alias
	}
	return w.typePkgs[p]
}

func (w *World) namedType(pkg, name string) types.Type {
	p := w.pkgOf(pkg)
	if p == nil {
		return nil
	}
	o, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return o.Type()
}

// anyPkg: the package whose unexported fields may be named when selecting on t.
func (w *World) anyPkg(t types.Type) *types.Package {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Named:
			return u.Obj().Pkg()
		}
		return nil
	}
}

func (w *World) fullName(k string) string {
	if strings.HasPrefix(k, "flow/") || strings.HasPrefix(k, "core/") {
		return "github.com/project-flogo/" + k
	}
	return k
}

func (w *World) ifaceSpec(it types.Type, m *types.Func) *FuncSpec {
	if sp := w.ispecs["("+tname(it)+")."+m.Name()]; sp != nil {
		return sp
	}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if sp := w.ispecs["("+tname(r.Type())+")."+m.Name()]; sp != nil {
			return sp
		}
	}
	return nil
}

var _ = ast.NewIdent
