package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// program is the SSA form of the repository.
type program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path below the module
	own     map[*ssa.Package]bool
	ifaces  map[string]*types.Interface
	repo    string
	stTypes map[string]string
}

const module = "github.com/monstermichl/typeshell"

func load(repo string) (*program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Tests: false}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, e
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pg := &program{prog: prog, pkgs: map[string]*ssa.Package{}, own: map[*ssa.Package]bool{}, ifaces: map[string]*types.Interface{}, repo: repo, stTypes: map[string]string{}}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path != module && !strings.HasPrefix(path, module+"/") {
			continue
		}
		p.Build()
		pg.own[p] = true
		pg.pkgs[strings.TrimPrefix(strings.TrimPrefix(path, module), "/")] = p
		for _, n := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					pg.ifaces[tn.Type().String()] = it
				}
			}
		}
	}
	return pg, nil
}

func (pg *program) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := pg.prog.Fset.Position(in.Pos())
	f, err := filepath.Rel(pg.repo, p.Filename)
	if err != nil {
		f = p.Filename
	}
	if p.Line == 0 && in.Parent() != nil {
		return in.Parent().String()
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (pg *program) site(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok && in.Parent() != nil {
		return in.Parent().String() + "/" + v.Name()
	}
	return "?"
}

func (pg *program) typ(pkg, name string) types.Type {
	p := pg.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (pg *program) fn(pkg, name string) *ssa.Function {
	p := pg.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method of a type or of the pointer to it.
func (pg *program) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := pg.prog.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name {
				return pg.prog.MethodValue(s)
			}
		}
	}
	return nil
}

// stmtType returns the statement type of a node type if it is a constant.
func (pg *program) stmtType(x *X, t types.Type) *Term {
	f := pg.method(t, "StatementType")
	if f == nil {
		return nil
	}
	r, ok := x.call(f, []Val{x.freshVal(t, "any")}, nil).(*Term)
	if !ok || !r.isConst() {
		return nil
	}
	return r
}

// implementors are the types of the repository's packages which implement both interfaces.
func (pg *program) implementors(a types.Type, b *types.Interface) []types.Type {
	ai, ok := a.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	r := []types.Type{}
	for _, k := range sortedKeys(pg.pkgs) {
		sc := pg.pkgs[k].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(tn.Type(), ai) && types.Implements(tn.Type(), b) {
				r = append(r, tn.Type())
			}
		}
	}
	return r
}
