// Package load type-checks the module under analysis and builds its SSA form.
package load

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/arr-ai/wbnf"

type Program struct {
	Pkgs []*packages.Package
	Prog *ssa.Program
	SSA  map[string]*ssa.Package // by path relative to the module ("" = root)
	Dir  string
}

func Load(dir string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, Mod) {
			return
		}
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("type errors:\n%s", strings.Join(msgs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Pkgs: pkgs, Prog: prog, SSA: map[string]*ssa.Package{}, Dir: dir}
	for i, sp := range spkgs {
		if sp != nil {
			p.SSA[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, Mod), "/")] = sp
		}
	}
	return p, nil
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	if sp := p.SSA[pkg]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

// Type finds a named type.
func (p *Program) Type(pkg, name string) types.Type {
	if sp := p.SSA[pkg]; sp != nil {
		if t := sp.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

// Method finds a method of a named type (value or pointer receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.Prog.MethodValue(ms.At(i)); f != nil {
					if f.Synthetic == "" {
						return f
					}
				}
			}
		}
	}
	return nil
}

// TypeMethod finds a method on any type.
func (p *Program) TypeMethod(t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
