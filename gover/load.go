package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	pkgs []*packages.Package
	fns  map[string]*ssa.Function // short name -> function
	tpkg map[string]*types.Package
}

// fnName: "gossiper.(*GossiperContext).Store" or "definition.Verify_CON"
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, repoMod+"/", "")
	return s
}

func LoadRepo(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:  dir,
		Env:  os.Environ(),
	}
	pats := []string{"./..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		p.Build()
	}
	P := &Program{prog: prog, pkgs: pkgs, fns: map[string]*ssa.Function{}, tpkg: map[string]*types.Package{}}
	for f := range ssautil.AllFunctions(prog) {
		P.fns[fnName(f)] = f
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				P.fns[fnName(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							P.fns[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		P.tpkg[p.Types.Name()] = p.Types
		for _, ip := range p.Imports {
			if ip.Types != nil {
				if _, ok := P.tpkg[ip.Types.Name()]; !ok {
					P.tpkg[ip.Types.Name()] = ip.Types
				}
			}
		}
	}
	return P, nil
}
