package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kodaimura/ddlparse"

// Program is the type-checked SSA form of /repo.
type Program struct {
	Fset       *token.FileSet
	Prog       *ssa.Program
	Pkgs       map[string]*ssa.Package // repo packages by import path
	TPkgs      map[string]*packages.Package
	Funcs      []*ssa.Function // every function of the repository (source functions, closures)
	mu         sync.Mutex
	built      map[*ssa.Package]bool
	globals    map[*ssa.Global]Val
	globalObjs []*Obj
}

func repoDir() string {
	if d := os.Getenv("DDLV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   repoDir(),
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}, built: map[*ssa.Package]bool{}, globals: map[*ssa.Global]Val{}, globalObjs: []*Obj{nil}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			sp := prog.Package(p.Types)
			if sp != nil {
				sp.Build()
				P.built[sp] = true
				P.Pkgs[p.PkgPath] = sp
				P.TPkgs[p.PkgPath] = p
			}
		}
	})
	for _, n := range []string{modPath, modPath + "/internal/lexer", modPath + "/internal/validator", modPath + "/internal/converter", modPath + "/internal/common", modPath + "/internal/types"} {
		if P.Pkgs[n] == nil {
			return nil, fmt.Errorf("package %s not found", n)
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		P.Funcs = append(P.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range P.TPkgs {
		sp := P.Pkgs[p.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) ensureBuilt(f *ssa.Function) {
	if len(f.Blocks) > 0 {
		return
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk != nil && !P.built[pk] {
		pk.Build()
		P.built[pk] = true
	}
}

func inRepo(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Parent() != nil {
		return inRepo(f.Parent())
	}
	if pk == nil {
		// synthetic wrapper: decide by receiver / object
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (P *Program) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir()+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
