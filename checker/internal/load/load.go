// Package load type-checks /repo's current working tree and builds its SSA form.
package load

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis.
type Prog struct {
	Dir  string
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	Root *packages.Package // the crossplane package
	Gen  *packages.Package // internal/generator
	Cmd  *packages.Package // cmd/generate

	RootSSA, GenSSA, CmdSSA *ssa.Package
	Funcs                   []*ssa.Function // every source function of the module, closures included
	NFiles                  int
}

const ModPath = "github.com/nginxinc/nginx-go-crossplane"

// Load loads every package of the module in dir (non-test files, the build's own flags).
func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	// NeedDeps together with NeedSyntax would type-check the standard library from source; export
	// data is enough, and the rules model the few library functions they depend on.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	p := &Prog{Dir: dir, Pkgs: pkgs}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, pk := range pkgs {
		p.NFiles += len(pk.Syntax)
		switch pk.PkgPath {
		case ModPath:
			p.Root, p.RootSSA = pk, spkgs[i]
		case ModPath + "/internal/generator":
			p.Gen, p.GenSSA = pk, spkgs[i]
		case ModPath + "/cmd/generate":
			p.Cmd, p.CmdSSA = pk, spkgs[i]
		}
	}
	if p.Root == nil {
		return nil, fmt.Errorf("package %s not found in %s", ModPath, dir)
	}
	inMod := map[*ssa.Package]bool{}
	for _, s := range spkgs {
		inMod[s] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && inMod[fn.Pkg] && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Func returns a package-level function of the root package, or nil.
func (p *Prog) Func(name string) *ssa.Function {
	return p.RootSSA.Func(name)
}

// Method returns the method of a named type of the root package, or nil.
func (p *Prog) Method(typ, name string) *ssa.Function {
	return MethodIn(p.SSA, p.RootSSA, typ, name)
}

// MethodIn returns a method of a named type of pkg, with either receiver kind.
func MethodIn(prog *ssa.Program, pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := prog.MethodSets.MethodSet(ty)
		if sel := ms.Lookup(pkg.Pkg, name); sel != nil {
			if f := prog.MethodValue(sel); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// FileOf returns the syntax tree that contains pos.
func (p *Prog) FileOf(pos token.Pos) *ast.File {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
	}
	return nil
}
