package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the type-checked program: the repository's packages, everything
// they import, and the specification packages laid over the tree.
type Loaded struct {
	prog   *ssa.Program
	dir    string
	mod    string
	pkgs   []*packages.Package
	ssa    []*ssa.Package
	specs  map[string]*packages.Package
	byPath map[string]*packages.Package
}

const specDir = "internal/verifspec"

func (l *Loaded) isRepo(path string) bool {
	return path == l.mod || strings.HasPrefix(path, l.mod+"/")
}

func (l *Loaded) isSpec(path string) bool {
	return strings.HasPrefix(path, l.mod+"/"+specDir)
}

// isLib reports whether path is library code of the repository (no examples, no specification).
func (l *Loaded) isLib(path string) bool {
	return l.isRepo(path) && !l.isSpec(path) && !strings.HasPrefix(path, l.mod+"/examples")
}

// load type-checks the repository at dir. specs maps file names below
// internal/verifspec to their text.
func load(dir string, specs map[string]string) (*Loaded, error) {
	ov := map[string][]byte{}
	pats := map[string]bool{"./...": true}
	rename(dir, specs)
	for name, text := range specs {
		p := filepath.Join(dir, specDir, name)
		ov[p] = []byte(text)
		pats["./"+filepath.Dir(filepath.Join(specDir, name))] = true
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOSUMDB=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: ov, Fset: token.NewFileSet()}
	var ps []string
	for p := range pats {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	pkgs, err := packages.Load(cfg, ps...)
	if err != nil {
		return nil, err
	}
	l := &Loaded{dir: dir, specs: map[string]*packages.Package{}, byPath: map[string]*packages.Package{}}
	var errs []string
	seen := map[string]bool{}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if !seen[p.PkgPath] {
			seen[p.PkgPath] = true
			l.pkgs = append(l.pkgs, p)
		}
		if p.Module != nil && l.mod == "" {
			l.mod = p.Module.Path
		}
	}
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { l.byPath[p.PkgPath] = p })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l.prog = prog
	for _, p := range l.pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		l.ssa = append(l.ssa, sp)
		if l.isSpec(p.PkgPath) {
			l.specs[strings.TrimPrefix(p.PkgPath, l.mod+"/"+specDir+"/")] = p
		}
	}
	return l, nil
}

// ensureBuilt builds the SSA form of fn's package on first use.
func (l *Loaded) ensureBuilt(fn *ssa.Function) {
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

// pkg finds an SSA package by path suffix below the module.
func (l *Loaded) pkg(rel string) *ssa.Package {
	for _, p := range l.ssa {
		if p.Pkg.Path() == l.mod+"/"+rel || p.Pkg.Path() == rel {
			return p
		}
	}
	return nil
}

// fn finds a package-level function, or a method written "T.M" or "*T.M".
func (l *Loaded) fn(rel, name string) *ssa.Function {
	p := l.pkg(rel)
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		obj, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = obj.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		return l.prog.LookupMethod(t, p.Pkg, mn)
	}
	return p.Func(name)
}

// libFuncs lists all functions with a body in library packages, anonymous ones included.
func (l *Loaded) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(l.prog) {
		if fn.Pkg != nil && l.isLib(fn.Pkg.Pkg.Path()) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// docOf returns the doc comment of a function declared in a specification package.
func docOf(p *packages.Package, name string) string {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == name && fd.Doc != nil {
				var sb strings.Builder
				for _, c := range fd.Doc.List {
					sb.WriteString(strings.TrimPrefix(c.Text, "//") + "\n")
				}
				return sb.String()
			}
		}
	}
	return ""
}
