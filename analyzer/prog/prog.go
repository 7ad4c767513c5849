// Package prog loads the program under analysis.
package prog

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the path of the module under analysis.
const Module = "github.com/flowchartsman/aql"

// Program is the loaded source.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // of the module, dependencies first
	SSA   *ssa.Program
	Funcs []*ssa.Function // all functions of the module with a body
	bySSA map[*types.Package]*ssa.Package
}

// Load reads the module in dir. Env is added to the environment.
func Load(dir string, env ...string) (*Program, error) { return LoadWith(dir, nil, env...) }

// LoadWith reads the module in dir with the contents of some files replaced.
func LoadWith(dir string, overlay map[string][]byte, env ...string) (*Program, error) {
	return load(dir, []string{"./..."}, overlay, env...)
}

// LoadFor reads a package of the module in dir and those of the module it
// depends on.
func LoadFor(dir, pkg string, env ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps, Dir: dir,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"), env...),
	}
	pkgs, err := packages.Load(cfg, "./"+pkg)
	if err != nil {
		return nil, err
	}
	var names []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if InModule(p.PkgPath) {
			names = append(names, p.PkgPath)
		}
	})
	return load(dir, names, nil, env...)
}

func load(dir string, patterns []string, overlay map[string][]byte, env ...string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir, Fset: fset, Overlay: overlay,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"), env...),
	}
	pkgs, err := packages.Load(cfg, append(patterns, "slices", "maps", "cmp")...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath != Module && !strings.HasPrefix(p.PkgPath, Module+"/") {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: fset, SSA: prog, bySSA: map[*types.Package]*ssa.Package{}}
	// dependencies first
	done := map[string]bool{}
	var add func(x *packages.Package)
	add = func(x *packages.Package) {
		if done[x.PkgPath] {
			return
		}
		done[x.PkgPath] = true
		var is []string
		for k := range x.Imports {
			is = append(is, k)
		}
		sort.Strings(is)
		for _, k := range is {
			add(x.Imports[k])
		}
		if InModule(x.PkgPath) {
			p.Pkgs = append(p.Pkgs, x)
		}
	}
	for _, x := range pkgs {
		add(x)
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", Module, dir)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.InRepo(fn) && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// InModule reports whether an import path belongs to the module.
func InModule(path string) bool { return path == Module || strings.HasPrefix(path, Module+"/") }

// InRepo reports whether a function belongs to the module.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && InModule(fn.Pkg.Pkg.Path())
}

// Pkg returns the SSA package of a path below the module.
func (p *Program) Pkg(path string) *ssa.Package {
	full := Module
	if path != "" {
		full += "/" + path
	}
	for _, x := range p.Pkgs {
		if x.PkgPath == full {
			return p.SSA.Package(x.Types)
		}
	}
	return nil
}

// Package returns the loaded package of a path below the module.
func (p *Program) Package(path string) *packages.Package {
	for _, x := range p.Pkgs {
		if x.PkgPath == Module+"/"+path {
			return x
		}
	}
	return nil
}

// Func returns a package function or nil.
func (p *Program) Func(pkg, name string) *ssa.Function {
	x := p.Pkg(pkg)
	if x == nil {
		return nil
	}
	return x.Func(name)
}

// Type returns a named type or nil.
func (p *Program) Type(pkg, name string) types.Type {
	x := p.Pkg(pkg)
	if x == nil {
		return nil
	}
	m := x.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

// Const returns a package constant.
func (p *Program) Const(pkg, name string) *types.Const {
	x := p.Pkg(pkg)
	if x == nil {
		return nil
	}
	c, _ := x.Pkg.Scope().Lookup(name).(*types.Const)
	return c
}

// Method returns the method of a type or of the pointer to it.
func (p *Program) Method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// Where describes a position relative to the module.
func (p *Program) Where(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// FnName is a short name of a function.
func FnName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), Module+"/", "")
}

// Implementers returns the types of the module that are converted to the
// interface somewhere, which are all dynamic types its values can have.
func (p *Program) Implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				t := m.X.Type()
				if !types.Implements(t, iface) {
					continue
				}
				n := t
				if q, ok := n.(*types.Pointer); ok {
					n = q.Elem()
				}
				nm, ok := n.(*types.Named)
				if !ok || nm.Obj().Pkg() == nil || !InModule(nm.Obj().Pkg().Path()) {
					continue
				}
				k := types.TypeString(t, nil)
				if !seen[k] {
					seen[k] = true
					out = append(out, t)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return types.TypeString(out[i], nil) < types.TypeString(out[j], nil) })
	return out
}
