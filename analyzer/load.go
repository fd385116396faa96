package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dball/destructive"

// Program is the type-checked program and its SSA form.
type Program struct {
	root     string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*packages.Package // by path relative to the module
	spkgs    map[string]*ssa.Package
	funcs    []*ssa.Function        // every source function of the module, and their instances
	fieldFns map[string][]ssa.Value // the functions stored in fields, by name
}

func loadProgram(root string) (*Program, error) { return loadProgramWith(root, nil) }

// loadProgramWith loads the program as if it had the other files as well.
func loadProgramWith(root string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Overlay: overlay,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:   root,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{root: root, prog: prog, fset: prog.Fset, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}}
	for i, pkg := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pkg.PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg.PkgPath, modPath), "/")
		p.pkgs[rel] = pkg
		p.spkgs[rel] = spkgs[i]
	}
	for i := range pkgs {
		spkgs[i].Build()
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	return p, nil
}

// fnPkg returns the package path of the function, or of its generic origin or parent.
func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && f.Pkg.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg().Path()
		}
	}
	return ""
}

// stdBodies are the packages of the standard library whose functions are interpreted like the module's own.
var stdBodies = map[string]bool{"slices": true, "maps": true, "cmp": true}

// interpreted reports whether the function's body is to be interpreted.
func (p *Program) interpreted(fn *ssa.Function) bool {
	if p.inModule(fn) {
		return true
	}
	path := fnPkg(fn)
	if path == "" {
		return true // wrappers
	}
	if stdBodies[path] && len(fn.Blocks) == 0 {
		if sp := p.prog.ImportedPackage(path); sp != nil {
			sp.Build()
		}
	}
	if path == "strings" {
		// Iterators over the parts of texts are made of the other functions of the package.
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if n := root.Name(); n == "SplitSeq" || n == "splitSeq" {
			if len(fn.Blocks) == 0 {
				if sp := p.prog.ImportedPackage(path); sp != nil {
					sp.Build()
				}
			}
			return true
		}
	}
	return stdBodies[path]
}

func (p *Program) inModule(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkg(fn), modPath)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return token.NoPos
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// method finds the declared method of the named type.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.prog.MethodValue(ms.At(i))
				return f
			}
		}
	}
	return nil
}

var _ = ast.Inspect
