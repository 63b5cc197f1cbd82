package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis together with its SSA form.
type Prog struct {
	Dir     string
	ModPath string
	Fset    *token.FileSet
	Pkgs    []*packages.Package          // packages of the module
	ByPath  map[string]*packages.Package // all packages, by import path
	SSA     *ssa.Program
	SPkgs   map[string]*ssa.Package // module packages, by import path
	Funcs   []*ssa.Function         // all module functions with bodies (closures and instances included)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProg() (*Prog, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Env: append(os.Environ(), "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	p := &Prog{Dir: dir, ByPath: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var loadErrs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.ByPath[q.PkgPath] = q
		for _, e := range q.Errors {
			loadErrs = append(loadErrs, e.Error())
		}
	})
	if len(loadErrs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(loadErrs, "; "))
	}
	p.Fset = pkgs[0].Fset
	for _, q := range pkgs {
		if q.Module != nil && q.Module.Main {
			p.ModPath = q.Module.Path
		}
		p.Pkgs = append(p.Pkgs, q)
	}
	if p.ModPath == "" {
		return nil, fmt.Errorf("main module not found in %s", dir)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, q := range pkgs {
		if sp := prog.Package(q.Types); sp != nil {
			p.SPkgs[q.PkgPath] = sp
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if p.inModule(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (p *Prog) inModPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.ModPath || strings.HasPrefix(pk.Path(), p.ModPath+"/"))
}

func (p *Prog) inModule(fn *ssa.Function) bool { return p.inModPkg(fnPkg(fn)) }

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if b := in.Block(); b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
		for i := idx + 1; i < len(b.Instrs) && i >= 0; i++ {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "-"
}

// short name of a function, stable across moves: pkg.(Recv).Name
func (p *Prog) fname(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, p.ModPath+"/", "")
	s = strings.ReplaceAll(s, p.ModPath, "ggfnt")
	return s
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.SPkgs[p.ModPath]
	}
	return p.SPkgs[p.ModPath+"/"+rel]
}

// fn looks up a package level function.
func (p *Prog) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// method looks up a method (value or pointer receiver) of a named type.
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	t := pk.Type(typ)
	if t == nil {
		return nil
	}
	named, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// exportedAPI lists the exported functions and the exported methods of exported types of a package.
func (p *Prog) exportedAPI(rel string) []*ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	var out []*ssa.Function
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			if f := p.SSA.FuncValue(o); f != nil {
				out = append(out, f)
			}
		case *types.TypeName:
			if named, ok := types.Unalias(o.Type()).(*types.Named); ok && named.Obj().Pkg() != nil && p.inModPkg(named.Obj().Pkg()) {
				for i := 0; i < named.NumMethods(); i++ {
					if m := named.Method(i); m.Exported() {
						if f := p.SSA.FuncValue(m); f != nil && f.Blocks != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var u []*ssa.Function
	for _, f := range out {
		if !seen[f] {
			seen[f] = true
			u = append(u, f)
		}
	}
	sort.Slice(u, func(i, j int) bool { return u[i].Pos() < u[j].Pos() })
	return u
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// named type test by module relative package and name
func (p *Prog) isNamed(t types.Type, rel, name string) bool {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	path := p.ModPath
	if rel != "" {
		path += "/" + rel
	}
	return n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}
