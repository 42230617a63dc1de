package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type checked and SSA-built program under analysis.
type Prog struct {
	Repo   string
	Mod    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	Funcs  []*ssa.Function // every source function of the repository, closures and generic instances included
	inRepo map[*ssa.Package]bool
	built  map[*ssa.Package]bool

	building sync.Mutex
}

// Load type checks /repo with the flags of its real build and builds SSA for all of its (non test) packages.
func Load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Repo: repo, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}, inRepo: map[*ssa.Package]bool{}, built: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		p.ByPath[sp.Pkg.Path()] = sp
	}
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.Mod = pk.Module.Path
		}
	}
	for path, sp := range p.ByPath {
		if path == p.Mod || strings.HasPrefix(path, p.Mod+"/") {
			p.inRepo[sp] = true
			p.Build(sp)
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && p.InRepo(g) {
						add(g)
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for sp := range p.inRepo {
		if strings.Contains(sp.Pkg.Path(), "test_data") {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" || m.Name() == "init" {
					roots = append(roots, m)
				}
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok || named.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					roots = append(roots, prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

// Build builds the SSA of a package on demand.
func (p *Prog) Build(sp *ssa.Package) {
	if sp == nil {
		return
	}
	p.building.Lock()
	defer p.building.Unlock()
	if p.built[sp] {
		return
	}
	p.built[sp] = true
	sp.Build()
}

// FnPkg is the package a function (or closure, or generic instance) was declared in.
func FnPkg(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Prog.Package(f.Object().Pkg())
	}
	return nil
}

func (p *Prog) InRepo(f *ssa.Function) bool {
	sp := FnPkg(f)
	if sp == nil {
		// wrappers and bound methods
		if f.Synthetic != "" && f.Signature.Recv() != nil {
			return false
		}
		return false
	}
	return p.inRepo[sp]
}

// PkgName is the last element of the package path of a function, e.g. "transform", or "main".
func PkgName(f *ssa.Function) string {
	if sp := FnPkg(f); sp != nil {
		return sp.Pkg.Name()
	}
	return ""
}

func (p *Prog) Pkg(name string) *ssa.Package {
	if name == "main" {
		return p.ByPath[p.Mod]
	}
	return p.ByPath[p.Mod+"/"+name]
}

// Func finds a package level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds a method on a named type (pointer receiver or not).
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	tn, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, name); sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) Type(pkg, name string) types.Type {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	if tn, ok := sp.Members[name].(*ssa.Type); ok {
		return tn.Type()
	}
	return nil
}

// ExtType finds a named type of a dependency.
func (p *Prog) ExtType(path, name string) types.Type {
	sp := p.ByPath[path]
	if sp == nil {
		return nil
	}
	if tn, ok := sp.Members[name].(*ssa.Type); ok {
		return tn.Type()
	}
	return nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// FnName is a stable human readable function name.
func FnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/GannettDigital/jstransform/", "")
	s = strings.ReplaceAll(s, "github.com/GannettDigital/jstransform", "main")
	return s
}

// CalleeName gives the fully qualified name of a function used as key for models: "strings.Split",
// "(*bytes.Buffer).Write". Generic instances use the name of their origin.
func CalleeName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			return fo.FullName()
		}
	}
	return f.String()
}
