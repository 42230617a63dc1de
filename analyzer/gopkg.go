package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goPkgs are packages of Go files written in a run, type checked against the packages /repo is built with.
type goPkgs struct {
	c    *Ctx
	pkgs map[string]*types.Package
	ssa  map[string]*ssa.Package
	todo []func()
}

func newGoPkgs(c *Ctx) *goPkgs {
	return &goPkgs{c: c, pkgs: map[string]*types.Package{}, ssa: map[string]*ssa.Package{}}
}

func (g *goPkgs) Import(path string) (*types.Package, error) {
	if p := g.pkgs[path]; p != nil {
		return p, nil
	}
	if sp := g.c.P.ByPath[path]; sp != nil {
		return sp.Pkg, nil
	}
	return nil, fmt.Errorf("there is no package %s", path)
}

// add type checks the files of a directory as a package and tells what is wrong with them.
func (g *goPkgs) add(path, dir string, files map[string]string) string {
	var names []string
	for n := range files {
		if filepath.Dir(n) == dir && strings.HasSuffix(n, ".go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return "there are no Go files in " + dir
	}
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(g.c.P.Fset, n, files[n], 0)
		if err != nil {
			return "what is written does not parse: " + err.Error()
		}
		fs = append(fs, f)
	}
	var errs []string
	conf := types.Config{Importer: g, Error: func(err error) { errs = append(errs, err.Error()) }}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	p, err := conf.Check(path, g.c.P.Fset, fs, info)
	if err != nil {
		if len(errs) > 3 {
			errs = errs[:3]
		}
		return "what is written does not compile: " + strings.Join(errs, "; ")
	}
	g.pkgs[path] = p
	g.todo = append(g.todo, func() { g.ssa[path] = g.c.P.SSA.CreatePackage(p, fs, info, false) })
	return ""
}

// code makes the packages added available to the interpreter. It must not run beside other analyses.
func (g *goPkgs) code() {
	for _, f := range g.todo {
		f()
	}
	g.todo = nil
	for _, sp := range g.ssa {
		g.c.P.inRepo[sp] = true
		g.c.P.Build(sp)
	}
}
