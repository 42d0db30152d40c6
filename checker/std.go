package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library that are given functions of the module, in
// source form so that calls of them are analysed like those of functions of
// the module. They do what the documentation of the originals says.

var stdSource = map[string]string{
	"sort": `package std

import "sort"

func Search(n int, f func(int) bool) int {
	i, j := 0, n
	for i < j {
		h := i + (j-i)/2
		if f(h) {
			j = h
		} else {
			i = h + 1
		}
	}
	return i
}

func IsSorted(data sort.Interface) bool {
	for i := data.Len() - 1; i > 0; i-- {
		if data.Less(i, i-1) {
			return false
		}
	}
	return true
}
`}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// addStd adds the functions of packages that the module imports.
func (P *Program) addStd(pkgs []*packages.Package) error {
	P.std = map[string]*ssa.Function{}
	for path, src := range stdSource {
		var from *types.Package
		for _, p := range pkgs {
			for _, q := range p.Types.Imports() {
				if q.Path() == path {
					from = q
				}
			}
		}
		if from == nil {
			continue
		}
		file, err := parser.ParseFile(P.Fset, "std/"+path+".go", src, 0)
		if err != nil {
			return err
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf := types.Config{Sizes: P.Sizes, Importer: importerFunc(func(p string) (*types.Package, error) {
			if p == path {
				return from, nil
			}
			return nil, fmt.Errorf("no package %s", p)
		})}
		tp, err := conf.Check("std/"+path, P.Fset, []*ast.File{file}, info)
		if err != nil {
			return err
		}
		sp := P.SSA.CreatePackage(tp, []*ast.File{file}, info, false)
		sp.Build()
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && ast.IsExported(n) {
				P.std[path+"."+n] = f
			}
		}
	}
	return nil
}
