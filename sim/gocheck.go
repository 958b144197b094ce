package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

// goError type checks the packages of a project, so that a project Go itself
// rejects is not taken for one the tool fails on.
func (w *World) goError() error {
	done := map[string]*types.Package{}
	fset := token.NewFileSet()
	var imp importFunc
	check := func(path string, files [][2]string) (*types.Package, error) {
		var fs []*ast.File
		for _, f := range files {
			a, err := parser.ParseFile(fset, f[0], f[1], 0)
			if err != nil {
				return nil, err
			}
			fs = append(fs, a)
		}
		p, err := (&types.Config{Importer: imp}).Check(path, fset, fs, nil)
		done[path] = p
		return p, err
	}
	imp = func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		if path == "time" {
			return check(path, [][2]string{{"time.go", timeStub}})
		}
		i := w.pkgByPath(path)
		if i < 0 {
			return nil, fmt.Errorf("no package %s", path)
		}
		var fs [][2]string
		for _, n := range w.goFiles(i) {
			if n.Type == "" && strings.HasSuffix(n.Path, ".go") && !strings.HasSuffix(n.Path, "_test.go") {
				fs = append(fs, [2]string{n.Path, n.Data})
			}
		}
		return check(path, fs)
	}
	for i := range w.Pkgs {
		if !w.reachable()[i] {
			continue
		}
		if _, err := imp(w.importPath(i)); err != nil {
			return err
		}
	}
	return nil
}

type importFunc func(path string) (*types.Package, error)

func (f importFunc) Import(path string) (*types.Package, error) { return f(path) }
