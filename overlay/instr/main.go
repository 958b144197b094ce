// Command instr inserts a step hook before every statement of a Go tree.
//
//	instr REPO OUTDIR [EXTRA.go ...]
//
// It prints a JSON object: original path -> instrumented copy.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fail(err)
	}
	files = append(files, os.Args[3:]...)
	m := map[string]string{}
	mains := 0
	for i, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		isCmd := filepath.Dir(f) == filepath.Join(repo, "cmd", "oapi")
		res, isMain, err := instrument(f, b, isCmd)
		if err != nil {
			fail(err)
		}
		if isMain {
			mains++
		}
		o := filepath.Join(out, fmt.Sprintf("%03d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(o, res, 0644); err != nil {
			fail(err)
		}
		m[f] = o
	}
	if mains != 1 {
		fail(fmt.Errorf("found %d main functions in cmd/oapi", mains))
	}
	json.NewEncoder(os.Stdout).Encode(m)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func instrument(name string, src []byte, isCmd bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var edits []ins
	n := 0
	const hook = "verifrt.SimStep(); "
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			n++
			edits = append(edits, ins{off: off(s.Pos()), text: hook})
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				edits = append(edits, ins{off: off(x.Body.Lbrace) + 1, text: hook})
				n++
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				edits = append(edits, ins{off: off(x.Body.Lbrace) + 1, text: hook})
				n++
			}
		}
		return true
	})
	isMain := false
	if isCmd && f.Name.Name == "main" {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				edits = append(edits, ins{off: off(fd.Name.Pos()), text: "verifRealMain", del: 4})
				isMain = true
			}
		}
	}
	if n > 0 {
		edits = append(edits, ins{off: off(f.Name.End()), text: `;import verifrt "runtime"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	last := 0
	prev := ins{off: -1}
	for _, e := range edits {
		if e.off == prev.off && e.text == prev.text {
			continue
		}
		prev = e
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.off + e.del
	}
	out = append(out, src[last:]...)
	return out, isMain, nil
}
