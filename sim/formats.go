package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"

	yaml2 "gopkg.in/yaml.v2"
	yaml3 "gopkg.in/yaml.v3"
)

// parseYAML decodes with two independent readers that have to agree.
func parseYAML(s string) (V, []string, error) {
	var ms yaml2.MapSlice
	if err := yaml2.UnmarshalStrict([]byte(s), &ms); err != nil {
		return nil, nil, err
	}
	var top []string
	for _, i := range ms {
		k, ok := i.Key.(string)
		if !ok {
			return nil, nil, fmt.Errorf("key %v is not a string", i.Key)
		}
		top = append(top, k)
	}
	var a map[string]interface{}
	if err := yaml2.UnmarshalStrict([]byte(s), &a); err != nil {
		return nil, nil, err
	}
	x, err := normYAML(a)
	if err != nil {
		return nil, nil, err
	}
	var b map[string]interface{}
	if err := yaml3.Unmarshal([]byte(s), &b); err != nil {
		return nil, nil, fmt.Errorf("second reader: %v", err)
	}
	y, err := normYAML(b)
	if err != nil {
		return nil, nil, fmt.Errorf("second reader: %v", err)
	}
	if d := firstDiff("", x, y); d != "" {
		return nil, nil, fmt.Errorf("two YAML readers disagree: %s", d)
	}
	return x, top, nil
}

// goConst type-checks a generated Go file and returns its string constant.
func goConst(s string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "spec.go", s, parser.AllErrors)
	if err != nil {
		return "", err
	}
	pkg, err := (&types.Config{}).Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		return "", err
	}
	var out []string
	for _, n := range pkg.Scope().Names() {
		if c, ok := pkg.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
			out = append(out, constant.StringVal(c.Val()))
		}
	}
	if len(out) != 1 {
		return "", fmt.Errorf("%d string constants in the generated file", len(out))
	}
	return out[0], nil
}
