package main

import (
	"fmt"
	"strings"

	"vsim/vk"
)

// C16: whatever the input, a run ends by itself.

// wildVal is a value of any type, for any place of a document.
func wildVal(r *Rng, depth int) V {
	switch n := r.N(22); {
	case n < 2:
		return nil
	case n < 4:
		return r.P(50)
	case n < 6:
		return float64(r.R(-3, 70000))
	case n < 7:
		return 1e300
	case n < 8:
		return 0.25
	case n < 9:
		return ""
	case n < 12:
		return r.S("x", "object", "array", "5", "true", "null", "~", "3.0.0", "/", "#", "$ref", "a.b", "\n", "\u0000", "ünï", strings.Repeat("long ", 40))
	case n < 13:
		return []interface{}{}
	case n < 14:
		return M{}
	case n < 17 && depth > 0:
		var l []interface{}
		for k := r.R(1, 3); k > 0; k-- {
			l = append(l, wildVal(r, depth-1))
		}
		return l
	case n < 21 && depth > 0:
		m := M{}
		for k := r.R(1, 3); k > 0; k-- {
			m[wildKey(r)] = wildVal(r, depth-1)
		}
		return m
	}
	return M{"$ref": wildVal(r, 0)}
}

func wildKey(r *Rng) string {
	return r.S("openapi", "info", "paths", "components", "schemas", "$ref", "get", "/x", "", " ", ".", "/", "~", "~0", "~1", "~2", "a.b", "a/b", "0", "-1", "01", "x-y", "type", "items", "properties", "*", "#", "tags", "servers", "security", "externalDocs", "extends", "format", "ünï", "\n", "null")
}

// retype replaces random places of a document.
func retype(r *Rng, m M) {
	for n := r.R(1, 3); n > 0; n-- {
		var ps [][]interface{}
		docPaths(m, nil, &ps)
		switch k := r.N(10); {
		case len(ps) == 0 || k < 2:
			m[wildKey(r)] = wildVal(r, 2)
		case k < 3: // a whole section
			m[r.S("openapi", "info", "paths", "components", "servers", "tags", "security", "externalDocs", "root", "overrides", "operations", "extends", "format", "output", "dir", "loglevel")] = wildVal(r, 2)
		case k < 4:
			c := M{}
			m["components"] = c
			c[r.S("schemas", "responses", "parameters", "examples", "requestBodies", "headers", "securitySchemes", "links", "callbacks", "nosuch")] = wildVal(r, 2)
		case k < 5:
			m["paths"] = M{"/p": M{r.S("get", "parameters", "summary", "servers", "nosuch", "$ref", "POST"): wildVal(r, 2)}}
		default:
			p := ps[r.N(len(ps))]
			setWild(m, p, wildVal(r, 2))
		}
	}
}

func setWild(v V, path []interface{}, val V) {
	for i, p := range path {
		last := i == len(path)-1
		switch x := v.(type) {
		case M:
			k := p.(string)
			if last {
				x[k] = val
				return
			}
			v = x[k]
		case []interface{}:
			k := p.(int)
			if last {
				x[k] = val
				return
			}
			v = x[k]
		default:
			return
		}
	}
}

// wildText damages the text of a file.
func wildText(r *Rng, s, other string) string {
	cut := func(s string) int {
		if len(s) == 0 {
			return 0
		}
		return r.N(len(s) + 1)
	}
	switch r.N(10) {
	case 0:
		return s[:cut(s)]
	case 1:
		return s[cut(s):]
	case 2:
		i := cut(s)
		return s[:i] + r.S("\x00", "\xff", "{", "}", "[", "]", ":", "- ", "\t", "\n", "\"", "'", "&a ", "*a", "!!str ", "|", ">", "%", "@", "`", "#", "<<: ", "? ", "\u2028", ",", "\\", "\r", "//", "/*") + s[i:]
	case 3:
		i, j := cut(s), cut(other)
		return s[:i] + other[j:]
	case 4:
		ls := strings.Split(s, "\n")
		i := r.N(len(ls))
		return strings.Join(append(ls[:i:i], ls[i+1:]...), "\n")
	case 5:
		ls := strings.Split(s, "\n")
		i, j := r.N(len(ls)), r.N(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return strings.Join(ls, "\n")
	case 6:
		ls := strings.Split(s, "\n")
		i := r.N(len(ls))
		ls[i] = strings.Repeat(" ", r.N(6)) + strings.TrimLeft(ls[i], " ")
		return strings.Join(ls, "\n")
	case 7:
		return s + s
	case 8:
		return "\ufeff" + s
	}
	b := []byte(s)
	for n := r.R(1, 3); n > 0 && len(b) > 0; n-- {
		b[r.N(len(b))] = byte(r.N(256))
	}
	return string(b)
}

var wildYAML = []string{
	"", "\n", "null\n", "~\n", "5\n", "true\n", "text\n", "[]\n", "{}\n", "- a\n- b\n", "[1, [2, {}]]\n", "---\n", "--- \n---\n", "...\n", "# only a comment\n",
	"openapi:\n", "openapi: 3\n", "openapi: [3]\n", "openapi: {a: b}\n", "openapi: \"3.0.0\"\npaths: []\n", "openapi: \"3.0.0\"\npaths: 5\ninfo: 7\ncomponents: []\n",
	"openapi: \"3.0.0\"\ninfo:\npaths:\ncomponents:\nservers:\ntags:\n",
	"openapi: \"3.0.0\"\npaths:\n  /x:\n", "openapi: \"3.0.0\"\npaths:\n  /x:\n    get:\n", "openapi: \"3.0.0\"\npaths:\n  /x: []\n", "openapi: \"3.0.0\"\npaths:\n  /x: {get: [1]}\n",
	"openapi: \"3.0.0\"\ncomponents:\n  schemas:\n", "openapi: \"3.0.0\"\ncomponents:\n  schemas: []\n", "openapi: \"3.0.0\"\ncomponents:\n  schemas:\n    X:\n",
	"a: &a [*a]\n", "a: &a {b: *a}\n", "openapi: \"3.0.0\"\nx: &x {y: *x}\n", "openapi: \"3.0.0\"\nx-a: &a {b: 1}\nx-c: {<<: *a, d: 2}\n", "openapi: \"3.0.0\"\nx-c: {<<: 5}\n", "openapi: \"3.0.0\"\n<<: {info: 5}\n", "<<: [1]\n",
	"openapi: \"3.0.0\"\n1: x\ntrue: y\nnull: z\n1.5: w\n", "openapi: \"3.0.0\"\n? [a, b]\n: x\n", "openapi: \"3.0.0\"\n? {a: b}\n: x\n", "openapi: \"3.0.0\"\nx-m: {1: {2: {3: x}}}\n", "openapi: \"3.0.0\"\nx-m: {[1]: x}\n", "openapi: \"3.0.0\"\nx-m: {~: x, null: y}\n",
	"openapi: \"3.0.0\"\nx-f: .inf\n", "openapi: \"3.0.0\"\nx-f: -.inf\nx-g: .nan\n", "openapi: \"3.0.0\"\nx-f: 1e400\n", "openapi: \"3.0.0\"\nx-f: 0x7fffffffffffffffffff\n", "openapi: \"3.0.0\"\nx-f: 18446744073709551616\nx-g: -9223372036854775809\nx-o: 0o777\nx-b: 0b11\n",
	"openapi: \"3.0.0\"\nx-t: 2001-12-14t21:59:43.10-05:00\nx-d: 2020-02-30\n", "openapi: \"3.0.0\"\nx-b: !!binary aGVsbG8=\n", "openapi: \"3.0.0\"\nx-b: !!binary '%%'\n", "openapi: \"3.0.0\"\nx-s: !!set {a, b}\n", "openapi: \"3.0.0\"\nx-s: !custom {a: b}\n", "openapi: \"3.0.0\"\nx-o: !!omap [a: 1]\n", "openapi: !!int \"3\"\n", "openapi: !!float x\n",
	"openapi: \"3.0.0\"\n$ref: go://\n", "$ref: \"#/\"\n", "openapi: \"3.0.0\"\nx:\n  $ref:\n", "openapi: \"3.0.0\"\nx:\n  $ref: 5\n", "openapi: \"3.0.0\"\nx:\n  $ref: [a]\n", "openapi: \"3.0.0\"\nx:\n  $ref: {$ref: go://#/T}\n", "openapi: \"3.0.0\"\n$ref: \"go://#/T\"\n",
	"openapi: \"3.0.0\"\nx:\n  - $ref: \"go://#/T0\"\n  - - $ref: \"go://#/T0\"\n", "%YAML 1.1\n---\nopenapi: \"3.0.0\"\n", "%BAD\n", "openapi: \"3.0.0\"\r\ninfo: {title: x}\r\n", "openapi: \"3.0.0\"\nopenapi: \"3.1.0\"\n", "openapi: \"3.0.0\"\n\"a\\u0000b\": x\n",
	"{openapi: \"3.0.0\", paths: {/a: {get: {responses: {200: {description: 5}}}}}}\n", "openapi: |\n  3.0.0\ninfo: >-\n  text\n", strings.Repeat("[", 200) + strings.Repeat("]", 200) + "\n", "x: " + strings.Repeat("{a: ", 150) + "1" + strings.Repeat("}", 150) + "\nopenapi: \"3.0.0\"\n",
	"openapi: \"3.0.0\"\nx-deep: " + strings.Repeat("[", 300) + "{$ref: 'go://#/T0'}" + strings.Repeat("]", 300) + "\n", "a: &a [x,x,x,x]\nb: &b [*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b]\nopenapi: [*c]\n",
}

var wildJSON = []string{"", "null", "5", "[]", "{}", "\"x\"", "{\"openapi\":null}", "{\"openapi\":{}}", "{\"openapi\":\"3.0.0\",\"paths\":[]}", "{\"openapi\":\"3.0.0\",\"info\":[]}", "{\"openapi\":\"3.0.0\",\"components\":null}", "{\"openapi\":\"3.0.0\"} {}", "{\"openapi\":\"3.0.0\"}x", "{\"openapi\":\"3.0.0\",\"a\":1e999}", "{\"openapi\":\"3.0.0\",\"a\":1,\"a\":{}}", "{\"openapi\":\"3.0.0\",\"a\":\"\\ud800\"}", "{\"openapi\":\"3.0.0\",\"\":{\"\":{\"$ref\":\"\"}}}", "{\"openapi\":\"3.0.0\",\"x\":{\"$ref\":null}}", "\ufeff{}", "{\"openapi\":\"3.0.0\",}", "// c\n{}", strings.Repeat("[", 2000), "{\"openapi\":\"3.0.0\",\"x\":" + strings.Repeat("[", 400) + strings.Repeat("]", 400) + "}"}

var wildRefs = []string{"", "#", "#/", "go", "go:", "go:/", "go://", "go://#", "go://#/", "go://#//", "go://#/T0/", "go://#/T0//", "go://#/T0/[]", "go://#/T0/*", "go://#/T0/[]/[]/[]/[]/[]/[]", "go://#/T0/*/*/*/*", "go://#/T0/~", "go://#/~1", "go://#/T0~1F0", "go://#T0", "go://T0", "go://%zz#/T", "go://%41#/T0", "go:T0", "go:#/T0", "://", ":", "?", "go://#/T0?x", "go://?x#/T0", "go://user:pw@host:99/p#/T0", "go://host:bad#/T0", "go://[::1]#/T0", "go://[::1#/T0", "GO://#/T0", "Go://#/T0", "http://x/y#/z", "file:///etc/passwd", "go://" + "x" + "#/T0#/T1", "#/components/schemas/X", "#components", "../x.yaml", "a b", "\x7f", "go://#/T0\x00", "go://\n#/T0", "//#/T0", "go:///#/T0", "go:////#/T0", "go://time#/Time", "go://time#/Duration", "go://time#/Month", "go://time#/Time/wall", "go://time#/Nope", "go://builtin#/error", "go://unsafe#/Pointer", "go://#/error", "go://#/string", "go://#/init", "go://#/main", "go://#/_", "go://C#/x", "go://./p#/T0", "go://../p#/T0", "go://#/F", "go://#/V", "go://#/K", "mailto:x", "urn:a:b", "go://#/" + strings.Repeat("a/", 100)}

func wildComment(r *Rng) string {
	return r.S("openapi:", "openapi: ", "openapi:schema", "openapi:schema ", "openapi:schema T0", "openapi:schema T0 A", "openapi:schema A T0", "openapi:schema A B C", "openapi:schema \"A", "openapi:schema A \"", "openapi:schema 'x y'", "openapi:schema go://#/T0", "openapi:schema go://#/ A", "openapi:schema # A", "openapi:schema go://%zz A", "openapi:schema . A", "openapi:schema / A", "openapi:root", "openapi:nosuch", "openapi:schema:x", "openapi::", "openapi:schema\tT0\tA", "openapi:schema T0 "+strings.Repeat("n", 300), "openapi:schema T0 a/b", "openapi:schema T0 a.b", "openapi:schema T0 ~", "openapi:schema T0 $ref", "openapi:schema go://#/T0/F0 A", "openapi:schema go://#/T0/[] A", "openapi:schema go://time#/Time T", "openapi:schema http://x A", "openapi:Schema T0 A", "openapi:schema T0 A // c", "openapi", " openapi:schema T0 A", "openapi:schema T0 A\r", "openapi:schema ünï A", "openapi:schema \\ A", "openapi:schema ` A", "openapi:schema T0 ``", "openapi:schema "+wildRefs[r.N(len(wildRefs))]+" A", "openapi:schema "+wildRefs[r.N(len(wildRefs))])
}

// wildTypes declares a few types that go round in circles.
func wildTypes(r *Rng) string {
	var b strings.Builder
	n := r.R(1, 4)
	name := func() string { return fmt.Sprint("T", r.N(n)) }
	var te func(d int) string
	te = func(d int) string {
		if d == 0 || r.P(35) {
			return name()
		}
		switch r.N(14) {
		case 0, 1:
			return "[]" + te(d-1)
		case 2:
			return fmt.Sprintf("[%d]%s", r.N(3), te(d-1))
		case 3, 4:
			return "map[" + r.S("string", "int", "string", "[2]int", "struct{}", "interface{}") + "]" + te(d-1)
		case 5, 6:
			return "*" + te(d-1)
		case 7:
			return r.S("", "<-") + "chan " + te(d-1)
		case 8:
			return "func(" + te(d-1) + ") " + te(d-1)
		case 9:
			return "interface{ M() " + te(d-1) + " }"
		case 10:
			return r.S("string", "int", "bool", "float64", "interface{}", "error", "complex64", "uintptr", "byte", "rune", "struct{}", "any")
		case 11:
			s := "struct {\n"
			for k, m := 0, r.R(1, 3); k < m; k++ {
				s += fmt.Sprintf("F%d %s%s\n", k, te(d-1), wildTag(r))
			}
			return s + "}"
		case 12:
			return r.S("*", "[]", "map[string]") + name()
		}
		return "map[string]*" + name()
	}
	for i := 0; i < n; i++ {
		switch r.N(9) {
		case 0, 1, 2, 3:
			fmt.Fprintf(&b, "type T%d struct {\n", i)
			if r.P(45) {
				fmt.Fprintf(&b, "%s%s%s\n", r.S("*", "*", ""), name(), wildTag(r))
			}
			for k, m := 0, r.R(0, 4); k < m; k++ {
				fmt.Fprintf(&b, "F%d %s%s\n", k, te(2), wildTag(r))
			}
			if r.P(10) {
				b.WriteString("_ int\n")
			}
			b.WriteString("}\n")
		case 4:
			fmt.Fprintf(&b, "type T%d = %s\n", i, te(2))
		case 5:
			fmt.Fprintf(&b, "type T%d %s\n", i, name())
		case 6:
			fmt.Fprintf(&b, "type T%d %s%s\n", i, r.S("[]", "*", "map[string]", "[2]", "**", "[][]", "[]*", "map[string][]"), name())
		default:
			fmt.Fprintf(&b, "type T%d %s\n", i, te(3))
		}
	}
	if r.P(20) {
		b.WriteString("func F() {}\nvar V = 5\nconst K = \"x\"\n")
	}
	if r.P(12) {
		b.WriteString(r.S("type G[P any] struct { X P; N *G[P] }\ntype I = G[T0]\ntype H G[[]T0]\n", "type T9 struct { G9[T0] }\ntype G9[P any] struct { X []P; Y map[string]G9[P] }\n", "type N[P any] struct { X *N[[]P] }\ntype NN N[int]\n", "func (t T0) Method() {}\n", "type E interface { T0 | string }\n", "type L struct { X []struct { Y []struct { Z *L } } }\n", "type A0 = A1\ntype A1 = []A0\n", "type S0 struct { S1 }\ntype S1 struct { *S0 }\n", "type P0 *P1\ntype P1 *P0\ntype SP struct { X P0 }\n", "type U struct { T0; T0x }\ntype T0x struct { U2 *U }\n"))
	}
	return b.String()
}

// wildRings declares types which compile and lead back to themselves: embedded
// structs, fields, lists, aliases.
func wildRings(r *Rng) string {
	var b strings.Builder
	n := r.R(1, 5)
	if r.P(15) {
		return longRing(r)
	}
	embed := r.P(70)
	for i := 0; i < n; i++ {
		if r.P(12) && !embed {
			fmt.Fprintf(&b, "type T%d %s\n", i, r.S("[]", "map[string]", "*", "map[string][]", "[][]", "[]*", "func() ", "chan ", "[3]*")+fmt.Sprintf("T%d", r.N(n)))
			continue
		}
		fmt.Fprintf(&b, "type T%d struct {\n", i)
		used := map[int]bool{}
		for k := r.N(3) + 1; k > 0; k-- {
			j := r.N(n)
			if r.P(50) {
				j = (i + 1) % n
			}
			if used[j] {
				continue
			}
			used[j] = true
			if embed && r.P(85) {
				fmt.Fprintf(&b, "\t*T%d%s\n", j, r.S("", "", "", " `json:\",inline\"`", " `json:\"e\"`", " `oapi:\"e\"`", " `json:\"\"`"))
			} else {
				fmt.Fprintf(&b, "\tE%d %s\n", j, r.S(fmt.Sprintf("*T%d", j), fmt.Sprintf("[]T%d", j), fmt.Sprintf("map[string]T%d", j), fmt.Sprintf("struct { *T%d }", j), fmt.Sprintf("[]struct { X *T%d; Y string }", j)))
			}
		}
		fmt.Fprintf(&b, "\tX%d string\n}\n", i)
	}
	return b.String()
}

// longRing declares many types, each leading to the next and the last one back.
func longRing(r *Rng) string {
	var b strings.Builder
	n := r.R(6, 120)
	form := r.N(4)
	for i := 0; i < n; i++ {
		to := fmt.Sprintf("T%d", (i+1)%n)
		if r.P(10) && i == n-1 {
			to = fmt.Sprintf("T%d", r.N(n))
		}
		k := form
		if form == 3 {
			k = r.N(3)
		}
		switch k {
		case 0:
			fmt.Fprintf(&b, "type T%d struct { X%d *%s }\n", i, i, to)
		case 1:
			fmt.Fprintf(&b, "type T%d struct { X%d []%s; Y%d string }\n", i, i, to, i)
		case 2:
			fmt.Fprintf(&b, "type T%d struct { *%s; Z%d int }\n", i, to, i)
		}
	}
	return b.String()
}

// wildPattern makes a pattern of default operations nobody would write.
func wildPattern(r *Rng) string {
	p := ""
	for n := r.R(0, 4); n > 0; n-- {
		p += r.S("get", "GET", "post", "Delete", "trace", "options", "connect", ":", " ", "/", "{", "}", "{x}", "*", "**", "?", "[", "]", "\\", "a", "/users", "é", "\x00", "%", ".", "|", "(", "$", "^", "+")
	}
	return p
}

func wildTag(r *Rng) string {
	if r.P(55) {
		return ""
	}
	t := r.S("json:\"\"", "json:\"-\"", "json:\"-,\"", "json:\",\"", "json:\",omitempty\"", "json:\"a,string,omitempty\"", "json", "json:", "json:a", "json:\"a", "oapi:\"\"", "oapi:\",\"", "oapi:\"name\"", "oapi:\"name,type\"", "oapi:\"name,type:\"", "oapi:\"name,type:nosuch\"", "oapi:\",type:string\"", "oapi:\",format:\"", "oapi:\",required\"", "oapi:\",required:maybe\"", "oapi:\",nullable:x\"", "oapi:\",,,,\"", "oapi:\",:\"", "oapi:\",a:b:c\"", "oapi:\"a b,c d\"", "oapi:\"a,type:string:x,format:y:z\"", "oapi:\"-\"", "oapi:\",min:x,max:\"", "x:\"y", "oapi:\",type:array\"", "oapi:\",type:object\"", "oapi:\",deprecated,readonly,writeonly,nullable\"", "oapi:\",\\\"q\"", "oapi:\"\\n\"", "json:\"a.b/c~d\"", "json:\"$ref\"", "oapi:\"$ref,type:string\"", "::::", "oapi:\""+strings.Repeat(",x:y", 50)+"\"")
	if r.P(25) {
		t += " " + r.S("json:\"z\"", "oapi:\"z\"", "oapi:\",type:integer\"", "yaml:\"w\"")
	}
	return " `" + t + "`"
}

var wildArgs = [][]string{
	{}, {""}, {"--"}, {"-"}, {"--help"}, {"-h"}, {"--version"}, {"help"}, {"--config"}, {"--config", ""}, {"--config="}, {"--config", "{B}"}, {"--config", "/"}, {"--config", "/dev/null"}, {"--config", "\x00"}, {"--dir", "\x00"}, {"--dir", ""}, {"--dir", "."}, {"--dir", "/"}, {"--dir", "/nonexistent"}, {"--dir", "/dev/null"}, {"--dir", "./..."}, {"--dir", "..."}, {"--dir", "@"}, {"--dir", "-x"}, {"--dir", "fmt"}, {"--dir", "a b"}, {"--dir", "pattern="}, {"--dir", "file=x.go"}, {"--dir", "query=x"}, {"--dir", "name=x"}, {"--dir", strings.Repeat("a/", 3000)}, {"--dir", strings.Repeat("x", 300)},
	{"--format", ""}, {"--format", "\x00"}, {"--format", "go", "--output", "/dev/null"}, {"--output", ""}, {"--output", "/"}, {"--output", "."}, {"--output", "/dev/null"}, {"--output", "/dev/stdout"}, {"--output", "\x00"}, {"--output", "{B}/a\nb"}, {"--output", strings.Repeat("x", 300)}, {"--output", "stdout", "--output", "stderr"}, {"--loglevel", ""}, {"--loglevel", "trace"}, {"--loglevel", "TRACE", "--format", "json"}, {"--dir", "a", "--dir", "b"}, {"-d"}, {"--nosuch=1"}, {"--format=json", "--format=yaml"}, {"-format", "json"}, {"scan", "--dir", "."}, {"--config", "{B}/loop.yaml"}, {"--config", "{B}/loopa.yaml"},
}

func gen16(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Specs, o.MultiSpec, o.MaxPkgs, o.MaxTypes, o.MaxFields, o.Refs = 90, 30, 3, 3, 3, 50
	o.CfgPct, o.Ext, o.DefOps, o.RootComps, o.Overrides, o.Exports = 50, 50, 50, 50, 50, 50
	w := genWorld(r, o)
	c := &Case{Kind: "wild", Worlds: []*World{w}}
	p := &w.Pkgs[r.N(len(w.Pkgs))]
	if r.P(60) {
		p = &w.Pkgs[0]
	}
	spec := func() *Spec {
		if s := w.anySpec(r); s != nil && r.P(85) {
			return s
		}
		p.Specs = append(p.Specs, Spec{File: r.S("oapi.yaml", "oapi.yml", "oapi.json"), Doc: M{"openapi": "3.0.0", "info": M{"title": "t"}}})
		return &p.Specs[len(p.Specs)-1]
	}
	use := func(ref string) {
		if r.P(30) {
			p.Comments = append(p.Comments, "openapi:schema "+ref+" W"+fmt.Sprint(r.N(9)))
		}
		s := spec()
		if s.IsRaw || s.Doc == nil {
			return
		}
		v := M{"$ref": ref}
		if r.P(15) {
			v["description"] = wildVal(r, 1)
		}
		s.Doc[r.S("x-w1", "x-w2", "x-w3", "x-w4")] = []interface{}{v, M{"deep": M{"a.b": v}}}[r.N(2)]
	}
	name := p.Name
	for n := []int{1, 1, 1, 2, 2, 3, 4}[r.N(7)]; n > 0; n-- {
		switch r.N(20) {
		case 0, 1, 2, 3: // circles of types
			decl := wildTypes
			if r.P(40) {
				decl = wildRings
			}
			p.RawGo = append(p.RawGo, vk.MkNode(fmt.Sprintf("w%d.go", len(p.RawGo)), []byte("package "+name+"\n\n"+decl(r))))
			for k := r.R(1, 3); k > 0; k-- {
				q := ""
				if r.P(30) {
					q = w.importPath(r.N(len(w.Pkgs)))
				}
				t := fmt.Sprint("T", r.N(4))
				use("go://" + q + "#/" + t + r.S("", "", "", "/F0", "/[]", "/*", "/F0/F0", "/T0/T1", "/F1/[]"))
			}
		case 4, 5, 6: // retyped documents
			if s := spec(); !s.IsRaw && s.Doc != nil {
				retype(r, s.Doc)
			}
		case 7, 8: // damaged text
			if s := spec(); !s.IsRaw {
				a := s.content()
				s.Raw = wildText(r, a, w.Pkgs[0].Name+a)
				s.IsRaw = true
			}
		case 9, 10: // curious documents
			s := spec()
			s.IsRaw = true
			s.Raw = wildYAML[r.N(len(wildYAML))]
			if strings.HasSuffix(s.File, ".json") && r.P(80) {
				s.Raw = wildJSON[r.N(len(wildJSON))]
			}
		case 11: // curious references
			use(wildRefs[r.N(len(wildRefs))])
		case 12: // curious comments
			for k := r.R(1, 3); k > 0; k-- {
				p.Comments = append(p.Comments, wildComment(r))
			}
		case 13: // configuration
			cf := cfgOf(w)
			switch r.N(4) {
			case 0:
				retype(r, cf.Doc)
				if r.P(50) {
					ops := M{}
					for k := r.R(1, 3); k > 0; k-- {
						ops[wildPattern(r)] = M{"description": "d", "responses": M{"500": M{"description": "r"}}}
					}
					cf.Doc["operations"] = ops
				}
			case 1:
				a := cf.content(w)
				cf.Raw, cf.IsRaw = wildText(r, a, a), true
			case 2:
				cf.Raw, cf.IsRaw = wildYAML[r.N(len(wildYAML))], true
			case 3:
				cf.Raw, cf.IsRaw = r.S("extends: "+cf.File+"\n", "extends: /\n", "extends: .\n", "extends: \"\"\n", "extends: 5\n", "extends: [a]\n", "extends: {a: b}\n", "extends: /dev/null\n", "overrides: []\n", "overrides:\n  x:\n", "overrides: {\"go://#/T0\": 5}\n", "overrides: {\"go://#/T0\": {type: []}}\n", "root: 5\n", "root:\n", "root: {info: 5}\n", "root: {components: {schemas: []}}\n", "operations: 5\n", "operations:\n  x:\n", "operations: {\"\": {}}\n", "operations: {\"/{\": {description: x}}\n", "operations: {\"[\": {responses: 5}}\n", "operations: {\"*\": }\n", "format: 5\n", "output: [a]\n", "dir: {a: b}\n", "dir:\n", "loglevel: 99\n", "root: {info: {title: &a [*a]}}\n", "root: {paths: {/x: {get: {responses: {200: {$ref: 5}}}}}}\n", "root: {openapi: 3}\n"), true
			}
			if r.P(25) {
				a := r.S("loopa.yaml", "./loopa.yaml", "{B}/loopa.yaml")
				w.Extra = append(w.Extra, vk.MkNode("{B}/loop.yaml", []byte("extends: loop.yaml\n")), vk.MkNode("{B}/loopa.yaml", []byte("extends: loopb.yaml\n")), vk.MkNode("{B}/loopb.yaml", []byte("extends: "+w.sub(a)+"\n")))
				w.Inv.Config = r.S("{B}/loop.yaml", "{B}/loopa.yaml")
			}
		case 14: // invocation
			if r.P(50) {
				w.Inv.Raw = wildArgs[r.N(len(wildArgs))]
				if r.P(50) {
					w.Inv.Raw = append(append([]string{}, w.Inv.Raw...), "--dir", "{B}/"+w.Mods[0].Dir+w.Pkgs[0].Sub)
				}
			} else {
				switch r.N(4) {
				case 0:
					w.Inv.Dir = r.S("{B}", "/", ".", "..", "{B}/nosuch", "./...", "{B}/...", "time", "C", "unsafe", w.importPath(0), w.importPath(0)+"/...", "~", "{B}//"+w.Mods[0].Dir, "f0.go", w.pkgDir(0)+"/f0.go")
				case 1:
					w.Inv.Format = r.S("", "YAML", "xml", "json:", "json:compact", ":", "go:x")
				case 2:
					w.Inv.Output = r.S("/", ".", "..", "{B}", "/dev/null", "/dev/stdout", "", "stdout ", "nosuch/x", "{B}/f\x00")
				case 3:
					w.Inv.Log = r.S("", "LOUD", "5", "trace", "debug")
				}
			}
		case 15: // packages in disorder
			switch r.N(9) {
			case 0:
				p.RawGo = append(p.RawGo, vk.MkNode("bad.go", []byte(r.S("package "+name+"\n\ntype B struct { X Nope; Y *T0x }\n", "package "+name+"\n\nimport \"example.com/nosuch\"\n\ntype B struct { X nosuch.T }\n", "package other\n\ntype B struct{}\n", "package "+name+"_test\n\ntype B struct{}\n", "package "+name+"\n\ntype B struct { B }\n", "package "+name+"\n\ntype B [len(x)]int\nvar x B\n", "package "+name+"\n\ntype B B\n", "package "+name+"\n\ntype B interface { B }\n", "package "+name+"\n\ntype ( B = C; C = B )\n", "package "+name+"\n\ntype B struct { X int; X string }\n", "package "+name+"\n\ntype Dup int\ntype Dup string\n", "", "package", "package "+name+"\n\nimport \"C\"\n", "package "+name+"\n\nimport _ \"unsafe\"\n\ntype B = undefined.X\n", "//go:build ignore\n\npackage main\n", "package "+name+"\n\nimport . \"time\"\n\ntype B = Time\n"))))
				use(r.S("go://#/B", "go://#/B/X", "go://#/Dup", "go://#/B/Y", "go://#/B/Y/*"))
			case 1: // no Go files at all
				p.Types = nil
				w.Extra = append(w.Extra, vk.Node{Path: "{B}/empty", Type: "d"})
				w.Inv.Dir = "{B}/empty"
			case 2: // import cycle
				if len(w.Pkgs) > 1 {
					k := 1 + r.N(len(w.Pkgs)-1)
					w.Pkgs[k].RawGo = append(w.Pkgs[k].RawGo, vk.MkNode("cyc.go", []byte("package "+w.Pkgs[k].Name+"\n\nimport _ \""+w.importPath(0)+"\"\n")))
				}
			case 3:
				p.RawGo = append(p.RawGo, vk.MkNode("bad.go", []byte(wildText(r, "package "+name+"\n\ntype B struct {\n\tX string `json:\"x\"`\n}\n\n// openapi:schema B\n", "package x\n"))))
			case 4: // specification names that are no files
				d := "{B}/" + strings.TrimPrefix(w.pkgDir(0), w.Base+"/")
				if strings.HasPrefix(w.Mods[w.Pkgs[0].Mod].Dir, "/") {
					break
				}
				f := r.S("oapi.yaml", "oapi.json", "oapi.yml")
				w.Pkgs[0].Specs = nil
				w.Extra = append(w.Extra, []vk.Node{{Path: d + "/" + f, Type: "d"}, {Path: d + "/" + f, Type: "l", Data: "nowhere"}, {Path: d + "/" + f, Type: "l", Data: f}, {Path: d + "/" + f, Type: "l", Data: "."}, {Path: d + "/" + f, Type: "l", Data: "/dev/null"}, {Path: d + "/" + f, Type: "l", Data: "f0.go"}}[r.N(6)])
			case 5:
				w.Extra = append(w.Extra, vk.MkNode("{B}/"+w.Mods[0].Dir+"/go.mod", []byte(r.S("", "module", "not a go.mod", "module x y\n", "module "+w.Mods[0].Path+"\n\ngo 9.99\n"))))
			case 6:
				p.Name = r.S("main", "_", "x_test", "func", "1x", "")
			case 7:
				for k := 0; k < 30; k++ {
					p.RawGo = append(p.RawGo, vk.MkNode(fmt.Sprintf("many%d.go", k), []byte(fmt.Sprintf("package %s\n\ntype Many%d struct { X *Many%d }\n", name, k, (k+1)%30))))
				}
				use("go://#/Many0")
			case 8: // a chain of types
				s := "package " + name + "\n\n"
				for k := 0; k < 60; k++ {
					s += fmt.Sprintf("type Ch%d %sCh%d\n", k, r.S("[]", "map[string]", "*", "", "[]"), k+1)
				}
				p.RawGo = append(p.RawGo, vk.MkNode("chain.go", []byte(s+"type Ch60 "+r.S("string", "Ch0x", "[]Ch0", "struct { X *Ch0 }")+"\n")))
				use("go://#/Ch0")
			}
		case 16: // specification next to others
			p.Specs = append(p.Specs, Spec{File: r.S("oapi.yaml", "oapi.yml", "oapi.json", "my.oapi.yaml", "oapi.yaml.bak", "OAPI.YAML"), IsRaw: true, Raw: wildYAML[r.N(len(wildYAML))]})
		case 17:
			s := spec()
			s.Raw, s.IsRaw = "openapi: \"3.0.0\"\npaths:\n  /x:\n    get: {$ref: \"go://#/T0\"}\n    "+r.S("parameters", "post", "$ref", "x-y", "200")+": "+r.S("5", "{}", "[]", "null", "{$ref: [x]}", "- {$ref: 'go://#/T0'}")+"\n", true
		default: // operating system in disorder
			c.N = map[string]int{"faults": 1}
		}
	}
	if r.P(45) && w.Inv.Raw == nil {
		c.Base = api(c.Base, r.S(allFormats...))
	}
	return c
}

func judge16(c *Case, x *Exec) *Viol {
	r0 := x.run(c, c.Base)
	if b := crashed(r0); b != "" {
		return c.viol("crash", b, c.Base)
	}
	for _, rs := range c.runs(func(r *Rng) (out []RunSpec) {
		n := 1
		if c.N["faults"] > 0 {
			n = 3
		}
		for ; n > 0; n-- {
			rs := noise(r, c.Base)
			if c.N["faults"] > 0 {
				for k := r.R(1, 3); k > 0; k-- {
					if i := pickOp(r, r0.Ops, func(o vk.OpRec) bool { return !strings.Contains(o.Path, "/std") }); i >= 0 {
						f := opFault(r0.Ops, i)
						f.Count = r.N(3)
						f.Errno = append(hardErr, vk.EINTR, vk.ENOENT, vk.ENOTDIR, vk.EINVAL, vk.EAGAIN, vk.ENOSPC)[r.N(len(hardErr)+6)]
						if f.Errno == vk.EINTR || f.Errno == vk.EAGAIN {
							f.Count = r.R(1, 4)
						}
						if r.P(25) {
							f.Path, f.Nth = "{B}*", r.N(20)
						}
						rs.Faults = append(rs.Faults, f)
					}
				}
				if r.P(15) {
					rs.LoaderFail = r.S("x", "go: no", "go: updates to go.mod needed", "exit")
					rs.LoaderFailAt = r.N(3)
				}
				if r.P(15) && !rs.API {
					rs.Stdout = r.S("closed", "pipe", "full")
				}
				if r.P(15) {
					rs.MaxFD = r.R(3, 12)
				}
				if r.P(15) {
					rs.DiskFree = int64(r.R(1, 500))
				}
				if r.P(20) && !rs.API {
					rs.Events = append(rs.Events, vk.Event{Step: int64(r.R(1, int(r0.Steps)+1)), Kind: r.S("SIGINT", "SIGTERM", "SIGHUP")})
				}
			}
			out = append(out, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		if b := crashed(r); b != "" {
			return c.viol("crash", b, rs)
		}
	}
	return nil
}
