package main

import (
	"fmt"
	"strings"

	"vsim/vk"
)

// GOpt steers the generator.
type GOpt struct {
	Base       string
	MinPkgs    int
	MaxPkgs    int
	MaxTypes   int
	MaxFields  int
	Tags       int // percent of fields with constraint tags
	Twins      int // percent: a structurally identical type is added
	Anon       int // percent of struct-typed fields that are anonymous structs
	Embed      int
	Recursion  int // percent: a reference may go backwards inside the package
	Unsup      int // percent of fields that cannot be described
	Exports    int // percent of struct types that are exported
	Simple     bool
	Specs      int // percent of packages with a specification
	MultiSpec  int // percent: more specification files in a package
	MaxPaths   int
	Refs       int // percent of schemas that are references
	FieldRefs  int // percent of references that go to a field or element
	Dups       int // percent: part of a specification is repeated elsewhere
	Decoys     int // percent: files that must be ignored
	WeirdKeys  int
	Comps      int // percent: specification has components
	LocalRefs  int
	Unreach    int // percent: an unreachable package with a specification
	CfgPct     int
	Overrides  int
	DefOps     int
	RootComps  int
	Ext        int // percent: configuration extends another
	CLI        int
	NoVersion  int
	Mods       int // percent: second module
	Chains     int // percent: long chain of types or deeply nested document
	MaxOutSize int
	Big        int // percent: very long files, crowded directories
}

func baseOpt() GOpt {
	return GOpt{Base: "/w/src", MinPkgs: 1, MaxPkgs: 4, MaxTypes: 4, MaxFields: 5, Tags: 35, Twins: 20, Anon: 15, Embed: 12, Recursion: 25,
		Specs: 65, MultiSpec: 20, MaxPaths: 4, Refs: 55, FieldRefs: 15, Dups: 15, Decoys: 15, WeirdKeys: 12, Comps: 35, LocalRefs: 10, Mods: 40, Chains: 6, Big: 2, MaxOutSize: 4000}
}

type gen struct {
	r     *Rng
	o     GOpt
	w     *World
	n     int
	used  map[string]bool
	embed map[string]map[string]bool // what struct types embed, directly or not
	wd    *bool
}

func (g *gen) id() int { g.n++; return g.n }

var modPaths = []string{"example.com/app", "github.com/org/repo", "app", "example.com/x-y_z/app", "example.com/my.app/v2", "gitlab.com/a/b/c", "acme/shop", "std.example/go", "x.io"}
var typeNames = []string{"Item", "Order", "User", "Node", "Group", "Money", "Leaf", "Page", "Error_", "T", "Resp", "Meta", "A", "ItemList"}
var fieldNames = []string{"ID", "Name", "Value", "Count", "Tags", "Meta", "Parent", "Child", "Next", "Data", "URL", "X", "On"}
var propNames = []string{"id", "name", "value", "count", "snake_case", "camelCase", "x-y", "ID"}
var weirdNames = []string{"a.b", "x~y", "a/b", "$id", "ünï", "properties", "type", "~1", "$ref.x", "..", "0", "a b"}

// genWorld makes a project whose run is expected to succeed unless the
// options ask for failing ingredients.
func genWorld(r *Rng, o GOpt) *World {
	for try := 0; ; try++ {
		g := &gen{r: r, o: o, used: map[string]bool{}, embed: map[string]map[string]bool{}}
		w := g.world()
		if try > 30 {
			o.Recursion, o.Refs, o.MaxFields = 0, 20, 2
		}
		e := w.expect()
		if e.Fail == "size" || e.Fail == "shared" {
			continue
		}
		if e.Fail != "" && o.Unsup == 0 && try < 60 {
			if e.Fail == whyRef || e.Fail == whyType || e.Fail == whyConflict || e.Fail == whyVersion && o.NoVersion == 0 {
				if o.Exports > 0 && e.Fail == whyConflict {
					continue
				}
				panic("generator made a failing project: " + e.Fail + " " + e.Msg + "\n" + string(toJSON(w)))
			}
		}
		if e.Fail == "" && len(mustJSON(e.Final)) > o.MaxOutSize*10 {
			continue
		}
		if w.goError() != nil && try < 60 {
			continue
		}
		return w
	}
}

func (g *gen) world() *World {
	r, o := g.r, g.o
	w := &World{Base: o.Base}
	g.w = w
	main := r.S(modPaths...)
	w.Mods = []Mod{{Path: main, Dir: "app"}}
	if r.P(o.Mods) {
		switch r.N(5) {
		case 4: // same path on another host
			p := "example.org/dep"
			if k := strings.IndexByte(main, '/'); k > 0 {
				p = "example.org" + main[k:]
			}
			w.Mods = append(w.Mods, Mod{Path: p, Dir: "mod/other@v1.0.0", Version: "v1.0.0"})
		case 0:
			w.Mods = append(w.Mods, Mod{Path: "example.com/dep", Dir: r.S("", "/root/go/pkg/", "/srv/") + "mod/example.com/dep@v1.2.3", Version: "v1.2.3"})
		case 1:
			w.Mods = append(w.Mods, Mod{Path: main + "/sub", Dir: "app/sub"})
		case 2:
			w.Mods = append(w.Mods, Mod{Path: "example.com/dep.v3", Dir: "local", Version: "v3.0.0", Replaced: "../local"})
		case 3:
			w.Mods = append(w.Mods, Mod{Path: main + "dep", Dir: "mod/appdep@v0.1.0", Version: "v0.1.0"})
		}
	}
	np := r.R(o.MinPkgs, o.MaxPkgs)
	subs := []string{"/items", "/items/detail", "/internal/model", "/a", "/a/b", "/pkg/items", "/types", "/x.y", "/app", "/v2", "/go-lib"}
	r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	rootOK := map[int]bool{}
	for i := 0; i < np; i++ {
		p := Pkg{Files: r.R(1, 2)}
		if i > 0 {
			p.Mod = r.N(len(w.Mods))
			if p.Mod > 0 && !rootOK[p.Mod] && r.P(50) {
				rootOK[p.Mod] = true
			} else {
				p.Sub = subs[i]
			}
		} else if r.P(15) {
			p.Sub = "/cmd/tool"
		}
		seg := strings.Split(w.Mods[p.Mod].Path+p.Sub, "/")
		p.Name = strings.NewReplacer(".", "", "-", "", "_", "").Replace(seg[len(seg)-1])
		if p.Name == "v2" || r.P(10) {
			p.Name = "pkg" // package name differs from the directory
		}
		if i == 0 && r.P(60) {
			p.Name = "main"
		}
		w.Pkgs = append(w.Pkgs, p)
	}
	// declare names first, then bodies, so that types can refer to each other
	for i := range w.Pkgs {
		nt := r.R(1, o.MaxTypes)
		if i > 0 && !o.Simple && r.P(8) {
			nt = 0 // a package for its specification alone
		}
		seen := map[string]bool{}
		for k := 0; k < nt; k++ {
			n := r.S(typeNames...)
			if r.P(8) {
				n = strings.ToLower(n[:1]) + n[1:]
				if n == "a" || n == "t" || n == "error_" {
					n += "x"
				}
			}
			if k > 0 && r.P(8) { // differs in case from one which is there
				old := w.Pkgs[i].Types[r.N(len(w.Pkgs[i].Types))].Name
				n = []string{strings.ToUpper(old), old[:1] + strings.ToUpper(old[1:]), strings.ToUpper(old[:1]) + strings.ToLower(old[1:])}[r.N(3)]
			}
			if r.P(2) {
				n += strings.Repeat("OfLongName", r.R(10, 40))
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			w.Pkgs[i].Types = append(w.Pkgs[i].Types, TypeDecl{Name: n})
		}
	}
	for i := len(w.Pkgs) - 1; i >= 0; i-- {
		p := &w.Pkgs[i]
		for k := len(p.Types) - 1; k >= 0; k-- {
			d := &p.Types[k]
			if o.Simple {
				d.T = g.structType(i, k, 0)
				continue
			}
			switch x := r.N(100); {
			case x < 72:
				d.T = g.structType(i, k, 0)
			case x < 80:
				d.T = &TE{K: "basic", Name: r.S("string", "int", "int64", "float64", "bool", "uint8")}
			case x < 93:
				e := g.typ(i, k, 1)
				if g.mentionsOwn(e, i, k) && e.K == "named" && r.P(50) {
					e = &TE{K: "basic", Name: "string"}
				}
				switch r.N(3) {
				case 0:
					d.T = &TE{K: "slice", Elem: e}
				case 1:
					d.T = &TE{K: "map", Key: &TE{K: "basic", Name: "string"}, Elem: e}
				case 2:
					d.T = &TE{K: "array", Len: r.R(0, 3), Elem: &TE{K: "basic", Name: r.S("int", "string")}}
				}
			default:
				if r.P(25) {
					// a name for what has none, or for the time
					d.Alias = true
					d.T = &TE{K: "time"}
					if e := g.laterNamed(i, k); e != nil && r.P(60) {
						d.T = &TE{K: r.S("slice", "ptr", "map"), Elem: e, Key: &TE{K: "basic", Name: "string"}}
						if d.T.K != "map" {
							d.T.Key = nil
						}
					}
				} else if t := g.laterNamed(i, k); t != nil {
					d.T = t
					d.Alias = r.P(50)
					if u := w.decl(t.Pkg, t.Name); !d.Alias && (u.Alias || hasAnon(u.T) || u.T.K == "named") {
						d.Alias = true
					}
				} else {
					d.T = g.structType(i, k, 0)
				}
			}
		}
		if r.P(o.Twins) {
			g.twin(i)
		}
	}
	if r.P(o.Chains) {
		g.chain(r.N(len(w.Pkgs)))
	}
	// make packages reachable
	for i := 1; i < np; i++ {
		if !w.reachable()[i] {
			from := r.N(i)
			w.Pkgs[from].Imports = append(w.Pkgs[from].Imports, i)
		}
	}
	if r.P(20) && np > 2 {
		w.Pkgs[0].Imports = append(w.Pkgs[0].Imports, r.R(1, np-1))
	}
	g.exports()
	g.specs()
	if !o.Simple {
		g.methods()
	}
	if r.P(o.Big) {
		var l []*Spec
		for i := range w.Pkgs {
			for k := range w.Pkgs[i].Specs {
				l = append(l, &w.Pkgs[i].Specs[k])
			}
		}
		if len(l) > 0 {
			l[r.N(len(l))].Pad = []int{5000, 66000, 70000, 140000, 1100000}[r.N(5)]
		}
	}
	for i := range w.Pkgs {
		for k := range w.Pkgs[i].Specs {
			if r.P(4) {
				w.Pkgs[i].Specs[k].Link = r.S("", "/") + fmt.Sprintf("shared/%d/%s", g.id(), r.S("spec", "oapi.yaml", "api.json", "."+w.Pkgs[i].Specs[k].File, "document.txt"))
			}
		}
	}
	if r.P(o.Big) {
		w.Pkgs[r.N(len(w.Pkgs))].Crowd = r.R(60, 300)
	}
	if r.P(o.Unreach) {
		p := Pkg{Mod: 0, Sub: "/unused", Name: "unused", Files: 1}
		p.Types = []TypeDecl{{Name: "Lost", T: &TE{K: "struct"}}}
		p.Specs = []Spec{{File: "oapi.yaml", Doc: M{"openapi": "3.0.3", "paths": M{"/unused": M{"get": M{"summary": "lost"}}}, "x-lost": true}}}
		w.Pkgs = append(w.Pkgs, p)
	}
	if r.P(o.Decoys) {
		g.aside()
	}
	w.Inv = Inv{Cwd: strings.TrimPrefix(w.pkgDir(0), w.Base+"/")}
	if r.P(o.CfgPct) {
		g.config()
	}
	return w
}

// aside adds Go files which are no part of their package: tests, and files for
// elsewhere. They need what nobody else does.
func (g *gen) aside() {
	w, r := g.w, g.r
	i := 0
	if r.P(20) {
		i = r.N(len(w.Pkgs))
	}
	dir := w.pkgDir(i)
	if !strings.HasPrefix(dir+"/", w.Base+"/") {
		return
	}
	f, head := r.S("x_test.go", "f0_test.go", "export_test.go"), ""
	name := w.Pkgs[i].Name
	switch r.N(6) {
	case 0:
		name += "_test"
	case 1:
		f, head = r.S("gen.go", "zz.go"), r.S("//go:build ignore\n// +build ignore\n\n", "//go:build !linux\n// +build !linux\n\n", "//go:build never && linux\n\n")
		name = r.S(name, "main")
	case 2:
		f = r.S("x_windows.go", "_x.go", ".hidden.go", "x_darwin.go")
	}
	body := head + "package " + name + "\n\nimport (\n"
	for j := range w.Pkgs {
		if j != i && w.Pkgs[j].Name != "main" && (r.P(40) || w.Pkgs[j].Sub == "/unused") {
			body += "\t_ \"" + w.importPath(j) + "\"\n"
		}
	}
	body += ")\n\n//openapi:schema OnlyInTest InTest\n\ntype OnlyInTest struct{ X int }\n"
	w.Extra = append(w.Extra, vk.Node{Path: "{B}" + strings.TrimPrefix(dir, w.Base) + "/" + f, Data: body})
}

// methods gives some types methods, which have no part in their schema.
func (g *gen) methods() {
	r := g.r
	for i := range g.w.Pkgs {
		for k := range g.w.Pkgs[i].Types {
			d := &g.w.Pkgs[i].Types[k]
			if d.Alias || d.T == nil || !r.P(10) {
				continue
			}
			switch d.T.K {
			case "struct", "basic", "slice", "array", "map":
				for _, m := range []string{"String() string { return \"\" }", "MarshalJSON() ([]byte, error) { return nil, nil }", "MarshalText() ([]byte, error) { return nil, nil }", "UnmarshalJSON([]byte) error { return nil }", "Error() string { return \"\" }", "MarshalYAML() (interface{}, error) { return nil, nil }", "IsZero() bool { return true }", "Schema() string { return \"\" }", "Enum() []string { return nil }", "helper() {}"} {
					if r.P(25) {
						d.Methods = append(d.Methods, r.S("", "", "*")+d.Name+") "+m)
					}
				}
			}
		}
	}
}

// chain adds types nested into each other much deeper than usual.
func (g *gen) chain(i int) {
	r, p := g.r, &g.w.Pkgs[i]
	n := r.R(8, 40)
	if r.P(20) {
		n = r.R(40, 90)
	}
	embed := 0
	if r.P(40) {
		embed = []int{15, 50, 100}[r.N(3)]
	}
	for k := 0; k < n; k++ {
		t := &TE{K: "struct", Fields: []Field{{Name: fmt.Sprintf("V%d", k), T: g.basic()}}}
		if k+1 < n {
			next := &TE{K: "named", Pkg: i, Name: fmt.Sprintf("Chain%d", k+1)}
			if r.P(embed) {
				f := Field{Name: next.Name, Embed: true, T: next}
				if r.P(30) {
					f.T = &TE{K: "ptr", Elem: next}
				}
				t.Fields = append(t.Fields, f)
				p.Types = append(p.Types, TypeDecl{Name: fmt.Sprintf("Chain%d", k), T: t})
				continue
			}
			switch r.N(8) {
			case 0:
				next = &TE{K: "slice", Elem: next}
			case 1:
				next = &TE{K: "map", Key: &TE{K: "basic", Name: "string"}, Elem: next}
			case 2:
				next = &TE{K: "ptr", Elem: next}
			}
			t.Fields = append(t.Fields, Field{Name: "Next", T: next})
		} else if r.P(30) {
			back := &TE{K: "named", Pkg: i, Name: fmt.Sprintf("Chain%d", r.N(2))}
			t.Fields = append(t.Fields, Field{Name: "Next", T: &TE{K: r.S("ptr", "slice"), Elem: back}})
		}
		p.Types = append(p.Types, TypeDecl{Name: fmt.Sprintf("Chain%d", k), T: t})
	}
}

func hasAnon(t *TE) bool {
	if t == nil {
		return false
	}
	for _, f := range t.Fields {
		if inAnon(f.T) {
			return true
		}
	}
	return false
}

func inAnon(t *TE) bool {
	return t != nil && (t.K == "struct" || inAnon(t.Elem))
}

func (g *gen) mentionsOwn(t *TE, i, k int) bool {
	return t != nil && (t.K == "named" && t.Pkg == i && t.Name == g.w.Pkgs[i].Types[k].Name || g.mentionsOwn(t.Elem, i, k))
}

// laterNamed picks a named type declared after (i,k), so that definitions
// built from it are well founded.
func (g *gen) laterNamed(i, k int) *TE {
	var c []*TE
	for j := k + 1; j < len(g.w.Pkgs[i].Types); j++ {
		c = append(c, &TE{K: "named", Pkg: i, Name: g.w.Pkgs[i].Types[j].Name})
	}
	for q := i + 1; q < len(g.w.Pkgs); q++ {
		for _, d := range g.w.Pkgs[q].Types {
			if exported(d.Name) {
				c = append(c, &TE{K: "named", Pkg: q, Name: d.Name})
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.N(len(c))]
}

// anyNamed may also go backwards inside the package (recursion); safe only
// behind a pointer, slice or map.
func (g *gen) anyNamed(i, k int, back bool) *TE {
	if back && g.r.P(g.o.Recursion) {
		ts := g.w.Pkgs[i].Types[:k+1]
		d := ts[g.r.N(len(ts))]
		return &TE{K: "named", Pkg: i, Name: d.Name}
	}
	return g.laterNamed(i, k)
}

var basics = []string{"string", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune"}

func (g *gen) basic() *TE {
	if g.o.Simple {
		return &TE{K: "basic", Name: g.r.S("string", "int64", "bool")}
	}
	return &TE{K: "basic", Name: g.r.S(basics...)}
}

func (g *gen) typ(i, k, depth int) *TE {
	r := g.r
	if depth > 3 {
		return g.basic()
	}
	x := r.N(100)
	switch {
	case x < 35:
		return g.basic()
	case x < 55:
		if t := g.laterNamed(i, k); t != nil && depth <= 1 {
			return t
		}
		if t := g.anyNamed(i, k, true); t != nil {
			return &TE{K: "ptr", Elem: t}
		}
		return g.basic()
	case x < 70:
		if t := g.anyNamed(i, k, true); t != nil {
			return &TE{K: "ptr", Elem: t}
		}
		return &TE{K: "ptr", Elem: g.basic()}
	case x < 82:
		if t := g.anyNamed(i, k, true); t != nil && r.P(60) {
			return &TE{K: "slice", Elem: t}
		}
		return &TE{K: "slice", Elem: g.typ(i, k, depth+1)}
	case x < 91:
		if t := g.anyNamed(i, k, true); t != nil && r.P(60) {
			return &TE{K: "map", Key: &TE{K: "basic", Name: "string"}, Elem: t}
		}
		return &TE{K: "map", Key: &TE{K: "basic", Name: r.S("string", "string", "string", "int", "bool", "uint8", "float64", "int64", "rune")}, Elem: g.typ(i, k, depth+1)}
	case x < 95 && !g.o.Simple:
		return &TE{K: "time"}
	case x < 97 && !g.o.Simple:
		return &TE{K: "dur"}
	case x < 99 && !g.o.Simple:
		return &TE{K: "array", Len: r.R(0, 4), Elem: g.typ(i, k, depth+1)}
	}
	if r.P(50) && !g.o.Simple {
		return &TE{K: "ptr", Elem: g.typ(i, k, depth+1)}
	}
	return g.basic()
}

func (g *gen) structType(i, k, depth int) *TE {
	r, o := g.r, g.o
	t := &TE{K: "struct"}
	n := r.R(0, o.MaxFields)
	if n == 0 && r.P(70) {
		n = 1
	}
	self := fmt.Sprintf("%d.%s", i, g.w.Pkgs[i].Types[k].Name)
	embedded := map[string]bool{}
	for j := 0; j < n; j++ {
		f := Field{Name: fmt.Sprintf("%s%d", r.S(fieldNames...), g.id())}
		switch {
		case r.P(o.Unsup):
			f.T = &TE{K: r.S("iface", "chan", "func", "complex", "uintptr", "error")}
			if r.P(30) {
				f.T = &TE{K: "slice", Elem: f.T}
			}
		case depth < 2 && r.P(o.Anon):
			f.T = g.structType(i, k, depth+1)
			switch r.N(5) {
			case 0:
				f.T = &TE{K: "ptr", Elem: f.T}
			case 1:
				f.T = &TE{K: "slice", Elem: f.T}
			case 2:
				f.T = &TE{K: "map", Key: &TE{K: "basic", Name: "string"}, Elem: f.T}
			}
		case depth == 0 && r.P(o.Embed):
			e := g.laterNamed(i, k)
			if e == nil || !exported(e.Name) {
				f.T = g.basic()
				break
			}
			key := fmt.Sprintf("%d.%s", e.Pkg, e.Name)
			d := g.w.decl(e.Pkg, e.Name)
			if d.Alias || d.T.K != "struct" || strings.HasSuffix(e.Name, "Twin") || embedded[e.Name] || self == key || g.overlap(self, key) {
				f.T = g.basic()
				break
			}
			if g.embed[self] == nil {
				g.embed[self] = map[string]bool{}
			}
			g.embed[self][key] = true
			for q := range g.embed[key] {
				g.embed[self][q] = true
			}
			if r.P(25) { // a field whose tag asks for the same
				f.T = e
				if r.P(40) {
					f.T = &TE{K: "ptr", Elem: e}
				}
				yes := r.S("", "", "true", "1", "T")
				switch r.N(4) {
				case 0:
					f.Tag = &Tag{JOpts: []Opt{{"inline", yes}}}
				case 1:
					f.Tag = &Tag{JSON: g.propName(), JOpts: []Opt{{"inline", r.S("false", "")}}, Opts: []Opt{{"inline", yes}}}
				case 2:
					f.Tag = &Tag{JOpts: []Opt{{"inline", ""}}, Opts: []Opt{{"inline", "false"}}}
				default:
					f.Tag = &Tag{Opts: []Opt{{"inline", yes}}}
				}
				t.Fields = append(t.Fields, f)
				continue
			}
			embedded[e.Name] = true
			f.Embed, f.Name, f.T = true, e.Name, e
			if r.P(40) {
				f.T = &TE{K: "ptr", Elem: e}
			}
			if r.P(15) {
				f.Tag = &Tag{Opts: []Opt{{"inline", "false"}}}
			}
			t.Fields = append(t.Fields, f)
			continue
		default:
			f.T = g.typ(i, k, 0)
		}
		if r.P(4) {
			f.Name = strings.ToLower(f.Name) // not exported
			if inAnon(f.T) {
				f.T = g.basic()
			}
		}
		f.Tag = g.tag(f)
		t.Fields = append(t.Fields, f)
	}
	return t
}

// overlap: fields of what is embedded would be there twice.
func (g *gen) overlap(self, key string) bool {
	if g.embed[self][key] {
		return true
	}
	for q := range g.embed[key] {
		if q == self || g.embed[self][q] {
			return true
		}
	}
	return false
}

func (g *gen) propName() string {
	n := g.r.S(propNames...)
	if g.r.P(g.o.WeirdKeys) {
		n = g.r.S(weirdNames...)
	}
	return fmt.Sprintf("%s%d", n, g.id())
}

func (g *gen) tag(f Field) *Tag {
	r := g.r
	t := &Tag{}
	if r.P(60) {
		t.JSON = g.propName()
		if r.P(30) {
			t.JOpts = append(t.JOpts, Opt{K: "omitempty"})
		}
	} else if r.P(10) {
		t.JOpts = []Opt{{K: "omitempty"}}
	}
	if r.P(10) {
		t.Other = `yaml:"zz,omitempty"`
	}
	if r.P(3) {
		if r.P(50) {
			t.JSON, t.JOpts = "-", nil
		} else {
			t.OAPI = "-"
			return t
		}
	}
	if g.o.Simple {
		if r.P(20) {
			t.Opts = []Opt{{K: "required"}}
		}
		return t
	}
	if !r.P(g.o.Tags) {
		return t
	}
	if r.P(25) {
		t.OAPI = g.propName()
	}
	add := func(pct int, k string, v string) {
		if r.P(pct) {
			t.Opts = append(t.Opts, Opt{k, v})
		}
	}
	bv := func() string {
		if r.P(20) {
			return r.S("t", "f", "T", "F", "TRUE", "FALSE", "True", "False")
		}
		return r.S("", "", "true", "false", "1", "0")
	}
	add(30, "required", bv())
	add(6, "omitempty", bv())
	add(20, "nullable", bv())
	add(10, "readonly", bv())
	add(10, "writeonly", bv())
	add(10, "deprecated", bv())
	add(12, "unique", bv())
	num := func() string { return fmt.Sprint(r.R(-3, 40)) }
	fl := func() string {
		if r.P(15) {
			return r.S("007", "010", ".5", "5.", "+2", "-0.5", "1E2", "-007.5")
		}
		return r.S("0.5", "-1.25", "3", "1e3", "0", "100", "0.001")
	}
	nat := func() string {
		if r.P(15) {
			return r.S("007", "010", "08", "+3", "00", "1000000")
		}
		return fmt.Sprint(r.R(0, 60))
	}
	_ = num
	add(12, "min", fl())
	add(12, "max", fl())
	add(8, "emin", fl())
	add(8, "emax", fl())
	add(8, "mulof", r.S("2", "0.1", "5"))
	add(12, "minlen", nat())
	add(12, "maxlen", nat())
	add(10, "minitems", nat())
	add(10, "maxitems", nat())
	add(8, "minprops", nat())
	add(8, "maxprops", nat())
	add(10, "pattern", r.S("^[a-z]+$", "^x$", `[0-9]*`))
	add(12, "format", r.S("email", "date-time", "uuid", "x-custom"))
	add(12, "type", r.S("string", "int", "int64", "float", "double", "bool", "base64", "uuid", "password", "number", "object", "integer", "uint", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "float32", "float64"))
	if inStruct(f.T) && r.P(10) && g.inlineOK(f.T) {
		t.Opts = append(t.Opts, Opt{K: "inline"})
	}
	if n := len(f.Name); noInline(f.T) && n > 0 && (f.Name[n-1] == '7' || f.T.K == "ptr" && f.Name[n-1]%2 == 0) && !tagHas(t, "inline") {
		// asks for something which is not possible: it is a field like others
		t.Opts = append(t.Opts, Opt{K: "inline"})
	}
	return t
}

// noInline: fields of this type are never flattened.
func noInline(t *TE) bool {
	switch t.K {
	case "slice", "array", "map":
		return true
	case "ptr":
		return t.Elem.K == "ptr" || noInline(t.Elem)
	}
	return false
}

func tagHas(t *Tag, k string) bool {
	for _, o := range append(t.Opts[:len(t.Opts):len(t.Opts)], t.JOpts...) {
		if o.K == k {
			return true
		}
	}
	return false
}

func inStruct(t *TE) bool {
	return t.K == "struct" || t.K == "ptr" && t.Elem.K == "struct"
}

// inlineOK: flattening an anonymous struct cannot collide as field and
// property names are unique in a project.
func (g *gen) inlineOK(t *TE) bool { return true }

// twin adds a type with the same structure as an existing one.
func (g *gen) twin(i int) {
	p := &g.w.Pkgs[i]
	q := g.r.R(i, len(g.w.Pkgs)-1)
	src := g.w.Pkgs[q].Types
	if len(src) == 0 {
		return
	}
	d := src[g.r.N(len(src))]
	if d.Alias {
		return
	}
	n := d.Name + "Twin"
	if !exported(n) {
		n = "X" + n
	}
	for _, t := range p.Types {
		if t.Name == n {
			return
		}
	}
	var c TE
	fromJSON(toJSON(d.T), &c)
	if q != i && g.lowNamed(&c, q) {
		return
	}
	// declared first: it may refer to all others
	p.Types = append([]TypeDecl{{Name: n, T: &c}}, p.Types...)
	// and something refers to both, side by side
	if g.r.P(60) {
		tw := fmt.Sprintf("Both%d", g.id())
		ref := func(pk int, name string) *TE {
			t := &TE{K: "named", Pkg: pk, Name: name}
			switch g.r.N(3) {
			case 0:
				return &TE{K: "ptr", Elem: t}
			case 1:
				return &TE{K: "slice", Elem: t}
			}
			return t
		}
		if q == i || exported(d.Name) {
			s := &TE{K: "struct", Fields: []Field{
				{Name: fmt.Sprintf("F%d", g.id()), T: ref(i, n)},
				{Name: fmt.Sprintf("F%d", g.id()), T: ref(q, d.Name)},
			}}
			if g.r.P(50) {
				s.Fields[0], s.Fields[1] = s.Fields[1], s.Fields[0]
			}
			p.Types = append([]TypeDecl{{Name: tw, T: s}}, p.Types...)
		}
	}
}

// lowNamed: the type mentions unexported types or fields-by-embedding of its package.
func (g *gen) lowNamed(t *TE, q int) bool {
	if t == nil {
		return false
	}
	if t.K == "named" && !exported(t.Name) {
		return true
	}
	if g.lowNamed(t.Elem, q) || g.lowNamed(t.Key, q) {
		return true
	}
	for _, f := range t.Fields {
		if g.lowNamed(f.T, q) || f.Embed {
			return true
		}
	}
	return false
}

func (g *gen) exports() {
	r := g.r
	names := map[string]bool{}
	for i := range g.w.Pkgs {
		p := &g.w.Pkgs[i]
		for _, d := range p.Types {
			if d.Alias || d.T.K != "struct" || !exported(d.Name) || !r.P(g.o.Exports) {
				continue
			}
			n := d.Name
			form := r.N(4)
			if form > 0 {
				n = r.S(d.Name, d.Name+"Dto", "my."+d.Name, "x~"+d.Name, strings.ToLower(d.Name), "P_"+d.Name)
				if r.P(10) {
					n = "a/" + d.Name
				}
			}
			if names[n] {
				n = fmt.Sprintf("%s%d", d.Name, g.id())
				if form == 0 {
					form = 1
				}
			}
			names[n] = true
			full := goPtr(g.w.importPath(i), d.Name)
			c := ""
			where := i
			switch form {
			case 0:
				c = "openapi:schema " + n
			case 1:
				c = "openapi:schema " + n + " " + d.Name
			case 2:
				c = "openapi:schema " + n + " go://#/" + d.Name
			case 3:
				c = "openapi:schema " + n + " " + full
				where = r.N(len(g.w.Pkgs))
			}
			if r.P(10) {
				c += "  "
			}
			q := &g.w.Pkgs[where]
			q.Comments = append(q.Comments, c)
		}
		if r.P(10) {
			c := r.S(" openapi is great", "openap", " plain comment", "go:generate true")
			if len(p.Types) > 0 && r.P(60) { // not a magic comment either
				c = r.S(" openapi:schema Decoy ", "\topenapi:schema Decoy ", "Openapi:schema Decoy ", " +openapi:schema Decoy ", "/openapi:schema Decoy ", "go:openapi:schema Decoy ", "open api:schema Decoy ") + p.Types[r.N(len(p.Types))].Name
			}
			p.Comments = append(p.Comments, c)
		}
	}
}

// goRef makes a reference that can be followed from package i.
func (g *gen) goRef(i int, short bool) string {
	w, r := g.w, g.r
	pk := i
	if r.P(50) {
		pk = r.N(len(w.Pkgs))
	}
	if !w.reachable()[pk] {
		pk = i
	}
	ts := w.Pkgs[pk].Types
	if len(ts) == 0 {
		return ""
	}
	d := ts[r.N(len(ts))]
	frag := []string{d.Name}
	if r.P(g.o.FieldRefs) {
		t := res{&TE{K: "named", Pkg: pk, Name: d.Name}, pk, ""}
		for n := r.R(1, 3); n > 0; n-- {
			u := w.under(t)
			if u.te.K == "struct" {
				var c []Field
				for _, f := range u.te.Fields {
					if exported(f.Name) && f.T.K != "chan" && f.T.K != "dur" && f.T.K != "time" {
						c = append(c, f)
					}
				}
				if len(c) == 0 {
					break
				}
				f := c[r.N(len(c))]
				frag = append(frag, f.Name)
				t = res{f.T, u.pkg, ""}
			} else if u.te.K == "slice" || u.te.K == "array" || u.te.K == "map" {
				frag = append(frag, "[]")
				t = res{u.te.Elem, u.pkg, ""}
			} else if u.te.K == "ptr" {
				frag = append(frag, "*")
				t = res{u.te.Elem, u.pkg, ""}
			} else {
				break
			}
			if k := w.under(t).te.K; k == "dur" || k == "time" {
				break
			}
		}
	}
	if pk == i && short && r.P(60) {
		return goPtr("", frag...)
	}
	if r.P(3) {
		return "go://time#/Time"
	}
	return goPtr(w.importPath(pk), frag...)
}

func (g *gen) str() string {
	r := g.r
	switch r.N(12) {
	case 0:
		return r.S("yes", "no", "null", "true", "1.0", "0x1F", "2020-01-01", "~", "", " ", "- a", "a: b", "#c", "1e3", "0o7x", "=", "<<",
			"12:30:45", "1_000", "0b11", ".inf", ".NaN", "-.Inf", "+1", "0777", "-0", ".5", "1.", "y", "N", "On", "OFF", "Null", "~x", "!!str x", "!tag", "%x", "@x", "`x`", "|", ">", ">-", "[x]", "{x}", "*x", "&x", "? a", "-", "--", "---", "...", "- ", " lead", "trail ", "\ttab", "\u00a0nbsp", "\ufeffbom", "2020-01-01T00:00:00Z", "1e400", "0x", "Infinity", "NaN", "key:", ": x", "a #b", ",", "'", "\"", "\\", "\"a\"", "'a'", "[", "]", "{", "}", "1,2")
	case 1:
		return r.S("line one\nline two", "trailing\n", "tab\there", "q\"uote", "it's", "back\\slash", "back`tick", "<b>&amp;</b>", "日本語", "\u2028sep", "emoji 😀",
			"a\n\n\nb", "\n", "\n\nlead", "  indented\nless", "x\n y\n  z\n", "ends  \nwith spaces ", "# not\n# a comment", "---\nx", "a\r\nb", "\u0085nel", "\x7fdel", "\u007f\u0080", "a\tb\n\tc", "\ufffd", "\U0010fffd")
	case 2:
		if r.P(15) {
			return strings.Repeat(r.S("a long text, with words and words and ", "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww", "x\n", "длинный текст ", "a: b, ", "- "), r.R(3, 60)) + "end"
		}
	}
	return r.S("Returns items", "short", "some longer text, with punctuation.", "x", "Description of it") + r.S("", "", " again")
}

func (g *gen) anyVal(depth int) V {
	r := g.r
	switch x := r.N(14); {
	case x < 4 || depth > 2:
		return g.str()
	case x < 5:
		return float64(r.R(-5, 1000))
	case x < 6:
		return []V{0.5, -2.25, 1e21, 1e-7, 123456789.0, 0.0, 9007199254740991.0, 9223372036854775808.0, 1e19, -1e20, 18446744073709551616.0}[r.N(11)]
	case x < 7:
		return r.P(50)
	case x < 8:
		return nil
	case x < 11:
		m := M{}
		for n := r.R(0, 3); n > 0; n-- {
			m[g.anyKey()] = g.anyVal(depth + 1)
		}
		return m
	default:
		a := []interface{}{}
		for n := r.R(0, 3); n > 0; n-- {
			a = append(a, g.anyVal(depth+1))
		}
		return a
	}
}

// orNone empties a list at times: given, yet empty.
func (g *gen) orNone(l []interface{}) V {
	if g.r.P(20) {
		return []interface{}{}
	}
	return l
}

func (g *gen) anyKey() string {
	if g.r.P(g.o.WeirdKeys) {
		if g.r.P(60) {
			return g.weirdKey()
		}
		return g.r.S(weirdNames...) + g.r.S("", "2")
	}
	if g.r.P(6) {
		return g.r.S("1.5", "1.25", "10.75", "3.14159", "2", "404", "true", "false", "null")
	}
	return g.r.S("alpha", "beta", "gamma", "delta", "200", "x-ext", "key")
}

// weirdKey is made of what means something to one of the notations a key goes
// through.
func (g *gen) weirdKey() string {
	r := g.r
	k := ""
	if r.P(20) {
		k = r.S("--", "---", "----x", "...", "- ", ".", "/", "\\", "a: ", "a #", "x:y", "#", "(", "<", "=") + r.S("", "x", "key", "z ", "k:")
		if strings.TrimSpace(k) != "" {
			return k
		}
	}
	for n := r.R(1, 5); n > 0; n-- {
		k += r.S("~", "~0", "~1", "~2", "~~", ".", "..", "/", "#", "$", "$ref", "a", "b", "0", "12", "-", " ", "é", ":", "*", "[]", "{x}", "\\", "\"", "'", "?", "&", "<", "|", "%", "=", "@", "A", "_", "go://", "application/vnd.a.b.c+json", "yes")
	}
	if strings.TrimSpace(k) == "" {
		return "k" + k
	}
	if k == "$ref" || k == "<<" {
		return k + "_"
	}
	return k
}

// path makes a request path, at times one which hardly differs from another.
func (g *gen) path() string {
	r := g.r
	p := r.S(pathPool...)
	if r.P(12) { // which differ late only
		p = r.S("/services/catalogue/products/regions", "/v1/organisations/{id}/departments", "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o") + p
	}
	if !r.P(25) {
		return p
	}
	switch r.N(9) {
	case 0:
		return strings.ToUpper(p)
	case 1:
		return strings.TrimRight(p, "/") + "/"
	case 2:
		return p + r.S("x", "0", "/x", ".json", "?q", " ")
	case 3:
		return r.S("/api", "/v2", "x", " ") + p
	case 4:
		return strings.Replace(p, ".", r.S("x", "-", "/"), 1)
	case 5:
		return strings.Replace(p, "/", "//", 1)
	case 6:
		return strings.NewReplacer("{id}", r.S("7", "{ID}", "{x_y}", "{i}", "a/b", ""), "{userId}", "{u}").Replace(p)
	case 7:
		return strings.Title(p)
	}
	return "/" + g.weirdKey()
}

// schemaDoc makes a schema written by hand, with references inside.
func (g *gen) schemaDoc(i, depth int, short bool) V {
	r := g.r
	if r.P(g.o.Refs) || depth > 3 {
		if s := g.goRef(i, short); s != "" {
			return M{"$ref": s}
		}
	}
	if r.P(7) { // a reference where the notation expects something else
		k := r.S("example", "examples", "default", "enum", "const", "not", "value", "description", "title", "x-of", "required", "format", "discriminator", "mapping", "properties", "items", "type", "externalDocs", "nullable", "pattern")
		var v V = g.schemaDoc(i, depth+1, short)
		for n := r.N(4); n > 0; n-- {
			if r.P(50) {
				v = []interface{}{v}
			} else {
				v = M{r.S("example", "value", "examples", "schema", "one", "default", "0"): v}
			}
		}
		m := M{k: v}
		if k != "description" && r.P(50) {
			m["description"] = g.str()
		}
		return m
	}
	switch r.N(8) {
	case 0, 1:
		return M{"type": r.S("string", "integer", "boolean"), "description": g.str()}
	case 2:
		return M{"type": "array", "items": g.schemaDoc(i, depth+1, short)}
	case 3, 4:
		p := M{}
		for n := r.R(1, 3); n > 0; n-- {
			p[g.anyKey()] = g.schemaDoc(i, depth+1, short)
		}
		return M{"type": "object", "properties": p}
	case 5:
		a := []interface{}{}
		for n := r.R(1, 3); n > 0; n-- {
			a = append(a, g.schemaDoc(i, depth+1, short))
		}
		return M{r.S("allOf", "oneOf", "anyOf"): a}
	case 6:
		return M{"type": "object", "additionalProperties": g.schemaDoc(i, depth+1, short)}
	}
	return M{"type": "string", "enum": []interface{}{"a", "b", g.str()}}
}

var pathPool = []string{"/v1/items", "/v1/items/{id}", "/users", "/users/{id}/orders", "/users/{userId}/orders/{id}", "/ping", "/a.b/c.d", "/x~y/{z1}", "/files/*", "/", "/v1/items/search", "/v1.1/x", "/v1/items/{id}/"}

func (g *gen) operation(i int, short bool) M {
	r := g.r
	op := M{}
	if r.P(50) {
		op["summary"] = g.str()
	}
	if r.P(30) {
		op["description"] = g.str()
	}
	if r.P(30) {
		op["tags"] = []interface{}{r.S("a", "b"), "t" + fmt.Sprint(g.id())}
	}
	if r.P(30) {
		op["operationId"] = fmt.Sprintf("op%d", g.id())
	}
	if r.P(15) {
		op["deprecated"] = r.P(50)
	}
	if r.P(25) {
		a := []interface{}{}
		for n := r.R(1, 2); n > 0; n-- {
			if r.P(20) {
				a = append(a, M{"$ref": "#/components/parameters/P1"})
				continue
			}
			a = append(a, M{"name": fmt.Sprintf("p%d", g.id()), "in": r.S("query", "header"), "schema": g.schemaDoc(i, 2, short)})
		}
		op["parameters"] = a
	}
	if r.P(30) {
		op["requestBody"] = M{"content": M{r.S("application/json", "application/vnd.x+json"): M{"schema": g.schemaDoc(i, 0, short)}}}
	}
	if r.P(85) {
		rs := M{}
		for n := r.R(1, 2); n > 0; n-- {
			code := r.S("200", "201", "404", "default", "4XX")
			if r.P(10) {
				rs[code] = M{"$ref": "#/components/responses/" + r.S("NotFound", "Err")}
				continue
			}
			rs[code] = M{"description": g.str(), "content": M{"application/json": M{"schema": g.schemaDoc(i, 0, short)}}}
		}
		op["responses"] = rs
	}
	if r.P(15) {
		op["x-ext"] = g.anyVal(0)
	}
	if r.P(8) { // given, yet empty
		k := r.S("summary", "description", "operationId", "x-none", "externalDocs", "deprecated", "tags", "servers")
		op[k] = []V{"", nil, "", M{}, false, []interface{}{}}[r.N(6)]
	}
	return op
}

func (g *gen) specs() {
	r, w := g.r, g.w
	any := false
	version := r.S("3.0.0", "3.0.3", "3.0.1")
	if r.P(6) {
		version = r.S("", "3.1.0", "2.0", "4", "0", "next", " ", "false")
	}
	type slot struct{ p, s int }
	var slots []slot
	for i := range w.Pkgs {
		if !r.P(g.o.Specs) && !(i == len(w.Pkgs)-1 && !any) {
			continue
		}
		any = true
		files := []string{"oapi.yaml", "oapi.yml", "oapi.json"}
		r.Shuffle(3, func(a, b int) { files[a], files[b] = files[b], files[a] })
		n := 1
		if r.P(g.o.MultiSpec) {
			n = r.R(2, 3)
		}
		for k := 0; k < n; k++ {
			w.Pkgs[i].Specs = append(w.Pkgs[i].Specs, Spec{File: files[k], Style: r.N(1000), Doc: M{"openapi": version}})
			slots = append(slots, slot{i, len(w.Pkgs[i].Specs) - 1})
		}
	}
	doc := func(s slot) M { return w.Pkgs[s.p].Specs[s.s].Doc }
	put := func(d M, path []string, v V) bool {
		for _, k := range path[:len(path)-1] {
			x, ok := d[k].(M)
			if !ok {
				if _, there := d[k]; there {
					return false
				}
				x = M{}
				d[k] = x
			}
			d = x
		}
		if _, there := d[path[len(path)-1]]; there {
			return false
		}
		d[path[len(path)-1]] = v
		return true
	}
	// frag places a piece of the document in one file, sometimes in two.
	frag := func(path []string, mk func(i int, short bool) V) {
		key := strings.Join(path, "\x00")
		if g.used[key] {
			return
		}
		g.used[key] = true
		s := slots[r.N(len(slots))]
		dup := r.P(g.o.Dups) && len(slots) > 1
		v := mk(s.p, !dup)
		put(doc(s), path, v)
		if dup {
			o := slots[r.N(len(slots))]
			if o != s {
				put(doc(o), path, cloneV(v))
			}
		}
	}
	str := func(int, bool) V { return g.str() }
	if r.P(80) {
		frag([]string{"info", "title"}, str)
	}
	if r.P(80) {
		frag([]string{"info", "version"}, str)
	}
	if r.P(30) {
		frag([]string{"info", "contact", "name"}, str)
	}
	for n := r.R(1, g.o.MaxPaths); n > 0; n-- {
		p := g.path()
		if r.P(8) {
			frag([]string{"paths", p, "parameters"}, func(i int, s bool) V { return []interface{}{M{"name": "q", "in": "query"}} })
		}
		if r.P(8) {
			frag([]string{"paths", p, "summary"}, str)
		}
		if r.P(5) {
			x := []V{"text", 5.0, true, nil, []interface{}{"a"}, M{"a": M{"b": 1.0}}, M{"get": M{"summary": "not an operation"}}, M{"post": M{}}}[r.N(8)]
			frag([]string{"paths", r.S("x-group", "x-internal", "x-")}, func(i int, s bool) V { return cloneV(x) })
		}
		if r.P(3) { // a path with nothing in it yet
			x := []V{nil, nil, M{}}[r.N(3)]
			frag([]string{"paths", g.path() + "-todo"}, func(i int, s bool) V { return cloneV(x) })
		}
		frag([]string{"paths", p, r.S("get", "post", "put", "delete", "patch", "head", "options", "trace")}, func(i int, s bool) V { return g.operation(i, s) })
	}
	if r.P(g.o.Comps) {
		for n := r.R(1, 3); n > 0; n-- {
			kind := r.S("schemas", "schemas", "responses", "parameters")
			name := fmt.Sprintf("%s%d", r.S("Hand", "My.Comp", "X"), g.id())
			frag([]string{"components", kind, name}, func(i int, s bool) V {
				if kind == "schemas" {
					return g.schemaDoc(i, 0, s)
				}
				return M{"description": g.str(), "content": M{"application/json": M{"schema": g.schemaDoc(i, 0, s)}}}
			})
		}
	}
	if r.P(25) {
		frag([]string{"tags"}, func(int, bool) V { return g.orNone([]interface{}{M{"name": g.str()}, M{"name": "z"}}) })
	}
	if r.P(25) {
		frag([]string{"servers"}, func(int, bool) V {
			return g.orNone([]interface{}{M{"url": "https://" + r.S("a", "b") + ".example.com"}})
		})
	}
	if r.P(15) {
		frag([]string{"security"}, func(int, bool) V { return g.orNone([]interface{}{M{"key": []interface{}{}}}) })
	}
	if r.P(15) {
		frag([]string{"externalDocs", "url"}, func(int, bool) V { return "https://docs.example.com" })
	}
	if r.P(g.o.WeirdKeys) { // part of other versions of the notation
		frag([]string{r.S("swagger", "webhooks", "definitions", "jsonSchemaDialect", "$schema", "$id", "basePath", "asyncapi")}, func(int, bool) V { return g.anyVal(0) })
	}
	if r.P(g.o.WeirdKeys) {
		frag([]string{"x-" + r.S("\a", "\x7f", "\u2028", "é", "\U0001f600", "\ufffd", "\x1f", "\"", "\\", "<b>", "\u00a0", "\ufeff")}, func(int, bool) V { return g.anyVal(0) })
	}
	if r.P(5) { // what has no natural order, deep inside
		frag([]string{"x-codes"}, func(int, bool) V {
			return []interface{}{M{"404": "a", "4XX": "b", "200": "c"}, []interface{}{M{"1": M{"x": []interface{}{M{"10": "a", "1a": "b", "2": "c", "02": "d"}}}, "1.0": nil, "01": true}}}
		})
	}
	for n := r.N(3); n > 0; n-- {
		frag([]string{"x-" + g.anyKey()}, func(int, bool) V { return g.anyVal(0) })
	}
	if r.P(g.o.WeirdKeys) { // neither part of a document nor an extension
		k := g.anyKey()
		if r.P(30) {
			k = r.S("---", "--", "...", "..", "-", ".") + r.S("x", "key", "-x", ".k")
		}
		frag([]string{k}, func(int, bool) V { return g.anyVal(0) })
	}
	if r.P(g.o.Chains) {
		path := []string{r.S("x-nest", "components")}
		if path[0] == "components" {
			path = append(path, "schemas", fmt.Sprintf("Nest%d", g.id()))
		}
		for n := r.R(8, 40); n > 0; n-- {
			path = append(path, r.S("properties", "items", "p"), g.anyKey())
		}
		frag(path, func(i int, s bool) V { return g.schemaDoc(i, 3, s) })
	}
	if r.P(10) {
		frag([]string{"x-deep", g.anyKey(), g.anyKey()}, func(i int, s bool) V {
			v := M{"list": []interface{}{M{"s": g.schemaDoc(i, 0, s)}, []interface{}{g.schemaDoc(i, 0, s)}}}
			for n := r.N(4); n > 0; n-- {
				v["list"] = []interface{}{g.str(), v["list"], []interface{}{}, g.schemaDoc(i, 2, s)}
			}
			return v
		})
	}
	if r.P(g.o.Decoys) {
		i := r.N(len(w.Pkgs))
		dir := w.pkgDir(i)
		body := "openapi: 9.9.9\nx-decoy: true\npaths:\n  /decoy:\n    get: {}\n"
		for n := r.R(1, 3); n > 0; n-- {
			f := r.S("openapi.yaml", "oapi.yaml.bak", "xoapi.yaml", "oapi.txt", "api/oapi.yaml", "OAPI.yaml", "oapi.yaml~", "testdata/oapi.json", ".oapi.yaml", "oapi-config.yaml", "oapi.yamlx", "oapi.go.json")
			p := dir + "/" + f
			if strings.HasPrefix(p, w.Base+"/") {
				p = "{B}" + strings.TrimPrefix(p, w.Base)
			}
			w.Extra = append(w.Extra, vk.Node{Path: p, Data: body})
		}
	}
	if r.P(g.o.Decoys) {
		i := r.N(len(w.Pkgs))
		for _, f := range []string{"oapi.yaml", "oapi.json", "oapi.yml"} {
			taken := false
			for _, s := range w.Pkgs[i].Specs {
				taken = taken || s.File == f
			}
			if !taken {
				d := M{"title": "no version here", "paths": M{"/nospec": M{"get": M{"summary": "x"}}}}
				if r.P(50) {
					d["info"] = M{"openapi": "3.0.0"}
				}
				w.Pkgs[i].Specs = append(w.Pkgs[i].Specs, Spec{File: f, Style: r.N(1000), Doc: d})
				break
			}
		}
	}
}

// ---- configuration ----

func (g *gen) info() M {
	m := M{"title": g.str() + "!", "version": "1." + fmt.Sprint(g.r.N(9))}
	if g.r.P(6) {
		m[g.r.S("title", "version")] = ""
	}
	if g.r.P(30) {
		m["description"] = "d " + g.str()
	}
	if g.r.P(30) {
		m["contact"] = M{"name": "n " + g.str()}
	}
	return m
}

// typedSchema is a schema that survives the typed model unchanged.
func (g *gen) typedSchema(refs bool) M {
	r := g.r
	switch r.N(6) {
	case 0:
		return M{"type": "string", "format": r.S("uuid", "date"), "description": "d" + g.str()}
	case 1:
		return M{"type": "array", "items": g.typedSchema(refs)}
	case 2:
		return M{"type": "object", "properties": M{"p" + fmt.Sprint(g.id()): g.typedSchema(refs)}, "required": []interface{}{"p"}}
	case 3:
		if refs {
			if s := g.goRef(0, false); s != "" {
				return M{"$ref": s}
			}
		}
		return M{"type": "integer", "minimum": float64(r.R(0, 9)), "nullable": true}
	case 4:
		if refs && r.P(50) {
			return M{"$ref": "#/components/schemas/Hand"}
		}
		return M{"type": "boolean", "default": true}
	}
	return M{"type": "number", "enum": []interface{}{1.0, 2.5}, "title": "t" + fmt.Sprint(g.id())}
}

func (g *gen) typedOp(refs bool) M {
	r := g.r
	op := M{}
	if r.P(50) {
		op["summary"] = "def " + g.str()
	}
	if r.P(30) {
		op["description"] = "def " + g.str()
	}
	if r.P(30) {
		op["tags"] = []interface{}{"def" + fmt.Sprint(g.id())}
	}
	if r.P(20) {
		op["operationId"] = fmt.Sprintf("def%d", g.id())
	}
	if r.P(20) {
		op["deprecated"] = true
	}
	if r.P(25) {
		op["parameters"] = []interface{}{M{"name": "X-Trace", "in": "header", "explode": r.P(50), "schema": g.typedSchema(refs)}}
	}
	if r.P(70) || len(op) == 0 {
		rs := M{}
		for n := r.R(1, 3); n > 0; n-- {
			rs[r.S("200", "404", "500", "default", "4XX")] = M{"description": "def " + g.str(), "content": M{r.S("application/json", "text/plain"): M{"schema": g.typedSchema(refs)}}}
		}
		op["responses"] = rs
	}
	if r.P(15) {
		op["security"] = []interface{}{M{"def": []interface{}{"scope"}}}
	}
	return op
}

func (g *gen) pattern() string {
	r := g.r
	p := ""
	switch r.N(9) {
	case 0:
		p = "*"
	case 1, 2:
		p = r.S(pathPool...)
	case 7, 8: // one which is there
		var l []string
		for _, k := range g.w.paths() {
			l = append(l, k)
		}
		p = r.S(append(l, g.path())...)
	case 3:
		p = "/v1/*"
	case 4:
		p = "/users/{any}/orders"
	case 5:
		p = "/v1/items/{xx}"
	case 6:
		p = r.S("/services/catalogue/products/regions/*", "/services/catalogue/products/regions/v1/items", "/v1/organisations/{id}/departments/users", "/v1/organisations/{id}/departments/*/orders", "*/items", "/*/{id}*", "/users/*", "/{any}", "/nomatch", "/v1/item", "/v1/items/{id}/")
	}
	if r.P(45) {
		p = r.S("GET", "post", "Put", "DELETE", "patch", "OPTIONS", "head", "TRACE", "LINK") + ":" + p
	}
	return p
}

func (g *gen) defops() M {
	m := M{}
	for n := g.r.R(1, 3); n > 0; n-- {
		m[g.pattern()] = g.typedOp(g.r.P(30))
	}
	if ps := keysOf(m); g.r.P(35) { // two patterns of the same length with different wishes
		p := ps[g.r.N(len(ps))]
		q := ""
		switch i := strings.IndexByte(p, '{'); {
		case strings.Contains(p, ":/") || strings.Contains(p, ":*"):
			k := strings.IndexByte(p, ':')
			q = g.r.S(strings.ToUpper(p[:k]), strings.ToLower(p[:k]), strings.ToUpper(p[:1])+strings.ToLower(p[1:k])) + p[k:]
		case i >= 0 && i+2 < len(p) && p[i+2] != '}':
			q = p[:i+1] + "z" + p[i+2:]
		case len(p) > 2 && p[len(p)-1] != '}':
			q = p[:len(p)-1] + "*"
		}
		if _, ok := m[q]; !ok && q != "" {
			m[q] = g.typedOp(g.r.P(30))
			for _, k := range []string{p, q} {
				m[k].(M)[g.r.S("summary", "description", "operationId")] = "def of " + k
				m[k].(M)["summary"] = "def of " + k
			}
		}
	}
	return m
}

// refsUsed lists the go references that occur in specifications and inside
// the types they lead to, as candidates of overrides.
func (g *gen) overridable() (out []string) {
	e := g.w.expectWith(Options{Root: M{}})
	seen := map[string]bool{}
	for _, x := range e.Refs {
		if x.Local == "" && !seen[x.Ref] && !strings.HasPrefix(x.Ref, "go://time#") {
			seen[x.Ref] = true
			out = append(out, x.Ref)
		}
	}
	// named struct types, reached through fields
	for i := range g.w.Pkgs {
		for _, d := range g.w.Pkgs[i].Types {
			p := goPtr(g.w.importPath(i), d.Name)
			if !d.Alias && d.T.K == "struct" && !seen[p] && (e.Ptrs[p] == "" || exported(d.Name) && g.r.P(40)) {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return
}

func (g *gen) overrides() M {
	m := M{}
	c := g.overridable()
	for n := g.r.R(1, 2); n > 0 && len(c) > 0; n-- {
		m[c[g.r.N(len(c))]] = g.typedSchema(g.r.P(10))
	}
	if g.r.P(15) {
		m["go://example.com/none#/Missing"] = g.typedSchema(false)
	}
	return m
}

func (g *gen) cfgDoc() M {
	r, o := g.r, g.o
	d := M{}
	if r.P(50) {
		d["info"] = g.info()
	}
	if r.P(30) {
		d["servers"] = []interface{}{M{"url": "https://cfg" + fmt.Sprint(g.id()) + ".example.com", "description": g.str() + "."}}
	}
	if r.P(25) {
		d["tags"] = []interface{}{M{"name": "cfgtag" + fmt.Sprint(g.id())}}
	}
	if r.P(20) {
		d["security"] = []interface{}{M{"cfg": []interface{}{}}}
	}
	if r.P(20) {
		d["externalDocs"] = M{"url": "https://cfg.example.com", "description": "d" + fmt.Sprint(g.id())}
	}
	if r.P(o.RootComps) {
		d["components"] = M{"schemas": M{fmt.Sprintf("Cfg%d", g.id()): g.typedSchema(r.P(30))}}
		if r.P(30) {
			d["components"].(M)["responses"] = M{fmt.Sprintf("CfgR%d", g.id()): M{"description": "r", "content": M{"text/plain": M{"schema": g.typedSchema(false)}}}}
		}
	}
	if r.P(o.DefOps) {
		d["operations"] = g.defops()
	}
	if r.P(o.Overrides) {
		if m := g.overrides(); len(m) > 0 {
			d["overrides"] = m
		}
	}
	return d
}

// config puts the options into a configuration file and picks how the tool is
// called.
func (g *gen) config() {
	r, w := g.r, g.w
	root := strings.TrimPrefix(w.pkgDir(0), w.Base+"/")
	c := &Cfg{File: r.S("conf/oapi-config.yaml", root+"/oapi.config.json", "conf.yml"), Style: r.N(1000), Doc: g.cfgDoc()}
	if r.P(40) {
		c.Doc["version"] = r.S("1", "1", "2", "1.0", "0", "v1", "-", "")
	}
	if r.P(10) { // what the tool does not know
		c.Doc[r.S("x-note", "$schema", "name", "description")] = r.S("a", "b c", "https://example.com/s.json")
	}
	if r.P(40) {
		c.Doc["format"] = r.S("json", "yaml", "json:pretty", "go")
	}
	if r.P(g.o.Ext) {
		c.Ext = &Cfg{File: r.S("conf/base.yaml", "base.json", "conf/deep/base.yml"), Style: r.N(1000), Doc: g.cfgDoc()}
		c.ExtAs = relPath(dirOf("/"+c.File), "/"+c.Ext.File)
		if r.P(20) {
			c.ExtAs = "{B}/" + c.Ext.File
		}
		if r.P(50) {
			c.Ext.Doc["format"] = r.S("yml", "json", "yaml")
		}
	}
	for x := c; x != nil; x = x.Ext {
		if r.P(8) {
			x.Link = r.S("", "/") + fmt.Sprintf("shared/%d/%s", g.id(), r.S("config", "oapi-config.yaml", "base.json"))
		}
	}
	w.Cfg = c
	w.Inv.Config = "{B}/" + c.File
	w.Inv.Cwd = r.S("", root, "conf")
	if r.P(60) {
		w.Inv.Config = relPath("/"+w.Inv.Cwd, "/"+c.File)
	}
	dirIn := func(from string) string {
		if r.P(30) {
			return "{B}/" + root
		}
		return relPath(from, "/"+root)
	}
	switch r.N(3) {
	case 0:
		c.Doc["dir"] = dirIn(dirOf("/" + c.File))
	case 1:
		w.Inv.Dir = dirIn("/" + w.Inv.Cwd)
		if r.P(40) {
			c.Doc["dir"] = "/nowhere"
		}
	case 2:
		if c.Ext != nil {
			c.Ext.Doc["dir"] = dirIn(dirOf("/" + c.File))
		} else {
			w.Inv.Cwd = root
			w.Inv.Config = relPath("/"+w.Inv.Cwd, "/"+c.File)
		}
	}
	if r.P(30) {
		w.Inv.Format = r.S("json", "yaml", "yml", "json:pretty", "go")
	}
}

// relPath names b from directory a.
func relPath(a, b string) string {
	as := strings.Split(strings.Trim(a, "/"), "/")
	bs := strings.Split(strings.Trim(b, "/"), "/")
	if as[0] == "" {
		as = nil
	}
	for len(as) > 0 && len(bs) > 0 && as[0] == bs[0] {
		as, bs = as[1:], bs[1:]
	}
	s := strings.Repeat("../", len(as)) + strings.Join(bs, "/")
	if s == "" {
		return "."
	}
	return s
}
