package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"vsim/vk"
)

// World is one project: modules, packages, specifications, configuration.
type World struct {
	Base  string    `json:"base"` // directory everything lives under
	Mods  []Mod     `json:"mods"`
	Pkgs  []Pkg     `json:"pkgs"` // Pkgs[0] is the scanned one; a package only refers to later ones
	Cfg   *Cfg      `json:"cfg,omitempty"`
	Inv   Inv       `json:"inv"`
	Extra []vk.Node `json:"extra,omitempty"` // further files; {B} in paths is Base
	// library options (when not taken from Cfg)
}

// Mod is a module.
type Mod struct {
	Path     string `json:"path"`
	Dir      string `json:"dir"` // relative to Base
	Version  string `json:"version,omitempty"`
	Replaced string `json:"replaced,omitempty"`
}

// Pkg is a package.
type Pkg struct {
	Mod      int        `json:"mod"`
	Sub      string     `json:"sub,omitempty"` // "/x/y"
	Name     string     `json:"name"`
	Imports  []int      `json:"imports,omitempty"` // blank imports
	Types    []TypeDecl `json:"types,omitempty"`
	Comments []string   `json:"comments,omitempty"` // text after "//"
	Specs    []Spec     `json:"specs,omitempty"`
	Files    int        `json:"files,omitempty"` // number of Go files
	RawGo    []vk.Node  `json:"rawgo,omitempty"` // Path is relative to the package directory
	Std      []string   `json:"std,omitempty"`   // blank std imports
	Crowd    int        `json:"crowd,omitempty"` // number of further files
}

// TypeDecl is a named type.
type TypeDecl struct {
	Name  string `json:"name"`
	T     *TE    `json:"t"`
	Alias bool   `json:"alias,omitempty"`

	Methods []string `json:"methods,omitempty"` // without "func ("
}

// TE is a type expression.
type TE struct {
	K      string  `json:"k"` // basic named slice array map ptr struct time dur iface chan func error complex
	Name   string  `json:"name,omitempty"`
	Pkg    int     `json:"pkg,omitempty"`
	Elem   *TE     `json:"elem,omitempty"`
	Key    *TE     `json:"key,omitempty"`
	Len    int     `json:"len,omitempty"`
	Fields []Field `json:"fields,omitempty"`
}

// Field of a struct.
type Field struct {
	Name  string `json:"name"`
	Embed bool   `json:"embed,omitempty"`
	T     *TE    `json:"t"`
	Tag   *Tag   `json:"tag,omitempty"`
}

// Tag of a field.
type Tag struct {
	JSON  string `json:"json,omitempty"` // name, "" none
	JOpts []Opt  `json:"jopts,omitempty"`
	OAPI  string `json:"oapi,omitempty"`
	Opts  []Opt  `json:"opts,omitempty"`
	Raw   string `json:"raw,omitempty"`   // whole tag as is (not modelled)
	Other string `json:"other,omitempty"` // unrelated tag text
	HasJ  bool   `json:"hasj,omitempty"`
	HasO  bool   `json:"haso,omitempty"`
}

// Opt is an option of a tag.
type Opt struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
}

// Spec is a specification file.
type Spec struct {
	File  string `json:"file"`
	Doc   M      `json:"doc,omitempty"`
	Style int    `json:"style,omitempty"`
	Raw   string `json:"raw,omitempty"` // content as is (not modelled)
	IsRaw bool   `json:"israw,omitempty"`
	Pad   int    `json:"pad,omitempty"`  // what means nothing, in front
	Link  string `json:"link,omitempty"` // the file is a link to this one
}

// Cfg is a configuration file, possibly extending another.
type Cfg struct {
	File  string `json:"file"` // relative to Base
	Doc   M      `json:"doc"`
	Style int    `json:"style,omitempty"`
	Ext   *Cfg   `json:"ext,omitempty"`
	ExtAs string `json:"extas,omitempty"` // how the file names the one it extends
	Raw   string `json:"raw,omitempty"`
	IsRaw bool   `json:"israw,omitempty"`
	Link  string `json:"link,omitempty"`
}

// Inv is how the tool is invoked.
type Inv struct {
	Cwd    string   `json:"cwd"` // relative to Base
	Config string   `json:"config,omitempty"`
	Dir    string   `json:"dir,omitempty"`
	Format string   `json:"format,omitempty"`
	Output string   `json:"output,omitempty"`
	Log    string   `json:"log,omitempty"`
	Raw    []string `json:"raw,omitempty"` // arguments as is
}

func (w *World) importPath(i int) string {
	p := w.Pkgs[i]
	return w.Mods[p.Mod].Path + p.Sub
}

func (w *World) pkgDir(i int) string {
	p := w.Pkgs[i]
	return w.modDir(p.Mod) + p.Sub
}

// modDir is the directory of a module, inside the checkout or elsewhere.
func (w *World) modDir(i int) string {
	if strings.HasPrefix(w.Mods[i].Dir, "/") {
		return w.Mods[i].Dir
	}
	return w.Base + "/" + w.Mods[i].Dir
}

func (w *World) pkgByPath(path string) int {
	for i := range w.Pkgs {
		if w.importPath(i) == path {
			return i
		}
	}
	return -1
}

func (w *World) clone() *World {
	var x World
	fromJSON(toJSON(w), &x)
	return &x
}

func (w *World) decl(pkg int, name string) *TypeDecl {
	for i := range w.Pkgs[pkg].Types {
		if w.Pkgs[pkg].Types[i].Name == name {
			return &w.Pkgs[pkg].Types[i]
		}
	}
	return nil
}

// deps collects the packages and std packages a type mentions.
func (t *TE) deps(pk map[int]bool, std map[string]bool) {
	if t == nil {
		return
	}
	switch t.K {
	case "named":
		pk[t.Pkg] = true
	case "time", "dur":
		std["time"] = true
	}
	t.Elem.deps(pk, std)
	t.Key.deps(pk, std)
	for _, f := range t.Fields {
		f.T.deps(pk, std)
	}
}

// directImports of a package, through types or blank.
func (w *World) directImports(i int) map[int]bool {
	pk := map[int]bool{}
	std := map[string]bool{}
	for _, d := range w.Pkgs[i].Types {
		d.T.deps(pk, std)
	}
	for _, x := range w.Pkgs[i].Imports {
		pk[x] = true
	}
	delete(pk, i)
	return pk
}

// reachable packages from the root.
func (w *World) reachable() map[int]bool {
	seen := map[int]bool{}
	var rec func(int)
	rec = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for j := range w.directImports(i) {
			rec(j)
		}
	}
	rec(0)
	return seen
}

func (w *World) typeSrc(t *TE, in int, depth int) string {
	switch t.K {
	case "basic":
		return t.Name
	case "named":
		if t.Pkg == in {
			return t.Name
		}
		return fmt.Sprintf("p%d.%s", t.Pkg, t.Name)
	case "slice":
		return "[]" + w.typeSrc(t.Elem, in, depth)
	case "array":
		return "[" + strconv.Itoa(t.Len) + "]" + w.typeSrc(t.Elem, in, depth)
	case "map":
		return "map[" + w.typeSrc(t.Key, in, depth) + "]" + w.typeSrc(t.Elem, in, depth)
	case "ptr":
		return "*" + w.typeSrc(t.Elem, in, depth)
	case "time":
		return "time.Time"
	case "dur":
		return "time.Duration"
	case "iface":
		return "interface{}"
	case "error":
		return "error"
	case "chan":
		return "chan int"
	case "func":
		return "func()"
	case "complex":
		return "complex128"
	case "uintptr":
		return "uintptr"
	case "struct":
		var b strings.Builder
		b.WriteString("struct {\n")
		ind := strings.Repeat("\t", depth+1)
		for _, f := range t.Fields {
			b.WriteString(ind)
			if !f.Embed {
				b.WriteString(f.Name + " ")
			}
			b.WriteString(w.typeSrc(f.T, in, depth+1))
			if s := f.Tag.src(); s != "" {
				b.WriteString(" `" + s + "`")
			}
			b.WriteString("\n")
		}
		b.WriteString(strings.Repeat("\t", depth) + "}")
		return b.String()
	}
	panic("type kind " + t.K)
}

func optsSrc(name string, opts []Opt) string {
	s := name
	for _, o := range opts {
		s += "," + o.K
		if o.V != "" {
			s += ":" + o.V
		}
	}
	return s
}

func (t *Tag) src() string {
	if t == nil {
		return ""
	}
	if t.Raw != "" {
		return t.Raw
	}
	var parts []string
	if t.Other != "" {
		parts = append(parts, t.Other)
	}
	if t.HasJ || t.JSON != "" || len(t.JOpts) > 0 {
		parts = append(parts, "json:"+strconv.Quote(optsSrc(t.JSON, t.JOpts)))
	}
	if t.HasO || t.OAPI != "" || len(t.Opts) > 0 {
		parts = append(parts, "oapi:"+strconv.Quote(optsSrc(t.OAPI, t.Opts)))
	}
	return strings.Join(parts, " ")
}

func (w *World) goFiles(i int) (out []vk.Node) {
	p := &w.Pkgs[i]
	n := p.Files
	if n < 1 {
		n = 1
	}
	dir := w.pkgDir(i)
	for f := 0; f < n; f++ {
		pk := map[int]bool{}
		std := map[string]bool{}
		var body strings.Builder
		for k, d := range p.Types {
			if k%n != f {
				continue
			}
			d.T.deps(pk, std)
			eq := ""
			if d.Alias {
				eq = "= "
			}
			fmt.Fprintf(&body, "\ntype %s %s%s\n", d.Name, eq, w.typeSrc(d.T, i, 0))
			for _, m := range d.Methods {
				body.WriteString("\nfunc (" + m + "\n")
			}
		}
		delete(pk, i)
		var imps []string
		for j := range pk {
			imps = append(imps, fmt.Sprintf("\tp%d %q\n", j, w.importPath(j)))
		}
		if f == 0 {
			for _, j := range p.Imports {
				if !pk[j] && j != i {
					imps = append(imps, fmt.Sprintf("\t_ %q\n", w.importPath(j)))
				}
			}
			for _, s := range p.Std {
				if !std[s] {
					imps = append(imps, fmt.Sprintf("\t_ %q\n", s))
				}
			}
		}
		for s := range std {
			imps = append(imps, fmt.Sprintf("\t%q\n", s))
		}
		sort.Strings(imps)
		var b strings.Builder
		b.WriteString("package " + p.Name + "\n")
		if len(imps) > 0 {
			b.WriteString("\nimport (\n" + strings.Join(imps, "") + ")\n")
		}
		for k, c := range p.Comments {
			if k%n == f {
				b.WriteString("\n//" + c + "\n")
			}
		}
		b.WriteString(body.String())
		if p.Name == "main" && f == 0 {
			b.WriteString("\nfunc main() {}\n")
		}
		out = append(out, vk.MkNode(fmt.Sprintf("%s/f%d.go", dir, f), []byte(b.String())))
	}
	for _, r := range p.RawGo {
		r.Path = dir + "/" + r.Path
		out = append(out, r)
	}
	return
}

const timeStub = `package time

type Month int
type Duration int64
type Location struct{ name string }
type Time struct {
	wall uint64
	ext  int64
	loc  *Location
}

func (t Time) String() string { return "" }
`

func (s Spec) content() string {
	if s.IsRaw {
		return s.Raw
	}
	t := emit(s.File, s.Doc, s.Style)
	if s.Pad > 0 {
		line := "# nothing to see on this line, nor on the ones after it\n"
		if strings.HasSuffix(s.File, ".json") {
			line = strings.Repeat(" ", 79) + "\n"
		}
		t = strings.Repeat(line, s.Pad/len(line)+1) + t
	}
	if s.Style%17 == 5 && !strings.HasSuffix(s.File, ".json") {
		t = "\ufeff" + t
	}
	return t
}

// linked is a file, or a link to it.
func (w *World) linked(path, link, content string) []vk.Node {
	if link == "" {
		return []vk.Node{vk.MkNode(path, []byte(content))}
	}
	to := w.Base + "/" + strings.TrimPrefix(link, "/")
	n := vk.Node{Path: path, Type: "l", Data: to}
	if link[0] != '/' {
		n.Data = relPath(path[:strings.LastIndexByte(path, '/')], to)
	}
	return []vk.Node{vk.MkNode(to, []byte(content)), n}
}

// image renders the project.
func (w *World) image() (img vk.Image) {
	for i, m := range w.Mods {
		img = append(img, vk.MkNode(w.modDir(i)+"/go.mod", []byte("module "+m.Path+"\n\ngo 1.21\n")))
	}
	for i := range w.Pkgs {
		img = append(img, w.goFiles(i)...)
		for k := 0; k < w.Pkgs[i].Crowd; k++ {
			img = append(img, vk.MkNode(fmt.Sprintf("%s/%c-%d.txt", w.pkgDir(i), 'a'+k*7%26, k), nil))
		}
		for _, s := range w.Pkgs[i].Specs {
			img = append(img, w.linked(w.pkgDir(i)+"/"+s.File, s.Link, s.content())...)
		}
	}
	for c := w.Cfg; c != nil; c = c.Ext {
		img = append(img, w.linked(w.Base+"/"+c.File, c.Link, c.content(w))...)
	}
	for _, n := range w.Extra {
		n.Path = w.sub(n.Path)
		if n.Type == "l" {
			n.Data = w.sub(n.Data)
		}
		if n.HardTo != "" {
			n.HardTo = w.sub(n.HardTo)
		}
		img = append(img, n)
	}
	if w.Inv.Cwd != "" {
		img = append(img, vk.Node{Path: w.Base + "/" + w.Inv.Cwd, Type: "d"})
	}
	return
}

func (w *World) sub(s string) string { return strings.Replace(s, "{B}", w.Base, -1) }

func (c *Cfg) content(w *World) string {
	if c.IsRaw {
		return w.sub(c.Raw)
	}
	doc := cloneV(c.Doc).(M)
	if c.Ext != nil {
		doc["extends"] = c.ExtAs
	}
	subAll(doc, w)
	return emit(c.File, doc, c.Style)
}

func subAll(v V, w *World) V {
	switch x := v.(type) {
	case M:
		for k, y := range x {
			x[k] = subAll(y, w)
		}
	case []interface{}:
		for i, y := range x {
			x[i] = subAll(y, w)
		}
	case string:
		return w.sub(x)
	}
	return v
}

func (w *World) modules() (ms []vk.Module) {
	for i, m := range w.Mods {
		ms = append(ms, vk.Module{Path: m.Path, Dir: w.modDir(i), Version: m.Version, Main: i == 0, ReplacedBy: m.Replaced})
	}
	return
}

func (v Inv) args(w *World) (a []string) {
	if v.Raw != nil {
		for _, x := range v.Raw {
			a = append(a, w.sub(x))
		}
		return
	}
	if v.Log != "" {
		a = append(a, "--loglevel", v.Log)
	}
	if v.Config != "" {
		a = append(a, "--config", w.sub(v.Config))
	}
	if v.Dir != "" {
		a = append(a, "--dir", w.sub(v.Dir))
	}
	if v.Format != "" {
		a = append(a, "--format", v.Format)
	}
	if v.Output != "" {
		a = append(a, "--output", w.sub(v.Output))
	}
	return
}

// paths is every request path in the documents.
func (w *World) paths() []string {
	seen := map[string]bool{}
	var l []string
	for i := range w.Pkgs {
		for _, s := range w.Pkgs[i].Specs {
			ps, _ := s.Doc["paths"].(M)
			for k := range ps {
				if !seen[k] {
					seen[k] = true
					l = append(l, k)
				}
			}
		}
	}
	sort.Strings(l)
	return l
}
