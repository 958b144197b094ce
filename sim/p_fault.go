package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	yaml2 "gopkg.in/yaml.v2"

	"vsim/vk"
)

// Properties about faults of the environment: C09, C10, C12, C16 and C18.

func init() {
	register(&Prop{ID: "C09", Gen: gen09, Judge: judge09,
		Rule: "A case is a generated project with read-side faults placed on system calls of its own neutral run: one or two hard errors (outcome: failure or the same document), persistent errors on a specification, Go or configuration file or package directory, unparsable content, a missing configuration file or a failing Go loader (outcome: failure), interrupted calls and short reads (outcome: the same document)."})
	register(&Prop{ID: "C10", Gen: gen10, Judge: judge10,
		Rule: "A case is a command run on a valid or broken project or invocation, with write faults on the destination or broken standard streams; exit status, both streams and the destination are compared with each other and with the neutral run, and with the same run at other log levels."})
	register(&Prop{ID: "C12", Gen: gen12, Judge: judge12,
		Rule: "A case is a command run writing to a file, or a library scan, with faults on its system calls, a full disk, a missing permission or a broken project; the whole disk before and after is compared."})
	register(&Prop{ID: "C16", Gen: gen16, Judge: judge16,
		Rule: "A case is a project with one or more wild ingredients: cyclic types, mutated or wrongly typed specification, configuration and Go files, malformed comments, tags and references, strange invocations, I/O faults; every run has to end by itself with a document or an error."})
	register(&Prop{ID: "C18", Gen: gen18, Judge: judge18,
		Rule: "A case is a sequence of library calls (succeeding, failing, fault-injected or cancelled at a random step, some concurrent); after each phase and one simulated hour no descriptor opened by it may be open and no goroutine it started may be alive."})
}

var hardErr = []int{vk.EIO, vk.EACCES, vk.EMFILE, vk.ENFILE, vk.ESTALE, vk.ENOMEM, vk.EPERM, vk.EIO, vk.ETIMEDOUT, vk.ENXIO, vk.EBUSY, vk.EREMOTEIO}
var wrErr = []int{vk.EIO, vk.ENOSPC, vk.EDQUOT, vk.EROFS, vk.EACCES, vk.EPERM, vk.ENOSPC, vk.EFBIG, vk.ENOMEM}

var readSys = map[string]bool{"open": true, "read": true, "getdents": true, "stat": true, "lseek": true, "readlink": true, "close": true, "access": true, "getcwd": true}
var writeSys = map[string]bool{"open": true, "write": true, "fsync": true, "close": true, "rename": true, "unlink": true, "chmod": true, "trunc": true, "mkdir": true, "link": true, "stat": true, "rmdir": true, "chown": true}

func isWriteOp(o vk.OpRec) bool {
	switch o.Sys {
	case "open":
		return strings.HasPrefix(o.Flags, "w") || strings.Contains(o.Flags, "c")
	case "write", "fsync", "rename", "unlink", "chmod", "trunc", "mkdir", "link", "rmdir", "chown":
		return true
	}
	return false
}

// opFault is the fault that hits operation i of a trace.
func opFault(ops []vk.OpRec, i int) vk.Fault {
	dest := func(o vk.OpRec) string { // of a rename it is where it goes that counts
		if k := strings.LastIndex(o.Path, " -> "); k > 0 && (o.Sys == "rename" || o.Sys == "link") {
			return o.Path[k+4:]
		}
		return o.Path
	}
	n, p := 0, dest(ops[i])
	// the name of a temporary file is another one in every run
	t := strings.TrimRight(strings.TrimSuffix(p, ".tmp"), "0123456789")
	tmp := len(p)-len(t) > 4 && !strings.HasSuffix(t, "/")
	if tmp {
		p = t + "*"
	}
	for k := 0; k < i; k++ {
		if ops[k].Sys == ops[i].Sys && (dest(ops[k]) == p || tmp && strings.HasPrefix(dest(ops[k]), t)) {
			n++
		}
	}
	return vk.Fault{Sys: ops[i].Sys, Path: p, Nth: n, Count: 1}
}

// pickOp chooses an operation, system call kind first.
func pickOp(r *Rng, ops []vk.OpRec, ok func(o vk.OpRec) bool) int {
	by := map[string][]int{}
	for i, o := range ops {
		if ok(o) {
			by[o.Sys] = append(by[o.Sys], i)
		}
	}
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return -1
	}
	sort.Strings(ks)
	l := by[ks[r.N(len(ks))]]
	return l[r.N(len(l))]
}

func readOp(o vk.OpRec) bool { return readSys[o.Sys] && !isWriteOp(o) }

// inputs are the files and directories a run has to read.
func (w *World) inputs(rs RunSpec) map[string]string {
	m := map[string]string{}
	for i := range w.reachable() {
		m[w.pkgDir(i)] = "dir"
		for _, n := range w.goFiles(i) {
			if n.Type == "" && strings.HasSuffix(n.Path, ".go") && !strings.HasSuffix(n.Path, "_test.go") {
				m[n.Path] = "go"
			}
		}
		for _, s := range w.Pkgs[i].Specs {
			if isSpecName(s.File) {
				m[w.pkgDir(i)+"/"+s.File] = "spec"
			}
		}
	}
	if !rs.API && w.Inv.Config != "" {
		for c := w.Cfg; c != nil; c = c.Ext {
			m[w.Base+"/"+c.File] = "config"
		}
	}
	return m
}

func unparsable(path, kind, content string) bool {
	if kind == "go" {
		_, err := parser.ParseFile(token.NewFileSet(), path, content, 0)
		return err != nil
	}
	var v interface{}
	if strings.HasSuffix(path, ".json") {
		return json.Unmarshal([]byte(content), &v) != nil
	}
	if yaml2.Unmarshal([]byte(content), &v) == nil {
		return false
	}
	_, _, err := parseYAML(content)
	return err != nil
}

// ---- C09 ----

func faultWorld(r *Rng) *World {
	o := baseOpt()
	o.Specs, o.MultiSpec, o.MaxPkgs, o.MaxTypes, o.MaxFields, o.Refs = 70, 25, 4, 3, 3, 45
	o.CfgPct, o.Ext, o.DefOps, o.RootComps, o.Overrides, o.Exports = 35, 45, 40, 30, 30, 12
	o.Mods, o.Big = 60, 6
	return genWorld(r, o)
}

func gen09(r *Rng, i int, deep bool) *Case {
	w := faultWorld(r)
	c := &Case{Kind: r.S("hard", "hard", "hard", "persistent", "persistent", "soft", "soft", "content", "content", "loader", "missing", "descriptors"), Worlds: []*World{w}}
	if e := w.expect(); e.Fail != "" {
		return nil
	}
	cliFormat(r, w)
	if c.Kind != "missing" && r.P(45) {
		c.Base = api(c.Base, r.S(allFormats...))
	}
	return c
}

// garbage makes content that cannot be parsed.
func garbage(r *Rng, path, kind, content string) (string, bool) {
	for try := 0; try < 20; try++ {
		g := ""
		switch {
		case kind == "go" && r.P(50):
			g = content + r.S("\nfunc {\n", "\ntype X struct {\n", "\n}\n", "\n\"unclosed", "\nvar = 3\n", "\n\x00\n")
		case r.P(45) && len(content) > 2:
			g = content[:1+r.N(len(content)-1)]
		case kind == "go":
			g = r.S("", "not go\n", "pack", "package\n", "{}", "package main; import \"x")
		case strings.HasSuffix(path, ".json"):
			g = r.S("", "\n", "  ", "openapi: 3.0.0\n", "{openapi: \"3.0.0\"}", "{\"openapi\": \"3.0.0\",}", "{\"openapi\": \"3.0.0\"} {}", "{\"openapi\": \"3.0.0\"}\n// done\n", "{", "{\"openapi\": \"3.0.0\"", "[", "{\"openapi\": \"3.0.0\", \"paths\": {]}", "\"", "{\"a\": \"x\n", "{\"openapi\": \"3.0.0\"\x00}")
		default:
			g = r.S("a: b: c\n", "key: [unclosed\n", "{\n", "a: 'x\n", "\tfoo: bar\n", "- a\nb: c\n", "a: *undef\n", "openapi: \"3.0.0\"\npaths: {\n", "openapi: 3.0.0\n\tpaths: {}\n", "a: \x01\n", "openapi: \"3.0.0\"\n  paths: {}\n", "a: \"\\q\"\n", "\x80\x81: x\n", "? [a\n", "a: !!int x\n", "a: b\n c\nd: - e\n")
			if r.P(30) {
				g = content + "\n" + g
			}
		}
		if unparsable(path, kind, g) {
			return g, true
		}
	}
	return "", false
}

func judge09(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	if e := w.expect(); e.Fail != "" {
		return nil
	}
	r0 := x.run(c, c.Base)
	o0 := c.outcome(c.Base, r0)
	if !o0.OK || o0.Bad != "" {
		x.st.skip("neutral run fails")
		return nil
	}
	in := w.inputs(c.Base)
	files := map[string]string{}
	for _, n := range w.image() {
		if n.Type == "" {
			files[n.Path] = string(n.Bytes())
		}
	}
	var keys []string
	for k := range in {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, rs := range c.runs(func(r *Rng) (out []RunSpec) {
		for n := 0; n < 3; n++ {
			rs := c.Base
			if r.P(40) {
				rs = noise(r, rs)
			}
			rs.Label = c.Kind
			switch c.Kind {
			case "hard":
				for k := r.R(1, 2); k > 0; k-- {
					i := pickOp(r, r0.Ops, readOp)
					if i < 0 {
						continue
					}
					f := opFault(r0.Ops, i)
					f.Errno = hardErr[r.N(len(hardErr))]
					if r.P(25) {
						f.Count = r.N(4)
					}
					if r.P(15) {
						f.Path, f.Nth = f.Path[:strings.LastIndex(f.Path, "/")+1]+"*", r.N(6)
					}
					rs.Faults = append(rs.Faults, f)
				}
			case "persistent":
				p := keys[r.N(len(keys))]
				s := "getdents"
				if in[p] != "dir" {
					s = r.S("open", "read")
				} else if r.P(40) {
					s = "open"
				}
				rs.Faults = []vk.Fault{{Sys: s, Path: p, Errno: hardErr[r.N(len(hardErr))]}}
				if r.P(20) && s == "read" {
					rs.Faults[0].Nth = 1 // the end of the file cannot be read
				}
			case "soft":
				for k := r.R(1, 5); k > 0; k-- {
					i := pickOp(r, r0.Ops, func(o vk.OpRec) bool {
						return o.Sys == "open" && !isWriteOp(o) || o.Sys == "read" || o.Sys == "getdents" || o.Sys == "stat"
					})
					if i < 0 {
						continue
					}
					f := opFault(r0.Ops, i)
					f.Count = r.R(1, 3)
					f.Errno = vk.EINTR
					if f.Sys == "read" && r.P(65) {
						f.Errno = 0
						f.Short = []int{1, 1, 2, 3, 7, 64, 511}[r.N(7)]
						if r.P(70) {
							f.Count = 0
						}
					}
					if r.P(20) {
						f.Path, f.Nth = "", r.N(4)
					}
					rs.Faults = append(rs.Faults, f)
				}
			case "content":
				p := keys[r.N(len(keys))]
				if in[p] == "dir" {
					// a specification which is a link to nothing
					l := vk.Node{Path: p + "/" + r.S("oapi.yaml", "oapi.yml", "oapi.json"), Type: "l"}
					l.Data = r.S("gone.yaml", "../gone/oapi.yaml", "/gone", filepath.Base(l.Path))
					taken := false
					for _, n := range w.image() {
						taken = taken || n.Path == l.Path
					}
					if !taken {
						rs.Extra = []vk.Node{l}
						out = append(out, rs)
					}
					continue
				}
				g, ok := garbage(r, p, in[p], files[p])
				if !ok {
					continue
				}
				rs.Extra = []vk.Node{vk.MkNode(p, []byte(g))}
			case "loader":
				if i := r.N(len(w.Pkgs)); r.P(40) && w.reachable()[i] {
					// the loader has something to say about a package
					d, n := w.pkgDir(i), w.Pkgs[i].Name
					switch r.N(8) {
					case 5, 6, 7: // what the compiler would refuse
						imp := ""
						if r.P(40) {
							imp = "import \"time\"\n\ntype zzWhen time.Time\n\n"
						}
						rs.Extra = []vk.Node{vk.MkNode(d+"/zz_type.go", []byte("package "+n+"\n\n"+imp+r.S("var zzV int = \"text\"\n", "var zzV = zzNone\n", "type zzT struct{ X zzNone }\n", "type zzT string\n\nvar zzT = 3\n", "type zzT zzT\n", "func zzF() int { return 1, 2 }\n\ntype zzU map[[]int]string\n", "const zzC int8 = 300\n", "var zzV = strings.ToUpper(\"x\")\n")))}
					case 4: // an import cycle
						rs.Extra = []vk.Node{vk.MkNode(d+"/zz_imp.go", []byte("package "+n+"\n\nimport _ \""+w.importPath([]int{0, i}[r.N(2)])+"\"\n"))}
					case 0:
						rs.Extra = []vk.Node{vk.MkNode(d+"/zz_other.go", []byte("package "+n+"x\n"))}
					case 1:
						rs.Extra = []vk.Node{vk.MkNode(d+"/zz_imp.go", []byte("package "+n+"\n\nimport _ \"example.com/none/such\"\n"))}
					case 2:
						rs.Extra = []vk.Node{vk.MkNode(d+"/zz_imp.go", []byte("package "+n+"\n\nimport _ \""+w.importPath(i)+"/zznone\"\n"))}
					case 3:
						rs.Extra = []vk.Node{{Path: d + "/zznone", Type: "d"}, vk.MkNode(d+"/zz_imp.go", []byte("package "+n+"\n\nimport _ \""+w.importPath(i)+"/zznone\"\n"))}
					}
					break
				}
				rs.LoaderFail = r.S("go: errors parsing go.mod", "cannot find main module", "exit", "no Go files in "+w.pkgDir(0))
				if r.P(30) {
					rs.LoaderFailAt = 1
				}
			case "missing":
				if w.Cfg == nil || w.Inv.Config == "" {
					v := w.Inv
					v.Config = r.S("none.yaml", "{B}/none.json", "./x/y.yml", "../none.yaml")
					rs.Inv = &v
					break
				}
				cf := w.Cfg
				if cf.Ext != nil && r.P(50) {
					cf = cf.Ext
				}
				rs.Drop = []string{"{B}/" + cf.File}
				if cf == w.Cfg && r.P(40) {
					// it is there, nothing says what it is written in
					v := w.Inv
					was := filepath.Base(v.Config)
					as := strings.TrimSuffix(was, filepath.Ext(was)) + r.S("", ".toml", ".txt", ".conf", filepath.Ext(was)+".bak", ".yamlx", ".js", ".")
					v.Config = strings.TrimSuffix(v.Config, was) + as
					p := w.Base + "/" + filepath.Dir(cf.File) + "/" + as
					taken := false
					for _, n := range w.image() {
						taken = taken || n.Path == filepath.Clean(p) || strings.HasPrefix(n.Path, filepath.Clean(p)+"/")
					}
					if taken || w.Base+"/"+w.Inv.Cwd == filepath.Clean(p) {
						continue
					}
					rs.Inv = &v
					rs.Extra = []vk.Node{vk.MkNode(filepath.Clean(p), []byte(files[w.Base+"/"+cf.File]))}
				}
			case "descriptors":
				rs.MaxFD = r.R(3, 14)
			}
			out = append(out, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		o := c.outcome(rs, r)
		hit := 0
		for k, n := range r.Injected {
			if !strings.HasPrefix(k, "clock") {
				hit += n
			}
		}
		must := false
		what := ""
		switch rs.Label {
		case "persistent":
			if len(rs.Faults) == 0 || in[rs.Faults[0].Path] == "" || hit == 0 {
				if len(rs.Faults) > 0 && hit == 0 {
					x.st.probe("persistent fault not reached")
				}
				continue
			}
			f := rs.Faults[0]
			must = true
			what = fmt.Sprintf("%s of %s fails for good (error %d)", f.Sys, f.Path, f.Errno)
		case "content":
			if len(rs.Extra) > 0 && rs.Extra[0].Type == "l" {
				if l := rs.Extra[0]; in[dirName(l.Path)] != "dir" || !isSpecName(filepath.Base(l.Path)) {
					continue
				}
				must = true
				what = rs.Extra[0].Path + " is a link to nothing"
				break
			}
			if len(rs.Extra) == 0 || in[rs.Extra[0].Path] == "" || !unparsable(rs.Extra[0].Path, in[rs.Extra[0].Path], string(rs.Extra[0].Bytes())) {
				continue
			}
			must = true
			what = "content of " + rs.Extra[0].Path + " cannot be parsed"
		case "loader":
			must = rs.LoaderFail != ""
			what = "the Go loader fails"
			if n := len(rs.Extra); n > 0 && in[dirName(rs.Extra[n-1].Path)] == "dir" && strings.Contains(rs.Extra[n-1].Path, "/zz_") {
				must = true
				what = "the Go loader rejects a package: " + rs.Extra[n-1].Path
			}
		case "missing":
			if rs.Inv == nil && len(rs.Drop) == 0 || rs.API {
				continue
			}
			if rs.Inv == nil {
				known := false
				for q := range in {
					known = known || in[q] == "config" && q == w.sub(rs.Drop[0])
				}
				if !known {
					continue
				}
			}
			must = true
			what = "a configuration file does not exist"
			if len(rs.Extra) > 0 {
				what = "the format of the configuration file is unknown: " + rs.Extra[0].Path
			}
		case "soft":
			if o.Bad == "" && o.OK && o.Doc == o0.Doc {
				continue
			}
			if hit == 0 {
				continue
			}
			return c.viol("transient", "interrupted calls or short reads change the outcome: "+diffOutcome(o0, o), rs)
		}
		if o.Bad != "" {
			return c.viol("crash", "a read fault ends in a crash instead of an error: "+o.Bad, rs)
		}
		if !o.OK {
			continue
		}
		if must {
			return c.viol("ignored", "the run succeeds although "+what, rs)
		}
		if o.Doc != o0.Doc {
			return c.viol("partial", fmt.Sprintf("the run succeeds with another document although input could not be read (%s): %s", faultText(rs), diffText(o0.Doc, o.Doc)), rs)
		}
	}
	return nil
}

func faultText(rs RunSpec) string {
	var s []string
	for _, f := range rs.Faults {
		s = append(s, fmt.Sprintf("%s %s #%d: error %d", f.Sys, f.Path, f.Nth, f.Errno))
	}
	if rs.MaxFD > 0 {
		s = append(s, fmt.Sprintf("at most %d descriptors", rs.MaxFD))
	}
	return strings.Join(s, ", ")
}

func diffOutcome(a, b outcome) string {
	if !b.OK || b.Bad != "" {
		return "the run fails: " + b.why()
	}
	return diffText(a.Doc, b.Doc)
}

// ---- C10 ----

// outWorld gives a project a destination with surroundings.
func outWorld(r *Rng, w *World, special bool) (uid int) {
	old := r.S("", "OLD CONTENT\n", "openapi: 2.9.9\n", strings.Repeat("old line of a document\n", 400))
	put := func(n vk.Node) { w.Extra = append(w.Extra, n) }
	file := func(p string) {
		if r.P(60) {
			n := vk.MkNode(p, []byte(old))
			n.Mode = []uint32{0644, 0600, 0755, 0640}[r.N(4)]
			put(n)
			if r.P(10) { // known by another name as well
				put(vk.Node{Path: p + r.S(".too", "-", "~2"), HardTo: p})
			}
		}
	}
	dirs := func(p string) { put(vk.Node{Path: p, Type: "d"}) }
	// a configured output would be overridden by the flag
	switch r.N(11) {
	case 10: // in a directory which is not there
		w.Inv.Output = r.S("{B}/dst/no/such/out.json", "{B}/none/out.yaml", "none/out.json", w.pkgDir(0)+"/none/x")
		if r.P(50) {
			dirs("{B}/dst")
		}
	case 0, 1, 2:
		w.Inv.Output = "{B}/dst/out.yaml"
		dirs("{B}/dst")
		file("{B}/dst/out.yaml")
	case 3:
		w.Inv.Output = "openapi.json"
		file("{B}/" + w.Inv.Cwd + "/openapi.json")
	case 4: // link to a file elsewhere
		w.Inv.Output = "{B}/link.json"
		dirs("{B}/real")
		put(vk.MkNode("{B}/real/target.json", []byte(old)))
		put(vk.Node{Path: "{B}/link.json", Type: "l", Data: r.S("real/target.json", "{B}/real/target.json")})
	case 5: // below a linked directory
		w.Inv.Output = "{B}/ld/out.json"
		dirs("{B}/real")
		put(vk.Node{Path: "{B}/ld", Type: "l", Data: "real"})
		file("{B}/real/out.json")
	case 6: // on another file system
		w.Inv.Output = "{B}/mnt/out.json"
		put(vk.Node{Path: "{B}/mnt", Type: "d", Dev: 77})
		file("{B}/mnt/out.json")
	case 7: // in the package directory itself, like go generate does
		w.Inv.Output = w.pkgDir(0) + "/generated.txt"
		file(w.pkgDir(0) + "/generated.txt")
	case 8:
		w.Inv.Output = "{B}/dst/a b/ünï.json"
		dirs("{B}/dst/a b")
		file("{B}/dst/a b/ünï.json")
	case 9: // other names of the same file
		w.Inv.Output = "{B}/dst/../dst/./out.json"
		dirs("{B}/dst")
		file("{B}/dst/out.json")
	}
	if r.P(15) {
		put(vk.MkNode("{B}/dst/bystander", []byte("leave me alone")))
	}
	if strings.HasPrefix(w.Inv.Output, "{B}/dst/") && w.Inv.Output != "{B}/dst/no/such/out.json" && special && r.P(12) {
		// not a file at all: a pipe somebody reads, or a device
		w.Inv.Output = "{B}/dst/sink"
		put(vk.Node{Path: "{B}/dst", Type: "d"})
		n := vk.Node{Path: "{B}/dst/sink", Type: r.S("f", "f", "c"), Mode: []uint32{0666, 0600, 0222}[r.N(3)]}
		if r.P(30) {
			n.Path = "{B}/dst/real sink"
			put(vk.Node{Path: "{B}/dst/sink", Type: "l", Data: "real sink"})
		}
		put(n)
	}
	if r.P(6) { // in a directory nobody may create files in
		for i := range w.Extra {
			if n := &w.Extra[i]; n.Type == "d" && strings.HasPrefix(w.Inv.Output, n.Path+"/") || n.Type == "d" && n.Path == "{B}/real" {
				n.Mode = 0555
				uid = 1000
			}
		}
	}
	// files of others next to it, named like something a program may think it owns
	if d, f := dirName(w.Inv.Output), w.Inv.Output[strings.LastIndexByte(w.Inv.Output, '/')+1:]; r.P(40) && strings.HasPrefix(d, "{B}/") && !strings.Contains(d, "no/such") && d != "{B}/none" && !strings.Contains(d, "/../") {
		for n := r.R(1, 4); n > 0; n-- {
			p := d + "/" + r.S(f+"~", f+".tmp", f+".bak", f+".lock", f+".old", f+".new", "."+f, "."+f+".swp", "tmp", "out", ".oapi-1234", ".oapi-", ".oapi-999999999", ".oapi.lock", "oapi.tmp", "oapi123", ".lock", "keep.txt", "#"+f+"#", strings.TrimSuffix(f, ".json"))
			dup := false
			for _, e := range w.Extra {
				dup = dup || e.Path == p
			}
			if !dup && !strings.HasSuffix(p, "/") {
				n := vk.MkNode(p, []byte("not yours: "+p))
				n.Mode = []uint32{0644, 0600, 0444}[r.N(3)]
				put(n)
			}
		}
	}
	return
}

// nearlyNew is the output with something much like the new document in it.
func nearlyNew(r *Rng, c *Case, dest, doc string) (vk.Node, bool) {
	fs := c.startFS(c.Base)
	n, e := fs.Lookup(dest, true)
	if e != 0 || n.Type != vk.TFile || len(doc) < 3 {
		return vk.Node{}, false
	}
	b := []byte(doc)
	switch i := r.N(len(b) - 1); r.N(8) {
	case 0, 1, 2: // of the same length
		b[i] ^= 1
	case 6, 7: // and hardly a byte the same
		for k := range b {
			if b[k] > ' ' {
				b[k] ^= 1
			}
		}
	case 3:
		b = append(b, r.S("x", "\n", doc, "\n\n}")...)
	case 4:
		b = b[:i]
	}
	x := vk.MkNode(fs.PathOfNode(n), b)
	x.Mode = n.Mode & 0777
	return x, true
}

func gen10(r *Rng, i int, deep bool) *Case {
	c := &Case{Kind: "good"}
	w := faultWorld(r)
	if r.P(35) {
		c.Kind = "broken"
		switch r.N(9) {
		case 0:
			injectConflict(r, w)
		case 1:
			injectSchema(r, w, M{"$ref": badRef(r, w)})
		case 2:
			w.Inv.Raw = [][]string{{"--nosuchflag"}, {"--format", "xml"}, {"--loglevel", "loud"}, {"extra"}, {"--config"}, {"--format", "JSON"}, {"--output", "o1", "--output"}, {"scan"}, {"--dir=x", "y"}}[r.N(9)]
		case 3:
			w.Inv.Config = r.S("none.yaml", "{B}", "/", "")
			if w.Inv.Config == "" {
				w.Inv.Dir = "{B}/no/such/dir"
			}
		case 4:
			if s := w.anySpec(r); s != nil {
				s.IsRaw, s.Raw = true, r.S("a: b: c\n", "{", "openapi: \"3.0.0\"\npaths: [\n")
			}
		case 5:
			w.Pkgs[0].RawGo = append(w.Pkgs[0].RawGo, vk.MkNode("broken.go", []byte("package "+w.Pkgs[0].Name+"\n\nfunc {\n")))
		case 6:
			w.Pkgs[0].Comments = append(w.Pkgs[0].Comments, r.S("openapi:nosuch x", "openapi:schema", "openapi:schema A b c d"))
		case 7:
			cfgOf(w)
			w.Cfg.IsRaw, w.Cfg.Raw = true, r.S("format: xml\n", "a: b: c\n", "dir: /no/such\n", "extends: nope.yaml\n", "output: {B}/no/such/dir/x\n", "overrides: 5\n")
			w.Inv.Format = r.S(allFormats...)
			if strings.HasPrefix(w.Cfg.Raw, "format") {
				w.Inv.Format = ""
			}
			if strings.HasPrefix(w.Cfg.Raw, "dir") {
				w.Inv.Dir = ""
			}
		case 8:
			w.Inv.Output = r.S("{B}", "{B}/no/such/out", "/", "", w.pkgDir(0), w.pkgDir(0)+"/f0.go/x")
		}
	}
	if w.Inv.Output == "" && w.Inv.Raw == nil {
		switch r.N(5) {
		case 0, 1:
		case 2:
			w.Inv.Output = r.S("stdout", "stderr", "stderr")
		default:
			c.Base.Uid = outWorld(r, w, true)
		}
	}
	if w.Cfg == nil && w.Inv.Raw == nil {
		w.Inv.Format = r.S(allFormats...)
	}
	if r.P(30) && w.Inv.Raw == nil {
		w.Inv.Log = r.S("panic", "fatal", "error", "warn", "info", "debug", "trace")
	}
	c.Worlds = []*World{w}
	return c
}

var logLevels = []string{"nolog", "panic", "fatal", "error", "warn", "info", "debug", "trace"}

func judge10(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	if w.Inv.Raw == nil && w.options().Format == "" {
		return nil
	}
	r0 := x.run(c, c.Base)
	o0 := c.outcome(c.Base, r0)
	if v := truth(c, c.Base, r0, o0, nil); v != "" {
		return c.viol(strings.SplitN(v, ":", 2)[0], v, c.Base)
	}
	dest := ""
	if w.Inv.Raw == nil {
		dest = w.options().Output
	}
	for _, rs := range c.runs(func(r *Rng) (out []RunSpec) {
		for n := 0; n < 3; n++ {
			rs := c.Base
			if r.P(40) {
				rs = noise(r, rs)
			}
			if dest != "" && o0.OK && r.P(25) {
				if x, ok := nearlyNew(r, c, dest, o0.Doc); ok {
					rs.Extra = append(rs.Extra, x)
				}
			}
			switch k := r.N(11); {
			case k == 10:
				rs.Label = "log"
			case k < 3 && w.Inv.Raw == nil:
				rs.Label = "log"
				v := w.Inv
				v.Log = logLevels[r.N(len(logLevels))]
				rs.Inv = &v
				if r.P(25) {
					rs.Stderr = r.S("closed", "full")
				}
			case k == 3: // asked to stop
				rs.LoaderDelay = r.N(3)
				span := int(r0.Steps)
				if r.P(40) {
					rs.LoaderDelay = r.R(1, span)
					span += rs.LoaderDelay
				}
				at := r.R(1, span+1)
				for k := []int{1, 1, 1, 2, 3}[r.N(5)]; k > 0; k-- {
					rs.Events = append(rs.Events, vk.Event{Step: int64(at), Kind: r.S("SIGINT", "SIGTERM")})
					at += r.N(span/3 + 2)
				}
				if w.Inv.Raw == nil && r.P(50) {
					v := w.Inv
					v.Log = logLevels[r.N(len(logLevels))]
					rs.Inv = &v
				}
			case k < 5:
				if r.P(60) {
					rs.Stdout = r.S("closed", "pipe", "full")
				} else {
					rs.Stderr = r.S("closed", "pipe", "full")
				}
			default:
				for q := r.R(1, 2); q > 0; q-- {
					i := pickOp(r, r0.Ops, func(o vk.OpRec) bool {
						return isWriteOp(o) || (o.Sys == "close" || o.Sys == "stat") && nearDest(o.Path, dest)
					})
					if i < 0 {
						continue
					}
					f := opFault(r0.Ops, i)
					switch {
					case f.Sys == "write" && r.P(40):
						f.Short = []int{1, 2, 10, 100, 4095}[r.N(5)]
						f.Count = r.N(3)
					case r.P(15) && (f.Sys == "write" || f.Sys == "open" || f.Sys == "stat"):
						f.Errno, f.Count = vk.EINTR, r.R(1, 3)
					default:
						f.Errno = wrErr[r.N(len(wrErr))]
						f.Count = r.N(2)
					}
					if f.Sys == "write" && strings.HasSuffix(f.Path, "sink") && f.Errno != 0 && r.P(40) {
						f.Errno = vk.EPIPE // the reader is gone
					}
					rs.Faults = append(rs.Faults, f)
				}
				if r.P(15) {
					rs.Faults = nil
					rs.DiskFree = int64(r.R(1, 3000))
				}
			}
			out = append(out, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		o := c.outcome(rs, r)
		ref := &o0
		if v := truth(c, rs, r, o, ref); v != "" {
			return c.viol(strings.SplitN(v, ":", 2)[0], v, rs)
		}
		if rs.Label == "log" && rs.Stderr == "" && o0.Bad == "" && o.Bad == "" {
			if r.Exit != r0.Exit {
				return c.viol("loglevel", fmt.Sprintf("log level %s changes the exit status from %d to %d", rs.Inv.Log, r0.Exit, r.Exit), rs)
			}
			if r.Stdout != r0.Stdout {
				return c.viol("loglevel", "log level "+rs.Inv.Log+" changes standard output: "+diffText(r0.Stdout, r.Stdout), rs)
			}
			if dest != "stderr" && o.Doc != o0.Doc {
				return c.viol("loglevel", "log level "+rs.Inv.Log+" changes the document: "+diffText(o0.Doc, o.Doc), rs)
			}
		}
	}
	return nil
}

func nearDest(p, dest string) bool {
	return dest != "" && strings.HasPrefix(p, dirName(dest))
}

func dirName(p string) string {
	if i := strings.LastIndexByte(p, '/'); i > 0 {
		return p[:i]
	}
	return "/"
}

// truth says how exit status, streams and destination contradict each other.
// ref is the neutral run of the same project.
func truth(c *Case, rs RunSpec, r *vk.Result, o outcome, ref *outcome) string {
	if o.Bad != "" {
		return ""
	}
	w := c.Worlds[0]
	inv := w.Inv
	if rs.Inv != nil {
		inv = *rs.Inv
	}
	w2 := w.clone()
	w2.Inv = inv
	dest := "stdout"
	if inv.Raw == nil {
		dest = w2.options().Output
	}
	hitStd := func(n string) bool {
		for _, op := range r.Ops {
			if op.Sys == "write" && op.Inj && strings.Contains(op.Path, n) {
				return true
			}
		}
		return false
	}
	if r.How == "signal" {
		return ""
	}
	ok := o.OK
	if ok {
		if inv.Raw != nil {
			return "accepted: exit status 0 for arguments " + strings.Join(inv.Raw, " ")
		}
		if ref != nil && ref.OK && ref.Bad == "" {
			// the whole document, the same as without faults
			want := ref.Doc
			if dest == "stderr" {
				d, _, err := decodeDoc(o.Fmt, logless(o.Doc))
				if err != nil {
					return "incomplete: exit status 0 but standard error does not hold the whole document"
				}
				if rd, _, e := decodeDoc(ref.Fmt, logless(ref.Doc)); e == nil && firstDiff("", rd, d) != "" {
					return "incomplete: exit status 0 but standard error holds another document"
				}
			} else if o.Doc != want {
				return fmt.Sprintf("incomplete: exit status 0 but %s does not hold the whole document: %s", dest, diffText(want, o.Doc))
			}
		} else {
			d, _, err := decodeDoc(o.Fmt, logless(o.Doc))
			m, isM := d.(M)
			if err != nil || !isM {
				return fmt.Sprintf("incomplete: exit status 0 but %s holds no document: %q", dest, clip(o.Doc, 80))
			}
			if _, has := m["openapi"]; !has && dest != "stderr" {
				if e := w2.expect(); e.Fail == "" {
					if _, has := e.Final["openapi"]; has {
						return "incomplete: exit status 0 but the document has no version"
					}
				}
			}
		}
		if dest != "stdout" && dest != "stderr" {
			b, e1 := c.startFS(rs).Lookup(dest, true)
			a, e2 := c.finalFS(rs, r).Lookup(dest, true)
			if e1 == 0 && (e2 != 0 || a.Type != b.Type) {
				return "replaced: exit status 0, but " + dest + " is not what the document was to be delivered to any more"
			}
		}
		if dest != "stdout" && r.Stdout != "" {
			return "streams: a document for " + dest + " also writes to standard output: " + clip(r.Stdout, 60)
		}
		return ""
	}
	// failed
	if r.Exit == 0 {
		return "status: the run fails with exit status 0"
	}
	if r.Exit == 141 {
		return "" // killed by SIGPIPE, as any command of a pipeline
	}
	if r.Stderr == "" && rs.Stderr == "" && !hitStd("stderr") && rs.DiskFree == 0 {
		return "silent: the run fails without a message on standard error"
	}
	if r.Stdout != "" {
		if dest == "stdout" && (rs.Stdout != "" || hitStd("stdout")) && ref != nil && strings.HasPrefix(ref.Doc, r.Stdout) && r.Stdout != ref.Doc {
			return "" // what could be written before the fault
		}
		return "streams: the run fails but writes to standard output: " + clip(r.Stdout, 60)
	}
	if ref != nil && ref.OK && len(rs.Events) == 0 && len(rs.Faults) == 0 && rs.Stdout == "" && rs.Stderr == "" && rs.DiskFree == 0 && rs.Uid == 0 {
		return "status: the run fails although nothing is wrong: " + clip(r.Stderr, 200)
	}
	return ""
}

// logless removes log lines around a document on standard error.
func logless(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "time=") && strings.Contains(l, " level=") {
			continue
		}
		if i := strings.Index(l, "time=\""); i > 0 && strings.Contains(l[i:], "level=") {
			l = l[:i]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// ---- C12 ----

func gen12(r *Rng, i int, deep bool) *Case {
	w := faultWorld(r)
	c := &Case{Kind: "faults", Worlds: []*World{w}}
	switch k := r.N(10); {
	case k < 2:
		c.Kind = "library"
		c.Base = api(c.Base, allFormats...)
		if r.P(40) {
			injectConflict(r, w)
		}
		return c
	case k < 4:
		c.Kind = "broken"
		switch r.N(5) {
		case 0:
			injectConflict(r, w)
		case 1:
			injectSchema(r, w, M{"$ref": badRef(r, w)})
		case 2:
			if s := w.anySpec(r); s != nil {
				s.IsRaw, s.Raw = true, "a: b: c\n"
			}
		case 3:
			w.Pkgs[0].RawGo = append(w.Pkgs[0].RawGo, vk.MkNode("broken.go", []byte("package x\n\nfunc {\n")))
		case 4:
			w.Pkgs[0].Comments = append(w.Pkgs[0].Comments, "openapi:nosuch")
		}
	}
	c.Base.Uid = outWorld(r, w, true)
	if w.Cfg == nil {
		w.Inv.Format = r.S(allFormats...)
	}
	if r.P(40) {
		w.Inv.Log = r.S(logLevels...)
	}
	return c
}

func judge12(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	r0 := x.run(c, c.Base)
	for _, rs := range append([]RunSpec{c.Base}, c.runs(func(r *Rng) (out []RunSpec) {
		n := 4
		if c.Kind == "broken" || c.Kind == "library" {
			n = 2
		}
		for ; n > 0; n-- {
			rs := c.Base
			if r.P(40) {
				rs = noise(r, rs)
			}
			if o0 := c.outcome(c.Base, r0); o0.OK && !c.Base.API && w.Inv.Raw == nil && r.P(15) {
				if x, ok := nearlyNew(r, c, w.options().Output, o0.Doc); ok {
					rs.Extra = append(rs.Extra, x)
				}
			}
			switch k := r.N(10); {
			case k < 6:
				for q := r.R(1, 2); q > 0; q-- {
					i := pickOp(r, r0.Ops, func(o vk.OpRec) bool {
						return isWriteOp(o) || o.Sys == "close" || o.Sys == "stat" || o.Sys == "readlink"
					})
					if i < 0 {
						continue
					}
					f := opFault(r0.Ops, i)
					switch {
					case f.Sys == "write" && r.P(30):
						f.Short, f.Count = []int{1, 2, 10, 100, 1000}[r.N(5)], r.N(4)
					case r.P(10) && (f.Sys == "write" || f.Sys == "open"):
						f.Errno, f.Count = vk.EINTR, 1
					default:
						f.Errno, f.Count = wrErr[r.N(len(wrErr))], r.N(3)
					}
					rs.Faults = append(rs.Faults, f)
				}
				if r.P(20) { // partly written, then the disk is full
					rs.Faults = append(rs.Faults, vk.Fault{Sys: "write", Path: w.Base + "*", Nth: 0, Count: 1, Short: r.R(1, 200)}, vk.Fault{Sys: "write", Path: w.Base + "*", Nth: 1, Errno: vk.ENOSPC})
				}
			case k < 8:
				rs.DiskFree = int64([]int{1, 10, 100, 1000, 3000}[r.N(5)]) + int64(r.N(50))
			case k < 9:
				rs.Faults = []vk.Fault{{Sys: r.S("*", "write", "open", "rename", "fsync", "close"), Only: "w", Nth: r.N(4), Errno: wrErr[r.N(len(wrErr))]}}
			default:
				i := pickOp(r, r0.Ops, readOp)
				if i >= 0 {
					f := opFault(r0.Ops, i)
					f.Errno = hardErr[r.N(len(hardErr))]
					rs.Faults = []vk.Fault{f}
				}
			}
			out = append(out, rs)
		}
		return
	})...) {
		r := x.run(c, rs)
		o := c.outcome(rs, r)
		if v := diskTruth(c, rs, r, o); v != "" {
			return c.viol(strings.SplitN(v, ":", 2)[0], v, rs)
		}
	}
	return nil
}

// diskTruth compares the disk before and after a run.
func diskTruth(c *Case, rs RunSpec, r *vk.Result, o outcome) string {
	if o.Bad != "" {
		return ""
	}
	before, after := map[string]vk.Node{}, map[string]vk.Node{}
	b, a := c.startFS(rs), c.finalFS(rs, r)
	for _, n := range b.Dump() {
		before[n.Path] = n
	}
	for _, n := range a.Dump() {
		after[n.Path] = n
	}
	out := ""
	if !rs.API {
		w := rebase(c.Worlds[0], rs.Base)
		if rs.Inv != nil {
			w = w.clone()
			w.Inv = *rs.Inv
		}
		out = w.options().Output
		if out == "stdout" || out == "stderr" {
			out = ""
		}
	}
	real := ""
	if out != "" {
		if n, e := a.Lookup(out, true); e == 0 {
			real = a.PathOfNode(n)
		}
	}
	cleanup := false // was the clean-up itself made impossible?
	for _, op := range r.Ops {
		if op.Sys == "unlink" && op.Inj {
			cleanup = true
		}
	}
	if rs.Uid != 0 {
		cleanup = true
	}
	var ps []string
	for p := range before {
		ps = append(ps, p)
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		x, was := before[p]
		y, is := after[p]
		if was && is && x == y {
			continue
		}
		if o.OK && out != "" && (p == real || was && is && sameFile(b, p, out)) {
			continue
		}
		if was && is && x.HardTo != y.HardTo {
			// another name of the replaced file
			x.HardTo, y.HardTo = "", ""
			if o.OK {
				continue
			}
		}
		verb := "changed"
		if !was {
			verb = "created"
			if cleanup && !o.OK && out != "" && dirName(p) == dirName(realOf(b, out)) {
				continue
			}
		}
		if !is {
			verb = "removed"
		}
		how := "a failed run"
		if o.OK {
			how = "a successful run"
		}
		what := "other"
		if p == real || p == out {
			what = "output"
		}
		return fmt.Sprintf("%s-%s: %s has %s %s (%s)", what, verb, how, verb, p, strings.TrimSpace(clip(o.Err, 120)))
	}
	if o.OK && out != "" && real == "" {
		return "output-missing: a successful run left no output file " + out
	}
	return ""
}

// sameFile: two names of one file.
func sameFile(fs *vk.FS, p, q string) bool {
	n, e1 := fs.Lookup(p, false)
	m, e2 := fs.Lookup(q, true)
	return e1 == 0 && e2 == 0 && n == m
}

// realOf is the path a file would have once links are followed.
func realOf(fs *vk.FS, p string) string {
	if n, e := fs.Lookup(p, true); e == 0 {
		return fs.PathOfNode(n)
	}
	if n, e := fs.Lookup(dirName(p), true); e == 0 {
		return fs.PathOf(n) + p[strings.LastIndexByte(p, '/'):]
	}
	return p
}

// ---- C18 ----

func gen18(r *Rng, i int, deep bool) *Case {
	w := faultWorld(r)
	c := &Case{Kind: "calls", Worlds: []*World{w}}
	switch {
	case r.P(20):
		injectConflict(r, w)
	case r.P(15):
		injectSchema(r, w, M{"$ref": badRef(r, w)})
	case r.P(12):
		if s := w.anySpec(r); s != nil {
			s.IsRaw, s.Raw = true, r.S("a: b: c\n", "{", "openapi: [1\n")
		}
	case r.P(10):
		w.Pkgs[0].Comments = append(w.Pkgs[0].Comments, "openapi:nosuch")
	}
	c.Base = api(c.Base, allFormats...)
	return c
}

func judge18(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	r0 := x.run(c, c.Base)
	if crashed(r0) != "" {
		x.st.skip("run crashed")
		return nil
	}
	if v := leaks(r0); v != "" {
		return c.viol("leak", v, c.Base)
	}
	steps := r0.Steps
	for _, rs := range c.runs(func(r *Rng) (out []RunSpec) {
		for n := 0; n < 3; n++ {
			rs := noise(r, c.Base)
			id := 0
			for k := r.R(1, 3); k > 0; k-- {
				var ph vk.Phase
				for q := []int{1, 1, 1, 2, 3}[r.N(5)]; q > 0; q-- {
					id++
					call := w.apiCall(fmt.Sprint("c", id), []string{r.S(allFormats...)})
					call.Log = r.S("", "", "print", "void")
					switch {
					case r.P(35):
						call.Cancel = int64(r.R(1, int(steps)+rs.LoaderDelay))
					case r.P(8):
						call.Cancel = -1
					case r.P(5):
						call.Dir = "{B0}/no/such"
					}
					ph.Calls = append(ph.Calls, call)
				}
				if r.P(45) {
					if i := pickOp(r, r0.Ops, readOp); i >= 0 {
						f := opFault(r0.Ops, i)
						f.Errno = hardErr[r.N(len(hardErr))]
						f.Count = r.N(3)
						if r.P(25) {
							f.Path, f.Nth = "", r.N(12)
						}
						ph.Faults = []vk.Fault{f}
					}
				}
				rs.Phases = append(rs.Phases, ph)
			}
			if r.P(10) {
				rs.LoaderFail, rs.LoaderFailAt = "no", r.R(1, 3)
			}
			if r.P(10) {
				rs.MaxFD = r.R(4, 16)
			}
			out = append(out, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		if crashed(r) != "" {
			x.st.skip("run crashed")
			continue
		}
		if v := leaks(r); v != "" {
			return c.viol("leak", v, rs)
		}
	}
	return nil
}

func leaks(r *vk.Result) string {
	for i, p := range r.Phases {
		if len(p.OpenFDs) > 0 {
			return fmt.Sprintf("after phase %d descriptors are still open: %s", i, strings.Join(p.OpenFDs, ", "))
		}
		if p.Leaked > 0 {
			return fmt.Sprintf("after phase %d goroutines are still alive: %d", i, p.Leaked)
		}
	}
	return ""
}
