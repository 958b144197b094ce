package simk

import (
	"errors"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/verifsim/vk"
	"golang.org/x/tools/go/packages"
)

// Driver stands in for the go list process: it answers loader requests from
// the virtual disk. It is another process, so the fault plan of this process
// does not apply to it; it fails as a whole when the job says so.
func Driver(cfg *packages.Config, patterns []string) ([]string, []*packages.Package, *types.StdSizes, error) {
	k := K
	k.LoaderCalls++
	n := k.LoaderCalls
	for i := 0; ; i++ {
		if cfg.Context != nil && cfg.Context.Err() != nil {
			return nil, nil, nil, cfg.Context.Err()
		}
		if i >= k.Job.LoaderDelay {
			break
		}
		runtime.SimTick(1000000)
		runtime.Gosched()
	}
	if k.Job.LoaderFail != "" && (k.Job.LoaderFailAt == 0 || k.Job.LoaderFailAt == n) {
		k.Injected["loader:fail"]++
		return nil, nil, nil, errors.New("err: exit status 1: stderr: " + k.Job.LoaderFail)
	}
	l := &loader{k: k, pkgs: map[string]*packages.Package{}, std: map[string]bool{}}
	for _, p := range packages.SimStd() {
		l.std[p] = true
	}
	dir := cfg.Dir
	if dir == "" {
		dir = k.FS.PathOf(k.cwd)
	}
	d, e := k.FS.Lookup(k.abs(atFDCWD, dir), true)
	if e != 0 || d.Type != vk.TDir {
		return nil, nil, nil, errors.New("couldn't run 'go': chdir " + dir + ": no such file or directory")
	}
	dir = k.abs(atFDCWD, dir)
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	// without its dependencies a package is checked against their export data
	l.export = cfg.Mode&packages.NeedTypes != 0 && cfg.Mode&packages.NeedDeps == 0
	l.tests = cfg.Tests
	var roots []string
	seen := map[string]bool{}
	for _, p := range patterns {
		ids, err := l.match(dir, p)
		if err != nil {
			return nil, nil, nil, err
		}
		for _, id := range ids {
			if !seen[id] {
				seen[id] = true
				roots = append(roots, id)
			}
		}
	}
	return roots, l.order, &types.StdSizes{WordSize: 8, MaxAlign: 8}, nil
}

type loader struct {
	k     *Kernel
	group string
	pkgs  map[string]*packages.Package
	order []*packages.Package
	stack []string
	std   map[string]bool

	export, tests bool
}

// withTests adds what is made of a package for its tests.
func (l *loader) withTests(ip, dir string) []string {
	ids := []string{ip}
	d, e := l.k.FS.Lookup(dir, true)
	if !l.tests || e != 0 || d.Type != vk.TDir {
		return ids
	}
	p := l.pkgs[ip]
	files := map[bool][]string{}
	imports := map[bool]map[string]bool{false: {}, true: {}}
	for _, e := range d.Ents {
		if !strings.HasSuffix(e.Name, "_test.go") || l.k.FS.In[e.Ino].Type != vk.TFile || e.Name[0] == '_' || e.Name[0] == '.' {
			continue
		}
		af, _ := parser.ParseFile(token.NewFileSet(), dir+"/"+e.Name, l.k.FS.In[e.Ino].Data, parser.ImportsOnly)
		if af == nil || af.Name == nil {
			continue
		}
		ext := af.Name.Name == p.Name+"_test"
		files[ext] = append(files[ext], dir+"/"+e.Name)
		for _, im := range af.Imports {
			if s, err := strconv.Unquote(im.Path.Value); err == nil && s != "C" {
				imports[ext][s] = true
			}
		}
	}
	for _, ext := range []bool{false, true} {
		if len(files[ext]) == 0 {
			continue
		}
		sort.Strings(files[ext])
		v := &packages.Package{ID: ip + " [" + ip + ".test]", PkgPath: ip, Name: p.Name, Module: p.Module, Imports: map[string]*packages.Package{}}
		if ext {
			v.ID, v.PkgPath, v.Name = ip+"_test ["+ip+".test]", ip+"_test", p.Name+"_test"
		} else {
			v.GoFiles = append(v.GoFiles, p.GoFiles...)
			for s := range p.Imports {
				imports[ext][s] = true
			}
		}
		v.GoFiles = append(v.GoFiles, files[ext]...)
		v.CompiledGoFiles = append([]string{}, v.GoFiles...)
		var ims []string
		for s := range imports[ext] {
			ims = append(ims, s)
		}
		sort.Strings(ims)
		for _, s := range ims {
			id := l.resolve(s)
			if ext && s == ip && len(files[false]) > 0 {
				id = ip + " [" + ip + ".test]"
			}
			v.Imports[s] = &packages.Package{ID: id}
		}
		l.pkgs[v.ID] = v
		l.order = append(l.order, v)
		ids = append(ids, v.ID)
	}
	return ids
}

func (l *loader) match(dir, p string) ([]string, error) {
	switch {
	case strings.HasSuffix(p, "/..."):
		base := strings.TrimSuffix(p, "/...")
		if !strings.HasPrefix(base, ".") && !strings.HasPrefix(base, "/") {
			return nil, errors.New("pattern " + p + " is not modelled")
		}
		if !strings.HasPrefix(base, "/") {
			base = clean(dir + "/" + base)
		}
		var ids []string
		var walk func(n *vk.Inode, path string)
		walk = func(n *vk.Inode, path string) {
			if len(l.goFiles(n)) > 0 {
				if ip, ok := l.importPath(path); ok {
					ids = append(ids, l.withTests(l.load(ip, path), path)...)
				}
			}
			ents := append([]vk.Dirent{}, n.Ents...)
			sort.Slice(ents, func(i, j int) bool { return ents[i].Name < ents[j].Name })
			for _, e := range ents {
				c := l.k.FS.In[e.Ino]
				if c.Type == vk.TDir && !strings.HasPrefix(e.Name, ".") && !strings.HasPrefix(e.Name, "_") && e.Name != "testdata" {
					walk(c, path+"/"+e.Name)
				}
			}
		}
		n, e := l.k.FS.Lookup(base, true)
		if e != 0 {
			return nil, errors.New("no such directory " + base)
		}
		walk(n, base)
		return ids, nil
	case p == "." || strings.HasPrefix(p, "./") || strings.HasPrefix(p, "../") || p == ".." || strings.HasPrefix(p, "/"):
		path := p
		if !strings.HasPrefix(p, "/") {
			path = clean(dir + "/" + p)
		}
		ip, ok := l.importPath(path)
		if !ok {
			return nil, errors.New("err: exit status 1: stderr: go: go.mod file not found in current directory or any parent directory; see 'go help modules'")
		}
		return l.withTests(l.load(ip, path), path), nil
	}
	return []string{l.resolve(strings.TrimPrefix(p, "pattern="))}, nil
}

// module finds the module that contains an import path.
func (l *loader) module(path string) *vk.Module {
	var best *vk.Module
	for i := range l.k.Job.Modules {
		m := &l.k.Job.Modules[i]
		if m.Hidden || m.Group != l.group {
			continue
		}
		if path == m.Path || strings.HasPrefix(path, m.Path+"/") {
			if best == nil || len(m.Path) > len(best.Path) {
				best = m
			}
		}
	}
	return best
}

func (l *loader) importPath(dir string) (string, bool) {
	best := ""
	ip := ""
	for _, m := range l.k.Job.Modules {
		if dir == m.Dir || strings.HasPrefix(dir, m.Dir+"/") {
			if len(m.Dir) > len(best) {
				best = m.Dir
				l.group = m.Group
				ip = m.Path + strings.TrimPrefix(dir, m.Dir)
			}
		}
	}
	return ip, best != ""
}

func (l *loader) goFiles(d *vk.Inode) (out []string) {
	for _, e := range d.Ents {
		n := l.k.FS.In[e.Ino]
		if n.Type == vk.TLink {
			continue
		}
		if n.Type == vk.TFile && strings.HasSuffix(e.Name, ".go") && !strings.HasSuffix(e.Name, "_test.go") && e.Name[0] != '_' && e.Name[0] != '.' {
			out = append(out, e.Name)
		}
	}
	sort.Strings(out)
	return
}

func (l *loader) resolve(ip string) string {
	if ip == "unsafe" {
		if _, ok := l.pkgs[ip]; !ok {
			p := &packages.Package{ID: ip, Name: ip, PkgPath: ip}
			l.pkgs[ip] = p
			l.order = append(l.order, p)
		}
		return ip
	}
	if l.std[ip] {
		return l.load(ip, l.k.Job.GoRoot+"/src/"+ip)
	}
	if m := l.module(ip); m != nil {
		return l.load(ip, m.Dir+strings.TrimPrefix(ip, m.Path))
	}
	if _, ok := l.pkgs[ip]; !ok {
		p := &packages.Package{ID: ip, PkgPath: ip, Name: base(ip), Errors: []packages.Error{{Pos: "", Msg: "no required module provides package " + ip + "; to add it:\n\tgo get " + ip, Kind: packages.ListError}}}
		l.pkgs[ip] = p
		l.order = append(l.order, p)
	}
	return ip
}

func base(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func (l *loader) load(ip, dir string) string {
	if _, ok := l.pkgs[ip]; ok {
		return ip
	}
	p := &packages.Package{ID: ip, PkgPath: ip}
	if l.export {
		p.ExportFile = "/export/" + ip
	}
	l.pkgs[ip] = p
	l.stack = append(l.stack, ip)
	defer func() { l.stack = l.stack[:len(l.stack)-1] }()
	if m := l.module(ip); m != nil && !l.std[ip] {
		p.Module = &packages.Module{Path: m.Path, Version: m.Version, Main: m.Main, Dir: m.Dir, GoMod: m.Dir + "/go.mod", GoVersion: "1.21"}
		if m.ReplacedBy != "" {
			p.Module.Replace = &packages.Module{Path: m.ReplacedBy, Dir: m.Dir}
		}
	}
	d, e := l.k.FS.Lookup(dir, true)
	if e != 0 || d.Type != vk.TDir {
		p.Name = base(ip)
		p.Errors = append(p.Errors, packages.Error{Msg: "package " + ip + " is not in std or a module", Kind: packages.ListError})
		l.order = append(l.order, p)
		return ip
	}
	var imports []string
	seen := map[string]bool{}
	var names []string
	files := l.goFiles(d)
	for _, f := range files {
		n, e := l.k.FS.Lookup(dir+"/"+f, true)
		if e != 0 {
			continue
		}
		fset := token.NewFileSet()
		af, _ := parser.ParseFile(fset, dir+"/"+f, n.Data, parser.ImportsOnly|parser.ParseComments)
		if af == nil || af.Name == nil || af.Name.Name == "_" || af.Name.Name == "" {
			p.GoFiles = append(p.GoFiles, dir+"/"+f)
			continue
		}
		if ignored(af, f) {
			p.IgnoredFiles = append(p.IgnoredFiles, dir+"/"+f)
			continue
		}
		p.GoFiles = append(p.GoFiles, dir+"/"+f)
		names = append(names, af.Name.Name)
		for _, im := range af.Imports {
			s, err := strconv.Unquote(im.Path.Value)
			if err == nil && !seen[s] && s != "C" {
				seen[s] = true
				imports = append(imports, s)
			}
		}
	}
	p.CompiledGoFiles = append([]string{}, p.GoFiles...)
	if len(names) > 0 {
		p.Name = names[0]
		for _, n := range names[1:] {
			if n != p.Name {
				p.Errors = append(p.Errors, packages.Error{Msg: "found packages " + p.Name + " and " + n + " in " + dir, Kind: packages.ListError})
				break
			}
		}
	} else if len(p.GoFiles) == 0 {
		p.Errors = append(p.Errors, packages.Error{Msg: "no Go files in " + dir, Kind: packages.ListError})
	}
	sort.Strings(imports)
	p.Imports = map[string]*packages.Package{}
	for _, im := range imports {
		for _, up := range l.stack {
			if up == im {
				p.Errors = append(p.Errors, packages.Error{Msg: "import cycle not allowed: import stack: [" + strings.Join(append(append([]string{}, l.stack...), im), " ") + "]", Kind: packages.ListError})
			}
		}
		p.Imports[im] = &packages.Package{ID: l.resolve(im)}
	}
	l.order = append(l.order, p)
	return ip
}

func ignored(f *ast.File, name string) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err == nil && !x.Eval(func(t string) bool { return t == "linux" || t == "amd64" || t == "gc" || strings.HasPrefix(t, "go1.") }) {
					return true
				}
			}
		}
	}
	b := strings.TrimSuffix(name, ".go")
	for _, suf := range []string{"_windows", "_darwin", "_arm64"} {
		if strings.HasSuffix(b, suf) {
			return true
		}
	}
	return false
}
