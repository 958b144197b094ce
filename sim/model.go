package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The reference model: what the produced document has to be, computed from
// the project without running any code under test.

// Why a run has to fail.
const (
	whyConflict = "conflict" // contradicting definitions
	whyRef      = "ref"      // reference that cannot be followed
	whyType     = "type"     // type that cannot be described
	whyCmd      = "command"  // malformed magic comment
	whyFormat   = "format"
	whyVersion  = "version" // no usable openapi value
)

type modelErr struct{ why, msg string }

func (e *modelErr) Error() string { return e.why + ": " + e.msg }

// RefAt is a reference of the merged document.
type RefAt struct {
	Path  []string
	Ref   string
	Local string // name of the component when the target is exported
	Want  V      // what has to be there in the end
}

// Expect is what a run has to give.
type Expect struct {
	Fail   string // why the run has to fail; empty when it has to succeed
	Msg    string
	Merged M // document before references are replaced
	Refs   []RefAt
	Comps  map[string]V // exported components that are reached
	Names  map[string]bool
	Ptrs   map[string]string // exported pointer -> name
	Own    M                 // only what specification files say
	Final  M
	Opts   Options
	Local  map[string]bool // local references written by the user
}

// Options of a run, as far as the document depends on them.
type Options struct {
	Root      M
	Overrides M
	DefOps    M
	Format    string
	Output    string // "stdout", "stderr" or an absolute path
	Dir       string
}

// ---- configuration ----

func mergeInto(dst, src M, pick func(a, b V) (V, error)) error {
	for _, k := range keysOf(src) {
		y := src[k]
		x, ok := dst[k]
		if !ok {
			dst[k] = cloneV(y)
			continue
		}
		xm, ok1 := x.(M)
		ym, ok2 := y.(M)
		if ok1 && ok2 && !isRef(xm) && !isRef(ym) {
			if err := mergeInto(xm, ym, pick); err != nil {
				return err
			}
			continue
		}
		z, err := pick(x, y)
		if err != nil {
			return err
		}
		dst[k] = cloneV(z)
	}
	return nil
}

func isRef(m M) bool {
	_, ok := m["$ref"].(string)
	return ok
}

func pickFirst(a, b V) (V, error)  { return a, nil }
func pickSecond(a, b V) (V, error) { return b, nil }
func pickEqual(a, b V) (V, error) {
	if equalV(a, b) {
		return a, nil
	}
	return nil, &modelErr{whyConflict, short(a) + " against " + short(b)}
}

func absPath(p, rel string) string {
	if !strings.HasPrefix(p, "/") {
		p = rel + "/" + p
	}
	var out []string
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, x)
		}
	}
	return "/" + strings.Join(out, "/")
}

func dirOf(p string) string { return p[:strings.LastIndex(p, "/")] }

// options the command line and the configuration amount to.
func (w *World) options() (o Options) {
	cwd := absPath(w.Inv.Cwd, w.Base)
	var c M
	var file string
	if w.Inv.Config != "" {
		file = absPath(w.sub(w.Inv.Config), cwd)
		c = M{}
		if w.Cfg != nil {
			c = cloneV(w.Cfg.Doc).(M)
		}
		if w.Cfg != nil && w.Cfg.Ext != nil {
			mergeInto(c, w.Cfg.Ext.Doc, pickFirst)
		}
		subAll(c, w)
	}
	str := func(k string) string { s, _ := c[k].(string); return s }
	o.Dir = cwd
	if d := str("dir"); d != "" {
		o.Dir = absPath(d, dirOf(file))
	}
	if w.Inv.Dir != "" {
		o.Dir = absPath(w.sub(w.Inv.Dir), cwd)
	}
	o.Format = "json:pretty"
	if f := str("format"); f != "" {
		o.Format = f
	}
	if w.Inv.Format != "" {
		o.Format = w.Inv.Format
	}
	o.Output = "stdout"
	if p := str("output"); p != "" {
		o.Output = p
		if p != "stdout" && p != "stderr" {
			o.Output = absPath(p, o.Dir)
		}
	}
	if p := w.sub(w.Inv.Output); p != "" {
		o.Output = p
		if p != "stdout" && p != "stderr" {
			o.Output = absPath(p, cwd)
		}
	}
	o.Root = M{}
	for _, k := range []string{"info", "servers", "components", "security", "tags", "externalDocs"} {
		if v, ok := c[k]; ok {
			o.Root[k] = v
		}
	}
	o.Overrides, _ = c["overrides"].(M)
	o.DefOps, _ = c["operations"].(M)
	return
}

// ---- pointers ----

// ptrParts splits go://pkg#/a/b.
func ptrParts(ref string) (scheme, pkg string, frag []string) {
	i := strings.IndexByte(ref, '#')
	if i < 0 {
		i = len(ref)
	} else {
		f := strings.TrimPrefix(ref[i+1:], "/")
		if f != "" {
			for _, t := range strings.Split(f, "/") {
				t = strings.Replace(t, "~1", "/", -1)
				frag = append(frag, strings.Replace(t, "~0", "~", -1))
			}
		}
	}
	u := ref[:i]
	if j := strings.Index(u, "://"); j > 0 {
		return u[:j], u[j+3:], frag
	}
	return "", u, frag
}

func goPtr(pkg string, frag ...string) string {
	s := "go://" + pkg + "#"
	for _, f := range frag {
		s += "/" + esc(f)
	}
	return s
}

// ---- types ----

// res is a type with the place it is declared at.
type res struct {
	te  *TE
	pkg int
	loc string // pointer of the declaration place
}

// strip resolves aliases.
func (w *World) strip(t res) res {
	for t.te.K == "named" {
		d := w.decl(t.te.Pkg, t.te.Name)
		if d == nil || !d.Alias {
			return t
		}
		t = res{d.T, t.te.Pkg, goPtr(w.importPath(t.te.Pkg), t.te.Name)}
	}
	return t
}

// under is the underlying type; a named type moves the place to its own.
func (w *World) under(t res) res {
	t = w.strip(t)
	for t.te.K == "named" {
		d := w.decl(t.te.Pkg, t.te.Name)
		t = res{d.T, t.te.Pkg, goPtr(w.importPath(t.te.Pkg), t.te.Name)}
		t = w.strip(t)
		if t.te.K == "named" {
			// type A B: what is inside is walked from A's own point too
			loc := goPtr(w.importPath(t.te.Pkg), t.te.Name)
			t.loc = loc
		}
	}
	return t
}

// ownPtr is the pointer that names a type.
func (w *World) ownPtr(t res) string {
	t = w.strip(t)
	if t.te.K == "named" {
		return goPtr(w.importPath(t.te.Pkg), t.te.Name)
	}
	return t.loc
}

// typeKey identifies types up to identity.
func (w *World) typeKey(t *TE) string {
	switch t.K {
	case "basic":
		switch t.Name {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return t.Name
	case "named":
		s := w.strip(res{te: t, pkg: t.Pkg})
		if s.te.K != "named" {
			return w.typeKey(s.te)
		}
		return fmt.Sprintf("%d.%s", s.te.Pkg, s.te.Name)
	case "slice":
		return "[]" + w.typeKey(t.Elem)
	case "array":
		return "[" + strconv.Itoa(t.Len) + "]" + w.typeKey(t.Elem)
	case "map":
		return "map[" + w.typeKey(t.Key) + "]" + w.typeKey(t.Elem)
	case "ptr":
		return "*" + w.typeKey(t.Elem)
	case "struct":
		s := "struct{"
		for _, f := range t.Fields {
			s += f.Name + fmt.Sprint(f.Embed) + w.typeKey(f.T) + "`" + f.Tag.src() + "`;"
		}
		return s + "}"
	}
	return t.K
}

type tagInfo struct {
	ignore, required, deprecated, readonly, writeonly, unique bool
	inline, nullable                                          *bool
	name, typ, format, pattern                                string
	num                                                       map[string]float64
}

func bptr(b bool) *bool { return &b }

func (t *Tag) info() (i tagInfo, err error) {
	i.num = map[string]float64{}
	if t == nil {
		return
	}
	boolean := func(o Opt) (bool, error) {
		if o.V == "" {
			return true, nil
		}
		b, e := strconv.ParseBool(o.V)
		if e != nil {
			return false, &modelErr{whyType, "bad tag value " + o.K + ":" + o.V}
		}
		return b, nil
	}
	if t.Raw != "" {
		return i, &modelErr{whyType, "malformed tag " + t.Raw}
	}
	if t.JSON == "-" {
		i.ignore = true
	} else {
		i.name = t.JSON
		for _, o := range t.JOpts {
			if o.K == "inline" {
				b, e := boolean(o)
				if e != nil {
					return i, e
				}
				i.inline = bptr(b)
			}
			if o.K == "omitempty" {
				if _, e := boolean(o); e != nil {
					return i, e
				}
			}
		}
	}
	if t.OAPI == "-" {
		i.ignore = true
		return
	}
	if t.OAPI != "" {
		i.name = t.OAPI
	}
	for _, o := range t.Opts {
		var b bool
		var e error
		switch o.K {
		case "inline", "nullable", "readonly", "writeonly", "deprecated", "unique", "required", "omitempty":
			b, e = boolean(o)
		case "maxlen", "minlen", "maxitems", "minitems", "maxprops", "minprops":
			var n int
			n, e = strconv.Atoi(o.V)
			i.num[o.K] = float64(n)
		case "max", "min", "emax", "emin", "mulof":
			i.num[o.K], e = strconv.ParseFloat(o.V, 64)
		}
		if e != nil {
			return i, &modelErr{whyType, "bad tag value " + o.K + ":" + o.V}
		}
		switch o.K {
		case "inline":
			i.inline = bptr(b)
		case "nullable":
			i.nullable = bptr(b)
		case "readonly":
			i.readonly = b
		case "writeonly":
			i.writeonly = b
		case "deprecated":
			i.deprecated = b
		case "unique":
			i.unique = b
		case "required":
			i.required = b
		case "pattern":
			i.pattern = o.V
		case "format":
			i.format = o.V
		case "type":
			i.typ = o.V
		}
	}
	return
}

func setNum(m M, tg tagInfo, opt, key string) {
	if v, ok := tg.num[opt]; ok {
		m[key] = v
	}
}

var intKinds = map[string]struct {
	format string
	zero   bool
}{
	"int": {"int32", false}, "int8": {"int32", false}, "int16": {"int32", false}, "int32": {"int32", false}, "rune": {"int32", false},
	"uint": {"int32", true}, "uint8": {"int32", true}, "byte": {"int32", true}, "uint16": {"int32", true}, "uint32": {"int32", true},
	"int64": {"int64", false}, "uint64": {"int64", true},
}

func basicSchema(kind string, tg tagInfo) (M, error) {
	m := M{}
	if k, ok := intKinds[kind]; ok {
		m["type"], m["format"] = "integer", k.format
		if k.zero {
			m["minimum"] = 0.0
		}
	} else {
		switch kind {
		case "float32":
			m["type"], m["format"] = "number", "float"
		case "float64":
			m["type"], m["format"] = "number", "double"
		case "bool":
			m["type"] = "boolean"
		case "string":
			m["type"] = "string"
		default:
			return nil, &modelErr{whyType, "basic kind " + kind}
		}
	}
	switch m["type"] {
	case "integer", "number":
		setNum(m, tg, "min", "minimum")
		setNum(m, tg, "max", "maximum")
		if v, ok := tg.num["emin"]; ok {
			m["minimum"], m["exclusiveMinimum"] = v, true
		}
		if v, ok := tg.num["emax"]; ok {
			m["maximum"], m["exclusiveMaximum"] = v, true
		}
		setNum(m, tg, "mulof", "multipleOf")
	case "string":
		setNum(m, tg, "minlen", "minLength")
		setNum(m, tg, "maxlen", "maxLength")
		if tg.pattern != "" {
			m["pattern"] = tg.pattern
		}
	}
	return m, nil
}

func namedKindSchema(t string, tg tagInfo) (M, error) {
	str := func(format string) (M, error) {
		m, err := basicSchema("string", tg)
		if err == nil {
			m["format"] = format
		}
		return m, err
	}
	switch t {
	case "string", "float32", "float64", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64", "bool":
		return basicSchema(t, tg)
	case "float":
		return basicSchema("float32", tg)
	case "double":
		return basicSchema("float64", tg)
	case "integer":
		return basicSchema("int32", tg)
	case "base64":
		return str("binary")
	case "uuid", "password":
		return str(t)
	case "number", "object":
		return M{"type": t}, nil
	}
	return nil, &modelErr{whyType, "tag type " + t}
}

type mfield struct {
	f   Field
	tg  tagInfo
	loc string
	pkg int
}

func exported(name string) bool { return name != "" && name[0] >= 'A' && name[0] <= 'Z' }

func (w *World) fields(t res, seen []string) (out []mfield, err error) {
	key := w.typeKey(t.te)
	for _, s := range seen {
		if s == key {
			return nil, nil
		}
	}
	seen = append(seen[:len(seen):len(seen)], key)
	for _, f := range t.te.Fields {
		tg, err := f.Tag.info()
		if err != nil {
			return nil, err
		}
		if tg.ignore || !exported(f.Name) {
			continue
		}
		loc := t.loc + "/" + f.Name
		fr := res{f.T, t.pkg, loc}
		st := w.under(fr)
		if st.te.K == "ptr" {
			st = w.under(res{st.te.Elem, st.pkg, st.loc + "/*"})
		}
		in := f.Embed
		if tg.inline != nil {
			in = *tg.inline
		}
		if in && st.te.K == "struct" {
			z, err := w.fields(st, seen)
			if err != nil {
				return nil, err
			}
			out = append(out, z...)
			continue
		}
		out = append(out, mfield{f, tg, loc, t.pkg})
	}
	return
}

// schema of a type as written by the tool before references inside are
// replaced; tp holds the underlying types on the way.
func (w *World) schema(t res, tp []string, tg tagInfo) (M, error) {
	u := w.under(t)
	if u.te.K == "time" {
		u.te = &TE{K: "time"}
	}
	key := w.typeKey(u.te)
	for _, k := range tp {
		if k == key {
			return w.refTo(t)
		}
	}
	tp = append(tp[:len(tp):len(tp)], key)
	elem := func(loc string) (M, error) {
		return w.schema(res{u.te.Elem, u.pkg, u.loc + loc}, tp, tg)
	}
	null := func(m M, def bool) {
		if tg.nullable != nil {
			def = *tg.nullable
		}
		if def {
			m["nullable"] = true
		} else {
			delete(m, "nullable")
		}
	}
	switch u.te.K {
	case "struct":
		if len(tp) > 1 {
			return w.refTo(t)
		}
		return w.structSchema(u, tp)
	case "time":
		return w.refTo(t)
	case "basic":
		return basicSchema(u.te.Name, tg)
	case "dur":
		return basicSchema("int64", tg)
	case "slice", "array":
		e, err := elem("/[]")
		if err != nil {
			return nil, err
		}
		m := M{"type": "array", "items": e}
		setNum(m, tg, "minitems", "minItems")
		setNum(m, tg, "maxitems", "maxItems")
		if u.te.K == "array" && u.te.Len > 0 {
			m["maxItems"] = float64(u.te.Len)
		}
		if tg.unique {
			m["uniqueItems"] = true
		}
		null(m, u.te.K == "slice")
		return m, nil
	case "map":
		e, err := elem("/[]")
		if err != nil {
			return nil, err
		}
		m := M{"type": "object", "additionalProperties": e}
		setNum(m, tg, "minprops", "minProperties")
		setNum(m, tg, "maxprops", "maxProperties")
		null(m, true)
		return m, nil
	case "ptr":
		m, err := elem("/*")
		if err != nil {
			return nil, err
		}
		if _, ok := m["$ref"]; !ok {
			null(m, true)
			return m, nil
		}
		if tg.nullable != nil && !*tg.nullable {
			return m, nil
		}
		return M{"oneOf": []interface{}{m, M{"type": "object", "nullable": true}}}, nil
	}
	return nil, &modelErr{whyType, u.te.K + " cannot be described"}
}

func (w *World) refTo(t res) (M, error) {
	s := w.strip(t)
	if s.te.K == "time" {
		return M{"type": "string"}, nil
	}
	return M{"$ref": w.ownPtr(t)}, nil
}

func (w *World) structSchema(t res, tp []string) (M, error) {
	m := M{"type": "object"}
	fs, err := w.fields(t, nil)
	if err != nil {
		return nil, err
	}
	props := M{}
	var req []interface{}
	for _, x := range fs {
		var p M
		fr := res{x.f.T, x.pkg, x.loc}
		switch {
		case x.tg.typ != "":
			p, err = namedKindSchema(strings.Trim(x.tg.typ, " "), x.tg)
		case w.isStruct(fr):
			p, err = w.refTo(fr)
		default:
			p, err = w.schema(fr, tp, x.tg)
		}
		if err != nil {
			return nil, err
		}
		name := x.f.Name
		if x.tg.name != "" {
			name = x.tg.name
		}
		props[name] = p
		if x.tg.required {
			req = append(req, name)
		}
		if _, ok := p["$ref"]; ok {
			continue
		}
		if x.tg.deprecated {
			p["deprecated"] = true
		}
		if x.tg.readonly {
			p["readOnly"] = true
		}
		if x.tg.writeonly {
			p["writeOnly"] = true
		}
		if x.tg.format != "" {
			p["format"] = x.tg.format
		}
		if x.tg.nullable != nil {
			if *x.tg.nullable {
				p["nullable"] = true
			} else {
				delete(p, "nullable")
			}
		}
	}
	if len(props) > 0 {
		m["properties"] = props
	}
	if len(req) > 0 {
		m["required"] = req
	}
	return m, nil
}

func (w *World) isStruct(t res) bool {
	k := w.under(t).te.K
	return k == "struct" || k == "time"
}

// lookup finds the type a go pointer names.
func (w *World) lookup(ptr string) (res, error) {
	bad := func(s string) (res, error) { return res{}, &modelErr{whyRef, ptr + ": " + s} }
	_, pkg, frag := ptrParts(ptr)
	i := w.pkgByPath(pkg)
	if i < 0 || !w.reachable()[i] {
		return bad("no such package")
	}
	if len(frag) == 0 {
		return bad("no type named")
	}
	d := w.decl(i, frag[0])
	if d == nil {
		return bad("no such type")
	}
	t := res{&TE{K: "named", Pkg: i, Name: frag[0]}, i, goPtr(pkg, frag[0])}
	for _, tok := range frag[1:] {
		u := w.under(t)
		switch u.te.K {
		case "struct":
			ok := false
			for _, f := range u.te.Fields {
				if f.Name == tok && exported(tok) {
					t = res{f.T, u.pkg, u.loc + "/" + tok}
					ok = true
				}
			}
			if !ok {
				return bad("no field " + tok)
			}
		case "ptr":
			if tok != "*" {
				return bad("not a field of a pointer: " + tok)
			}
			t = res{u.te.Elem, u.pkg, u.loc + "/*"}
		case "slice", "array", "map":
			if tok != "[]" {
				return bad("not a field of a collection: " + tok)
			}
			t = res{u.te.Elem, u.pkg, u.loc + "/[]"}
		default:
			return bad("nothing inside " + u.te.K)
		}
	}
	return t, nil
}

// ---- the whole run ----

type expander struct {
	w    *World
	o    Options
	ptrs map[string]string // exported pointer -> name
	done map[string]V
	n    int
	err  error

	twins map[string]string
}

// twins maps types that share their underlying type expression with another
// named type to the one that spells it out.
func (w *World) twins() map[string]string {
	m := map[string]string{}
	for i := range w.Pkgs {
		for _, d := range w.Pkgs[i].Types {
			if d.Alias || d.T.K != "named" {
				continue
			}
			t := w.strip(res{te: d.T})
			for n := 0; n < 50 && t.te.K == "named"; n++ {
				o := w.decl(t.te.Pkg, t.te.Name)
				if o == nil {
					break
				}
				if o.T.K != "named" {
					end := goPtr(w.importPath(t.te.Pkg), t.te.Name)
					m[end] = end
					m[goPtr(w.importPath(i), d.Name)] = end
					break
				}
				t = w.strip(res{te: o.T})
			}
		}
	}
	return m
}

// shared names a place inside such a type, "" for other places.
func (x *expander) shared(ptr string) string {
	_, pkg, frag := ptrParts(ptr)
	if len(frag) < 2 {
		return ""
	}
	end, ok := x.twins[goPtr(pkg, frag[0])]
	if !ok {
		return ""
	}
	return end + "/" + strings.Join(frag[1:], "/")
}

const expandLimit = 20000

func (x *expander) one(ptr string) (V, error) {
	if o, ok := x.o.Overrides[ptr]; ok {
		return cloneV(o), nil
	}
	scheme, _, _ := ptrParts(ptr)
	if scheme != "go" {
		return nil, &modelErr{whyRef, "scheme of " + ptr}
	}
	if ptr == "go://time#/Time" {
		return M{"type": "string"}, nil
	}
	t, err := x.w.lookup(ptr)
	if err != nil {
		return nil, err
	}
	return x.w.schema(t, nil, tagInfo{})
}

func (x *expander) ref(ptr string, path []string) (V, error) {
	if name, ok := x.ptrs[ptr]; ok {
		if err := x.export(ptr, name); err != nil {
			return nil, err
		}
		return M{"$ref": "#/components/schemas/" + esc(name)}, nil
	}
	for _, p := range path {
		if x.twins == nil {
			x.twins = x.w.twins()
		}
		// where recursion through a type without name is cut depends on which
		// of the places sharing it stands for it: not part of any property
		if a, b := x.shared(p), x.shared(ptr); a != "" && a == b {
			return nil, &modelErr{"shared", "recursion through " + ptr}
		}
		if p == ptr {
			return M{}, nil
		}
	}
	v, err := x.one(ptr)
	if err != nil {
		return nil, err
	}
	return x.expand(v, append(path[:len(path):len(path)], ptr))
}

func (x *expander) export(ptr, name string) error {
	if _, ok := x.done[name]; ok {
		return nil
	}
	x.done[name] = nil
	v, err := x.one(ptr)
	if err != nil {
		return err
	}
	v, err = x.expand(v, []string{ptr})
	if err != nil {
		return err
	}
	x.done[name] = v
	return nil
}

func (x *expander) expand(v V, path []string) (V, error) {
	x.n++
	if x.n > expandLimit {
		return nil, &modelErr{"size", "document too big"}
	}
	switch t := v.(type) {
	case M:
		if r, ok := t["$ref"].(string); ok {
			if s, _, _ := ptrParts(r); s != "" {
				return x.ref(r, path)
			}
		}
		m := M{}
		for _, k := range keysOf(t) {
			y, err := x.expand(t[k], path)
			if err != nil {
				return nil, err
			}
			m[k] = y
		}
		return m, nil
	case []interface{}:
		a := make([]interface{}, len(t))
		for i, y := range t {
			z, err := x.expand(y, path)
			if err != nil {
				return nil, err
			}
			a[i] = z
		}
		return a, nil
	}
	return v, nil
}

// cmd parses magic comments of a package.
func (w *World) commands(i int) (names, ptrs []string, err error) {
	for _, c := range w.Pkgs[i].Comments {
		if !strings.HasPrefix(c, "openapi") {
			continue
		}
		f := strings.Split(strings.TrimRight(strings.TrimPrefix(c, "openapi"), " "), " ")
		if f[0] != ":schema" {
			if f[0] == "" || f[0] == ":root" {
				return nil, nil, &modelErr{"rootcmd", c}
			}
			return nil, nil, &modelErr{whyCmd, c}
		}
		var args []string
		for _, a := range f[1:] {
			if a != "" {
				args = append(args, a)
			}
		}
		own := func(p string) string {
			if !strings.Contains(p, "://") && !strings.Contains(p, "#") {
				return goPtr(w.importPath(i), strings.Split(p, "/")...)
			}
			s, pkg, frag := ptrParts(p)
			if pkg == "" && (s == "go" || s == "") {
				return goPtr(w.importPath(i), frag...)
			}
			return p
		}
		switch len(args) {
		case 1:
			p := own(args[0])
			n := args[0]
			if strings.Contains(n, "#") {
				_, _, fr := ptrParts(p)
				n = fr[len(fr)-1]
			}
			names, ptrs = append(names, n), append(ptrs, p)
		case 2:
			names, ptrs = append(names, args[0]), append(ptrs, own(args[1]))
		default:
			return nil, nil, &modelErr{whyCmd, c}
		}
	}
	return
}

var methods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// specOwn is one specification with its own-package references spelled out.
func (w *World) specDoc(i int, s Spec) M {
	d := cloneV(s.Doc).(M)
	var walk func(v V)
	walk = func(v V) {
		switch x := v.(type) {
		case M:
			for _, k := range keysOf(x) {
				if r, ok := x[k].(string); ok && k == "$ref" {
					if sc, pkg, frag := ptrParts(r); sc == "go" && pkg == "" {
						x[k] = goPtr(w.importPath(i), frag...)
					}
					continue
				}
				walk(x[k])
			}
		case []interface{}:
			for _, y := range x {
				walk(y)
			}
		}
	}
	walk(d)
	return d
}

func isSpecName(f string) bool { return f == "oapi.yaml" || f == "oapi.yml" || f == "oapi.json" }

// expect computes the outcome of a run of this project.
func (w *World) expect() *Expect { return w.expectWith(w.options()) }

func (w *World) expectWith(o Options) (e *Expect) {
	e = &Expect{Comps: map[string]V{}, Names: map[string]bool{}, Ptrs: map[string]string{}, Opts: o, Local: map[string]bool{}}
	fail := func(err error) *Expect {
		me := err.(*modelErr)
		e.Fail, e.Msg = me.why, me.msg
		return e
	}
	reach := w.reachable()
	var order []int
	for i := range reach {
		order = append(order, i)
	}
	sort.Ints(order)
	byPtr := e.Ptrs
	for _, i := range order {
		ns, ps, err := w.commands(i)
		if err != nil {
			return fail(err)
		}
		for k, n := range ns {
			if e.Names[n] {
				return fail(&modelErr{whyConflict, "name " + n + " exported twice"})
			}
			if _, ok := byPtr[ps[k]]; ok {
				return fail(&modelErr{whyConflict, ps[k] + " exported twice"})
			}
			e.Names[n] = true
			byPtr[ps[k]] = n
		}
	}
	type sp struct {
		path string
		doc  M
	}
	var specs []sp
	for _, i := range order {
		for _, s := range w.Pkgs[i].Specs {
			if !isSpecName(s.File) || s.IsRaw {
				continue
			}
			if _, ok := s.Doc["openapi"]; !ok {
				continue
			}
			specs = append(specs, sp{w.pkgDir(i) + "/" + s.File, w.specDoc(i, s)})
		}
	}
	sort.Slice(specs, func(i, j int) bool { return specs[i].path < specs[j].path })
	doc := M{}
	for _, s := range specs {
		if err := mergeInto(doc, s.doc, pickEqual); err != nil {
			return fail(err)
		}
	}
	e.Own = cloneV(doc).(M)
	for _, x := range []struct {
		k    string
		pick func(a, b V) (V, error)
	}{{"info", pickSecond}, {"components", pickEqual}, {"externalDocs", pickFirst}, {"security", pickFirst}, {"servers", pickFirst}, {"tags", pickFirst}} {
		if v, ok := o.Root[x.k]; ok {
			if err := mergeInto(doc, M{x.k: v}, x.pick); err != nil {
				return fail(err)
			}
		}
	}
	// default operations
	var pats []string
	for p := range o.DefOps {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	paths, _ := doc["paths"].(M)
	for _, pat := range pats {
		for _, p := range keysOf(paths) {
			if strings.HasPrefix(p, "x-") {
				continue // an extension is not a path
			}
			item, ok := paths[p].(M)
			if !ok {
				continue
			}
			for _, m := range keysOf(item) {
				op, ok := item[m].(M)
				if !ok || !methods[m] || !routeMatch(pat, m, p) {
					continue
				}
				mergeInto(op, o.DefOps[pat].(M), pickFirst)
			}
		}
	}
	e.Merged = cloneV(doc).(M)
	// local references written in options are the user's as well
	for _, v := range []V{o.Root, o.Overrides, o.DefOps} {
		walkDoc(v, nil, func(_ []string, k string, v V) {
			if s, ok := v.(string); ok && k == "$ref" && strings.HasPrefix(s, "#") {
				e.Local[s] = true
			}
		})
	}
	x := &expander{w: w, o: o, ptrs: byPtr, done: e.Comps}
	var walk func(v V, path []string) (V, error)
	walk = func(v V, path []string) (V, error) {
		path = path[:len(path):len(path)]
		switch t := v.(type) {
		case M:
			if r, ok := t["$ref"].(string); ok {
				if s, _, _ := ptrParts(r); s != "" {
					z, err := x.ref(r, nil)
					if err != nil {
						return nil, err
					}
					e.Refs = append(e.Refs, RefAt{Path: append([]string{}, path...), Ref: r, Local: byPtr[r], Want: z})
					return z, nil
				}
				e.Local[r] = true
			}
			m := M{}
			for _, k := range keysOf(t) {
				z, err := walk(t[k], append(path, k))
				if err != nil {
					return nil, err
				}
				m[k] = z
			}
			return m, nil
		case []interface{}:
			a := make([]interface{}, len(t))
			for i, y := range t {
				z, err := walk(y, append(path, strconv.Itoa(i)))
				if err != nil {
					return nil, err
				}
				a[i] = z
			}
			return a, nil
		}
		return v, nil
	}
	f, err := walk(doc, nil)
	if err != nil {
		return fail(err)
	}
	fin := f.(M)
	for _, n := range keysOf(M(e.Comps)) {
		c, ok := fin["components"].(M)
		if !ok {
			c = M{}
			fin["components"] = c
		}
		s, ok := c["schemas"].(M)
		if !ok {
			s = M{}
			c["schemas"] = s
		}
		if old, ok := s[n]; ok && !equalV(old, e.Comps[n]) {
			return fail(&modelErr{whyConflict, "exported " + n + " collides with a component"})
		}
		s[n] = e.Comps[n]
	}
	if _, ok := fin["openapi"].(string); !ok {
		return fail(&modelErr{whyVersion, "no version"})
	}
	e.Final = fin
	return e
}

// routeMatch says whether a pattern of default operations matches.
func routeMatch(pat, method, path string) bool {
	if i := strings.IndexByte(pat, ':'); i > 0 {
		m := strings.ToLower(pat[:i])
		if methods[m] || otherMethods[m] {
			if m != method {
				return false
			}
			pat = pat[i+1:]
		}
	}
	return globMatch(pat, path)
}

var otherMethods = map[string]bool{"connect": true, "link": true, "search": true, "lock": true, "copy": true}

// globMatch by backtracking: * any text, {name} one or more non-slashes.
func globMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if p[0] == '{' {
		if j := strings.IndexByte(p, '}'); j > 2 && varName(p[1:j]) {
			for i := 1; i <= len(s) && s[i-1] != '/'; i++ {
				if globMatch(p[j+1:], s[i:]) {
					return true
				}
			}
			return false
		}
	}
	return s != "" && p[0] == s[0] && globMatch(p[1:], s[1:])
}

func varName(n string) bool {
	for i, c := range n {
		l := c >= 'a' && c <= 'z'
		if !(l || i > 0 && (c >= 'A' && c <= 'Z' || c >= '0' && c <= '9')) {
			return false
		}
	}
	return true
}
