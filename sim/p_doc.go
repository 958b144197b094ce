package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"vsim/vk"
)

// Properties of the document: C01 to C08 and C17.

func init() {
	register(&Prop{ID: "C01", Gen: gen01, Judge: judge01,
		Rule: "A case is a generated project (modules, packages, Go types, specification files, configuration) with one output format, or all formats through the library; 15% of the projects must fail. It is run once in the neutral execution and three times with other map iteration orders, goroutine schedules, clocks, randomness, directory listing orders, environments and checkout directories; outcome and output bytes must be equal."})
	register(&Prop{ID: "C02", Gen: gen02, Judge: judge02,
		Rule: "A case is a generated project whose references can all be followed (scenario good: no go:// $ref may be left, every local reference the user did not write must resolve, and nothing may be emptied) or one with a reference that cannot be followed or described injected into a specification, configured component, default operation or override (scenario bad: every run must fail)."})
	register(&Prop{ID: "C03", Gen: gen03, Judge: judge03,
		Rule: "A case is a generated project without exported components; at every place of the merged document where a go:// reference stood, the produced schema is compared with the one a reference model derives from the Go types."})
	register(&Prop{ID: "C04", Gen: gen04, Judge: judge04, Probe: probe04,
		Rule: "A case is a generated project whose document is cut into fragments spread over the specification files of its packages, with repeated fragments, decoy files and unreachable packages; the produced document with references blanked must equal the merge computed by the model."})
	register(&Prop{ID: "C05", Gen: gen05, Judge: judge05,
		Rule: "A case is a generated project into which one contradiction was injected (two values at one location of two files, one exported name for two types, one type exported twice, an exported or configured component against a different one); each of three executions with other map orders, schedules and listing orders must fail."})
	register(&Prop{ID: "C06", Gen: gen06, Judge: judge06,
		Rule: "A case is a generated project with a configuration file, possibly extending another, command-line flags and overrides; the document, its format and its destination must be those of the model, which resolves precedence on its own."})
	register(&Prop{ID: "C07", Gen: gen07, Judge: judge07,
		Rule: "A case is a generated project with default operations (overlapping patterns, methods, variables, wildcards); the paths of the produced document must equal those of the model."})
	register(&Prop{ID: "C08", Gen: gen08, Judge: judge08,
		Rule: "A case is a generated project formatted in all formats, twice and from several goroutines at once, through the library, or in five command runs; all must decode to one document with the documented key order; unknown format names must be errors."})
	register(&Prop{ID: "C17", Gen: gen17, Judge: judge17,
		Rule: "A case is a generated project with recursive types of which some are exported by magic comments; the produced document must have exactly the reached exported types as components and local references where the model has them."})
}

func api(rs RunSpec, formats ...string) RunSpec {
	rs.API = true
	rs.Formats = formats
	return rs
}

// ---- C01 ----

func gen01(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.CfgPct, o.Exports, o.DefOps, o.Overrides, o.RootComps, o.Ext = 50, 25, 60, 40, 40, 30
	if deep && r.P(20) {
		o.MaxPkgs, o.MaxTypes, o.MaxPaths = 7, 8, 9
	}
	c := &Case{Kind: "good"}
	if r.P(15) {
		c.Kind = "failing"
		o.Unsup = 6
	}
	w := genWorld(r, o)
	if c.Kind == "failing" && r.P(60) {
		injectConflict(r, w)
	}
	if r.P(7) {
		sameKeys(r, w)
	}
	c.Worlds = []*World{w}
	if r.P(50) {
		c.Base = api(c.Base, allFormats...)
		c.Base.NoDir = r.P(35)
	} else {
		cliFormat(r, w)
	}
	return c
}

// sameKeys has keys in a file which differ for YAML and are one for JSON.
func sameKeys(r *Rng, w *World) {
	s := w.anySpec(r)
	if s == nil || s.IsRaw || strings.HasSuffix(s.File, ".json") {
		return
	}
	a := r.S("200", "404", "true", "null", "1.5", "-1")
	b := "\"" + a + "\""
	if r.P(50) {
		a, b = b, a
	}
	v := []string{"one", "two", "{k: 1}", "[1]", "null", "one"}
	m := fmt.Sprintf("{%s: %s, z: 0, %s: %s}", a, v[r.N(6)], b, v[r.N(6)])
	for k := r.N(4); k > 0; k-- {
		m = r.S("[0, "+m+"]", "{a: "+m+"}", "["+m+", "+m+"]", "{x: 1, 7: "+m+"}", "[["+m+"]]")
	}
	s.IsRaw, s.Raw = true, emit(s.File, s.Doc, 0)+"\nx-same: "+m+"\n"
}

func judge01(c *Case, x *Exec) *Viol {
	o0 := c.outcome(c.Base, x.run(c, c.Base))
	for _, rs := range c.runs(func(r *Rng) (out []RunSpec) {
		for k := 0; k < 3; k++ {
			v := noise(r, c.Base)
			v = noiseEnv(r, v)
			if r.P(45) {
				v.Base = r.S("/home/user/other", "/z", "/a/b/c/d/e", "/tmp/check out", "/root/go/src/app", "/srv/mod")
			}
			out = append(out, v)
		}
		return
	}) {
		o := c.outcome(rs, x.run(c, rs))
		if o.OK != o0.OK {
			return c.viol("outcome", fmt.Sprintf("one execution succeeds and another fails: neutral ok=%v (%s), other ok=%v (%s)", o0.OK, o0.why(), o.OK, o.why()), rs)
		}
		if !o.OK {
			continue
		}
		if o.Doc != o0.Doc {
			return c.viol("bytes", "two executions give different bytes in format "+o.Fmt+": "+diffText(o0.Doc, o.Doc), rs)
		}
		for _, f := range keysOfS(o0.Out) {
			if o.Out[f] != o0.Out[f] {
				return c.viol("bytes", "two executions give different bytes in format "+f+": "+diffText(o0.Out[f], o.Out[f]), rs)
			}
		}
	}
	return nil
}

// ---- C02 ----

// places where a schema may stand, for injections.
func injectSchema(r *Rng, w *World, v V) string {
	wide := func(m M, k string) M {
		x, ok := m[k].(M)
		if !ok || isRef(x) {
			x = M{}
			m[k] = x
		}
		return x
	}
	// the value itself may be deep
	for n := r.N(4); n > 0; n-- {
		switch r.N(5) {
		case 0:
			v = M{"type": "array", "items": v}
		case 1:
			v = M{"type": "object", "properties": M{r.S("inner", "a.b", "x~y", "a/b", "", " ", "ünï", "0") + r.S("", "1"): v, "other": M{"type": "string"}}}
		case 2:
			v = M{"allOf": []interface{}{M{"type": "object"}, v}}
		case 3:
			v = M{"type": "object", "additionalProperties": v}
		case 4:
			v = M{"oneOf": []interface{}{v, M{"type": "integer"}}}
		}
	}
	var spec *Spec
	for n := 0; n < 20 && spec == nil; n++ {
		reach := w.reachable()
		i := r.N(len(w.Pkgs))
		if !reach[i] || len(w.Pkgs[i].Specs) == 0 {
			continue
		}
		s := &w.Pkgs[i].Specs[r.N(len(w.Pkgs[i].Specs))]
		if _, ok := s.Doc["openapi"]; ok && !s.IsRaw {
			spec = s
		}
	}
	if spec == nil {
		return ""
	}
	switch r.N(6) {
	case 0:
		wide(wide(spec.Doc, "components"), "schemas")["Injected"+r.S("", ".dot", "~t")] = v
		return "component"
	case 1:
		p := wide(wide(wide(spec.Doc, "paths"), "/injected"+r.S("", "/{id}", ".x")), "get")
		p["responses"] = M{"200": M{"description": "x", "content": M{"application/json": M{"schema": v}}}}
		return "response"
	case 2:
		p := wide(wide(wide(spec.Doc, "paths"), "/injected"), "post")
		p["parameters"] = []interface{}{M{"name": "p", "in": "query", "schema": v}}
		return "parameter"
	case 3:
		spec.Doc["x-injected"] = M{"list": []interface{}{[]interface{}{v}}}
		return "extension"
	case 4:
		spec.Doc["x-injected"+r.S(".", "~", "/", " ")+"k"] = v
		return "extension"
	}
	p := wide(wide(wide(spec.Doc, "paths"), "/injected"), "put")
	p["requestBody"] = M{"content": M{"application/json": M{"schema": v}}}
	return "body"
}

func badRef(r *Rng, w *World) string {
	root := w.importPath(0)
	i := r.N(len(w.Pkgs))
	for !w.reachable()[i] {
		i = r.N(len(w.Pkgs))
	}
	p := w.importPath(i)
	tn := "Item"
	if ts := w.Pkgs[i].Types; len(ts) > 0 {
		tn = ts[r.N(len(ts))].Name
	}
	switch r.N(13) {
	case 12: // no type is named, or nothing is
		return r.S("go://"+p, "go://"+p+"#", "go://"+p+"#/", "go://", "go://#/"+tn, "http://x", "file:///x", "mailto:x@example.com", "go:"+p, "go:///"+p+"#/"+tn)
	case 0:
		return goPtr(p, "NoSuchType")
	case 1:
		return goPtr("example.com/no/such/pkg", tn)
	case 2:
		return goPtr(root+"/nosuch", tn)
	case 3:
		return goPtr(p, tn, "NoSuchField")
	case 4:
		return "http://example.com/schema#/X"
	case 5:
		return "file:///etc/schema.json#/X"
	case 6:
		return goPtr(p, "Bad"+r.S("Iface", "Chan", "Func", "Complex", "Err"))
	case 7:
		return goPtr(p, "BadStruct")
	case 8:
		return goPtr(p, strings.ToLower(tn)+"zz")
	case 9:
		return goPtr(p, tn, "[]", "[]", "[]", "[]", "[]")
	case 10:
		return goPtr(p, "BadHolder")
	}
	return goPtr(p, tn+"x")
}

// badTag makes a field with a malformed tag.
func badTag(r *Rng) (*TE, *Tag) {
	str := &TE{K: "basic", Name: "string"}
	num := &TE{K: "basic", Name: r.S("int", "int64", "uint8", "float64")}
	t := []*TE{str, num, {K: "slice", Elem: str}, {K: "array", Elem: num, Len: 3}, {K: "map", Key: str, Elem: num}, {K: "ptr", Elem: str}, {K: "basic", Name: "bool"}, {K: "struct"}}[r.N(8)]
	g := &Tag{JSON: r.S("", "broken"), OAPI: r.S("", "broken")}
	switch r.N(8) {
	case 0, 1:
		g.Opts = []Opt{{r.S("maxlen", "minlen", "maxitems", "minitems", "maxprops", "minprops"), r.S("", "x", "1.5", "1e2", "99999999999999999999", "0x10", "1 0")}}
	case 2, 3:
		g.Opts = []Opt{{r.S("max", "min", "emax", "emin", "mulof"), r.S("", "x", "1.2.3", "1e999", "--1", "ten")}}
	case 4, 5:
		g.Opts = []Opt{{r.S("nullable", "readonly", "writeonly", "deprecated", "unique", "required", "omitempty", "inline"), r.S("yes", "x", "2", "on", "tRUE")}}
	case 6:
		g.JSON, g.JOpts = "broken", []Opt{{r.S("inline", "omitempty"), r.S("yes", "x", "2")}}
	default:
		g = &Tag{Raw: r.S("json:broken", "json:\"broken", "json", ":\"broken\"", "json:\"broken\" oapi", "json:\"broken\" yaml:x", "oapi:\"broken,required\" json:")}
	}
	if len(g.Opts) > 0 && g.Opts[0].K != "deprecated" && g.Opts[0].K != "readonly" && r.P(40) {
		// among good ones
		g.Opts = append([]Opt{{"deprecated", ""}}, g.Opts...)
		if r.P(50) {
			g.Opts = append(g.Opts, Opt{"readonly", "true"})
		}
	}
	return t, g
}

// addBadTypes declares types that cannot be described, wherever package i is.
func addBadTypes(r *Rng, w *World) {
	for i := range w.Pkgs {
		if !w.reachable()[i] {
			continue
		}
		p := &w.Pkgs[i]
		for _, b := range [][2]string{{"BadIface", "iface"}, {"BadChan", "chan"}, {"BadFunc", "func"}, {"BadComplex", "complex"}, {"BadErr", "error"}} {
			p.Types = append(p.Types, TypeDecl{Name: b[0], T: &TE{K: b[1]}})
		}
		bad := &TE{K: r.S("iface", "chan", "func", "complex", "error", "uintptr")}
		switch r.N(4) {
		case 0:
			bad = &TE{K: "slice", Elem: bad}
		case 1:
			bad = &TE{K: "map", Key: &TE{K: "basic", Name: "string"}, Elem: bad}
		case 2:
			bad = &TE{K: "ptr", Elem: bad}
		}
		tg := &Tag{JSON: "broken"}
		if r.P(45) {
			// the type is fine, what its tag asks for is not
			bad, tg = badTag(r)
		}
		p.Types = append(p.Types, TypeDecl{Name: "BadStruct", T: &TE{K: "struct", Fields: []Field{
			{Name: "Fine", T: &TE{K: "basic", Name: "string"}},
			{Name: "Broken", T: bad, Tag: tg}}}})
		p.Types = append(p.Types, TypeDecl{Name: "BadHolder", T: &TE{K: "struct", Fields: []Field{
			{Name: "Fine", T: &TE{K: "basic", Name: "string"}},
			{Name: "Inner", T: &TE{K: "slice", Elem: &TE{K: "named", Pkg: i, Name: "BadStruct"}}}}}})
	}
}

func gen02(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.CfgPct, o.Exports, o.DefOps, o.Overrides, o.RootComps, o.WeirdKeys, o.FieldRefs = 35, 30, 50, 40, 50, 35, 25
	o.Refs = 70
	c := &Case{Kind: "good"}
	w := genWorld(r, o)
	if r.P(55) {
		c.Kind = "bad"
		addBadTypes(r, w)
		for try := 0; try < 8; try++ {
			x := w.clone()
			ref := M{"$ref": badRef(r, w)}
			where := ""
			switch k := r.N(10); {
			case k < 7:
				where = injectSchema(r, x, ref)
			case k < 8:
				where = "configured component"
				cfgOf(x).Doc["components"] = M{"schemas": M{"InjectedRoot": wrapTyped(r, ref)}}
			case k < 9:
				where = "default operation"
				cfgOf(x).Doc["operations"] = M{r.S("*", "GET:*", "/*"): M{"responses": M{"418": M{"description": "x", "content": M{"application/json": M{"schema": wrapTyped(r, ref)}}}}}}
			default:
				where = "override"
				g := &gen{r: r, w: x, o: o}
				over := g.overridable()
				if len(over) == 0 {
					continue
				}
				cfgOf(x).Doc["overrides"] = M{over[r.N(len(over))]: wrapTyped(r, ref)}
			}
			if p := ref["$ref"].(string); r.P(25) && strings.HasPrefix(p, "go://") && strings.Contains(p, "#/") && !strings.ContainsAny(p, " ") {
				// exported as well
				q := r.N(len(x.Pkgs))
				x.Pkgs[q].Comments = append(x.Pkgs[q].Comments, "openapi:schema "+r.S("BadExp", "bad.exp", "Bad~Exp")+" "+p)
				where += ", exported"
			}
			e := x.expect()
			if e.Fail == whyRef || e.Fail == whyType {
				c.P = map[string]string{"injected": ref["$ref"].(string), "into": where}
				w = x
				break
			}
		}
		if c.P == nil {
			return nil
		}
	}
	c.Worlds = []*World{w}
	cliFormat(r, w)
	if r.P(30) {
		c.Base = api(c.Base, r.S(allFormats...))
	}
	return c
}

// cfgOf gives a world a configuration file that changes nothing else.
func cfgOf(w *World) *Cfg {
	if w.Cfg == nil {
		w.Cfg = &Cfg{File: "plain-config.yaml", Doc: M{"version": "1"}}
		w.Inv.Config = "{B}/plain-config.yaml"
		w.Inv.Dir = "{B}/" + strings.TrimPrefix(w.pkgDir(0), w.Base+"/")
	}
	return w.Cfg
}

func wrapTyped(r *Rng, v V) V {
	switch r.N(4) {
	case 0:
		return M{"type": "array", "items": v}
	case 1:
		return M{"type": "object", "properties": M{r.S("p", "a.b", "x/y", "q~r"): v}}
	}
	return v
}

func judge02(c *Case, x *Exec) *Viol {
	for _, rs := range c.runs(func(r *Rng) []RunSpec { return []RunSpec{c.Base, noise(r, c.Base)} }) {
		e := c.Worlds[0].expect()
		if rs.API && c.Worlds[0].Cfg != nil && c.Worlds[0].Cfg.Doc == nil {
			continue
		}
		o, doc, _, err := c.decoded(x, rs)
		if c.Kind == "bad" {
			if e.Fail != whyRef && e.Fail != whyType {
				return nil
			}
			if o.OK && o.Bad == "" {
				return c.viol("bad-accepted", fmt.Sprintf("the run succeeds although %s (%s: %s)", c.P["injected"], e.Fail, e.Msg), rs)
			}
			continue
		}
		if e.Fail != "" {
			continue
		}
		if !o.OK || err != nil {
			x.st.skip("run failed")
			continue
		}
		if v := dangling(doc, e); v != "" {
			return c.viol("dangling", v, rs)
		}
		for _, ra := range e.Refs {
			got, ok := at(doc, ra.Path)
			if !ok {
				// moved or dropped: only when its parent is there
				if _, ok := at(doc, ra.Path[:len(ra.Path)-1]); ok {
					return c.viol("dropped", "nothing is left at "+ptrText(ra.Path)+" where "+ra.Ref+" stood", rs)
				}
				continue
			}
			if p := emptied(ra.Want, got, ptrText(ra.Path)); p != "" {
				return c.viol("emptied", "reference "+ra.Ref+" was emptied at "+p, rs)
			}
		}
	}
	return nil
}

// dangling finds a reference that is left or leads nowhere.
func dangling(doc V, e *Expect) string {
	msg := ""
	walkDoc(doc, nil, func(path []string, k string, v V) {
		s, ok := v.(string)
		if k != "$ref" || !ok || msg != "" {
			return
		}
		if sc, _, _ := ptrParts(s); sc == "go" || strings.HasPrefix(s, "go:") {
			msg = "reference " + s + " is left at " + ptrText(path)
			return
		}
		if e.Local[s] || !strings.HasPrefix(s, "#") {
			return
		}
		_, _, frag := ptrParts(s)
		if _, ok := at(doc, frag); !ok {
			msg = "reference " + s + " at " + ptrText(path) + " points to nothing"
		}
	})
	return msg
}

func emptied(want, got V, path string) string {
	switch w := want.(type) {
	case M:
		g, ok := got.(M)
		if got == nil || ok && len(g) == 0 && len(w) > 0 {
			return path
		}
		if !ok {
			return ""
		}
		for _, k := range keysOf(w) {
			if y, ok := g[k]; ok {
				if p := emptied(w[k], y, path+"/"+esc(k)); p != "" {
					return p
				}
			}
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return ""
		}
		for i := range w {
			if p := emptied(w[i], g[i], fmt.Sprintf("%s/%d", path, i)); p != "" {
				return p
			}
		}
	}
	return ""
}

// ---- C03 ----

func gen03(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Refs, o.FieldRefs, o.Twins, o.Anon, o.Embed, o.Recursion, o.Tags = 85, 25, 30, 22, 20, 35, 50
	o.Dups, o.Decoys, o.Mods = 5, 3, 30
	if deep && r.P(30) {
		o.MaxTypes, o.MaxFields, o.MaxOutSize = 9, 8, 40000
	}
	w := genWorld(r, o)
	c := &Case{Kind: "types", Worlds: []*World{w}}
	c.Base = api(c.Base, "json")
	return c
}

func judge03(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	e := w.expect()
	if e.Fail != "" {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec { return []RunSpec{c.Base, noise(r, c.Base)} }) {
		o, doc, _, err := c.decoded(x, rs)
		if !o.OK || o.Bad != "" {
			k := c.with(stripRefs(w))
			if ok, _, _, _ := k.decoded(x, rs); ok.OK {
				return c.viol("failed", "the run fails although every type can be described: "+o.why(), rs)
			}
			x.st.skip("run failed")
			continue
		}
		if err != nil {
			x.st.skip("document not decodable")
			continue
		}
		for _, ra := range e.Refs {
			got, ok := at(doc, ra.Path)
			if !ok {
				return c.viol("missing", "no schema at "+ptrText(ra.Path)+" for "+ra.Ref, rs)
			}
			if d := firstDiff(ptrText(ra.Path), ra.Want, got); d != "" {
				return c.viol("schema", "schema of "+ra.Ref+" is wrong "+d, rs)
			}
		}
	}
	return nil
}

// ---- C04 ----

func gen04(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.MaxPkgs, o.Specs, o.MultiSpec, o.Dups, o.Decoys, o.Unreach, o.Mods, o.WeirdKeys, o.MaxPaths = 6, 75, 45, 40, 40, 25, 55, 25, 6
	o.Refs, o.MaxTypes, o.MaxFields = 25, 2, 3
	if deep && r.P(30) {
		o.MaxPkgs, o.MaxPaths = 10, 14
	}
	w := genWorld(r, o)
	c := &Case{Kind: "merge", Worlds: []*World{w}}
	if r.P(50) {
		c.Base = api(c.Base, "json")
	} else {
		w.Inv.Format = r.S("json", "yaml")
	}
	return c
}

func judge04(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	e := w.expect()
	if e.Fail != "" {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec { return []RunSpec{c.Base, noise(r, c.Base)} }) {
		o, doc, _, err := c.decoded(x, rs)
		if !o.OK || o.Bad != "" {
			k := c.with(stripRefs(w))
			if ok, _, _, _ := k.decoded(x, rs); !ok.OK {
				return c.viol("failed", "the run fails although all specifications agree: "+ok.why(), rs)
			}
			x.st.skip("run failed")
			continue
		}
		if err != nil {
			x.st.skip("document not decodable")
			continue
		}
		if d := firstDiff("", masked(e.Final, e), masked(doc, e)); d != "" {
			return c.viol("document", "the merged document is wrong "+d, rs)
		}
	}
	return nil
}

// bigWorld has an integer that does not fit a float exactly.
func bigWorld() *World {
	w := &World{Base: "/w/src", Mods: []Mod{{Path: "app", Dir: "app"}}, Inv: Inv{Cwd: "app", Format: "json"}}
	w.Pkgs = []Pkg{{Name: "main", Files: 1, Specs: []Spec{{File: "oapi.yaml", IsRaw: true, Raw: "openapi: 3.0.0\nx-id: 9007199254740993\n"}}}}
	return w
}

// probe04 looks for the finding that is known not to be repaired.
func probe04(x *Exec) (known []string, v *Viol) {
	c := &Case{Prop: "C04", Kind: "big-integer", Worlds: []*World{bigWorld()}}
	r := x.run(c, RunSpec{})
	o := c.outcome(RunSpec{}, r)
	if o.OK && !strings.Contains(o.Doc, "9007199254740993") {
		known = append(known, "big-integer")
	}
	return
}

// ---- C05 ----

// injectConflict puts one contradiction into a world and names it.
func injectConflict(r *Rng, w *World) string {
	reach := w.reachable()
	type at struct{ p, s int }
	var slots []at
	for i := range w.Pkgs {
		if !reach[i] {
			continue
		}
		for k, s := range w.Pkgs[i].Specs {
			if _, ok := s.Doc["openapi"]; ok && isSpecName(s.File) {
				slots = append(slots, at{i, k})
			}
		}
	}
	if len(slots) == 0 {
		return ""
	}
	src := slots[r.N(len(slots))]
	// the other side: another existing file, or a new one
	var dst *Spec
	if len(slots) > 1 && r.P(60) {
		for dst == nil {
			d := slots[r.N(len(slots))]
			if d != src {
				dst = &w.Pkgs[d.p].Specs[d.s]
			}
		}
	} else {
		for try := 0; try < 20 && dst == nil; try++ {
			i := r.N(len(w.Pkgs))
			if !reach[i] {
				continue
			}
			f := r.S("oapi.yaml", "oapi.yml", "oapi.json")
			free := true
			for _, s := range w.Pkgs[i].Specs {
				free = free && s.File != f
			}
			if !free {
				continue
			}
			v := w.Pkgs[src.p].Specs[src.s].Doc["openapi"]
			w.Pkgs[i].Specs = append(w.Pkgs[i].Specs, Spec{File: f, Style: r.N(1000), Doc: M{"openapi": v}})
			dst = &w.Pkgs[i].Specs[len(w.Pkgs[i].Specs)-1]
		}
		if dst == nil {
			return ""
		}
	}
	from := w.Pkgs[src.p].Specs[src.s].Doc
	kind := r.N(10)
	set := func(path []string, v V) bool {
		d := dst.Doc
		for _, k := range path[:len(path)-1] {
			x, ok := d[k].(M)
			if !ok {
				if _, there := d[k]; there {
					return false
				}
				x = M{}
				d[k] = x
			}
			d = x
		}
		d[path[len(path)-1]] = v
		return true
	}
	var leaves [][]string
	var objs [][]string
	var walk func(v V, path []string)
	walk = func(v V, path []string) {
		m, ok := v.(M)
		if !ok || isRef(m) && len(path) > 0 {
			if len(path) > 0 {
				leaves = append(leaves, path)
			}
			return
		}
		if len(path) > 0 {
			objs = append(objs, path)
		}
		for _, k := range keysOf(m) {
			walk(m[k], append(path[:len(path):len(path)], k))
		}
	}
	walk(from, nil)
	get := func(p []string) V { v, _ := at2(from, p); return v }
	var other func(v V) V
	other = func(v V) V {
		switch x := v.(type) {
		case string:
			if r.P(40) && x != "" {
				y := []string{"", strings.ToUpper(x), strings.ToLower(x), x[1:], x[:len(x)-1], " " + x, strings.TrimSpace(x), x + x, strings.Replace(x, " ", "_", -1), "$" + x}[r.N(10)]
				if y != x && utf8.ValidString(y) {
					return y
				}
			}
			return x + r.S("x", " ", "\n", "2")
		case float64:
			if r.P(15) {
				return mustJSON(x)
			}
			return x + []float64{1, 0.5, -1, 0.001}[r.N(4)]
		case bool:
			if r.P(15) {
				return mustJSON(x)
			}
			return !x
		case nil:
			return []V{false, 0.0, "", M{}, []interface{}{}, "null"}[r.N(6)]
		case []interface{}:
			switch {
			case len(x) > 0 && r.P(25):
				return append([]interface{}{}, x[:len(x)-1]...)
			case len(x) > 0 && r.P(40):
				y := append([]interface{}{}, x...)
				k := r.N(len(y))
				y[k] = other(y[k])
				return y
			case len(x) > 1 && r.P(50) && !equalV(x[0], x[1]):
				y := append([]interface{}{}, x...)
				y[0], y[1] = y[1], y[0]
				return y
			}
			return append(append([]interface{}{}, x...), "extra")
		case M:
			if isRef(x) {
				switch r.N(4) {
				case 0, 1:
					return M{"type": "string"}
				case 2:
					return M{}
				}
				return M{"$ref": x["$ref"].(string) + "Other"}
			}
			if len(x) > 0 && r.P(60) {
				y := M{}
				for k, v := range x {
					y[k] = v
				}
				k := keysOf(x)[r.N(len(x))]
				if r.P(30) {
					delete(y, k)
				} else {
					y[k] = other(x[k])
				}
				return y
			}
			return M{"other": "object"}
		}
		return "other"
	}
	switch {
	case kind < 5 && len(leaves) > 0:
		p := leaves[r.N(len(leaves))]
		v := get(p)
		o := other(v)
		if m, ok := v.(M); ok && isRef(m) {
			if g := (&gen{r: r, w: w, o: baseOpt()}); r.P(50) {
				if s := g.goRef(0, false); s != "" && s != m["$ref"] {
					o = M{"$ref": s}
				}
			}
		}
		if !set(p, o) {
			return ""
		}
		return "value at " + ptrText(p)
	case kind < 6 && len(leaves) > 0:
		p := leaves[r.N(len(leaves))]
		if !set(p, []V{M{"deep": "object"}, []interface{}{"list"}, "text", 1.0, true, nil, M{}, []interface{}{}}[r.N(8)]) {
			return ""
		}
		return "kind at " + ptrText(p)
	case kind < 7 && len(objs) > 0:
		p := objs[r.N(len(objs))]
		if !set(p, []V{[]interface{}{"list"}, "text", 1.0, false, nil, "", 0.0, []interface{}{}}[r.N(8)]) {
			return ""
		}
		return "object against other at " + ptrText(p)
	default:
		p := []string{"x-clash", r.S("k", "a.b", "x~y", "200", "true")}
		a := []V{"a", 1.0, false, nil, M{"k": 1.0}, []interface{}{1.0}, "", 0.0, "1", "false", M{}, []interface{}{}, []interface{}{nil}, []interface{}{M{}}}
		x := a[r.N(len(a))]
		y := a[r.N(len(a))]
		_, xo := x.(M)
		_, yo := y.(M)
		if equalV(x, y) || xo && yo {
			return ""
		}
		if !set(p, x) {
			return ""
		}
		f := from
		m, ok := f["x-clash"].(M)
		if !ok {
			m = M{}
			f["x-clash"] = m
		}
		m[p[1]] = y
		return "value at " + ptrText(p)
	}
}

func at2(m M, p []string) (V, bool) { return at(m, p) }

// injectExport makes exports that contradict each other or a component.
func injectExport(r *Rng, w *World) string {
	type td struct {
		pkg  int
		name string
	}
	var ts []td
	reach := w.reachable()
	for i := range w.Pkgs {
		for _, d := range w.Pkgs[i].Types {
			if reach[i] && exported(d.Name) && !d.Alias && d.T.K == "struct" {
				ts = append(ts, td{i, d.Name})
			}
		}
	}
	if len(ts) == 0 {
		return ""
	}
	a := ts[r.N(len(ts))]
	w.exportNone()
	add := func(p int, c string) { w.Pkgs[p].Comments = append(w.Pkgs[p].Comments, c) }
	any := func() int {
		for {
			if i := r.N(len(w.Pkgs)); reach[i] {
				return i
			}
		}
	}
	ref := func(t td) V { return M{"$ref": goPtr(w.importPath(t.pkg), t.name)} }
	switch r.N(5) {
	case 0: // one name for two types
		if len(ts) < 2 {
			return ""
		}
		b := ts[r.N(len(ts))]
		if a == b {
			return ""
		}
		n := "Shared" + r.S("", ".x")
		add(any(), "openapi:schema "+n+" "+goPtr(w.importPath(a.pkg), a.name))
		add(any(), "openapi:schema "+n+" "+goPtr(w.importPath(b.pkg), b.name))
		if r.P(70) {
			injectSchema(r, w, ref(a))
		}
		if r.P(70) {
			injectSchema(r, w, ref(b))
		}
		return "one name for two types"
	case 1: // one type under two names, or twice under one
		n1, n2 := "First", r.S("Second", "First")
		add(any(), "openapi:schema "+n1+" "+goPtr(w.importPath(a.pkg), a.name))
		if r.P(50) {
			add(a.pkg, "openapi:schema "+n2+" "+a.name)
		} else {
			add(any(), "openapi:schema "+n2+" "+goPtr(w.importPath(a.pkg), a.name))
		}
		if r.P(60) {
			injectSchema(r, w, ref(a))
		}
		return "one type exported twice"
	case 2: // against a component written by hand
		n := "Taken" + r.S("", ".y", "~z")
		add(any(), "openapi:schema "+n+" "+goPtr(w.importPath(a.pkg), a.name))
		s := w.anySpec(r)
		if s == nil || injectSchema(r, w, ref(a)) == "" {
			return ""
		}
		c, ok := s.Doc["components"].(M)
		if !ok {
			c = M{}
			s.Doc["components"] = c
		}
		sc, ok := c["schemas"].(M)
		if !ok {
			sc = M{}
			c["schemas"] = sc
		}
		sc[n] = []V{M{"type": "string"}, M{"type": "object"}, M{"type": "object", "properties": M{"zz": M{"type": "string"}}}, M{}}[r.N(4)]
		return "exported name against a component"
	case 3: // against a configured component
		n := "Taken"
		add(any(), "openapi:schema "+n+" "+goPtr(w.importPath(a.pkg), a.name))
		if injectSchema(r, w, ref(a)) == "" {
			return ""
		}
		cfgOf(w).Doc["components"] = M{"schemas": M{n: M{"type": "string", "format": "other"}}}
		return "exported name against a configured component"
	}
	// configured component against a specification
	s := w.anySpec(r)
	if s == nil {
		return ""
	}
	c, ok := s.Doc["components"].(M)
	if !ok {
		c = M{}
		s.Doc["components"] = c
	}
	k := r.S("schemas", "schemas", "responses")
	sc, ok := c[k].(M)
	if !ok {
		sc = M{}
		c[k] = sc
	}
	if k == "schemas" {
		sc["Clash"] = M{"type": r.S("string", "number")}
		cfgOf(w).Doc["components"] = M{k: M{"Clash": M{"type": "integer"}}}
	} else {
		sc["Clash"] = M{"description": "one"}
		cfgOf(w).Doc["components"] = M{k: M{"Clash": M{"description": "two", "content": M{"text/plain": M{"schema": M{"type": "string"}}}}}}
	}
	return "configured component against a specification"
}

func (w *World) exportNone() {
	for i := range w.Pkgs {
		var cs []string
		for _, c := range w.Pkgs[i].Comments {
			if !strings.HasPrefix(c, "openapi:schema") {
				cs = append(cs, c)
			}
		}
		w.Pkgs[i].Comments = cs
	}
}

func (w *World) anySpec(r *Rng) *Spec {
	reach := w.reachable()
	var ss []*Spec
	for i := range w.Pkgs {
		if !reach[i] {
			continue
		}
		for k := range w.Pkgs[i].Specs {
			s := &w.Pkgs[i].Specs[k]
			if _, ok := s.Doc["openapi"]; ok && isSpecName(s.File) && !s.IsRaw {
				ss = append(ss, s)
			}
		}
	}
	if len(ss) == 0 {
		return nil
	}
	return ss[r.N(len(ss))]
}

func gen05(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Specs, o.MultiSpec, o.MaxPkgs, o.Exports, o.Refs, o.MaxTypes, o.MaxFields = 75, 35, 5, 20, 40, 3, 3
	o.CfgPct, o.RootComps = 10, 30
	for try := 0; try < 10; try++ {
		w := genWorld(r, o)
		what := ""
		kind := "values"
		switch {
		case r.P(65):
			what = injectConflict(r, w)
		case r.P(85):
			kind = "exports"
			what = injectExport(r, w)
		default:
			kind = "keys"
			s := w.anySpec(r)
			if s == nil || strings.HasSuffix(s.File, ".json") {
				continue
			}
			a, b := r.S("200", "true", "1.5"), ""
			b = "\"" + a + "\""
			if r.P(50) {
				a, b = b, a
			}
			s.Doc["x-keys"] = "KEYS"
			s.Raw = strings.Replace(emit("x.json", s.Doc, 0), `"KEYS"`, "{"+a+": one, "+b+": two}", 1)
			s.IsRaw = true
			what = "keys equal as strings"
			c := &Case{Kind: kind, Worlds: []*World{w}, P: map[string]string{"injected": what}}
			return c
		}
		if what == "" {
			continue
		}
		e := w.expect()
		if e.Fail != whyConflict {
			continue
		}
		c := &Case{Kind: kind, Worlds: []*World{w}, P: map[string]string{"injected": what + " (" + e.Msg + ")"}}
		if r.P(50) {
			c.Base = api(c.Base, "json")
		}
		return c
	}
	return nil
}

func judge05(c *Case, x *Exec) *Viol {
	e := c.Worlds[0].expect()
	if c.Kind == "keys" {
		if len(rawSpecs(c.Worlds[0])) == 0 {
			return nil
		}
	} else if e.Fail != whyConflict {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec {
		return []RunSpec{c.Base, noise(r, c.Base), noise(r, c.Base)}
	}) {
		o := c.outcome(rs, x.run(c, rs))
		if o.OK && o.Bad == "" {
			return c.viol("accepted", "the run succeeds in spite of contradicting definitions: "+c.P["injected"]+" "+e.Msg, rs)
		}
	}
	return nil
}

func rawSpecs(w *World) (out []Spec) {
	reach := w.reachable()
	for i := range w.Pkgs {
		for _, s := range w.Pkgs[i].Specs {
			if s.IsRaw && reach[i] {
				out = append(out, s)
			}
		}
	}
	return
}

// ---- C06 ----

func gen06(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Simple, o.CfgPct, o.Overrides, o.RootComps, o.Ext, o.Refs, o.FieldRefs, o.Exports = true, 100, 65, 50, 55, 65, 20, 8
	o.MaxPkgs, o.MaxTypes = 3, 3
	w := genWorld(r, o)
	c := &Case{Kind: "config", Worlds: []*World{w}}
	// destinations
	cf := w.Cfg
	if r.P(40) {
		cf.Doc["output"] = r.S("{B}/cfg-out.txt", "gen.json", "../gen.yaml", "stdout", "stderr")
	} else if cf.Ext != nil && r.P(30) {
		cf.Ext.Doc["output"] = r.S("{B}/ext-out.txt", "extgen.json", "stdout")
	}
	if r.P(35) {
		w.Inv.Output = r.S("{B}/flag-out.txt", "flag.json", "stdout", "stderr", "./x/../flag2")
		w.Extra = append(w.Extra, vk.Node{Path: "{B}/" + w.Inv.Cwd + "/x", Type: "d"})
	}
	if r.P(35) {
		decoys(r, w)
	}
	if e := w.expect(); e.Fail != "" {
		return nil
	}
	return c
}

// decoys are configurations nothing refers to, at places one could take for
// those of the one in use.
func decoys(r *Rng, w *World) {
	cf := w.Cfg
	o := w.options()
	cwd := absPath(w.Inv.Cwd, w.Base)
	file := absPath(w.sub(w.Inv.Config), cwd)
	taken, dir := map[string]bool{}, map[string]bool{}
	for _, n := range w.image() {
		p := filepath.Clean(n.Path)
		taken[p] = true
		dir[p] = n.Type == "d"
		for q := filepath.Dir(p); !dir[q]; q = filepath.Dir(q) {
			taken[q], dir[q] = true, true
		}
	}
	doc := M{"version": "1", "info": M{"title": "decoy", "version": "decoy"}, "format": "yaml", "tags": []interface{}{M{"name": "decoy"}}, "externalDocs": M{"url": "https://decoy.example.com"}}
	for _, d := range []string{cwd, w.Base, o.Dir, filepath.Dir(file), "/root", "/"} {
		names := []string{filepath.Base(file), ".oapi.yaml", "oapi.config.yaml", "oapi-config.yml", "config.yaml", ".oapirc.json"}
		if !filepath.IsAbs(w.sub(w.Inv.Config)) {
			names = append(names, w.Inv.Config)
		}
		for x := cf; x != nil; x = x.Ext {
			if x.ExtAs != "" && !filepath.IsAbs(w.sub(x.ExtAs)) {
				names = append(names, x.ExtAs, filepath.Base(x.ExtAs))
			}
		}
		for _, n := range names {
			p := filepath.Join(d, n)
			if taken[p] || p == o.Output || !r.P(60) {
				continue
			}
			ok := true
			for q := filepath.Dir(p); q != "/"; q = filepath.Dir(q) {
				ok = ok && (dir[q] || !taken[q])
			}
			if !ok {
				continue
			}
			taken[p] = true
			for q := filepath.Dir(p); q != "/"; q = filepath.Dir(q) {
				taken[q], dir[q] = true, true
			}
			w.Extra = append(w.Extra, vk.MkNode(p, []byte(emit(filepath.Base(p), doc, 0))))
		}
	}
}

func sameModuloConfig(c *Case, x *Exec, rs RunSpec, drop []string) bool {
	w := noConfig(c.Worlds[0], func(m M) {
		for _, k := range drop {
			delete(m, k)
		}
	})
	k := c.with(w)
	e := w.expect()
	if e.Fail != "" {
		return false
	}
	o, doc, _, err := k.decoded(x, rs)
	return o.OK && err == nil && firstDiff("", e.Final, doc) == ""
}

var cfgDocKeys = []string{"info", "servers", "components", "security", "tags", "externalDocs", "overrides", "operations"}

func judge06(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	e := w.expect()
	if e.Fail != "" || w.Cfg == nil {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec {
		return []RunSpec{c.Base, noise(r, c.Base)}
	}) {
		r := x.run(c, rs)
		o := c.outcome(rs, r)
		// a plain invocation in the package directory works?
		plain := func() bool {
			p := w.clone()
			p.Cfg = nil
			p.Inv = Inv{Cwd: strings.TrimPrefix(w.pkgDir(0), w.Base+"/"), Format: "json"}
			k := c.with(p)
			pe := p.expect()
			if pe.Fail != "" {
				return false
			}
			po, doc, _, err := k.decoded(x, rs)
			return po.OK && err == nil && firstDiff("", pe.Final, doc) == ""
		}
		if !o.OK || o.Bad != "" {
			if plain() {
				return c.viol("failed", "the run with its configuration fails: "+o.why(), rs)
			}
			x.st.skip("run fails without configuration as well")
			continue
		}
		if o.Doc == "" {
			if plain() {
				return c.viol("destination", fmt.Sprintf("nothing was written to %s", e.Opts.Output), rs)
			}
			continue
		}
		doc, _, err := decodeDoc(o.Fmt, o.Doc)
		if err != nil {
			if plain() {
				return c.viol("format", fmt.Sprintf("the output is not in format %s: %v", o.Fmt, err), rs)
			}
			continue
		}
		if s := formatLooks(o.Fmt, o.Doc); s != "" {
			return c.viol("format", s, rs)
		}
		if d := firstDiff("", e.Final, doc); d != "" {
			if plain() {
				return c.viol("document", "configuration is not applied as documented "+d, rs)
			}
			x.st.skip("document differs without configuration as well")
			continue
		}
		// nowhere else
		for _, s := range [][2]string{{"stdout", r.Stdout}, {"stderr", r.Stderr}} {
			if e.Opts.Output != s[0] && s[1] != "" {
				return c.viol("destination", "output went to "+s[0]+" although it belongs to "+e.Opts.Output, rs)
			}
		}
	}
	return nil
}

// formatLooks tells formats apart that decode the same way.
func formatLooks(f, s string) string {
	t := strings.TrimSpace(s)
	lines := strings.Count(t, "\n")
	switch f {
	case "json":
		if lines > 0 {
			return "format json is spread over lines"
		}
	case "json:pretty":
		if lines == 0 && t != "{}" {
			return "format json:pretty is one line"
		}
	case "yaml", "yml":
		if strings.HasPrefix(t, "{") && t != "{}" {
			return "format " + f + " is JSON"
		}
	}
	return ""
}

// ---- C07 ----

func gen07(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Simple, o.CfgPct, o.DefOps, o.MaxPaths, o.Refs, o.WeirdKeys = true, 100, 100, 7, 30, 5
	o.MaxPkgs, o.MaxTypes, o.MaxFields, o.Decoys, o.Dups = 3, 2, 2, 0, 10
	w := genWorld(r, o)
	for c := w.Cfg; c != nil; c = c.Ext {
		for _, k := range cfgDocKeys {
			if k != "operations" {
				delete(c.Doc, k)
			}
		}
		delete(c.Doc, "format")
	}
	w.Inv.Format = "json"
	if e := w.expect(); e.Fail != "" {
		return nil
	}
	c := &Case{Kind: "defops", Worlds: []*World{w}}
	if r.P(40) {
		c.Base = api(c.Base, "json")
	}
	return c
}

func judge07(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	e := w.expect()
	if e.Fail != "" {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec {
		return []RunSpec{c.Base, noise(r, c.Base)}
	}) {
		o, doc, _, err := c.decoded(x, rs)
		control := func() bool { return sameModuloConfig(c, x, rs, []string{"operations"}) }
		if !o.OK || o.Bad != "" || err != nil {
			if control() {
				return c.viol("failed", "the run with default operations fails: "+o.why(), rs)
			}
			x.st.skip("run fails without default operations as well")
			continue
		}
		if d := firstDiff("", e.Final, doc); d != "" {
			if control() {
				return c.viol("document", "default operations are not applied as documented "+d, rs)
			}
			x.st.skip("document differs without default operations as well")
		}
	}
	return nil
}

// ---- C08 ----

func gen08(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.WeirdKeys, o.Refs, o.MaxTypes, o.Exports, o.Decoys = 40, 30, 3, 20, 3
	w := genWorld(r, o)
	c := &Case{Kind: "library", Worlds: []*World{w}}
	switch {
	case r.P(20):
		c.Kind = "command"
	case r.P(12):
		c.Kind = "unknown"
		c.P = map[string]string{"format": r.S("JSON", "xml", "jsonpretty", "json:", "yamll", "Yaml", "golang", "json:Pretty", "toml", " json", "json ", "yaml,json", "pretty")}
	}
	return c
}

func judge08(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	switch c.Kind {
	case "unknown":
		f := c.P["format"]
		rs := api(c.Base, f)
		o := c.outcome(rs, x.run(c, rs))
		if o.OK && o.Bad == "" {
			return c.viol("unknown", fmt.Sprintf("format %q is accepted by the library and gives %q", f, clip(o.Doc, 100)))
		}
		k := w.clone()
		k.Inv.Format = f
		o = c.with(k).outcome(c.Base, x.run(c.with(k), c.Base))
		if o.OK && o.Bad == "" {
			return c.viol("unknown", fmt.Sprintf("format %q is accepted by the command and gives %q", f, clip(o.Doc, 100)))
		}
		return nil
	case "command":
		for _, rs := range c.runs(func(r *Rng) []RunSpec { return []RunSpec{noise(r, c.Base)} }) {
			out := map[string]string{}
			for _, f := range allFormats {
				k := w.clone()
				k.Inv.Format = f
				o := c.with(k).outcome(rs, x.run(c.with(k), rs))
				if o.OK && o.Bad == "" {
					out[f] = o.Doc
				} else {
					out[f] = "failed"
				}
			}
			n := 0
			for _, f := range allFormats {
				if out[f] == "failed" {
					n++
				}
			}
			if n == len(allFormats) {
				x.st.skip("run failed")
				continue
			}
			if v := sameFormats(out); v != "" {
				return c.viol("formats", v, rs)
			}
		}
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec {
		a := noise(r, c.Base)
		a.YieldIn = []int{1, 3, 20, 100}[r.N(4)]
		a.Sched = vk.Window{Seed: r.Seed()}
		return []RunSpec{a}
	}) {
		rs.API = true
		call := w.apiCall("a", allFormats)
		call.FormatTwice = true
		call.Par = 3
		rs.Phases = []vk.Phase{{Calls: []vk.Call{call}, Reformat: []string{"a"}}}
		r := x.run(c, rs)
		if b := crashed(r); b != "" {
			x.st.skip("run crashed")
			continue
		}
		k := call0(r)
		if k.Failed {
			x.st.skip("run failed")
			continue
		}
		if k.Unstable != "" {
			return c.viol("unstable", k.Unstable, rs)
		}
		out := map[string]string{}
		for _, f := range allFormats {
			if s, ok := k.Out[f]; ok {
				out[f] = s
			} else {
				out[f] = "failed"
			}
		}
		if v := sameFormats(out); v != "" {
			return c.viol("formats", v, rs)
		}
		for _, q := range r.Phases[0].Reformat {
			for _, f := range allFormats {
				if q.Out[f] != k.Out[f] {
					return c.viol("unstable", "formatting again as "+f+" gives other bytes", rs)
				}
			}
		}
	}
	return nil
}

// sameFormats compares the encodings of one document.
func sameFormats(out map[string]string) string {
	var first V
	var order []string
	for _, f := range []string{"json", "json:pretty", "yaml", "yml", "go"} {
		s := out[f]
		if s == "failed" {
			return "format " + f + " fails while others work"
		}
		if v := formatLooks(f, s); v != "" {
			return v
		}
		d, top, err := decodeDoc(f, s)
		if err != nil {
			return "format " + f + " cannot be decoded: " + err.Error()
		}
		if v := keyOrder(top); v != "" {
			return "format " + f + ": " + v
		}
		if f == "json" {
			first, order = d, top
			continue
		}
		if v := firstDiff("", first, d); v != "" {
			return "formats json and " + f + " differ " + v
		}
		if strings.Join(order, "\n") != strings.Join(top, "\n") {
			return fmt.Sprintf("formats json and %s order top-level keys differently: %q and %q", f, order, top)
		}
		if f == "go" {
			j, _ := goConst(s)
			if j != out["json"] && j != out["json:pretty"] && strings.TrimSpace(j) != strings.TrimSpace(out["json"]) && strings.TrimSpace(j) != strings.TrimSpace(out["json:pretty"]) {
				return "the constant of format go is not the JSON text"
			}
		}
	}
	if out["yaml"] != out["yml"] {
		return "formats yaml and yml differ"
	}
	return ""
}

func keyOrder(top []string) string {
	want := []string{"openapi", "info", "components", "paths"}
	pos := 0
	for i, k := range top {
		j := -1
		for n, w := range want {
			if k == w {
				j = n
			}
		}
		if j < 0 {
			pos = len(want)
			continue
		}
		if j < pos {
			return fmt.Sprintf("top-level keys are ordered %q (key %d)", top, i)
		}
		pos = j
	}
	return ""
}

// ---- C17 ----

func gen17(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Exports, o.Refs, o.Recursion, o.Twins = 55, 75, 60, 25
	o.Simple = r.P(50)
	o.Decoys, o.Dups, o.WeirdKeys, o.FieldRefs = 3, 5, 15, 10
	if r.P(20) {
		o.CfgPct, o.RootComps, o.DefOps, o.Overrides = 100, 70, 50, 40
	}
	w := genWorld(r, o)
	c := &Case{Kind: "exports", Worlds: []*World{w}}
	e := w.expect()
	if e.Fail != "" || len(e.Names) == 0 {
		return nil
	}
	if r.P(50) {
		c.Base = api(c.Base, "json")
	}
	return c
}

func judge17(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	e := w.expect()
	if e.Fail != "" || len(e.Names) == 0 {
		return nil
	}
	for _, rs := range c.runs(func(r *Rng) []RunSpec {
		return []RunSpec{c.Base, noise(r, c.Base)}
	}) {
		o, doc, _, err := c.decoded(x, rs)
		control := func() bool {
			k := w.clone()
			k.exportNone()
			ke := k.expect()
			if ke.Fail != "" {
				return ke.Fail == "size" || ke.Fail == "shared"
			}
			kc := c.with(k)
			ko, kd, _, kerr := kc.decoded(x, rs)
			return ko.OK && kerr == nil && firstDiff("", ke.Final, kd) == ""
		}
		if !o.OK || o.Bad != "" || err != nil {
			if control() {
				return c.viol("failed", "the run with exported types fails: "+o.why(), rs)
			}
			x.st.skip("run fails without exports as well")
			continue
		}
		if d := firstDiff("", e.Final, doc); d != "" {
			if control() {
				return c.viol("document", "exported components are wrong "+d, rs)
			}
			x.st.skip("document differs without exports as well")
		}
	}
	return nil
}
