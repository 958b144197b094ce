package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"vsim/vk"
)

var allFormats = []string{"yaml", "yml", "json", "json:pretty", "go"}

// noise draws everything a correct program must not depend on.
func noise(r *Rng, rs RunSpec) RunSpec {
	rs.Map = vk.Window{Seed: r.Seed()}
	if r.P(75) {
		rs.Sched = vk.Window{Seed: r.Seed()}
		rs.YieldIn = []int{0, 2, 10, 40, 200}[r.N(5)]
	}
	rs.Rand = r.Seed() % 1000003
	if r.P(50) {
		rs.Shuffle = r.Seed()
	}
	if r.P(30) {
		rs.Clock = int64(r.N(1<<30))*int64(1e9) + int64(r.N(1e9))
		rs.Skew = int64(r.N(3)) * int64(r.N(1e6))
	}
	if r.P(20) {
		rs.LoaderDelay = r.R(1, 50)
	}
	if r.P(20) {
		rs.Events = append(rs.Events, vk.Event{Step: int64(r.R(1, 9000)), Kind: "jump", Arg: int64(r.R(-1000000, 1000000)) * 1e9})
	}
	if r.P(20) {
		rs = noiseEnv(r, rs)
	}
	return rs
}

func noiseEnv(r *Rng, rs RunSpec) RunSpec {
	if r.P(60) {
		rs.Wild = r.Seed()
	}
	for _, e := range []string{"TZ=Asia/Tokyo", "LANG=de_DE.UTF-8", "HOME=/home/someone", "TERM=xterm", "USER=u", "COLUMNS=20", "DEBUG=1", "PWD=/somewhere/else", "NO_COLOR=1", "TMPDIR=/var/tmp", "OAPI=1", "GOPACKAGE=gen", "GOFILE=gen.go", "GOLINE=7", "DOLLAR=$", "CI=true", "VERBOSE=1", "LC_ALL=tr_TR.UTF-8", "XDG_CONFIG_HOME=/w", "XDG_CACHE_HOME=/home/someone/.cache", "GOFLAGS=-mod=mod", "GOCACHE=/home/someone/.gocache", "SOURCE_DATE_EPOCH=1", "OAPI_CONFIG=/w/x.yaml", "OAPI_FORMAT=json", "EDITOR=vi"} {
		if r.P(40) {
			rs.Env = append(rs.Env, e)
		}
	}
	return rs
}

// runs returns the runs to check: those fixed by a replay, or fresh ones.
func (c *Case) runs(gen func(r *Rng) []RunSpec) []RunSpec {
	if c.Fixed != nil {
		return c.Fixed
	}
	return gen(newRng(mix(c.Seed, 0xA5)))
}

// viol narrows a case to the runs that show the violation.
func (c *Case) viol(class, msg string, runs ...RunSpec) *Viol {
	d := *c
	if runs != nil {
		d.Fixed = runs
	}
	return &Viol{Class: class, Msg: msg, Case: &d}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("byte %d: %q against %q", i, clip(a[lo:], 140), clip(b[lo:], 140))
}

// at finds a value in a document.
func at(v V, path []string) (V, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case M:
			y, ok := x[p]
			if !ok {
				return nil, false
			}
			v = y
		case []interface{}:
			i, err := strconv.Atoi(p)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// setAt replaces an existing value.
func setAt(v V, path []string, val V) {
	if len(path) == 0 {
		return
	}
	p, ok := at(v, path[:len(path)-1])
	if !ok {
		return
	}
	k := path[len(path)-1]
	switch x := p.(type) {
	case M:
		if _, ok := x[k]; ok {
			x[k] = val
		}
	case []interface{}:
		if i, err := strconv.Atoi(k); err == nil && i >= 0 && i < len(x) {
			x[i] = val
		}
	}
}

func ptrText(path []string) string {
	s := ""
	for _, p := range path {
		s += "/" + esc(p)
	}
	return s
}

// masked is a document with the places of references blanked and exported
// components removed.
func masked(doc V, e *Expect) V {
	d := cloneV(doc)
	for _, r := range e.Refs {
		setAt(d, r.Path, "(reference)")
	}
	if m, ok := d.(M); ok {
		if c, ok := m["components"].(M); ok {
			if s, ok := c["schemas"].(M); ok {
				for n := range e.Comps {
					if own, ok := at(e.Merged, []string{"components", "schemas", n}); ok {
						_ = own
						continue
					}
					delete(s, n)
				}
				if len(s) == 0 {
					if _, ok := at(e.Merged, []string{"components", "schemas"}); !ok {
						delete(c, "schemas")
					}
				}
			}
			if len(c) == 0 {
				if _, ok := e.Merged["components"]; !ok {
					delete(m, "components")
				}
			}
		}
	}
	return d
}

// walkDoc visits every object member.
func walkDoc(v V, path []string, f func(path []string, k string, v V)) {
	switch x := v.(type) {
	case M:
		for _, k := range keysOf(x) {
			f(path, k, x[k])
			walkDoc(x[k], append(path[:len(path):len(path)], k), f)
		}
	case []interface{}:
		for i, y := range x {
			walkDoc(y, append(path[:len(path):len(path)], strconv.Itoa(i)), f)
		}
	}
}

// stripRefs replaces every go reference of a world by a plain schema.
func stripRefs(w *World) *World {
	x := w.clone()
	var walk func(v V) V
	walk = func(v V) V {
		switch t := v.(type) {
		case M:
			if r, ok := t["$ref"].(string); ok && strings.Contains(r, "://") {
				return M{"type": "string"}
			}
			for k, y := range t {
				t[k] = walk(y)
			}
		case []interface{}:
			for i, y := range t {
				t[i] = walk(y)
			}
		}
		return v
	}
	for i := range x.Pkgs {
		for k := range x.Pkgs[i].Specs {
			x.Pkgs[i].Specs[k].Doc = walk(x.Pkgs[i].Specs[k].Doc).(M)
		}
	}
	for c := x.Cfg; c != nil; c = c.Ext {
		c.Doc = walk(c.Doc).(M)
	}
	return x
}

// with returns the case for another project.
func (c *Case) with(w *World) *Case {
	d := *c
	d.Worlds = append([]*World{w}, c.Worlds[1:]...)
	return &d
}

// plain turns the invocation of a world without configuration.
func noConfig(w *World, keep func(m M)) *World {
	x := w.clone()
	for c := x.Cfg; c != nil; c = c.Ext {
		keep(c.Doc)
	}
	return x
}

// decoded runs a case once and decodes its document.
func (c *Case) decoded(x *Exec, rs RunSpec) (o outcome, doc V, top []string, err error) {
	r := x.run(c, rs)
	o = c.outcome(rs, r)
	if !o.OK || o.Bad != "" {
		return
	}
	doc, top, err = decodeDoc(o.Fmt, o.Doc)
	return
}

func (o outcome) why() string {
	if o.Bad != "" {
		return o.Bad
	}
	return clip(strings.TrimSpace(o.Err), 300)
}

func sortedSet(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// cliFormats varies the format of a case without a configuration file.
func cliFormat(r *Rng, w *World) {
	if w.Cfg == nil && r.P(70) {
		w.Inv.Format = r.S(allFormats...)
	}
	if w.Inv.Output == "" && r.P(25) {
		w.Inv.Output = r.S("{B}/out.json", "result.yaml", "stdout", "{B}/o/../out")
		if strings.HasPrefix(w.Inv.Output, "{B}/o/") {
			w.Extra = append(w.Extra, vk.Node{Path: "{B}/o", Type: "d"})
		}
	}
}
