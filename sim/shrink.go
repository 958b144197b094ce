package main

import (
	"strings"
	"sync"
	"time"

	"vsim/vk"
)

// shrink makes the case of a violation smaller while it stays the same kind
// of violation. Candidates of a round are judged in parallel; the first one in
// order that still shows the violation is taken.
func shrink(p *Prop, v *Viol, x *Exec, limit time.Duration, workers int) *Viol {
	deadline := time.Now().Add(limit)
	best := v
	from := 0
	for time.Now().Before(deadline) {
		cands := candidates(best.Case)
		took := false
		n := len(cands)
		for off := 0; off < n && time.Now().Before(deadline); {
			batch := workers
			if off+batch > n {
				batch = n - off
			}
			res := make([]*Viol, batch)
			var wg sync.WaitGroup
			for b := 0; b < batch; b++ {
				wg.Add(1)
				go func(b int) {
					defer wg.Done()
					defer func() { recover() }()
					i := (from + off + b) % n
					c := cands[i]()
					if c == nil || !validCase(c) {
						return
					}
					if v2 := p.Judge(c, x); v2 != nil && v2.Class == best.Class {
						res[b] = v2
					}
				}(b)
			}
			wg.Wait()
			for b, r := range res {
				if r != nil {
					best = r
					took = true
					from = (from + off + b) % n
					break
				}
			}
			if took {
				break
			}
			off += batch
		}
		if !took {
			break
		}
	}
	// the message of the final case, once more from the case alone
	if v2 := p.Judge(best.Case, x); v2 != nil && v2.Class == best.Class {
		best = v2
	}
	return best
}

func cloneCase(c *Case) *Case {
	var d Case
	fromJSON(toJSON(c), &d)
	return &d
}

// validCase: every named type that is mentioned exists.
func validCase(c *Case) bool {
	for _, w := range c.Worlds {
		if c.Kind != "wild" && w.goError() != nil {
			return false
		}
		for i := range w.Pkgs {
			for _, d := range w.Pkgs[i].Types {
				if !validTE(w, d.T) {
					return false
				}
			}
		}
	}
	return true
}

func validTE(w *World, t *TE) bool {
	if t == nil {
		return true
	}
	if t.K == "named" && (t.Pkg >= len(w.Pkgs) || w.decl(t.Pkg, t.Name) == nil) {
		return false
	}
	if !validTE(w, t.Elem) || !validTE(w, t.Key) {
		return false
	}
	for _, f := range t.Fields {
		if !validTE(w, f.T) {
			return false
		}
	}
	return true
}

// docEdits lists ways to make a document smaller, as functions that edit a
// fresh copy in place.
func docPaths(v V, path []interface{}, out *[][]interface{}) {
	switch x := v.(type) {
	case M:
		for _, k := range keysOf(x) {
			p := append(path[:len(path):len(path)], k)
			*out = append(*out, p)
			docPaths(x[k], p, out)
		}
	case []interface{}:
		for i, y := range x {
			p := append(path[:len(path):len(path)], i)
			*out = append(*out, p)
			docPaths(y, p, out)
		}
	}
}

func dropAt(v V, path []interface{}) V {
	switch x := v.(type) {
	case M:
		k := path[0].(string)
		if len(path) == 1 {
			delete(x, k)
			return x
		}
		x[k] = dropAt(x[k], path[1:])
		return x
	case []interface{}:
		i := path[0].(int)
		if len(path) == 1 {
			return append(append([]interface{}{}, x[:i]...), x[i+1:]...)
		}
		x[i] = dropAt(x[i], path[1:])
		return x
	}
	return v
}

func candidates(c *Case) (out []func() *Case) {
	add := func(f func(d *Case) bool) {
		out = append(out, func() *Case {
			d := cloneCase(c)
			if !f(d) {
				return nil
			}
			return d
		})
	}
	// fewer runs, faults, events
	for i := range c.Fixed {
		i := i
		if len(c.Fixed) > 1 {
			add(func(d *Case) bool { d.Fixed = append(d.Fixed[:i:i], d.Fixed[i+1:]...); return true })
		}
		runEdits(c.Fixed[i], func(f func(r *RunSpec) bool) {
			add(func(d *Case) bool { return f(&d.Fixed[i]) })
		})
	}
	runEdits(c.Base, func(f func(r *RunSpec) bool) {
		add(func(d *Case) bool { return f(&d.Base) })
	})
	if c.Crash != nil {
		cp := func(f func(p *CrashPoint)) {
			add(func(d *Case) bool {
				f(d.Crash)
				return string(toJSON(d.Crash)) != string(toJSON(c.Crash))
			})
		}
		cp(func(p *CrashPoint) { p.How, p.Lost, p.Torn, p.Meta = "kill", nil, nil, 0 })
		cp(func(p *CrashPoint) { p.Run, p.Then = false, nil })
		cp(func(p *CrashPoint) { p.Then = nil })
		cp(func(p *CrashPoint) { p.Meta = p.Ops })
		cp(func(p *CrashPoint) { p.Torn = nil })
		for i := range c.Crash.Lost {
			i := i
			cp(func(p *CrashPoint) { p.Lost = append(p.Lost[:i:i], p.Lost[i+1:]...) })
		}
		if c.Crash.Ops > 0 {
			cp(func(p *CrashPoint) { p.Ops-- })
		}
	}
	for wi, w := range c.Worlds {
		wi := wi
		ed := func(f func(w *World) bool) { add(func(d *Case) bool { return f(d.Worlds[wi]) }) }
		for i := range w.Pkgs {
			i := i
			p := w.Pkgs[i]
			if i > 0 && (len(p.Types) > 0 || len(p.Specs) > 0 || len(p.Comments) > 0) {
				ed(func(w *World) bool { w.Pkgs[i].Types, w.Pkgs[i].Specs, w.Pkgs[i].Comments = nil, nil, nil; return true })
			}
			for k := range p.Specs {
				k := k
				ed(func(w *World) bool {
					w.Pkgs[i].Specs = append(w.Pkgs[i].Specs[:k:k], w.Pkgs[i].Specs[k+1:]...)
					return true
				})
			}
		}
		if len(w.Extra) > 0 {
			ed(func(w *World) bool { w.Extra = nil; return true })
			if len(w.Extra) > 1 {
				for k := range w.Extra {
					k := k
					ed(func(w *World) bool { w.Extra = append(w.Extra[:k:k], w.Extra[k+1:]...); return true })
				}
			}
		}
		if w.Cfg != nil {
			if w.Cfg.Ext != nil {
				ed(func(w *World) bool { w.Cfg.Ext = nil; return true })
			}
			for ci, cf := 0, w.Cfg; cf != nil; ci, cf = ci+1, cf.Ext {
				ci := ci
				var ps [][]interface{}
				docPaths(cf.Doc, nil, &ps)
				for _, p := range ps {
					p := p
					ed(func(w *World) bool {
						x := w.Cfg
						for n := 0; n < ci; n++ {
							x = x.Ext
						}
						x.Doc = dropAt(x.Doc, p).(M)
						return true
					})
				}
			}
		}
		for i := range w.Pkgs {
			i := i
			p := w.Pkgs[i]
			if p.Crowd != 0 {
				ed(func(w *World) bool { w.Pkgs[i].Crowd = 0; return true })
			}
			for k := range p.Types {
				k := k
				if len(p.Types[k].Methods) > 0 {
					ed(func(w *World) bool { w.Pkgs[i].Types[k].Methods = nil; return true })
				}
			}
			for k := range p.RawGo {
				k := k
				ed(func(w *World) bool {
					w.Pkgs[i].RawGo = append(w.Pkgs[i].RawGo[:k:k], w.Pkgs[i].RawGo[k+1:]...)
					return true
				})
				textEdits(string(p.RawGo[k].Bytes()), func(s string) {
					ed(func(w *World) bool {
						w.Pkgs[i].RawGo[k] = vk.MkNode(w.Pkgs[i].RawGo[k].Path, []byte(s))
						return true
					})
				})
			}
			for k := range p.Specs {
				k := k
				if p.Specs[k].IsRaw {
					textEdits(p.Specs[k].Raw, func(s string) {
						ed(func(w *World) bool { w.Pkgs[i].Specs[k].Raw = s; return true })
					})
				}
				var ps [][]interface{}
				docPaths(p.Specs[k].Doc, nil, &ps)
				for _, q := range ps {
					q := q
					ed(func(w *World) bool {
						w.Pkgs[i].Specs[k].Doc = dropAt(w.Pkgs[i].Specs[k].Doc, q).(M)
						return true
					})
				}
				if p.Specs[k].Link != "" {
					ed(func(w *World) bool { w.Pkgs[i].Specs[k].Link = ""; return true })
				}
				if p.Specs[k].Pad != 0 {
					ed(func(w *World) bool { w.Pkgs[i].Specs[k].Pad = 0; return true })
				}
				if p.Specs[k].Style != 0 {
					ed(func(w *World) bool { w.Pkgs[i].Specs[k].Style = 0; return true })
				}
			}
			for k := range p.Comments {
				k := k
				ed(func(w *World) bool {
					w.Pkgs[i].Comments = append(w.Pkgs[i].Comments[:k:k], w.Pkgs[i].Comments[k+1:]...)
					return true
				})
			}
			if len(p.Imports) > 0 {
				ed(func(w *World) bool { w.Pkgs[i].Imports = nil; return true })
			}
			for k := range p.Types {
				k := k
				ed(func(w *World) bool {
					w.Pkgs[i].Types = append(w.Pkgs[i].Types[:k:k], w.Pkgs[i].Types[k+1:]...)
					return true
				})
				teEdits(p.Types[k].T, func(t *TE) *TE { return t }, func(f func(t *TE) *TE) {
					ed(func(w *World) bool {
						w.Pkgs[i].Types[k].T = f(w.Pkgs[i].Types[k].T)
						return w.Pkgs[i].Types[k].T != nil
					})
				})
			}
		}
		// the last package, when nothing mentions it
		if n := len(w.Pkgs) - 1; n > 0 {
			ed(func(w *World) bool {
				for q := range w.Pkgs[:n] {
					var im []int
					for _, m := range w.Pkgs[q].Imports {
						if m != n {
							im = append(im, m)
						}
					}
					w.Pkgs[q].Imports = im
				}
				w.Pkgs = w.Pkgs[:n]
				return true
			})
		}
	}
	return
}

// textEdits offers a text with lines left out.
func textEdits(s string, ed func(string)) {
	ls := strings.SplitAfter(s, "\n")
	for n := len(ls) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(ls) && len(ls) > 1; i += n {
			ed(strings.Join(append(append([]string{}, ls[:i]...), ls[i+n:]...), ""))
		}
	}
}

// teEdits offers smaller versions of a type.
func teEdits(t *TE, _ func(*TE) *TE, ed func(func(*TE) *TE)) {
	if t == nil {
		return
	}
	str := &TE{K: "basic", Name: "string"}
	for i := range t.Fields {
		i := i
		ed(func(t *TE) *TE { t.Fields = append(t.Fields[:i:i], t.Fields[i+1:]...); return t })
		f := t.Fields[i]
		if f.Tag != nil {
			ed(func(t *TE) *TE { t.Fields[i].Tag = nil; return t })
			for k := range f.Tag.Opts {
				k := k
				if len(f.Tag.Opts) > 1 {
					ed(func(t *TE) *TE {
						o := t.Fields[i].Tag.Opts
						t.Fields[i].Tag.Opts = append(o[:k:k], o[k+1:]...)
						return t
					})
				}
			}
		}
		if !f.Embed && !(f.T.K == "basic" && f.T.Name == "string") {
			ed(func(t *TE) *TE { t.Fields[i].T = str; return t })
			teEdits(f.T, nil, func(g func(*TE) *TE) {
				ed(func(t *TE) *TE { t.Fields[i].T = g(t.Fields[i].T); return t })
			})
		}
	}
	if t.Elem != nil {
		teEdits(t.Elem, nil, func(g func(*TE) *TE) {
			ed(func(t *TE) *TE { t.Elem = g(t.Elem); return t })
		})
		if t.Elem.K != "basic" {
			ed(func(t *TE) *TE { return t.Elem })
		}
	}
}

func runEdits(r RunSpec, ed func(func(r *RunSpec) bool)) {
	for i := range r.Faults {
		i := i
		ed(func(r *RunSpec) bool { r.Faults = append(r.Faults[:i:i], r.Faults[i+1:]...); return true })
	}
	for i := range r.Events {
		i := i
		ed(func(r *RunSpec) bool { r.Events = append(r.Events[:i:i], r.Events[i+1:]...); return true })
	}
	win := func(w vk.Window, get func(r *RunSpec) *vk.Window) {
		if w.Seed == 0 {
			return
		}
		ed(func(r *RunSpec) bool { *get(r) = vk.Window{}; return true })
		hi := w.Hi
		if hi == 0 {
			hi = 4096
		}
		for _, h := range []uint64{w.Lo + (hi-w.Lo)/2, hi - 1} {
			if h > w.Lo && h < hi || w.Hi == 0 && h > w.Lo {
				h := h
				ed(func(r *RunSpec) bool { get(r).Hi = h; return true })
			}
		}
		for _, l := range []uint64{w.Lo + (hi-w.Lo)/2, w.Lo + 1} {
			if l > w.Lo && l < hi {
				l := l
				ed(func(r *RunSpec) bool { get(r).Lo = l; return true })
			}
		}
	}
	win(r.Map, func(r *RunSpec) *vk.Window { return &r.Map })
	win(r.Sched, func(r *RunSpec) *vk.Window { return &r.Sched })
	if r.YieldIn != 0 {
		ed(func(r *RunSpec) bool { r.YieldIn = 0; return true })
	}
	if r.Wild != 0 {
		ed(func(r *RunSpec) bool { r.Wild = 0; return true })
	}
	if len(r.Env) > 0 {
		ed(func(r *RunSpec) bool { r.Env = nil; return true })
	}
	if r.Base != "" {
		ed(func(r *RunSpec) bool { r.Base = ""; return true })
	}
	if r.Clock != 0 || r.Skew != 0 {
		ed(func(r *RunSpec) bool { r.Clock, r.Skew = 0, 0; return true })
	}
	if r.Shuffle != 0 {
		ed(func(r *RunSpec) bool { r.Shuffle = 0; return true })
	}
	if r.LoaderDelay > 1 {
		ed(func(r *RunSpec) bool { r.LoaderDelay /= 2; return true })
	}
	if r.Rand != 0 {
		ed(func(r *RunSpec) bool { r.Rand = 0; return true })
	}
	for i := range r.Phases {
		i := i
		if len(r.Phases) > 1 {
			ed(func(r *RunSpec) bool { r.Phases = append(r.Phases[:i:i], r.Phases[i+1:]...); return true })
		}
		for k := range r.Phases[i].Calls {
			k := k
			if len(r.Phases[i].Calls) > 1 {
				ed(func(r *RunSpec) bool {
					cs := r.Phases[i].Calls
					r.Phases[i].Calls = append(cs[:k:k], cs[k+1:]...)
					return true
				})
			}
		}
	}
}
