package main

import (
	"fmt"
	"strings"

	"vsim/vk"
)

// Properties about histories: interruption (C13), concurrency (C14) and
// repetition (C15) in one process.

func init() {
	register(&Prop{ID: "C13", Gen: gen13, Judge: judge13,
		Rule: "A case is a library call whose context is cancelled, or a command that receives one or more SIGINT or SIGTERM, at random steps, under random schedules and with a slow Go loader; the rest of the run is bounded and its outcome is compared with the undisturbed run."})
	register(&Prop{ID: "C14", Gen: gen14, Judge: judge14,
		Rule: "A case is two to four library calls on one or two projects running at once in one process, some sharing option values, some cancelled or with read faults, their results also formatted in several goroutines, under random schedules that switch at any statement; each undisturbed call is compared with the same call alone, and part of the runs are made with the race detector."})
	register(&Prop{ID: "C15", Gen: gen15, Judge: judge15,
		Rule: "A case is a sequence of up to five library calls in one process, on changing versions of one or two projects, with different or reused option values, some failing, fault-injected or cancelled; each undisturbed call is compared with the same call in a fresh process, earlier results are formatted again and option values are compared with their originals."})
}

// otherWorld makes a project that shares no directory with the first one.
func otherWorld(r *Rng, base string) *World {
	o := baseOpt()
	o.Base = base
	o.Specs, o.MultiSpec, o.MaxPkgs, o.MaxTypes, o.MaxFields, o.Refs = 80, 25, 3, 3, 3, 55
	o.CfgPct, o.Ext, o.DefOps, o.RootComps, o.Overrides, o.Exports = 60, 45, 50, 40, 40, 25
	w := genWorld(r, o)
	for i := range w.Mods {
		if strings.HasPrefix(w.Mods[i].Dir, "/") {
			w.Mods[i].Dir = base + ".mod" + w.Mods[i].Dir
		}
	}
	return w
}

// breakWorld makes the scan of a project fail in one of several ways.
func breakWorld(r *Rng, w *World) {
	switch r.N(4) {
	case 0:
		injectConflict(r, w)
	case 1:
		injectSchema(r, w, M{"$ref": badRef(r, w)})
	case 2:
		if s := w.anySpec(r); s != nil {
			s.IsRaw, s.Raw = true, r.S("a: b: c\n", "{", "openapi: [1\n")
		}
	case 3:
		w.Pkgs[0].Comments = append(w.Pkgs[0].Comments, "openapi:nosuch")
	}
}

func parseJSONArray(s string, v interface{}) { fromJSON([]byte(s), v) }

// ---- C14 ----

func gen14(r *Rng, i int, deep bool) *Case {
	c := &Case{Kind: "same", Worlds: []*World{otherWorld(r, "/w/one")}, P: map[string]string{}}
	if r.P(65) {
		c.Kind = "different"
		c.Worlds = append(c.Worlds, otherWorld(r, r.S("/w/two", "/w/one.x", "/two/deep/er")))
		if r.P(25) { // the same import paths, other content
			b := c.Worlds[1].Base
			x := c.Worlds[0].clone()
			x.Base = b
			for k := range x.Mods {
				if strings.HasPrefix(x.Mods[k].Dir, "/") {
					x.Mods[k].Dir = b + ".mod" + x.Mods[k].Dir
				}
			}
			edit(r, x)
			if e := x.expect(); e.Fail != "shared" && e.Fail != "size" && x.goError() == nil {
				c.Worlds[1] = x
			}
		}
	}
	if r.P(12) {
		breakWorld(r, c.Worlds[r.N(len(c.Worlds))])
	}
	var calls []vk.Call
	n := []int{2, 2, 3, 4}[r.N(4)]
	if c.Kind == "different" && n < 2 {
		n = 2
	}
	for k := 0; k < n; k++ {
		wi := r.N(len(c.Worlds))
		if k < len(c.Worlds) {
			wi = k
		}
		calls = append(calls, someCall(r, c.Worlds[wi], fmt.Sprint("c", k)))
		if k > 0 && r.P(25) { // share the option values of an earlier call
			j := r.N(k)
			if calls[j].Reuse == "" {
				id := calls[k].ID
				f := calls[k].Formats
				calls[k] = calls[j]
				calls[k].ID, calls[k].Formats, calls[k].Reuse = id, f, calls[j].ID
			}
		}
	}
	c.Base = RunSpec{API: true}
	c.P["calls"] = string(toJSON(calls))
	return c
}

// someCall is a call on a project with some of its options.
// sparse drops parts of option values, so that there is something a program
// could be tempted to complete.
func sparse(r *Rng, s string) string {
	if s == "" {
		return s
	}
	var v V
	fromJSON([]byte(s), &v)
	var walk func(v V, depth int)
	walk = func(v V, depth int) {
		switch x := v.(type) {
		case M:
			for _, k := range keysOf(x) {
				if depth > 0 && k != "$ref" && r.P(15) {
					delete(x, k)
					continue
				}
				walk(x[k], depth+1)
			}
		case []interface{}:
			for _, y := range x {
				walk(y, depth+1)
			}
		}
	}
	walk(v, 0)
	return string(toJSON(v))
}

func someCall(r *Rng, w *World, id string) vk.Call {
	fs := []string{r.S(allFormats...)}
	if r.P(40) {
		fs = append(fs, r.S(allFormats...))
	}
	if r.P(10) {
		fs = allFormats
	}
	call := w.apiCall(id, fs)
	if r.P(20) {
		call.Overrides = ""
	}
	if r.P(20) {
		call.DefOps = ""
	}
	if r.P(20) {
		call.Root = ""
	}
	if r.P(30) {
		call.Overrides, call.DefOps, call.Root = sparse(r, call.Overrides), sparse(r, call.DefOps), sparse(r, call.Root)
	}
	call.Log = r.S("", "", "void", "print")
	call.FormatTwice = r.P(25)
	if r.P(25) {
		call.Par = r.R(2, 3)
	}
	return call
}

func judge14(c *Case, x *Exec) *Viol {
	var calls []vk.Call
	parseJSONArray(c.P["calls"], &calls)
	solo := map[string]*vk.CallResult{}
	one := func(call vk.Call) *vk.CallResult {
		call.ID, call.Reuse, call.Cancel = "solo", "", 0
		k := string(toJSON(call))
		if solo[k] == nil {
			rs := c.Base
			rs.Phases = []vk.Phase{{Calls: []vk.Call{call}}}
			r := x.run(c, rs)
			if crashed(r) != "" {
				return nil
			}
			solo[k] = &r.Phases[0].Calls[0]
		}
		return solo[k]
	}
	steps := int64(0)
	for _, call := range calls {
		s := one(call)
		if s == nil {
			x.st.skip("run crashed")
			return nil
		}
		if s.Steps > steps {
			steps = s.Steps
		}
	}
	for _, rs := range c.runs(func(r *Rng) (l []RunSpec) {
		for n := 0; n < 3; n++ {
			rs := noise(r, c.Base)
			rs.Events = nil
			if rs.Sched.Seed == 0 {
				rs.Sched.Seed = r.Seed()
			}
			rs.YieldIn = []int{0, 2, 5, 20, 100, 1000}[r.N(6)]
			rs.Race = r.P(30)
			ph := vk.Phase{}
			fromJSON(toJSON(calls), &ph.Calls)
			if r.P(15) {
				ph.Calls[r.N(len(ph.Calls))].Cancel = int64(r.R(1, int(steps)*len(calls)))
				rs.Race = false // the simulator cancels from whatever goroutine is running
			}
			if r.P(12) && len(c.Worlds) > 1 {
				ph.Faults = []vk.Fault{{Sys: r.S("open", "read", "getdents"), Path: c.Worlds[1].Base + "/*", Nth: r.N(8), Count: r.N(2), Errno: hardErr[r.N(len(hardErr))]}}
			}
			rs.Phases = []vk.Phase{ph}
			l = append(l, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		if b := crashed(r); b != "" {
			return c.viol("crash", "concurrent calls: "+b, rs)
		}
		if r.RaceLog != "" {
			return c.viol("race", "data race: "+clip(r.RaceLog, 1500), rs)
		}
		for k, call := range rs.Phases[0].Calls {
			got := r.Phases[0].Calls[k]
			if got.Unstable != "" {
				return c.viol("format", "call "+call.ID+": "+got.Unstable, rs)
			}
			if call.Cancel > 0 || len(rs.Phases[0].Faults) > 0 && len(c.Worlds) > 1 && strings.HasPrefix(call.Dir, c.Worlds[1].Base+"/") {
				continue // its own trouble
			}
			want := one(call)
			if want == nil {
				return nil
			}
			if d := diffCall(want, &got); d != "" {
				return c.viol("isolation", fmt.Sprintf("call %s (%s) next to %d others gives another result than alone: %s", call.ID, call.Dir, len(rs.Phases[0].Calls)-1, d), rs)
			}
		}
	}
	return nil
}

// diffCall compares the results of two calls.
func diffCall(want, got *vk.CallResult) string {
	if want.Failed != got.Failed {
		if got.Failed {
			return "it fails: " + clip(got.Err, 200)
		}
		return "it succeeds instead of failing: " + clip(want.Err, 200)
	}
	for _, f := range keysOfS(want.Out) {
		if want.Out[f] != got.Out[f] {
			return f + ": " + diffText(want.Out[f], got.Out[f])
		}
	}
	for _, f := range keysOfS(got.FmtErr) {
		if want.FmtErr[f] == "" {
			return f + ": " + got.FmtErr[f]
		}
	}
	return ""
}

// ---- C15 ----

// edit changes a project in place.
func edit(r *Rng, w *World) {
	for n := r.R(1, 3); n > 0; n-- {
		i := r.N(len(w.Pkgs))
		p := &w.Pkgs[i]
		switch r.N(12) {
		case 10, 11: // one letter, nothing else
			if s := w.anySpec(r); s != nil && !s.IsRaw {
				flipLetter(r, s.Doc)
			}
		case 0, 1:
			injectSchema(r, w, M{"type": "string", "description": r.S("a", "b", "c")})
		case 2:
			if len(p.Types) > 0 {
				t := &p.Types[r.N(len(p.Types))]
				injectSchema(r, w, M{"$ref": goPtr(w.importPath(i), t.Name)})
			}
		case 3:
			if len(p.Types) > 0 { // another definition of the same type
				t := &p.Types[r.N(len(p.Types))]
				t.T, t.Alias = &TE{K: "basic", Name: r.S("string", "int", "bool", "float64")}, false
			}
		case 4:
			for k := range p.Types {
				if p.Types[k].T.K == "struct" {
					f := Field{Name: r.S("Added", "Extra1", "More"), T: &TE{K: "basic", Name: r.S("string", "int64")}, Tag: &Tag{JSON: r.S("added", "more", "")}}
					dup := false
					for _, o := range p.Types[k].T.Fields {
						dup = dup || o.Name == f.Name
					}
					if !dup {
						p.Types[k].T.Fields = append(p.Types[k].T.Fields, f)
					}
					break
				}
			}
		case 5:
			if len(p.Specs) > 0 {
				k := r.N(len(p.Specs))
				p.Specs = append(p.Specs[:k:k], p.Specs[k+1:]...)
			}
		case 6:
			if len(p.Comments) > 0 {
				k := r.N(len(p.Comments))
				p.Comments = append(p.Comments[:k:k], p.Comments[k+1:]...)
			}
		case 7:
			if s := w.anySpec(r); s != nil && !s.IsRaw {
				var ps [][]interface{}
				docPaths(s.Doc, nil, &ps)
				if len(ps) > 1 {
					s.Doc = dropAt(s.Doc, ps[r.N(len(ps))]).(M)
				}
			}
		case 8:
			if s := w.anySpec(r); s != nil && !s.IsRaw {
				s.Doc["x-version"] = float64(r.N(9))
			}
		case 9:
			if r.P(40) {
				breakWorld(r, w)
			} else if s := w.anySpec(r); s != nil {
				s.Style++
			}
		}
	}
}

// flipLetter changes one text of a document for another of the same length.
func flipLetter(r *Rng, doc V) {
	var set []func()
	var walk func(v V, put func(V))
	walk = func(v V, put func(V)) {
		switch x := v.(type) {
		case M:
			for _, k := range keysOf(x) {
				if k == "openapi" || k == "$ref" {
					continue
				}
				k := k
				walk(x[k], func(v V) { x[k] = v })
			}
		case []interface{}:
			for i := range x {
				i := i
				walk(x[i], func(v V) { x[i] = v })
			}
		case string:
			for i := 0; i < len(x); i++ {
				if x[i] >= 'a' && x[i] < 'y' {
					s := x[:i] + string(x[i]+1) + x[i+1:]
					set = append(set, func() { put(s) })
					break
				}
			}
		}
	}
	walk(doc, nil)
	if len(set) > 0 {
		set[r.N(len(set))]()
	}
}

// treeDiff is what turns one version of a project on disk into another.
func treeDiff(a, b *World) (write vk.Image, remove []string) {
	old := map[string]vk.Node{}
	for _, n := range a.image() {
		old[n.Path] = n
	}
	seen := map[string]bool{}
	for _, n := range b.image() {
		seen[n.Path] = true
		if o, ok := old[n.Path]; !ok || o != n {
			write = append(write, n)
		}
	}
	for _, n := range a.image() {
		if !seen[n.Path] && n.Type == "" {
			remove = append(remove, n.Path)
		}
	}
	return
}

func gen15(r *Rng, i int, deep bool) *Case {
	c := &Case{Kind: "history", Worlds: []*World{otherWorld(r, "/w/one")}, P: map[string]string{}}
	if r.P(35) {
		c.Worlds = append(c.Worlds, otherWorld(r, "/w/two"))
	}
	if r.P(10) {
		breakWorld(r, c.Worlds[0])
	}
	cur := make([]*World, len(c.Worlds))
	copy(cur, c.Worlds)
	var phs []vk.Phase
	var prev []vk.Call
	max := 4
	if deep {
		max = 5
	}
	for k, n := 0, r.R(2, max); k < n; k++ {
		var ph vk.Phase
		wi := r.N(len(cur))
		if k > 0 && r.P(65) {
			for try := 0; try < 6; try++ {
				x := cur[wi].clone()
				if r.P(25) {
					x = c.Worlds[wi].clone() // back to the first version
				} else {
					edit(r, x)
				}
				if e := x.expect(); e.Fail == "shared" || e.Fail == "size" || x.goError() != nil {
					continue
				}
				ph.Write, ph.Remove = treeDiff(cur[wi], x)
				cur[wi] = x
				break
			}
		}
		call := someCall(r, cur[wi], fmt.Sprint("c", k))
		if len(prev) > 0 && r.P(45) {
			o := prev[r.N(len(prev))]
			if r.P(60) && o.Reuse == "" {
				call.Overrides, call.DefOps, call.Root, call.Reuse = o.Overrides, o.DefOps, o.Root, o.ID
			} else {
				call.Overrides, call.DefOps, call.Root = o.Overrides, o.DefOps, o.Root
			}
		}
		switch {
		case r.P(6):
			call.Dir += "/nosuch"
		case r.P(30): // from the directory itself
			ph.Chdir, call.NoDir = call.Dir, true
		case r.P(20):
			ph.Chdir = cur[r.N(len(cur))].options().Dir
		}
		switch r.N(10) {
		case 0:
			call.Cancel = int64(r.R(1, 8000))
		case 1:
			call.Cancel = -1
		case 2:
			ph.Faults = []vk.Fault{{Sys: r.S("open", "read", "getdents", "stat"), Path: "/w/*", Nth: r.N(15), Count: r.N(2), Errno: hardErr[r.N(len(hardErr))]}}
		}
		for _, q := range prev {
			if r.P(50) {
				ph.Reformat = append(ph.Reformat, q.ID)
			}
		}
		ph.Calls = []vk.Call{call}
		prev = append(prev, call)
		phs = append(phs, ph)
	}
	c.Base = RunSpec{API: true}
	c.P["phases"] = string(toJSON(phs))
	return c
}

func judge15(c *Case, x *Exec) *Viol {
	var phs []vk.Phase
	parseJSONArray(c.P["phases"], &phs)
	for _, rs := range c.runs(func(r *Rng) (l []RunSpec) {
		rs := noise(r, c.Base)
		rs.Events = nil
		rs.Phases = phs
		return []RunSpec{rs}
	}) {
		r := x.run(c, rs)
		if b := crashed(r); b != "" {
			return c.viol("crash", "a sequence of calls: "+b, rs)
		}
		first := map[string]*vk.CallResult{}
		for k, ph := range rs.Phases {
			call := ph.Calls[0]
			got := &r.Phases[k].Calls[0]
			first[call.ID] = got
			if got.Mutated != "" {
				return c.viol("options", "call "+call.ID+" changes option values passed in: "+clip(got.Mutated, 600), rs)
			}
			if got.Unstable != "" {
				return c.viol("format", "call "+call.ID+": "+got.Unstable, rs)
			}
			for i := range r.Phases[k].Reformat {
				re := &r.Phases[k].Reformat[i]
				f := first[re.ID]
				if f == nil || f.Failed {
					continue
				}
				a, b := *f, *re
				a.Failed, b.Failed = false, false
				if d := diffCall(&a, &b); d != "" {
					return c.viol("result", fmt.Sprintf("the result of call %s is another one after call %s: %s", re.ID, call.ID, d), rs)
				}
			}
			if call.Cancel != 0 || len(ph.Faults) > 0 {
				continue
			}
			// the same call first thing in a process
			alone := c.Base
			for _, q := range rs.Phases[:k] {
				alone.Phases = append(alone.Phases, vk.Phase{Write: q.Write, Remove: q.Remove})
			}
			only := call
			only.Reuse = ""
			alone.Phases = append(alone.Phases, vk.Phase{Write: ph.Write, Remove: ph.Remove, Chdir: ph.Chdir, Calls: []vk.Call{only}})
			ra := x.run(c, alone)
			if crashed(ra) != "" {
				x.st.skip("run crashed")
				continue
			}
			if d := diffCall(&ra.Phases[k].Calls[0], got); d != "" {
				return c.viol("history", fmt.Sprintf("call %s gives another result after %d earlier calls than in a fresh process: %s", call.ID, k, d), rs)
			}
		}
	}
	return nil
}

// ---- C13 ----

func gen13(r *Rng, i int, deep bool) *Case {
	w := faultWorld(r)
	c := &Case{Kind: "signal", Worlds: []*World{w}}
	if e := w.expect(); e.Fail != "" {
		return nil
	}
	switch {
	case r.P(45):
		c.Kind = "cancel"
		c.Base = api(c.Base, r.S(allFormats...))
		return c
	case r.P(70):
		c.Base.Uid = outWorld(r, w, true)
	}
	if w.Cfg == nil {
		w.Inv.Format = r.S(allFormats...)
	}
	if r.P(30) {
		w.Inv.Log = r.S("info", "debug", "trace", "nolog")
	}
	return c
}

func judge13(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	r0 := x.run(c, c.Base)
	o0 := c.outcome(c.Base, r0)
	if !o0.OK || o0.Bad != "" {
		x.st.skip("neutral run fails")
		return nil
	}
	limit := 2*r0.Steps + 5000
	out := w.options().Output
	toFile := !c.Base.API && out != "stdout" && out != "stderr"
	for _, rs := range c.runs(func(r *Rng) (l []RunSpec) {
		for n := 0; n < 4; n++ {
			rs := c.Base
			if r.P(70) {
				rs = noise(r, rs)
				rs.Events = nil
			}
			span := int(r0.Steps)
			rs.LoaderDelay = r.N(3)
			switch r.N(4) {
			case 0: // a loader that takes much longer than the bound
				rs.LoaderDelay = int(20*r0.Steps) + 100000
				rs.Budget = 4*int64(rs.LoaderDelay) + 1000000
			case 1:
				rs.LoaderDelay = r.R(1, int(r0.Steps))
				span += rs.LoaderDelay
			}
			at := r.R(1, span+1)
			if r.P(20) {
				at = span - r.N(span/6+1)
			}
			if rs.API {
				rs.Cancel = int64(at)
				if r.P(10) {
					rs.Cancel = -1
				}
			} else {
				for k := []int{1, 1, 1, 2, 3, 5}[r.N(6)]; k > 0; k-- {
					rs.Events = append(rs.Events, vk.Event{Step: int64(at), Kind: r.S("SIGINT", "SIGTERM")})
					at += r.N(span/3 + 2)
				}
			}
			l = append(l, rs)
		}
		return
	}) {
		r := x.run(c, rs)
		o := c.outcome(rs, r)
		if o.Bad != "" {
			return c.viol("crash", "an interrupted run does not end by itself: "+o.Bad, rs)
		}
		if rs.API {
			k := call0(r)
			if rs.Cancel < 0 && !k.Failed {
				return c.viol("ignored", "a context cancelled before the call gives no error", rs)
			}
			if k.Cancelled && rs.Cancel > 0 && k.After > limit {
				return c.viol("slow", fmt.Sprintf("the call goes on for %d steps after its context was cancelled (an undisturbed call takes %d in all)", k.After, r0.Steps), rs)
			}
			if k.Failed {
				if len(k.Out) > 0 {
					return c.viol("partial", "a failed call returns a document", rs)
				}
				if !k.Cancelled {
					return c.viol("failed", "an undisturbed call fails: "+k.Err, rs)
				}
				continue
			}
			if o.Doc != o0.Doc {
				return c.viol("partial", "a call cancelled on its way gives another document: "+diffText(o0.Doc, o.Doc), rs)
			}
			continue
		}
		hit := r.SignalledAt > 0 || r.How == "signal"
		if hit && r.Steps-r.SignalledAt > limit && r.SignalledAt > 0 {
			return c.viol("slow", fmt.Sprintf("the command goes on for %d steps after a signal (an undisturbed run takes %d in all)", r.Steps-r.SignalledAt, r0.Steps), rs)
		}
		if o.OK {
			if out != "stderr" && o.Doc != o0.Doc {
				return c.viol("partial", "an interrupted command succeeds with another document: "+diffText(o0.Doc, o.Doc), rs)
			}
		} else {
			if !hit {
				return c.viol("failed", "an undisturbed command fails: "+o.why(), rs)
			}
			if r.Stdout != "" {
				return c.viol("partial", "an interrupted command that fails has written to standard output: "+clip(r.Stdout, 60), rs)
			}
			if out == "stderr" && strings.Contains(r.Stderr, "openapi") && strings.Contains(r.Stderr, clip(o0.Doc, 40)) {
				return c.viol("partial", "an interrupted command that fails has written a document", rs)
			}
			if r.How == "signal" && r.LoaderCalls > 0 && r.Exit != 0 {
				told := fileState(c.finalFS(rs, r), out) == "content:"+o0.Doc && toFile || out == "stderr" || !toFile && r.Stdout == o0.Doc
				if !told {
					return c.viol("killed", fmt.Sprintf("signal %d ends the command on the spot, in the middle of its work", r.Exit-128), rs)
				}
			}
			if toFile && r.How == "signal" {
				if a, b := fileState(c.startFS(rs), out), fileState(c.finalFS(rs, r), out); a != b && b != "content:"+o0.Doc {
					return c.viol("output", "a signal leaves a partial output file: "+clip(b, 60), rs)
				}
				continue
			}
		}
		if toFile && r.How != "signal" {
			if v := diskTruth(c, rs, r, o); v != "" {
				return c.viol(strings.SplitN(v, ":", 2)[0], "after an interruption: "+v, rs)
			}
		}
	}
	return nil
}
