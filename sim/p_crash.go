package main

import (
	"fmt"

	"vsim/vk"
)

// C11: crash states of the disk.

func init() {
	register(&Prop{ID: "C11", Gen: gen11, Judge: judge11,
		Rule: "A case is a command run writing to a file (old content or none, plain, linked, on another file system; some projects broken, some runs with write faults). Every prefix of its journal of disk changes, writes cut at several places, is a process kill; sampled losses of unsynced data and of trailing directory changes are power failures. The output of each such disk is judged and the command is run again from some of them, with a second crash."})
}

// CrashPoint is one state a crash may leave behind.
type CrashPoint struct {
	How  string      `json:"how"`            // kill, power
	Ops  int         `json:"ops"`            // disk changes issued before the crash
	Part int         `json:"part"`           // >=0: the next one is a write that got this far
	Meta int         `json:"meta,omitempty"` // power: directory changes up to this index reached the disk
	Lost []int       `json:"lost,omitempty"` // power: writes that did not reach the disk
	Torn map[int]int `json:"torn,omitempty"` // power: writes of which only so much did
	Run  bool        `json:"run,omitempty"`  // run the command again
	Then *CrashPoint `json:"then,omitempty"` // crash of that run
}

// durable tells which changes of a journal prefix have to survive.
func durable(js []vk.JOp, n int) (meta int, data map[int]bool) {
	data = map[int]bool{}
	for i := 0; i < n && i < len(js); i++ {
		if js[i].K != "sync" && js[i].K != "syncall" {
			continue
		}
		meta = i
		for k := 0; k < i; k++ {
			if js[k].K == "write" && (js[i].K == "syncall" || js[k].Ino == js[i].Ino) {
				data[k] = true
			}
		}
	}
	return
}

// crashFS applies what survives of a journal.
func crashFS(fs *vk.FS, js []vk.JOp, cp *CrashPoint) *vk.FS {
	n := cp.Ops
	if n > len(js) {
		n = len(js)
	}
	if cp.How == "kill" {
		for i := 0; i < n; i++ {
			fs.Apply(js[i], -1)
		}
		if cp.Part >= 0 && n < len(js) && js[n].K == "write" {
			fs.Apply(js[n], cp.Part)
		}
		return fs
	}
	meta, data := durable(js, n)
	if cp.Meta > meta {
		meta = cp.Meta
	}
	lost := map[int]bool{}
	for _, i := range cp.Lost {
		lost[i] = !data[i]
	}
	for i := 0; i < n; i++ {
		j := js[i]
		if j.K != "create" && j.Ino >= len(fs.In) {
			continue
		}
		switch j.K {
		case "write", "dev":
			if lost[i] {
				continue
			}
			part := -1
			if t, ok := cp.Torn[i]; ok && !data[i] {
				part = t
			}
			fs.Apply(j, part)
		case "sync", "syncall":
		default:
			if i < meta {
				fs.Apply(j, -1)
			}
		}
	}
	return fs
}

func gen11(r *Rng, i int, deep bool) *Case {
	o := baseOpt()
	o.Specs, o.MultiSpec, o.MaxPkgs, o.MaxTypes, o.MaxFields, o.Refs = 70, 20, 2, 2, 3, 30
	o.CfgPct, o.Ext, o.DefOps, o.RootComps, o.Overrides, o.Exports = 25, 30, 20, 20, 20, 20
	w := genWorld(r, o)
	c := &Case{Kind: "good", Worlds: []*World{w}}
	if r.P(15) {
		c.Kind = "broken"
		if r.P(50) {
			injectConflict(r, w)
		} else {
			injectSchema(r, w, M{"$ref": badRef(r, w)})
		}
	}
	if r.P(30) { // a document of several blocks
		if s := w.anySpec(r); s != nil && !s.IsRaw {
			s.Doc["x-big"] = longText(r.R(2000, 90000))
		}
	}
	c.Base.Uid = outWorld(r, w, false)
	if w.Cfg == nil {
		w.Inv.Format = r.S(allFormats...)
	}
	return c
}

func longText(n int) string {
	b := make([]byte, 0, n)
	for len(b) < n {
		b = append(b, fmt.Sprintf("%d ", len(b))...)
	}
	return string(b[:n])
}

func fileState(fs *vk.FS, p string) string {
	n, e := fs.Lookup(p, true)
	if e != 0 {
		return "absent"
	}
	return "content:" + string(n.Data)
}

func sampleCrashes(r *Rng, js []vk.JOp, n int) (out []*CrashPoint) {
	for i := 0; i <= len(js); i++ {
		if len(js) > 300 && i > 20 && i < len(js)-20 && r.N(len(js)) > 150 {
			continue // a write in a great many pieces
		}
		out = append(out, &CrashPoint{How: "kill", Ops: i, Part: -1})
		if i < len(js) && js[i].K == "write" {
			l := len(js[i].Bytes())
			for _, p := range []int{1, l / 2, l - 1} {
				if p > 0 && p < l {
					out = append(out, &CrashPoint{How: "kill", Ops: i, Part: p})
				}
			}
		}
	}
	for ; n > 0 && len(js) > 0; n-- {
		cp := &CrashPoint{How: "power", Ops: 1 + r.N(len(js)), Part: -1, Torn: map[int]int{}}
		if r.P(40) {
			cp.Ops = len(js)
		}
		m, data := durable(js, cp.Ops)
		cp.Meta = m + r.N(cp.Ops-m+1)
		if r.P(40) {
			cp.Meta = cp.Ops
		}
		all := r.N(4)
		for i := 0; i < cp.Ops; i++ {
			if js[i].K != "write" || data[i] {
				continue
			}
			switch k := r.N(3); {
			case all == 0 || k == 0 && all > 1:
				cp.Lost = append(cp.Lost, i)
			case k == 1 && all > 1:
				cp.Torn[i] = r.N(len(js[i].Bytes()) + 1)
			}
		}
		out = append(out, cp)
	}
	return
}

func judge11(c *Case, x *Exec) *Viol {
	w := c.Worlds[0]
	out := w.options().Output
	if out == "" || out == "stdout" || out == "stderr" {
		return nil
	}
	clean := c.Base
	clean.Faults = nil
	r0 := x.run(c, clean)
	o0 := c.outcome(clean, r0)
	if o0.Bad != "" {
		x.st.skip("run crashed")
		return nil
	}
	fresh := "none"
	if o0.OK {
		fresh = "content:" + o0.Doc
	}
	for _, rs := range c.runs(func(r *Rng) (l []RunSpec) {
		b := c.Base
		if o0.OK && r.P(30) {
			if x, ok := nearlyNew(r, c, out, o0.Doc); ok {
				b.Extra = append(b.Extra[:len(b.Extra):len(b.Extra)], x)
			}
		}
		l = append(l, b)
		rs := noise(r, b)
		for k := r.N(3); k > 0; k-- {
			if i := pickOp(r, r0.Ops, func(o vk.OpRec) bool { return (isWriteOp(o) || o.Sys == "close") && nearDest(o.Path, out) }); i >= 0 {
				f := opFault(r0.Ops, i)
				if f.Sys == "write" && r.P(50) {
					f.Short, f.Count = r.R(1, 300), r.N(3)
				} else {
					f.Errno, f.Count = wrErr[r.N(len(wrErr))], r.N(3)
				}
				rs.Faults = append(rs.Faults, f)
			}
		}
		return append(l, rs)
	}) {
		r1 := x.run(c, rs)
		if crashed(r1) != "" {
			continue
		}
		old := fileState(c.startFS(rs), out)
		var cps []*CrashPoint
		if c.Crash != nil {
			cps = []*CrashPoint{c.Crash}
		} else {
			rg := newRng(mix(c.Seed, mix(rs.Rand, 0xC4)))
			cps = sampleCrashes(rg, r1.Journal, 40)
			for k := 0; k < 3; k++ {
				cp := *cps[rg.N(len(cps))]
				cp.Run = true
				cps = append(cps, &cp)
			}
		}
		for _, cp := range cps {
			if v := crashState(c, x, rs, r1, cp, old, fresh, out); v != nil {
				return v
			}
		}
	}
	return nil
}

func crashState(c *Case, x *Exec, rs RunSpec, r1 *vk.Result, cp *CrashPoint, old, fresh, out string) *Viol {
	fs := crashFS(c.startFS(rs), r1.Journal, cp)
	x.st.mu.Lock()
	x.st.Crashes++
	x.st.mu.Unlock()
	got := fileState(fs, out)
	bad := func(p *CrashPoint, cls, msg string) *Viol {
		v := c.viol(cls, msg, rs)
		v.Case.Crash = p
		return v
	}
	when := fmt.Sprintf("%s after %d of %d disk changes", cp.How, cp.Ops, len(r1.Journal))
	if got != old && got != fresh {
		p := *cp
		p.Run, p.Then = false, nil
		return bad(&p, "torn-"+cp.How, fmt.Sprintf("%s: the output is neither the old nor the new document: %s (%s)", when, clip(got, 80), diffText(fresh, got)))
	}
	if !cp.Run || fresh == "none" {
		return nil
	}
	again := rs
	again.Faults = nil
	again.DiskFree = 0
	again.Events = nil
	again.FS, again.Extra = fs.Dump(), nil
	r2 := x.run(c, again)
	o2 := c.outcome(again, r2)
	if !o2.OK || o2.Bad != "" {
		return bad(cp, "rerun", when+": the next run fails: "+o2.why())
	}
	if "content:"+o2.Doc != fresh {
		return bad(cp, "rerun", when+": the next run leaves another document: "+diffText(fresh, "content:"+o2.Doc))
	}
	var seconds []*CrashPoint
	if c.Crash != nil {
		if cp.Then == nil {
			return nil
		}
		seconds = []*CrashPoint{cp.Then}
	} else {
		seconds = sampleCrashes(newRng(mix(c.Seed, 0xC5)), r2.Journal, 15)
	}
	for _, s := range seconds {
		// what the second crash leaves, on top of the first
		f2 := vk.NewFS()
		f2.Load(again.FS)
		f2 = crashFS(f2, r2.Journal, s)
		x.st.mu.Lock()
		x.st.Crashes++
		x.st.mu.Unlock()
		if g := fileState(f2, out); g != got && g != fresh {
			p := *cp
			p.Then = s
			return bad(&p, "torn-again", fmt.Sprintf("%s, then %s after %d of %d disk changes of the next run: the output is neither the old nor the new document: %s", when, s.How, s.Ops, len(r2.Journal), clip(g, 80)))
		}
	}
	return nil
}
