package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vsim/vk"
)

// RunSpec is one simulated execution of a case: everything that is not the
// project itself.
type RunSpec struct {
	Label        string     `json:"label,omitempty"`
	Map          vk.Window  `json:"map"`
	Sched        vk.Window  `json:"sched"`
	Rand         uint64     `json:"rand,omitempty"`
	YieldIn      int        `json:"yield_in,omitempty"`
	Clock        int64      `json:"clock,omitempty"`
	Skew         int64      `json:"skew,omitempty"`
	Env          []string   `json:"env,omitempty"`
	Wild         uint64     `json:"wild,omitempty"` // whatever variable the code asks for has a value
	Base         string     `json:"base,omitempty"` // checkout directory instead of World.Base
	Shuffle      uint64     `json:"shuffle,omitempty"`
	LoaderFail   string     `json:"loaderfail,omitempty"`
	LoaderFailAt int        `json:"loaderfailat,omitempty"`
	LoaderDelay  int        `json:"loaderdelay,omitempty"`
	Stdout       string     `json:"stdout,omitempty"`
	Stderr       string     `json:"stderr,omitempty"`
	DiskFree     int64      `json:"diskfree,omitempty"`
	Uid          int        `json:"uid,omitempty"`
	MaxFD        int        `json:"maxfd,omitempty"`
	Budget       int64      `json:"budget,omitempty"`
	Faults       []vk.Fault `json:"faults,omitempty"`
	Events       []vk.Event `json:"events,omitempty"`
	Race         bool       `json:"race,omitempty"`
	API          bool       `json:"api,omitempty"`
	Formats      []string   `json:"formats,omitempty"` // api: formats (default json)
	Cancel       int64      `json:"cancel,omitempty"`  // api: cancel at this step, -1 before the call
	Phases       []vk.Phase `json:"phases,omitempty"`  // api: explicit phases; {Bn} is the base of world n
	FS           vk.Image   `json:"fs,omitempty"`      // start from this disk instead of the world's
	Inv          *Inv       `json:"inv,omitempty"`     // replaces the invocation
	Extra        []vk.Node  `json:"extra,omitempty"`
	Drop         []string   `json:"drop,omitempty"` // paths removed from the image
	NoTrace      bool       `json:"notrace,omitempty"`
	NoDir        bool       `json:"nodir,omitempty"`  // api: call from the directory instead of naming it
	Hidden       []int      `json:"hidden,omitempty"` // modules go.mod does not require
}

// Case is everything needed to repeat a check of one generated situation.
type Case struct {
	Prop   string            `json:"property"`
	Kind   string            `json:"kind,omitempty"` // scenario of the property
	Seed   uint64            `json:"seed"`
	Worlds []*World          `json:"worlds"`
	Base   RunSpec           `json:"base"`            // reference run
	Fixed  []RunSpec         `json:"fixed,omitempty"` // runs to check (instead of seeded ones)
	Crash  *CrashPoint       `json:"crash,omitempty"`
	P      map[string]string `json:"p,omitempty"` // parameters of the scenario
	N      map[string]int    `json:"n,omitempty"`
}

// Viol is a violation, with the case narrowed to the runs that show it.
type Viol struct {
	Class string `json:"class"` // stays the same while the case is minimised
	Msg   string `json:"message"`
	Case  *Case  `json:"case"`
}

// Stats of a whole check.
type Stats struct {
	mu        sync.Mutex
	Runs      int
	RaceRuns  int
	Cases     int
	Skipped   map[string]int
	SimNanos  int64
	Steps     int64
	Syscalls  int64
	Switches  int64
	MapRanges uint64
	Injected  map[string]int
	Sched     map[uint64]bool
	Outcomes  map[string]int
	Kinds     map[string]int
	Distinct  map[uint64]bool
	Crashes   int
	Unmod     map[string]int
	Probes    map[string]int
}

func newStats() *Stats {
	return &Stats{Skipped: map[string]int{}, Injected: map[string]int{}, Sched: map[uint64]bool{}, Outcomes: map[string]int{}, Kinds: map[string]int{}, Distinct: map[uint64]bool{}, Unmod: map[string]int{}, Probes: map[string]int{}}
}

// Exec runs simulated processes.
type Exec struct {
	bin, race string
	st        *Stats
}

func (s *Stats) skip(why string) { s.mu.Lock(); s.Skipped[why]++; s.mu.Unlock() }
func (s *Stats) probe(k string)  { s.mu.Lock(); s.Probes[k]++; s.mu.Unlock() }

const goroot = "/gr"

// rebase returns the world checked out elsewhere.
func rebase(w *World, base string) *World {
	if base == "" || base == w.Base {
		return w
	}
	x := w.clone()
	x.Base = base
	return x
}

func sysImage() vk.Image {
	return vk.Image{
		vk.MkNode(goroot+"/src/time/time.go", []byte(timeStub)),
		{Path: "/tmp", Type: "d", Mode: 01777},
	}
}

func dropPaths(img vk.Image, drop []string) vk.Image {
	if len(drop) == 0 {
		return img
	}
	var out vk.Image
	for _, n := range img {
		keep := true
		for _, d := range drop {
			if n.Path == d || strings.HasPrefix(n.Path, d+"/") {
				keep = false
			}
		}
		if keep {
			out = append(out, n)
		}
	}
	return out
}

func jsonOrEmpty(m M) string {
	if len(m) == 0 {
		return ""
	}
	return mustJSON(m)
}

// apiCall makes the library call that corresponds to the invocation.
func (w *World) apiCall(id string, formats []string) vk.Call {
	o := w.options()
	if formats == nil {
		formats = []string{"json"}
	}
	return vk.Call{ID: id, Dir: o.Dir, Overrides: jsonOrEmpty(o.Overrides), DefOps: jsonOrEmpty(o.DefOps), Root: jsonOrEmpty(o.Root), Formats: formats}
}

// job builds the job of a run.
func (c *Case) job(rs RunSpec) *vk.Job {
	var ws []*World
	for i, w := range c.Worlds {
		if i == 0 {
			w = rebase(w, rs.Base)
		}
		ws = append(ws, w)
	}
	w := ws[0]
	sub := func(s string) string {
		for i, x := range ws {
			s = strings.Replace(s, fmt.Sprintf("{B%d}", i), x.Base, -1)
		}
		return w.sub(s)
	}
	j := &vk.Job{Mode: "cli", GoRoot: goroot, Map: rs.Map, Sched: rs.Sched, Rand: rs.Rand, YieldIn: rs.YieldIn, Clock: rs.Clock, Skew: rs.Skew,
		Env: rs.Env, Wild: rs.Wild, ShuffleDirs: rs.Shuffle, LoaderFail: rs.LoaderFail, LoaderFailAt: rs.LoaderFailAt, LoaderDelay: rs.LoaderDelay,
		Stdout: rs.Stdout, Stderr: rs.Stderr, DiskFree: rs.DiskFree, Uid: rs.Uid, MaxFD: rs.MaxFD, Events: rs.Events, Budget: rs.Budget, Trace: !rs.NoTrace}
	if j.Rand == 0 {
		j.Rand = 77
	}
	j.FS = append(j.FS, sysImage()...)
	for i, x := range ws {
		j.FS = append(j.FS, x.image()...)
		for k, m := range x.modules() {
			if len(ws) > 1 {
				m.Group = fmt.Sprint("g", i)
			}
			for _, h := range rs.Hidden {
				if i == 0 && k == h {
					m.Hidden = true
				}
			}
			j.Modules = append(j.Modules, m)
		}
	}
	if rs.FS != nil {
		j.FS = rs.FS
	}
	for _, n := range rs.Extra {
		n.Path = sub(n.Path)
		if n.Type == "l" {
			n.Data = sub(n.Data)
		}
		j.FS = append(j.FS, n)
	}
	var drop []string
	for _, d := range rs.Drop {
		drop = append(drop, sub(d))
	}
	j.FS = dropPaths(j.FS, drop)
	for _, f := range rs.Faults {
		f.Path = sub(f.Path)
		j.Faults = append(j.Faults, f)
	}
	inv := w.Inv
	if rs.Inv != nil {
		inv = *rs.Inv
	}
	j.Cwd = absPath(w.sub(inv.Cwd), w.Base)
	if rs.API {
		j.Mode = "api"
		if rs.Phases != nil {
			for _, p := range rs.Phases {
				var q vk.Phase
				fromJSON(toJSON(p), &q)
				q.Chdir = sub(q.Chdir)
				for k := range q.Calls {
					q.Calls[k].Dir = sub(q.Calls[k].Dir)
				}
				for k := range q.Write {
					q.Write[k].Path = sub(q.Write[k].Path)
				}
				for k := range q.Remove {
					q.Remove[k] = sub(q.Remove[k])
				}
				for k := range q.Faults {
					q.Faults[k].Path = sub(q.Faults[k].Path)
				}
				j.Phases = append(j.Phases, q)
			}
		} else {
			call := w.apiCall("a", rs.Formats)
			call.Cancel = rs.Cancel
			call.Lax = c.Kind == "wild"
			if rs.NoDir && call.Dir != "" {
				j.Cwd, call.NoDir = call.Dir, true
			}
			j.Phases = []vk.Phase{{Calls: []vk.Call{call}}}
		}
	} else {
		j.Args = inv.args(w)
	}
	return j
}

var wallLimit = 40 * time.Second

// run executes one simulated process.
func (x *Exec) run(c *Case, rs RunSpec) *vk.Result {
	return x.runJob(c.job(rs), rs.Race)
}

func (x *Exec) runJob(j *vk.Job, race bool) *vk.Result {
	r := x.once(j, race, wallLimit)
	if r.Hang {
		r = x.once(j, race, 4*wallLimit) // a busy machine is not a hang
	}
	s := x.st
	s.mu.Lock()
	s.Runs++
	if race {
		s.RaceRuns++
	}
	s.SimNanos += r.SimNanos
	s.Steps += r.Steps
	s.Syscalls += int64(r.Syscalls)
	s.Switches += r.Switches
	s.MapRanges += r.MapIdx
	for k, v := range r.Injected {
		s.Injected[k] += v
	}
	if j.Stdout != "" {
		s.Injected["stdout:"+j.Stdout]++
	}
	if j.Stderr != "" {
		s.Injected["stderr:"+j.Stderr]++
	}
	for _, u := range r.Unmodelled {
		s.Unmod[u]++
	}
	if len(s.Sched) < 2000000 {
		s.Sched[mix(r.SchedHash, mix(r.MapIdx, mix(j.Map.Seed, uint64(r.Steps))))] = true
	}
	s.Outcomes[r.How]++
	s.mu.Unlock()
	return r
}

func (x *Exec) once(j *vk.Job, race bool, limit time.Duration) *vk.Result {
	bin := x.bin
	if race {
		bin = x.race
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = "/"
	cmd.Env = []string{"VERIFSIM=1", "GOMAXPROCS=1", "HOME=/nonexistent", "PATH=/nonexistent", "GOTRACEBACK=all"}
	if race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=5")
	}
	cmd.Stdin = bytes.NewReader(toJSON(j))
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb, n: 1 << 20}
	cmd.Stdout = cmd.Stderr
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	data, _ := io.ReadAll(pr)
	pr.Close()
	werr := cmd.Wait()
	r := &vk.Result{}
	if ctx.Err() != nil {
		r.Hang = true
		r.How = "hang"
		return r
	}
	if e := json.Unmarshal(data, r); e != nil || r.How == "" {
		*r = vk.Result{}
		r.How = "died"
		r.Died = errb.String()
		if r.Died == "" && werr != nil {
			r.Died = werr.Error()
		}
		if strings.Contains(r.Died, "verif: bad job") {
			panic("bad job: " + r.Died)
		}
		return r
	}
	if r.How == "harness-error" {
		panic("harness error: " + r.Panic)
	}
	if race {
		r.RaceLog = raceReports(errb.String())
	}
	return r
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// raceReports keeps the reports that are about the code under test.
func raceReports(s string) string {
	var out []string
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		acc := accesses(rep)
		if strings.Contains(rep, "zzEventFn") || strings.Contains(acc, "verifsim") || strings.Contains(acc, "main.zz") {
			continue // an access made by the simulator itself
		}
		out = append(out, strings.TrimSpace(rep))
	}
	return strings.Join(out, "\n--\n")
}

// accesses are the innermost frames of the two conflicting accesses, run-time
// helpers left out.
func accesses(rep string) string {
	var out []string
	ls := strings.Split(rep, "\n")
	for i, l := range ls {
		if !strings.Contains(l, " by goroutine ") && !strings.Contains(l, " by main goroutine") {
			continue
		}
		for k := i + 1; k < len(ls) && ls[k] != ""; k += 2 {
			f := strings.TrimSpace(ls[k])
			if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/runtime/") || strings.HasPrefix(f, "internal/race.") {
				continue
			}
			out = append(out, f)
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- outcomes ----

// crashed describes an abnormal end, if it was one.
func crashed(r *vk.Result) string {
	switch r.How {
	case "panic":
		return "panic: " + firstLine(r.Panic)
	case "budget":
		return fmt.Sprintf("no end within %d steps", r.Steps)
	case "deadlock":
		return "deadlock: " + short(r.Panic)
	case "hang":
		return "no end within the wall-clock limit"
	case "died":
		return "process died: " + deathLine(r.Died)
	}
	for _, p := range r.Phases {
		for _, c := range p.Calls {
			if c.Panic != "" {
				return "panic: " + firstLine(c.Panic)
			}
		}
	}
	return ""
}

func deathLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") && strings.Contains(l, "exceeds") {
			return l
		}
	}
	return firstLine(s)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// call is the result of the only call of an api run.
func call0(r *vk.Result) *vk.CallResult {
	if len(r.Phases) == 0 || len(r.Phases[0].Calls) == 0 {
		return &vk.CallResult{Failed: true, Panic: "no result"}
	}
	return &r.Phases[0].Calls[0]
}

// outcome is what a user sees of a run: success and the document.
type outcome struct {
	OK  bool
	Doc string // bytes of the document
	Err string
	Bad string // abnormal end
	Fmt string
	Out map[string]string
}

// result reads the outcome of a run, given where the output goes.
func (c *Case) outcome(rs RunSpec, r *vk.Result) (o outcome) {
	o.Bad = crashed(r)
	if o.Bad != "" {
		return
	}
	if rs.API {
		k := call0(r)
		o.OK = !k.Failed
		o.Err = k.Err
		o.Out = k.Out
		for _, f := range keysOfS(k.FmtErr) {
			o.OK = false
			o.Err = f + ": " + k.FmtErr[f]
		}
		fs := rs.Formats
		if fs == nil {
			fs = []string{"json"}
		}
		o.Fmt = fs[0]
		o.Doc = k.Out[fs[0]]
		return
	}
	w := rebase(c.Worlds[0], rs.Base)
	if rs.Inv != nil {
		w = w.clone()
		w.Inv = *rs.Inv
	}
	opt := w.options()
	o.Fmt = opt.Format
	o.OK = (r.How == "exit" || r.How == "return") && r.Exit == 0
	o.Err = r.Stderr
	switch opt.Output {
	case "stdout":
		o.Doc = r.Stdout
	case "stderr":
		o.Doc = r.Stderr
	default:
		if b, ok := fileAt(c.finalFS(rs, r), opt.Output); ok {
			o.Doc = b
		}
	}
	return
}

func keysOfS(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fileAt(fs *vk.FS, path string) (string, bool) {
	n, e := fs.Lookup(path, true)
	if e != 0 {
		return "", false
	}
	return string(n.Data), true
}

// startFS is the disk before the run.
func (c *Case) startFS(rs RunSpec) *vk.FS {
	fs := vk.NewFS()
	fs.Load(c.job(rs).FS)
	return fs
}

// finalFS is the disk after the run.
func (c *Case) finalFS(rs RunSpec, r *vk.Result) *vk.FS {
	fs := c.startFS(rs)
	for _, j := range r.Journal {
		fs.Apply(j, -1)
	}
	return fs
}

// decodeDoc reads a document in any format.
func decodeDoc(format, s string) (V, []string, error) {
	switch format {
	case "json", "json:pretty":
		return parseJSON(s)
	case "yaml", "yml":
		return parseYAML(s)
	case "go":
		j, err := goConst(s)
		if err != nil {
			return nil, nil, err
		}
		return parseJSON(j)
	}
	return nil, nil, fmt.Errorf("unknown format %q", format)
}
