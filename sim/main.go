//go:debug gotypesalias=0
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vsim/vk"
)

// Prop is one property with its generator and judge.
type Prop struct {
	ID    string
	Rule  string
	Gen   func(r *Rng, i int, deep bool) *Case
	Judge func(c *Case, x *Exec) *Viol
	Race  bool
	// Nontrivial says whether a judged case exercised the property.
	Assume []string
	Probe  func(x *Exec) (known []string, v *Viol)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func genCase(p *Prop, seed uint64, i int, deep bool) *Case {
	s := mix(mix(seed, hashStr(p.ID)), uint64(i))
	c := p.Gen(newRng(s), i, deep)
	if c != nil {
		c.Prop, c.Seed = p.ID, s
	}
	return c
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROP | replay FILE | case PROP N")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "case":
		os.Exit(oneCase(os.Args[2:]))
	case "dump":
		os.Exit(dumpRun(os.Args[2:]))
	case "skips":
		os.Exit(skips(os.Args[2:]))
	case "show":
		os.Exit(showCase(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func newExec(build string) *Exec {
	return &Exec{bin: build + "/simbin", race: build + "/simbin-race", st: newStats()}
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	build := fs.String("build", "/verif/build", "")
	secs := fs.Float64("seconds", 30, "")
	max := fs.Int("cases", 1<<30, "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "/verif/build/replays", "")
	known := fs.String("known", "", "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	id := args[0]
	small := fs.Int("shrink", -1, "seconds for narrowing a violation")
	fs.Parse(args[1:])
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	x := newExec(*build)
	start := time.Now()
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	deep := *tier == "thorough"
	kf, err := readKnown(*known, id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var (
		next  int64 = -1
		stop  int32
		mu    sync.Mutex
		found *Viol
		at    = 1 << 60
		errs  []string
		samp  []interface{}
		unrep int
		wg    sync.WaitGroup
	)
	if p.Probe != nil {
		ks, v := p.Probe(x)
		for _, k := range ks {
			if kf[k] == "" {
				v = &Viol{Class: "probe", Msg: "finding " + k + " is not listed", Case: &Case{Prop: id}}
				continue
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf[k])
		}
		if v != nil {
			found, at = v, -1
			stop = 1
		}
	}
	for n := 0; n < *workers; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline) {
				i := int(atomic.AddInt64(&next, 1))
				if i >= *max {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							buf := make([]byte, 4096)
							errs = append(errs, fmt.Sprintf("case %d: %v\n%s", i, r, buf[:runtime.Stack(buf, false)]))
							mu.Unlock()
							atomic.StoreInt32(&stop, 1)
						}
					}()
					c := genCase(p, uint64(*seed), i, deep)
					if c == nil {
						x.st.skip("generator")
						return
					}
					t0 := time.Now()
					v := p.Judge(c, x)
					if d := time.Since(t0); d > 5*time.Second && os.Getenv("VSIM_SLOW") != "" {
						fmt.Fprintf(os.Stderr, "slow: case %d %s %v\n", i, c.Kind, d)
					}
					x.st.mu.Lock()
					x.st.Cases++
					x.st.Kinds[c.Kind]++
					if len(x.st.Distinct) < 1000000 {
						cc := *c
						cc.Seed = 0
						x.st.Distinct[hashStr(string(toJSON(cc)))] = true
					}
					x.st.mu.Unlock()
					if len(samp) < 3 {
						mu.Lock()
						if len(samp) < 3 {
							samp = append(samp, sample(c))
						}
						mu.Unlock()
					}
					if v != nil {
						// it has to show again from the case alone
						if v2 := p.Judge(v.Case, x); v2 == nil || v2.Class != v.Class {
							mu.Lock()
							unrep++
							mu.Unlock()
							x.st.skip("not reproduced: " + v.Class)
							return
						}
						mu.Lock()
						if i < at {
							found, at = v, i
						}
						mu.Unlock()
						atomic.StoreInt32(&stop, 1)
					}
				}()
			}
		}()
	}
	wg.Wait()
	if len(errs) > 0 && found == nil {
		fmt.Fprintln(os.Stderr, "error of the check:", errs[0])
		return 3
	}
	searched := time.Since(start)
	det := determinism(p, x, uint64(*seed), deep)
	code := 0
	nviol := 0
	if found != nil {
		nviol = 1
		lim := 40 * time.Second
		if deep {
			lim = 150 * time.Second
		}
		if *small >= 0 {
			lim = time.Duration(*small) * time.Second
		}
		if lim > 0 && found.Case != nil && len(found.Case.Worlds) > 0 {
			found = shrink(p, found, x, lim, *workers)
		}
		os.MkdirAll(*replays, 0755)
		path := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", id, at))
		writeReplay(path, found)
		fmt.Printf("%s\n", found.Msg)
		fmt.Printf("seed %d, case %d (%s)\n", *seed, at, found.Class)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	}
	if *evid != "" {
		writeEvidence(*evid, p, x, *tier, *seed, searched, time.Since(start), samp, nviol, unrep, det)
	}
	s := x.st
	fmt.Printf("%s: %d cases, %d simulated runs in %.1fs, skipped %v, outcomes %v\n", id, s.Cases, s.Runs, searched.Seconds(), s.Skipped, s.Outcomes)
	return code
}

// determinism repeats a few runs and compares everything recorded.
func determinism(p *Prop, x *Exec, seed uint64, deep bool) string {
	same, n := 0, 0
	for i := 0; i < 6; i++ {
		c := genCase(p, seed, i*7+1, deep)
		if c == nil || len(c.Worlds) == 0 {
			continue
		}
		rs := c.Base
		rs.Sched = vk.Window{Seed: mix(seed, uint64(i)) | 1}
		rs.Map = vk.Window{Seed: mix(seed, uint64(i)+99) | 1}
		rs.YieldIn = 30
		a, b := x.run(c, rs), x.run(c, rs)
		n++
		if string(toJSON(a)) == string(toJSON(b)) {
			same++
		}
	}
	return fmt.Sprintf("%d of %d repeated runs were identical in every recorded system call, scheduling decision and output byte", same, n)
}

func sample(c *Case) interface{} {
	m := map[string]interface{}{"kind": c.Kind, "seed": c.Seed}
	var files []string
	for _, w := range c.Worlds {
		n := 0
		for _, f := range w.image() {
			if f.Type == "" && n < 6 {
				d := f.Data
				if len(d) > 500 {
					d = d[:500] + "…"
				}
				files = append(files, f.Path+":\n"+d)
				n++
			}
		}
		m["args"] = strings.Join(w.Inv.args(w), " ")
	}
	m["files"] = files
	if len(c.Fixed) > 0 {
		m["runs"] = c.Fixed
	}
	if c.P != nil {
		m["parameters"] = c.P
	}
	return m
}

type replayFile struct {
	*Viol
	Files []string    `json:"files"`
	Args  []string    `json:"args"`
	Trace []vk.OpRec  `json:"trace,omitempty"`
	Jobs  interface{} `json:"jobs,omitempty"`
}

func writeReplay(path string, v *Viol) {
	f := replayFile{Viol: v}
	for _, w := range v.Case.Worlds {
		for _, n := range w.image() {
			f.Files = append(f.Files, n.Path+"\n"+n.Data)
		}
		f.Args = append(f.Args, strings.Join(w.Inv.args(w), " "))
	}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	build := fs.String("build", "/verif/build", "")
	file := args[0]
	fs.Parse(args[1:])
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	fromJSON(b, &f)
	p := props[f.Case.Prop]
	x := newExec(*build)
	v := p.Judge(f.Case, x)
	if v == nil {
		fmt.Println("not reproduced: the property holds on this case")
		return 0
	}
	fmt.Println(v.Msg)
	if v.Class != f.Class || v.Msg != f.Msg {
		fmt.Println("note: recorded was", f.Class, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	return 1
}

func oneCase(args []string) int {
	p := props[args[0]]
	i, _ := strconv.Atoi(args[1])
	seed := uint64(1)
	if len(args) > 2 {
		n, _ := strconv.Atoi(args[2])
		seed = uint64(n)
	}
	c := genCase(p, seed, i, false)
	if c == nil {
		fmt.Println("no case")
		return 0
	}
	x := newExec("/verif/build")
	v := p.Judge(c, x)
	if v == nil {
		fmt.Println("holds")
		return 0
	}
	b, _ := json.MarshalIndent(v, "", " ")
	w := bufio.NewWriter(os.Stdout)
	w.Write(b)
	w.WriteByte('\n')
	w.Flush()
	return 1
}

func showCase(args []string) int {
	p := props[args[0]]
	i, _ := strconv.Atoi(args[1])
	seed := 1
	if len(args) > 2 {
		seed, _ = strconv.Atoi(args[2])
	}
	c := genCase(p, uint64(seed), i, false)
	if c == nil {
		fmt.Println("no case")
		return 0
	}
	fmt.Println("kind", c.Kind, c.P, c.N)
	for _, w := range c.Worlds {
		for _, f := range w.image() {
			fmt.Println("=== " + f.Path + " " + f.Type)
			fmt.Println(f.Data)
		}
		fmt.Println("args:", w.Inv.args(w), "cwd:", w.Inv.Cwd)
		e := w.expect()
		fmt.Println("expect:", e.Fail, e.Msg, mustJSON(e.Final))
	}
	return 0
}

func readKnown(path, id string) (map[string]string, error) {
	out := map[string]string{}
	if path == "" {
		return out, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []struct{ Property, ID, What string }
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	for _, k := range f.Findings {
		if k.Property == id {
			out[k.ID] = k.What
		}
	}
	return out, nil
}

func writeEvidence(path string, p *Prop, x *Exec, tier string, seed int64, searched, wall time.Duration, samp []interface{}, nviol, unrep int, det string) {
	s := x.st
	h := searched.Hours()
	var unmod []string
	for k, n := range s.Unmod {
		unmod = append(unmod, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(unmod)
	skipped := 0
	for _, n := range s.Skipped {
		skipped += n
	}
	cov := map[string]interface{}{
		"evaluations":              s.Runs,
		"distinct_nontrivial":      len(s.Distinct),
		"rule":                     p.Rule + " One evaluation is one simulated process run. A case counts as distinct and non-trivial when its generated project, options, schedule and fault parameters differ from those of every other case of this run (hash of the whole case without its seed) and it was judged; cases the judge set aside are under skipped.",
		"samples":                  samp,
		"cases":                    s.Cases,
		"cases_by_scenario":        s.Kinds,
		"skipped":                  s.Skipped,
		"simulated_runs_per_hour":  int(float64(s.Runs) / h),
		"seeds_per_hour":           int(float64(s.Cases) / h),
		"simulated_time_s":         float64(s.SimNanos) / 1e9,
		"simulated_steps":          s.Steps,
		"system_calls_served":      s.Syscalls,
		"goroutine_switches":       s.Switches,
		"map_iterations_decided":   s.MapRanges,
		"faults_injected":          s.Injected,
		"distinct_executions":      len(s.Sched),
		"distinct_executions_rule": "hash over every scheduling decision (which goroutine ran at which step), the number of map iterations with their seed, and the step count",
		"run_endings":              s.Outcomes,
		"crash_states_checked":     s.Crashes,
		"race_detector_runs":       s.RaceRuns,
		"probes":                   s.Probes,
		"determinism":              det,
		"not_reproduced":           unrep,
		"unmodelled_system_calls":  unmod,
		"real_components":          "all of github.com/buypal/oapi-go (cmd/oapi and the library), golang.org/x/tools/go/packages parsing and type checking, go/types, yaml, gabs, kingpin, logrus, structtag, tagparser, and the Go standard library including os, net/url, text/template and os/signal",
		"stub_components":          "the kernel (virtual file system, descriptors, signals: overlay/child/simk), the go list process (overlay/child/simk/loader.go answers from the virtual disk), clock, timers, randomness, map order and goroutine scheduling (patched runtime), the source of standard library packages other than their names (a small time package)",
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{"the virtual kernel behaves like Linux for the system calls used", "the simulated go list answers like the real one", "statement-level yield points are fine enough to expose the interleavings that matter (the race detector runs cover finer ones)"}, p.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		panic(err)
	}
}
