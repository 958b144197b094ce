package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/verifsim/simk"
	"github.com/buypal/oapi-go/internal/verifsim/vk"
	"golang.org/x/tools/go/packages"
)

func main() {
	if os.Getenv("VERIFSIM") == "" {
		verifRealMain()
		return
	}
	zzHarness()
}

var (
	zzRes    vk.Result
	zzJob    vk.Job
	zzEvents []zzEvent
	zzDone   bool
)

type zzEvent struct {
	step int64
	fn   func()
}

func zzAt(step int64, fn func()) {
	zzEvents = append(zzEvents, zzEvent{step, fn})
	sort.SliceStable(zzEvents, func(i, j int) bool { return zzEvents[i].step < zzEvents[j].step })
	runtime.SimNextEvent(zzEvents[0].step)
}

func zzEventFn() {
	now, _, _, _, _, _, _ := runtime.SimStats()
	for len(zzEvents) > 0 && zzEvents[0].step <= now {
		e := zzEvents[0]
		zzEvents = zzEvents[1:]
		e.fn()
	}
	if len(zzEvents) > 0 {
		runtime.SimNextEvent(zzEvents[0].step)
	} else {
		runtime.SimNextEvent(1 << 62)
	}
}

func zzSignal(sig syscall.Signal) func() {
	return func() {
		now, _, _, _, _, _, _ := runtime.SimStats()
		if zzRes.SignalledAt == 0 {
			zzRes.SignalledAt = now
		}
		simk.K.Injected["signal:"+sig.String()]++
		if !signal.SimWanted(sig) {
			zzFinish("signal", 128+int(sig))
		}
		select {
		case signal.SimChan <- sig:
		default:
		}
	}
}

// zzWild gives a variable a value when it is the code under test that asks.
func zzWild(key string) (string, bool) {
	var pcs [16]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		switch {
		case strings.HasPrefix(f.Function, "syscall."), strings.HasPrefix(f.Function, "os.Getenv"), strings.HasPrefix(f.Function, "os.LookupEnv"), strings.HasPrefix(f.Function, "os.Expand"):
			if more {
				continue
			}
			return "", false
		case strings.HasPrefix(f.Function, "main.zz"):
			return "", false
		case strings.HasPrefix(f.Function, "main."), strings.HasPrefix(f.Function, "github.com/buypal/oapi-go") && !strings.Contains(f.Function, "verifsim"):
		default:
			return "", false
		}
		break
	}
	h := zzJob.Wild
	for _, c := range []byte(key) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	if h%4 == 0 {
		return "", false
	}
	vals := []string{"1", "true", "0", "x", "/w", "json", "debug", "2"}
	return vals[(h>>8)%uint64(len(vals))], true
}

func zzHarness() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(64 << 20)
	data, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(data, &zzJob)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif: bad job:", err)
		syscall.Exit(90)
	}
	j := &zzJob
	os.Clearenv()
	os.Setenv("GOPACKAGESDRIVER", "off")
	for _, e := range j.Env {
		if i := strings.IndexByte(e, '='); i > 0 {
			os.Setenv(e[:i], e[i+1:])
		}
	}
	if j.Mode == "cli" {
		os.Args = append([]string{"oapi"}, j.Args...)
	}
	signal.SimChan = make(chan os.Signal, 64)
	k := simk.New(j)
	packages.SimDriver = simk.Driver
	syscall.SimHook = simk.Hook
	if j.Wild != 0 {
		syscall.SimEnv = zzWild
	}
	syscall.SimExit = func(code int) {
		if runtime.SimIs() {
			zzFinish("exit", code)
		}
	}
	for _, e := range j.Events {
		switch e.Kind {
		case "SIGINT":
			zzAt(e.Step, zzSignal(syscall.SIGINT))
		case "SIGTERM":
			zzAt(e.Step, zzSignal(syscall.SIGTERM))
		case "SIGHUP":
			zzAt(e.Step, zzSignal(syscall.SIGHUP))
		case "jump":
			d := e.Arg
			zzAt(e.Step, func() { k.Injected["clock:jump"]++; runtime.SimJump(d) })
		}
	}
	budget := j.Budget
	if budget == 0 {
		budget = 20000000
	}
	wall := j.Clock
	if wall == 0 {
		wall = 1700000000000000000
	}
	ev := zzEvents
	runtime.SimStart(runtime.SimWindow{Seed: j.Map.Seed, Lo: j.Map.Lo, Hi: j.Map.Hi}, runtime.SimWindow{Seed: j.Sched.Seed, Lo: j.Sched.Lo, Hi: j.Sched.Hi},
		j.Rand, j.YieldIn, 1000000000, wall, j.Skew, budget, zzEventFn, func() { zzFinish("budget", -1) })
	if len(ev) > 0 {
		runtime.SimNextEvent(ev[0].step)
	}
	go zzMain()
	idle := 0
	for {
		runtime.Gosched()
		if runtime.SimOthers() {
			idle = 0
			continue
		}
		if t := runtime.SimTimer(); t != 0 {
			runtime.SimAdvance(t)
			if idle++; idle < 100000 {
				continue
			}
		}
		if idle++; idle > 300 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			zzRes.Panic = string(buf[:n])
			zzFinish("deadlock", -1)
		}
	}
}

func zzMain() {
	runtime.SimEnter()
	if zzJob.Mode == "cli" {
		defer func() {
			if r := recover(); r != nil {
				zzRes.Panic = zzPanicText(r)
				zzFinish("panic", 2)
			}
		}()
		verifRealMain()
		zzFinish("return", 0)
	}
	zzPhases()
	zzFinish("done", 0)
}

func zzPanicText(r interface{}) string {
	s := fmt.Sprintf("%v", r)
	st := strings.Split(string(debug.Stack()), "\n")
	var keep []string
	for _, l := range st {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") || strings.Contains(l, "main.zz") {
			continue
		}
		if i := strings.IndexByte(l, '('); i > 0 && l != "" {
			keep = append(keep, l[:i])
		}
		if len(keep) == 8 {
			break
		}
	}
	return s + " @ " + strings.Join(keep, " < ")
}

func zzFinish(how string, code int) {
	st, mi, si, sh, sw, ck, live := runtime.SimStats()
	runtime.SimStop()
	k := simk.K
	zzRes.How, zzRes.Exit = how, code
	zzRes.Steps, zzRes.MapIdx, zzRes.SchedIdx, zzRes.SchedHash, zzRes.Switches, zzRes.SimNanos = st, mi, si, sh, sw, ck-1000000000
	zzRes.Stdout, zzRes.Stderr = string(k.Stdout), string(k.Stderr)
	zzRes.Journal = k.FS.Journal
	zzRes.Ops = k.Ops
	zzRes.Syscalls = k.Syscalls
	zzRes.Injected = k.Injected
	zzRes.Unmodelled = k.Unknown
	zzRes.OpenFDs = k.OpenFDs()
	zzRes.Leaked = int(live)
	zzRes.LoaderCalls = k.LoaderCalls
	b, err := json.Marshal(zzRes)
	if err != nil {
		b = []byte(`{"how":"harness-error","panic":"marshal"}`)
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, 3, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if e != 0 {
			break
		}
		b = b[n:]
	}
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
}

// ---- library mode ----

type zzOpts struct {
	over map[string]spec.Schema
	defs map[string]spec.Operation
	root spec.OpenAPI
}

func zzDecode(c vk.Call) (o zzOpts, err error) {
	if c.Overrides != "" {
		if err = json.Unmarshal([]byte(c.Overrides), &o.over); err != nil {
			return
		}
	}
	if c.DefOps != "" {
		if err = json.Unmarshal([]byte(c.DefOps), &o.defs); err != nil {
			return
		}
	}
	if c.Root != "" {
		err = json.Unmarshal([]byte(c.Root), &o.root)
	}
	return
}

type zzPrinter struct{ n int }

func (p *zzPrinter) Printf(logging.Level, string, ...interface{}) { p.n++ }

// zzKept is a result as it was when it was returned: bytes in the hands of a
// caller, which nobody else may touch any more.
type zzKept struct {
	id, format string
	b          []byte
	was        string
}

var (
	zzAllKept []zzKept
	zzKeptMu  sync.Mutex
)

func zzKeep(id, format string, b []byte) string {
	s := string(b)
	zzKeptMu.Lock()
	zzAllKept = append(zzAllKept, zzKept{id, format, b, s})
	zzKeptMu.Unlock()
	return s
}

type zzState struct {
	call vk.Call
	opts *zzOpts
	val  oapi.OAPI
	res  vk.CallResult
	out  map[string]string
}

func zzPhases() {
	all := map[string]*zzState{}
	for _, ph := range zzJob.Phases {
		simk.K.FS.Load(ph.Write)
		for _, p := range ph.Remove {
			simk.K.FS.RemovePath(p)
		}
		if ph.Chdir != "" {
			simk.K.SetFaults(nil)
			if err := os.Chdir(ph.Chdir); err != nil {
				zzRes.Panic = "chdir: " + err.Error()
				zzFinish("harness-error", 92)
			}
		}
		if ph.Faults != nil {
			simk.K.SetFaults(ph.Faults)
		} else {
			simk.K.SetFaults(zzJob.Faults)
		}
		before := len(simk.K.OpenFDs())
		start, _, _, _, _, _, _ := runtime.SimStats()
		var sts []*zzState
		finished := make(chan int, len(ph.Calls))
		var cancels []context.CancelFunc
		for i, c := range ph.Calls {
			s := &zzState{call: c}
			sts = append(sts, s)
			all[c.ID] = s
			s.res.ID = c.ID
			if r := all[c.Reuse]; c.Reuse != "" && r != nil && r.opts != nil {
				s.opts = r.opts
			} else {
				o, err := zzDecode(c)
				if err != nil && !c.Lax {
					zzRes.Panic = "bad call options: " + err.Error()
					zzFinish("harness-error", 91)
				}
				s.opts = &o
			}
			ctx, cancel := context.WithCancel(context.Background())
			cancels = append(cancels, cancel)
			if c.Cancel < 0 {
				s.res.Cancelled = true
				cancel()
			} else if c.Cancel > 0 {
				st := s
				at := start + c.Cancel
				zzAt(at, func() {
					if st.res.Steps == 0 {
						now, _, _, _, _, _, _ := runtime.SimStats()
						st.res.Cancelled = true
						st.res.After = now
						simk.K.Injected["ctx:cancel"]++
						cancel()
					}
				})
			}
			go func(i int) {
				defer func() { finished <- i }()
				zzCall(ctx, s, start)
			}(i)
		}
		for range ph.Calls {
			<-finished
		}
		zzEvents = nil
		// let everything that is going to end, end
		time.Sleep(time.Hour)
		_, _, _, _, _, _, live := runtime.SimStats()
		var pr vk.PhaseResult
		pr.Leaked = int(live) - 1
		if fds := simk.K.OpenFDs(); len(fds) > before {
			pr.OpenFDs = fds
		}
		for _, c := range cancels {
			c()
		}
		for _, s := range sts {
			ref, _ := zzDecode(s.call)
			if s.call.Reuse != "" {
				if r := all[s.call.Reuse]; r != nil {
					ref, _ = zzDecode(r.call)
				}
			}
			if !reflect.DeepEqual(ref, *s.opts) {
				s.res.Mutated = zzDiff(ref, *s.opts)
			}
			pr.Calls = append(pr.Calls, s.res)
		}
		for _, id := range ph.Reformat {
			s := all[id]
			if s == nil || s.res.Failed || s.res.Panic != "" {
				continue
			}
			r := vk.CallResult{ID: id, Out: map[string]string{}, FmtErr: map[string]string{}}
			for _, f := range s.call.Formats {
				b, err := oapi.Format(f, s.val)
				if err != nil {
					r.FmtErr[f] = err.Error()
				} else {
					r.Out[f] = zzKeep(id, f, b)
				}
			}
			pr.Reformat = append(pr.Reformat, r)
		}
		for _, k := range zzAllKept {
			if string(k.b) != k.was && len(pr.Calls) > 0 && pr.Calls[0].Unstable == "" {
				pr.Calls[0].Unstable = "the bytes returned as " + k.format + " of call " + k.id + " have changed in the hands of the caller"
			}
		}
		pr.JournalLen = len(simk.K.FS.Journal)
		zzRes.Phases = append(zzRes.Phases, pr)
	}
}

func zzDiff(a, b zzOpts) string {
	x, _ := json.Marshal([]interface{}{a.over, a.defs, a.root})
	y, _ := json.Marshal([]interface{}{b.over, b.defs, b.root})
	if string(x) == string(y) {
		return "changed in memory: " + string(x)
	}
	return string(x) + " became " + string(y)
}

func zzCall(ctx context.Context, s *zzState, start int64) {
	defer func() {
		if r := recover(); r != nil {
			s.res.Panic = zzPanicText(r)
		}
		now, _, _, _, _, _, _ := runtime.SimStats()
		s.res.Steps = now - start
		if s.res.After != 0 {
			s.res.After = now - s.res.After
		}
	}()
	c := s.call
	var opts []oapi.Option
	if !c.NoDir {
		opts = append(opts, oapi.WithDir(c.Dir))
	}
	if s.opts.over != nil {
		opts = append(opts, oapi.WithOverride(s.opts.over))
	}
	if s.opts.defs != nil {
		opts = append(opts, oapi.WithDefOps(s.opts.defs))
	}
	if c.Root != "" {
		opts = append(opts, oapi.WithRootSchema(s.opts.root))
	}
	switch c.Log {
	case "nil":
		opts = append(opts, oapi.WithLog(nil))
	case "void":
		opts = append(opts, oapi.WithLog(logging.Void()))
	case "print":
		opts = append(opts, oapi.WithLog(&zzPrinter{}))
	}
	var err error
	s.val, err = oapi.Scan(ctx, opts...)
	now, _, _, _, _, _, _ := runtime.SimStats()
	s.res.ScanSteps = now - start
	if err != nil {
		s.res.Failed = true
		s.res.Err = err.Error()
		return
	}
	s.res.Out = map[string]string{}
	s.res.FmtErr = map[string]string{}
	n := 1
	if c.FormatTwice {
		n = 2
	}
	for r := 0; r < n; r++ {
		for _, f := range c.Formats {
			b, err := oapi.Format(f, s.val)
			if err != nil {
				if r == 0 {
					s.res.FmtErr[f] = err.Error()
				}
				continue
			}
			t := zzKeep(c.ID, f, b)
			if r > 0 && s.res.Out[f] != t {
				s.res.Unstable = "format " + f + " differs between two calls on the same value"
			}
			s.res.Out[f] = t
		}
	}
	if c.Par > 0 {
		zzPar(s)
	}
}

// zzPar formats one value in several goroutines at once.
func zzPar(s *zzState) {
	done := make(chan string, s.call.Par)
	for p := 0; p < s.call.Par; p++ {
		go func(p int) {
			msg := ""
			defer func() {
				if r := recover(); r != nil {
					msg = "panic: " + zzPanicText(r)
				}
				done <- msg
			}()
			fs := s.call.Formats
			for i := range fs {
				f := fs[(i+p)%len(fs)]
				b, err := oapi.Format(f, s.val)
				switch {
				case err != nil && s.res.FmtErr[f] == "":
					msg = "concurrent format " + f + ": " + err.Error()
				case err == nil && s.res.FmtErr[f] == "" && zzKeep(s.call.ID, f, b) != s.res.Out[f]:
					msg = "concurrent format " + f + " gives other bytes"
				}
			}
		}(p)
	}
	for p := 0; p < s.call.Par; p++ {
		if m := <-done; m != "" && s.res.Unstable == "" {
			s.res.Unstable = m
		}
	}
}
