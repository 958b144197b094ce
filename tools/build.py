#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's working tree.

  simbin       cmd/oapi with the patched standard library, virtual kernel and
               statement-level step hooks (all through go build -overlay)
  simbin-race  the same with the race detector (only with --race)
  vsim         the parent: generator, reference model, judge, shrinker

Everything goes to <out> (default /verif/build). /repo is not written to.
"""
import os, sys, json, shutil, subprocess, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GOROOT = "/opt/veriftools/go1.26.10"

def env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "TMPDIR", "LANG")}
    e.update(HOME="/root", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOROOT=GOROOT, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.path.join(OUT, "gocache"), GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod -buildvcs=false", GONOSUMDB="*", GONOSUMCHECK="1", GOEXPERIMENT="norandomizedheapbase64")
    return e

class BuildError(Exception):
    pass

def run(cmd, **kw):
    kw.setdefault("cwd", VERIF)
    p = subprocess.run(cmd, env=kw.pop("env", env()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout

def patch(text, old, new, name, count=1):
    if text.count(old) != count:
        raise BuildError("anchor in %s found %d times, expected %d:\n%s" % (name, text.count(old), count, old))
    return text.replace(old, new)

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def std_overlay(replace):
    src = GOROOT + "/src/"
    dst = os.path.join(OUT, "std")
    def edit(rel, *pairs):
        t = open(src + rel).read()
        for old, new in pairs:
            t = patch(t, old, new, rel)
        d = os.path.join(dst, rel.replace("/", "__"))
        write(d, t)
        replace[src + rel] = d
    def add(rel, frm):
        replace[src + rel] = os.path.join(VERIF, "overlay", "std", frm)
    add("runtime/zz_sim.go", "runtime_zz_sim.go")
    edit("runtime/runtime2.go", ("\tvalgrindStackID uintptr\n}", "\tvalgrindStackID uintptr\n\n\tsimid  uint32\n\tsimseq uint64\n}"))
    edit("runtime/rand.go",
         ("\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif gp := getg(); gp.simid != 0 {\n\t\tif sim.on {\n\t\t\treturn simRand()\n\t\t}\n\t} else if gp.goid == 1 {\n\t\treturn simBootRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"),
         ("func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif simIs() {\n\t\treturn simMapRand()\n\t}\n"))
    edit("runtime/alg.go", ("\t\tkey[i] = bootstrapRand()\n", "\t\tkey[i] = simMix(77, uint64(i))\n"),
         ("uintptr(bootstrapRand())", "uintptr(simMix(78, uint64(i)))"))
    edit("runtime/select.go", ("\t\tj := cheaprandn(uint32(norder + 1))\n",
         "\t\tvar j uint32\n\t\tif simIs() {\n\t\t\tif norder > 0 {\n\t\t\t\tj = uint32(simChoice(uint64(norder + 1)))\n\t\t\t}\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"))
    edit("runtime/time_nofake.go", ("func nanotime() int64 {\n", "func nanotime() int64 {\n\tif sim.on {\n\t\treturn sim.clock\n\t}\n"))
    t = open(src + "runtime/time.go").read()
    edit("runtime/time.go", ("func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n",
         "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n\tif simIs() {\n\t\tw := sim.wallBase + sim.clock\n\t\ts, n := w/1000000000, w%1000000000\n\t\tif n < 0 {\n\t\t\ts--\n\t\t\tn += 1000000000\n\t\t}\n\t\treturn s, int32(n), sim.clock\n\t}\n"))
    edit("runtime/proc.go",
         ("func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif sim.on {\n\t\tnext = false\n\t}\n"),
         ("func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif sim.on {\n\t\treturn simRunqget(pp), false\n\t}\n"),
         ("\tif preempted && sched.gcwaiting.Load() {\n", "\tif sim.on {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n"),
         ("func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif sim.on && !sched.gcwaiting.Load() {\n\t\treturn false\n\t}\n"),
         ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif sim.on {\n\t\treturn 0\n\t}\n"),
         ("\tnewg.runningCleanups.Store(false)\n\tif isSystemGoroutine(newg, false) {", "\tnewg.runningCleanups.Store(false)\n\tnewg.simid = 0\n\tif sim.on && (callergp.simid != 0 || callergp.m.g0 == callergp) && !isSystemGoroutine(newg, false) {\n\t\tnewg.simid = 1\n\t\tsim.seq++\n\t\tnewg.simseq = sim.seq\n\t\tsim.live++\n\t}\n\tif isSystemGoroutine(newg, false) {"),
         ("func gdestroy(gp *g) {\n", "func gdestroy(gp *g) {\n\tif gp.simid == 1 {\n\t\tsim.live--\n\t}\n\tgp.simid = 0\n"))
    edit("syscall/syscall_linux.go",
         ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
          "// SimHook serves the system calls of simulated goroutines.\nvar SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr)\n\n// SimExit is called instead of exiting.\nvar SimExit func(code int)\n\nfunc runtime_simis() bool\n\n//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimHook != nil && runtime_simis() {\n\t\tx, y, e := SimHook(trap, a1, a2, a3, 0, 0, 0)\n\t\treturn x, y, Errno(e)\n\t}\n\treturn simSyscall(trap, a1, a2, a3)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\nfunc simSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n"),
         ("//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
          "//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimHook != nil && runtime_simis() {\n\t\tx, y, e := SimHook(trap, a1, a2, a3, a4, a5, a6)\n\t\treturn x, y, Errno(e)\n\t}\n\treturn simSyscall6(trap, a1, a2, a3, a4, a5, a6)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\nfunc simSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n"))
    edit("runtime/sigqueue.go", ("func signalWaitUntilIdle() {\n", "func signalWaitUntilIdle() {\n\tif simIs() {\n\t\treturn\n\t}\n"))
    edit("syscall/env_unix.go", ("\ti, ok := env[key]\n\tif !ok {\n\t\treturn \"\", false\n\t}\n\ts := envs[i]\n", "\ti, ok := env[key]\n\tif !ok {\n\t\tif SimEnv != nil && runtime_simis() {\n\t\t\treturn SimEnv(key)\n\t\t}\n\t\treturn \"\", false\n\t}\n\ts := envs[i]\n"),
         ("func Getenv(key string)", "// SimEnv is asked for variables which are not set.\nvar SimEnv func(key string) (string, bool)\n\nfunc Getenv(key string)"))
    edit("syscall/exec_unix.go", ("func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
         "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif runtime_simis() {\n\t\treturn 0, ENOSYS\n\t}\n"))
    edit("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.SimExit != nil {\n\t\tsyscall.SimExit(code)\n\t}\n"))
    edit("os/file_unix.go", ("\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\tsigpipe()\n", "\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\tif syscall.SimExit != nil {\n\t\t\tsyscall.SimExit(128 + 13)\n\t\t}\n\t\tsigpipe()\n"))
    edit("os/signal/signal_unix.go",
         ("func loop() {\n", "// SimChan delivers simulated signals.\nvar SimChan chan os.Signal\n\nfunc runtime_simis() bool\nfunc runtime_simdaemon()\n\n// SimWanted reports whether a handler for the signal is installed.\nfunc SimWanted(sig os.Signal) bool {\n\tn := signum(sig)\n\tfor _, h := range handlers.m {\n\t\tif h.want(n) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc loop() {\n\tif runtime_simis() {\n\t\truntime_simdaemon()\n\t\tfor {\n\t\t\tprocess(<-SimChan)\n\t\t}\n\t}\n"),
         ("func enableSignal(sig int) {\n", "func enableSignal(sig int) {\n\tif runtime_simis() {\n\t\treturn\n\t}\n"),
         ("func disableSignal(sig int) {\n", "func disableSignal(sig int) {\n\tif runtime_simis() {\n\t\treturn\n\t}\n"),
         ("func ignoreSignal(sig int) {\n", "func ignoreSignal(sig int) {\n\tif runtime_simis() {\n\t\treturn\n\t}\n"))

def modcache_dir(mod):
    out = run(["go", "list", "-m", "-f", "{{.Dir}}", mod], cwd=REPO)
    return out.strip().splitlines()[-1]

def tools_copy():
    src = modcache_dir("golang.org/x/tools")
    dst = os.path.join(OUT, "xtools")
    stamp = os.path.join(dst, ".from")
    want = src
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for d in ("go", "internal"):
            for root, dirs, files in os.walk(os.path.join(src, d)):
                dirs[:] = [x for x in dirs if x != "testdata"]
                rel = os.path.relpath(root, src)
                keep = [f for f in files if (f.endswith(".go") and not f.endswith("_test.go")) or f.endswith(".s")]
                if keep:
                    os.makedirs(os.path.join(dst, rel), exist_ok=True)
                    for f in sorted(keep):
                        with open(os.path.join(root, f)) as a, open(os.path.join(dst, rel, f), "w") as b:
                            b.write(a.read())
        for f in ("go.mod", "go.sum"):
            with open(os.path.join(src, f)) as a, open(os.path.join(dst, f), "w") as b:
                b.write(a.read())
        with open(stamp, "w") as f:
            f.write(want)
    p = os.path.join(dst, "go/packages/golist.go")
    t = open(os.path.join(src, "go/packages/golist.go")).read()
    t = patch(t, "func goListDriver(cfg *Config, patterns ...string) (*driverResponse, error) {", "func realGoListDriver(cfg *Config, patterns ...string) (*driverResponse, error) {", "golist.go")
    # both call sites of the driver variable keep their spelling
    write(p, t)
    write(os.path.join(dst, "go/packages/zz_sim.go"), open(os.path.join(VERIF, "overlay", "child", "packages_zz_sim.go")).read())
    std = run(["go", "list", "std"]).split()
    write(os.path.join(dst, "go/packages/zz_sim_std.go"), "package packages\n\nvar simStd = []string{%s}\n" % ", ".join('"%s"' % s for s in std))
    # hashes by address make iteration depend on the allocator: hash by creation order
    p = os.path.join(dst, "go/types/typeutil/map.go")
    t = open(os.path.join(src, "go/types/typeutil/map.go")).read()
    write(p, t)
    return dst

def instrument(replace, race):
    tool = os.path.join(OUT, "instr")
    run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "overlay", "instr"))
    outd = os.path.join(OUT, "repo")
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)
    m = json.loads(run([tool, REPO, outd, os.path.join(OUT, "xtools/go/packages/packages.go")]))
    replace.update(m)

def build(race=False, only=None):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    replace = {}
    std_overlay(replace)
    xt = tools_copy()
    instrument(replace, race)
    for d, sub in ((os.path.join(VERIF, "sim", "vk"), "internal/verifsim/vk"),
                   (os.path.join(VERIF, "overlay", "child", "simk"), "internal/verifsim/simk")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                replace[os.path.join(REPO, sub, f)] = os.path.join(d, f)
    replace[os.path.join(REPO, "cmd/oapi/zz_verif.go")] = os.path.join(VERIF, "overlay", "child", "main_zz_verif.go")
    ov = os.path.join(OUT, "overlay.json")
    write(ov, json.dumps({"Replace": replace}, indent=1, sort_keys=True))
    mod = open(os.path.join(REPO, "go.mod")).read() + "\nreplace golang.org/x/tools => %s\n" % xt
    mf = os.path.join(OUT, "sim.mod")
    with open(mf, "w") as f:
        f.write(mod)
    shutil.copyfile(os.path.join(REPO, "go.sum"), os.path.join(OUT, "sim.sum"))
    procs = []
    def start(cmd, cwd, e=None):
        procs.append((cmd, subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    if only in (None, "vsim"):
        start(["go", "build", "-o", os.path.join(OUT, "vsim"), "."], os.path.join(VERIF, "sim"))
    if only in (None, "sim"):
        start(["go", "build", "-overlay", ov, "-modfile", mf, "-o", os.path.join(OUT, "simbin"), "./cmd/oapi"], REPO)
        if race:
            e = env()
            e["CGO_ENABLED"] = "1"
            start(["go", "build", "-race", "-gcflags=github.com/buypal/oapi-go/internal/verifsim/...=-race=false", "-overlay", ov, "-modfile", mf, "-o", os.path.join(OUT, "simbin-race"), "./cmd/oapi"], REPO, e)
    err = ""
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            err += "command failed: %s\n%s\n" % (" ".join(cmd), o)
    if err:
        raise BuildError(err)

if __name__ == "__main__":
    only = None
    for a in sys.argv[1:]:
        if a.startswith("--only="):
            only = a[7:]
    try:
        build(race="--race" in sys.argv, only=only)
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
