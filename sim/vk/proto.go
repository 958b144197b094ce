// Package vk is the virtual kernel: an in-memory file system with a
// fault plan, an operation journal and a crash model. It is shared by the
// simulated child process (which serves system calls from it) and by the
// parent (which builds images and computes crash states).
package vk

// Node is one entry of a disk image, addressed by absolute path.
type Node struct {
	Path   string `json:"p"`
	Type   string `json:"t,omitempty"` // "" file, "d" dir, "l" symlink, "c" char device (null), "f" fifo-like sink
	Mode   uint32 `json:"m,omitempty"`
	Data   string `json:"d,omitempty"` // content or link target
	B64    bool   `json:"b,omitempty"` // Data is base64
	HardTo string `json:"h,omitempty"` // hard link to an earlier path
	Dev    uint32 `json:"v,omitempty"` // mount (directories): starts another device
}

// Image is a disk image.
type Image []Node

// Fault makes matching system calls fail or behave partially.
type Fault struct {
	Sys   string `json:"sys"`            // open, read, write, fsync, close, rename, unlink, stat, getdents, chmod, lseek, trunc, mkdir, link, "*"
	Path  string `json:"path,omitempty"` // exact path, or prefix when it ends with '*'; empty matches all
	Nth   int    `json:"nth"`            // first matching call that is hit (0-based)
	Count int    `json:"count"`          // how many consecutive matching calls are hit; 0 means all further ones
	Errno int    `json:"errno,omitempty"`
	Short int    `json:"short,omitempty"` // for read/write: transfer at most this many bytes (applied when Errno is 0)
	After bool   `json:"after,omitempty"` // perform the operation, then report the error
	Only  string `json:"only,omitempty"`  // "w": only opens for writing; "r": only opens for reading
}

// Call is one library call: a scan followed by formatting in each format.
type Call struct {
	ID          string   `json:"id"`
	Dir         string   `json:"dir,omitempty"`
	NoDir       bool     `json:"nodir,omitempty"`
	Lax         bool     `json:"lax,omitempty"`       // options that do not decode are left out
	Overrides   string   `json:"overrides,omitempty"` // JSON object name -> schema
	DefOps      string   `json:"defops,omitempty"`    // JSON object pattern -> operation
	Root        string   `json:"root,omitempty"`      // JSON OpenAPI
	Formats     []string `json:"formats"`
	Cancel      int64    `json:"cancel,omitempty"` // cancel the context at this step (-1: before the call)
	Log         string   `json:"log,omitempty"`    // "nil", "void", "print"
	FormatTwice bool     `json:"ftwice,omitempty"`
	Par         int      `json:"par,omitempty"`   // format the result in this many goroutines at once as well
	Reuse       string   `json:"reuse,omitempty"` // reuse option values of the earlier call with this id
}

// Phase is a set of concurrent calls, preceded by changes to the disk.
type Phase struct {
	Write    Image    `json:"write,omitempty"`
	Remove   []string `json:"remove,omitempty"`
	Calls    []Call   `json:"calls"`
	Faults   []Fault  `json:"faults,omitempty"`
	Chdir    string   `json:"chdir,omitempty"`    // the process moves there first
	Reformat []string `json:"reformat,omitempty"` // ids of earlier results to format again
}

// Module tells the simulated Go loader where a module lives.
type Module struct {
	Path       string `json:"path"`
	Dir        string `json:"dir"`
	Version    string `json:"version,omitempty"`
	Main       bool   `json:"main,omitempty"`
	ReplacedBy string `json:"replaced,omitempty"`
	Hidden     bool   `json:"hidden,omitempty"` // not required by go.mod
	Group      string `json:"group,omitempty"`  // modules see only those of their own group (separate checkouts)
}

// Event happens when the step counter reaches Step.
type Event struct {
	Step int64  `json:"step"`
	Kind string `json:"kind"` // "SIGINT", "SIGTERM", "jump"
	Arg  int64  `json:"arg,omitempty"`
}

// Window limits where a seeded stream deviates from its neutral choice.
type Window struct {
	Seed uint64 `json:"seed"` // 0: always neutral
	Lo   uint64 `json:"lo,omitempty"`
	Hi   uint64 `json:"hi,omitempty"` // 0: no upper limit
}

// Job is one simulated process run.
type Job struct {
	Mode         string   `json:"mode"` // "cli" or "api"
	Args         []string `json:"args,omitempty"`
	Env          []string `json:"env,omitempty"`
	Wild         uint64   `json:"wild,omitempty"` // seed of values for variables only the code under test asks for
	Cwd          string   `json:"cwd"`
	FS           Image    `json:"fs"`
	Modules      []Module `json:"modules"`
	GoRoot       string   `json:"goroot"`
	Phases       []Phase  `json:"phases,omitempty"`
	Faults       []Fault  `json:"faults,omitempty"`
	Events       []Event  `json:"events,omitempty"`
	Map          Window   `json:"map"`
	Sched        Window   `json:"sched"`
	Rand         uint64   `json:"rand"`
	YieldIn      int      `json:"yield_in,omitempty"`     // yield with probability 1/YieldIn at each step inside the sched window
	Clock        int64    `json:"clock,omitempty"`        // start of wall clock, ns since epoch
	Skew         int64    `json:"skew,omitempty"`         // ns added per step
	Budget       int64    `json:"budget,omitempty"`       // step budget
	DiskFree     int64    `json:"diskfree,omitempty"`     // bytes that may be allocated; 0 unlimited
	LoaderFail   string   `json:"loaderfail,omitempty"`   // simulated go list failure message
	LoaderFailAt int      `json:"loaderfailat,omitempty"` // which loader invocation fails (1-based); 0: all
	LoaderDelay  int      `json:"loaderdelay,omitempty"`  // loader takes this many scheduler turns
	Stdout       string   `json:"stdout,omitempty"`       // "", "closed" (EBADF), "pipe" (EPIPE), "full" (ENOSPC)
	Stderr       string   `json:"stderr,omitempty"`
	Uid          int      `json:"uid,omitempty"`
	Trace        bool     `json:"trace,omitempty"`
	MaxFD        int      `json:"maxfd,omitempty"`
	ShuffleDirs  uint64   `json:"shuffledirs,omitempty"` // seed of directory listing order
}

// CallResult is what one library call gave.
type CallResult struct {
	ID        string            `json:"id"`
	Err       string            `json:"err,omitempty"`
	Failed    bool              `json:"failed,omitempty"`
	Panic     string            `json:"panic,omitempty"`
	Out       map[string]string `json:"out,omitempty"`
	FmtErr    map[string]string `json:"fmterr,omitempty"`
	Unstable  string            `json:"unstable,omitempty"`
	Mutated   string            `json:"mutated,omitempty"`
	Steps     int64             `json:"steps"`
	After     int64             `json:"after,omitempty"` // steps between cancel and return
	ScanSteps int64             `json:"scansteps,omitempty"`
	Cancelled bool              `json:"cancelled,omitempty"`
}

// PhaseResult summarises a phase.
type PhaseResult struct {
	Calls      []CallResult `json:"calls"`
	OpenFDs    []string     `json:"openfds,omitempty"`
	Leaked     int          `json:"leaked,omitempty"` // goroutines still alive
	Reformat   []CallResult `json:"reformat,omitempty"`
	JournalLen int          `json:"jlen"`
}

// OpRec is one system call as seen by the virtual kernel.
type OpRec struct {
	Sys   string `json:"s"`
	Path  string `json:"p,omitempty"`
	Ret   int64  `json:"r"`
	Err   int    `json:"e,omitempty"`
	Step  int64  `json:"t"`
	Flags string `json:"f,omitempty"`
	Inj   bool   `json:"i,omitempty"`
}

// Result of a simulated process run.
type Result struct {
	Exit        int            `json:"exit"`
	How         string         `json:"how"` // "exit", "return", "panic", "signal", "budget", "deadlock", "done"
	Panic       string         `json:"panic,omitempty"`
	Stdout      string         `json:"stdout,omitempty"`
	Stderr      string         `json:"stderr,omitempty"`
	Journal     []JOp          `json:"journal,omitempty"`
	Ops         []OpRec        `json:"ops,omitempty"`
	Phases      []PhaseResult  `json:"phases,omitempty"`
	Steps       int64          `json:"steps"`
	Syscalls    int            `json:"syscalls"`
	MapIdx      uint64         `json:"mapidx"`
	SchedIdx    uint64         `json:"schedidx"`
	SchedHash   uint64         `json:"schedhash"`
	Switches    int64          `json:"switches"`
	SimNanos    int64          `json:"simnanos"`
	Injected    map[string]int `json:"injected,omitempty"`
	Unmodelled  []string       `json:"unmodelled,omitempty"`
	OpenFDs     []string       `json:"openfds,omitempty"`
	Leaked      int            `json:"leaked,omitempty"`
	SignalledAt int64          `json:"signalledat,omitempty"`
	Violations  []string       `json:"violations,omitempty"`
	LoaderCalls int            `json:"loadercalls,omitempty"`
	// set by the parent
	Died    string `json:"died,omitempty"` // process ended without a result: its stderr
	Hang    bool   `json:"hang,omitempty"`
	RaceLog string `json:"race,omitempty"`
}
