package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

// SimWindow is a seeded choice stream that deviates from the neutral choice
// only for indices in [Lo,Hi). Seed 0 is always neutral.
type SimWindow struct{ Seed, Lo, Hi uint64 }

var sim struct {
	on        bool
	inEvent   bool
	hgoid     uint64
	live      int64
	mapw      SimWindow
	schedw    SimWindow
	mapIdx    uint64
	schedIdx  uint64
	randIdx   uint64
	randSeed  uint64
	bootIdx   uint64
	schedHash uint64
	switches  int64
	lastSeq   uint64
	seq       uint64
	step      int64
	nextEvent int64
	budget    int64
	yieldIn   uint64
	clock     int64
	wallBase  int64
	skew      int64
	eventFn   func()
	budgetFn  func()
}

//go:nosplit
func simMix(seed, idx uint64) uint64 {
	z := seed + (idx+1)*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simIs reports whether the current goroutine is simulated.
//
//go:nosplit
func simIs() bool {
	return sim.on && getg().simid != 0
}

//go:nosplit
func simRand() uint64 {
	sim.randIdx++
	return simMix(sim.randSeed, sim.randIdx)
}

//go:nosplit
func simBootRand() uint64 {
	sim.bootIdx++
	return simMix(0x1234567, sim.bootIdx)
}

// simMapRand is used for map seeds and iteration offsets.
func simMapRand() uint64 {
	i := sim.mapIdx
	sim.mapIdx++
	w := &sim.mapw
	if w.Seed == 0 || i < w.Lo || (w.Hi != 0 && i >= w.Hi) {
		return 0
	}
	return simMix(w.Seed, i)
}

// simChoice picks in [0,n).
//
//go:nosplit
func simChoice(n uint64) uint64 {
	i := sim.schedIdx
	sim.schedIdx++
	w := &sim.schedw
	if w.Seed == 0 || i < w.Lo || (w.Hi != 0 && i >= w.Hi) {
		return 0
	}
	return (simMix(w.Seed, i) >> 11) % n
}

// simRunqget removes the next goroutine to run: system goroutines first, then
// a seeded pick among the simulated ones, the harness goroutine last.
func simRunqget(pp *p) *g {
	if next := pp.runnext; next != 0 && pp.runnext.cas(next, 0) {
		runqput(pp, next.ptr(), false)
	}
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	size := uint32(len(pp.runq))
	ncand := uint64(0)
	pick := int64(-1)
	for i := uint32(0); i < n; i++ {
		gp := pp.runq[(h+i)%size].ptr()
		if gp.simid != 0 {
			ncand++
		} else if gp.goid != sim.hgoid {
			pick = int64(i)
			break
		}
	}
	if pick < 0 && ncand > 0 {
		k := uint64(0)
		if ncand > 1 {
			k = simChoice(ncand)
		}
		for i := uint32(0); i < n; i++ {
			if pp.runq[(h+i)%size].ptr().simid != 0 {
				if k == 0 {
					pick = int64(i)
					break
				}
				k--
			}
		}
	}
	if pick < 0 {
		pick = 0
	}
	gp := pp.runq[(h+uint32(pick))%size].ptr()
	for i := uint32(pick); i > 0; i-- {
		pp.runq[(h+i)%size].set(pp.runq[(h+i-1)%size].ptr())
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	if gp.simid != 0 && gp.simseq != sim.lastSeq {
		sim.switches++
		sim.lastSeq = gp.simseq
		sim.schedHash = (sim.schedHash^gp.simseq^uint64(sim.step)<<8)*0x100000001b3 + 1
	}
	return gp
}

// simOthers counts runnable simulated goroutines on the current P.
func simOthers() (n int) {
	pp := getg().m.p.ptr()
	h := atomic.LoadAcq(&pp.runqhead)
	for ; h != pp.runqtail; h++ {
		if pp.runq[h%uint32(len(pp.runq))].ptr().simid != 0 {
			n++
		}
	}
	return
}

// SimStart begins the simulation; the caller becomes the harness goroutine.
func SimStart(mapw, schedw SimWindow, randSeed uint64, yieldIn int, clock, wall, skew, budget int64, event, budgetFn func()) {
	sim.mapw, sim.schedw, sim.randSeed = mapw, schedw, randSeed
	sim.yieldIn = uint64(yieldIn)
	sim.clock, sim.wallBase, sim.skew, sim.budget = clock, wall-clock, skew, budget
	sim.eventFn, sim.budgetFn = event, budgetFn
	sim.nextEvent = 1<<62
	sim.hgoid = getg().goid
	sim.schedHash = 14695981039346656037
	sim.on = true
}

// SimEnter makes the current goroutine a simulated one.
func SimEnter() {
	gp := getg()
	if gp.simid == 0 {
		gp.simid = 1
		sim.seq++
		gp.simseq = sim.seq
		sim.live++
	}
}

// SimLeave undoes SimEnter.
func SimLeave() {
	gp := getg()
	if gp.simid != 0 {
		gp.simid = 0
		sim.live--
	}
}

// SimDaemon excludes the current goroutine from the live count.
func SimDaemon() {
	if simIs() {
		getg().simid = 2
		sim.live--
	}
}

// SimIs reports whether the calling goroutine is simulated.
func SimIs() bool { return simIs() }

// SimStep is a scheduling and event point.
func SimStep() {
	if !sim.on || getg().simid == 0 {
		return
	}
	simTick(1000)
}

// SimYield is a scheduling point that costs ns of simulated time.
func SimTick(ns int64) {
	if !sim.on || getg().simid == 0 {
		return
	}
	simTick(ns)
}

func simTick(ns int64) {
	sim.step++
	sim.clock += ns + sim.skew
	if !sim.inEvent {
		if sim.step >= sim.nextEvent {
			sim.inEvent = true
			sim.eventFn()
			sim.inEvent = false
		}
		if sim.budget > 0 && sim.step > sim.budget {
			sim.inEvent = true
			sim.budgetFn()
			sim.inEvent = false
		}
		if sim.yieldIn != 0 && simOthers() > 0 && simChoice(sim.yieldIn) == sim.yieldIn-1 {
			Gosched()
		}
	}
}

// SimNextEvent sets the step at which the event function runs next.
func SimNextEvent(step int64) { sim.nextEvent = step }

// SimOthers reports whether another simulated goroutine can run.
func SimOthers() bool { return simOthers() > 0 }

// SimTimer returns the time of the next timer (0: none) on the simulated clock.
func SimTimer() int64 {
	pp := getg().m.p.ptr()
	return pp.timers.wakeTime()
}

// SimAdvance moves the clock forward to t.
func SimAdvance(t int64) {
	if t > sim.clock {
		sim.clock = t
	}
}

// SimJump moves the wall clock by d nanoseconds (in either direction).
func SimJump(d int64) { sim.wallBase += d }

// SimStats returns counters.
func SimStats() (step int64, mapIdx, schedIdx, schedHash uint64, switches, clock, live int64) {
	return sim.step, sim.mapIdx, sim.schedIdx, sim.schedHash, sim.switches, sim.clock, sim.live
}

// SimStop ends the simulation.
func SimStop() { sim.on = false }

//go:linkname syscall_simis syscall.runtime_simis
func syscall_simis() bool { return simIs() }

//go:linkname signal_simis os/signal.runtime_simis
func signal_simis() bool { return simIs() }

//go:linkname signal_simon os/signal.runtime_simdaemon
func signal_simon() { SimDaemon() }

var _ unsafe.Pointer
