// Package rt is the simulator's kernel. Instrumented code calls Yield before
// every statement; exactly one task runs at any time, and the kernel decides
// which. Everything it decides is a pure function of the Config.
//
// Functions that run while tasks hand over to each other are marked
// go:norace and use plain memory and runtime.Gosched only, so that a hand-over
// creates no happens-before edge: under the race detector two tasks stay
// unordered unless the code under test orders them itself.
package rt

import (
	"fmt"
	"runtime"
	"sync"
)

const (
	stRunnable int32 = iota
	stBlocked
	stSleeping
	stDone
)

const maxTasks = 2048

// Task is one simulated thread of execution.
type Task struct {
	ID      int
	state   int32
	wakeAt  int64
	prio    int64
	key     uintptr
	Steps   int64 // library statements executed
	mark    int64 // Steps when something outside of the library was reached last
	running bool  // released by the scheduler
	gate    chan struct{}
	fn      func()
	PanicV  interface{}
}

// Scheduling strategies.
const (
	StratSerial   = iota // run to completion
	StratRandom          // preempt at any statement with probability 1/Q
	StratPCT             // priorities with D change points
	StratSites           // preempt at a random subset of statements
	StratPool            // preempt mostly around pool operations
	StratExplicit        // replay of recorded decisions
)

// Pool reuse policies.
const (
	PoolLIFO = iota
	PoolFIFO
	PoolRandom
	PoolFresh
)

// Config decides every choice of the kernel.
type Config struct {
	Seed     uint64   `json:"seed"`
	Strat    int      `json:"strat"`
	Q        int      `json:"q,omitempty"`
	D        int      `json:"d,omitempty"`
	Est      int64    `json:"est,omitempty"`
	PoolMode int      `json:"pool"`
	PoolDrop int      `json:"pool_drop,omitempty"` // evict with probability 1/PoolDrop
	MapSeed  uint64   `json:"map_seed,omitempty"`
	MaxSteps int64    `json:"max_steps,omitempty"`
	Explicit []Switch `json:"explicit,omitempty"`
}

// Switch is one recorded scheduling decision: at scheduling point number Step,
// task To was chosen although the default choice was another one.
type Switch struct {
	Step int64 `json:"s"`
	To   int32 `json:"t"`
}

const maxRecorded = 1 << 17

// Kernel is the state of one simulation.
type Kernel struct {
	cfg     Config
	on      bool
	cur     *Task
	tasks   [maxTasks]*Task
	nTasks  int
	live    int
	base    int // first task of the current batch
	Now     int64
	step    int64
	since   int64 // the step of the last switch
	rng     uint64
	poolRng uint64
	mapRng  uint64
	epoch   uint64

	change  [16]int64
	nChange int
	lowest  int64
	siteMod uint64
	siteRem uint64

	rec      [maxRecorded]Switch
	nRec     int
	recFull  bool
	expl     []Switch
	explI    int
	aborting bool

	// Results.
	Hash      uint64
	Switches  int64
	StepLimit bool
	Deadlock  bool
	Overflow  bool
	SimTime   int64
	PoolGets  int64
	PoolReuse int64
	PoolEvict int64

	wg sync.WaitGroup
}

// K is the kernel of the process.
var K = &Kernel{}

type abortT struct{}

// Abort is what tasks are unwound with when a simulation is given up.
var Abort interface{} = abortT{}

// IsAbort reports whether the recovered value is the kernel's unwinding.
func IsAbort(v interface{}) bool { _, ok := v.(abortT); return ok }

//go:norace
func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Reset starts a new simulation. It must be called with no task alive.
func (k *Kernel) Reset(cfg Config) {
	if k.live != 0 {
		panic("rt: reset with live tasks")
	}
	for i := 0; i < k.nTasks; i++ {
		k.tasks[i] = nil
	}
	ep := k.epoch + 1
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 1000000000
	}
	k.cfg = cfg
	k.on = false
	k.cur = nil
	k.nTasks, k.live, k.base = 0, 0, 0
	k.Now, k.step, k.since = 0, 0, 0
	k.rng = cfg.Seed*0x9e3779b97f4a7c15 + 1
	k.poolRng = cfg.Seed ^ 0xabcdef0123456789
	k.mapRng = cfg.MapSeed ^ 0x5bd1e995
	k.epoch = ep
	k.nRec, k.recFull = 0, false
	k.expl, k.explI = cfg.Explicit, 0
	k.aborting = false
	k.Hash, k.Switches = 14695981039346656037, 0
	k.StepLimit, k.Deadlock, k.Overflow = false, false, false
	k.SimTime, k.PoolGets, k.PoolReuse, k.PoolEvict = 0, 0, 0, 0
	k.nChange = 0
	k.lowest = 0
	if cfg.Strat == StratPCT {
		est := cfg.Est
		if est < 1 {
			est = 1
		}
		d := cfg.D
		if d > len(k.change) {
			d = len(k.change)
		}
		for i := 0; i < d; i++ {
			k.change[i] = int64(splitmix(&k.rng) % uint64(est))
		}
		k.nChange = d
	}
	if cfg.Strat == StratSites {
		q := uint64(cfg.Q)
		if q < 2 {
			q = 2
		}
		k.siteMod = q
		k.siteRem = splitmix(&k.rng)
	}
}

// Recorded returns the decisions that differ from the default choice. ok is
// false if there were too many to record.
func (k *Kernel) Recorded() (sw []Switch, ok bool) {
	return append([]Switch(nil), k.rec[:k.nRec]...), !k.recFull
}

// Steps returns the number of scheduling points passed so far.
func (k *Kernel) Steps() int64 { return k.step }

// Run runs the functions as concurrent tasks until all of them, and all the
// tasks they started, have finished.
func (k *Kernel) Run(fns ...func()) {
	if k.aborting {
		return
	}
	k.base = k.nTasks
	for _, fn := range fns {
		k.newTask(fn)
	}
	if k.live == 0 {
		return
	}
	k.on = true
	k.cur = nil
	k.choose(-9, nil)
	k.wg.Wait()
	k.on = false
	k.cur = nil
	k.SimTime = k.Now
}

//go:norace
//go:norace
func (k *Kernel) newTask(fn func()) *Task {
	if k.nTasks >= maxTasks {
		k.Overflow = true
		panic("rt: too many tasks")
	}
	t := &Task{ID: k.nTasks, fn: fn, gate: make(chan struct{}, 1)}
	t.prio = int64(splitmix(&k.rng)>>2) + 1000
	k.tasks[k.nTasks] = t
	k.nTasks++
	k.live++
	k.wg.Add(1)
	go k.main(t)
	return t
}

func (k *Kernel) main(t *Task) {
	defer k.wg.Done()
	defer k.exit(t)
	defer func() {
		if v := recover(); v != nil {
			t.PanicV = v
		}
	}()
	k.park(t)
	t.fn()
}

// Failures returns the values tasks of the last batch ended with a panic on.
func (k *Kernel) Failures() []interface{} {
	var out []interface{}
	for i := k.base; i < k.nTasks; i++ {
		if v := k.tasks[i].PanicV; v != nil && !IsAbort(v) {
			out = append(out, v)
		}
	}
	return out
}

//go:norace
func (k *Kernel) exit(t *Task) {
	t.state = stDone
	k.live--
	t.running = false
	if k.live > 0 {
		k.choose(-3, nil)
	}
}

// park waits until the scheduler releases the task.
//
//go:norace
func (k *Kernel) park(t *Task) {
	if spin {
		for !t.running {
			runtime.Gosched()
		}
	} else {
		<-t.gate
	}
	if k.aborting {
		panic(Abort)
	}
}

//go:norace
func (k *Kernel) abort() {
	k.aborting = true
	for i := k.base; i < k.nTasks; i++ {
		t := k.tasks[i]
		if t.state != stDone {
			t.state = stRunnable
		}
	}
}

// earliest returns the sleeping task that wakes up first.
//
//go:norace
func (k *Kernel) earliest() *Task {
	var e *Task
	for i := k.base; i < k.nTasks; i++ {
		t := k.tasks[i]
		if t.state == stSleeping && (e == nil || t.wakeAt < e.wakeAt) {
			e = t
		}
	}
	return e
}

//go:norace
func (k *Kernel) wakeDue() {
	for i := k.base; i < k.nTasks; i++ {
		t := k.tasks[i]
		if t.state == stSleeping && t.wakeAt <= k.Now {
			t.state = stRunnable
		}
	}
}

// choose decides which task runs next. me is the running task, or nil if it
// has ended; if it is not runnable, another task must be chosen. On return the
// chosen task is released and k.cur is set. If it isn't me, the caller has to
// wait.
//
//go:norace
func (k *Kernel) choose(site int32, me *Task) *Task {
	step := k.step
	k.step++

	var lowest *Task
	n := 0
	for i := k.base; i < k.nTasks; i++ {
		t := k.tasks[i]
		if t.state == stRunnable {
			n++
			if lowest == nil {
				lowest = t
			}
		}
	}
	sleeper := k.earliest()
	if n == 0 && sleeper == nil {
		// Nothing can ever run again.
		k.Deadlock = true
		k.abort()
		for i := k.base; i < k.nTasks; i++ {
			t := k.tasks[i]
			if t.state == stRunnable {
				n++
				if lowest == nil {
					lowest = t
				}
			}
		}
	}

	// The default choice: go on, else the runnable task with the lowest
	// number, else the task that wakes up first.
	var def *Task
	if me != nil && me.state == stRunnable {
		def = me
	} else if lowest != nil {
		def = lowest
	} else {
		def = sleeper
	}

	// A task that has run for long without a break may be waiting for another
	// one in a loop.
	fair := false
	if !k.aborting && def == me && me != nil && step-k.since > maxRun && (n > 1 || sleeper != nil) {
		fair = true
		def = sleeper
		for i := 1; i < k.nTasks-k.base; i++ {
			t := k.tasks[k.base+(me.ID-k.base+i)%(k.nTasks-k.base)]
			if t.state == stRunnable {
				def = t
				break
			}
		}
		k.lowest--
		me.prio = k.lowest
	}

	next := def
	if !fair && !k.aborting && (n > 1 || (n == 1 && sleeper != nil) || k.cfg.Strat == StratExplicit) {
		next = k.decide(step, site, me, def, sleeper, n)
	}

	if next != def {
		if k.nRec < maxRecorded {
			k.rec[k.nRec] = Switch{Step: step, To: int32(next.ID)}
			k.nRec++
		} else {
			k.recFull = true
		}
	}

	if next.state == stSleeping {
		if next.wakeAt > k.Now {
			k.Now = next.wakeAt
		}
		k.wakeDue()
		next.state = stRunnable
	}

	if next != me {
		k.since = step
		k.Switches++
		k.Hash = (k.Hash ^ uint64(next.ID+1)) * 1099511628211
		k.Hash = (k.Hash ^ uint64(uint32(site))) * 1099511628211
		if me != nil {
			me.running = false
		}
		k.cur = next
		next.running = true
		if !spin {
			next.gate <- struct{}{}
		}
	} else {
		k.cur = me
	}
	return next
}

//go:norace
func (k *Kernel) decide(step int64, site int32, me, def, sleeper *Task, n int) *Task {
	forced := me == nil || me.state != stRunnable
	switch k.cfg.Strat {
	case StratExplicit:
		for k.explI < len(k.expl) && k.expl[k.explI].Step < step {
			k.explI++
		}
		if k.explI < len(k.expl) && k.expl[k.explI].Step == step {
			id := int(k.expl[k.explI].To)
			k.explI++
			if id >= k.base && id < k.nTasks {
				t := k.tasks[id]
				if t.state == stRunnable || (t.state == stSleeping && t == sleeper) {
					return t
				}
			}
		}
		return def

	case StratSerial:
		return def

	case StratPCT:
		for i := 0; i < k.nChange; i++ {
			if k.change[i] == step && me != nil {
				k.lowest--
				me.prio = k.lowest
			}
		}
		best := def
		for i := k.base; i < k.nTasks; i++ {
			t := k.tasks[i]
			if t.state == stRunnable && (best.state != stRunnable || t.prio > best.prio) {
				best = t
			}
		}
		if sleeper != nil && sleeper.prio > best.prio && splitmix(&k.rng)%64 == 0 {
			return sleeper
		}
		return best

	case StratRandom:
		if !forced {
			q := uint64(k.cfg.Q)
			if q < 1 {
				q = 1
			}
			if splitmix(&k.rng)%q != 0 {
				return def
			}
		}

	case StratSites:
		if !forced {
			h := (uint64(uint32(site)) + k.siteRem) * 0x9e3779b97f4a7c15
			h ^= h >> 29
			if h%k.siteMod != 0 || splitmix(&k.rng)%4 == 0 {
				return def
			}
		}

	case StratPool:
		if !forced {
			if site == SitePoolGet || site == SitePoolPut {
				if splitmix(&k.rng)%3 == 0 {
					return def
				}
			} else if splitmix(&k.rng)%128 != 0 {
				return def
			}
		}
	}
	return k.uniform(me, sleeper, n)
}

// uniform chooses among the runnable tasks; a sleeping one may be woken up
// early in the order of events, which means that the others are slow.
//
//go:norace
func (k *Kernel) uniform(me, sleeper *Task, n int) *Task {
	if sleeper != nil && (n == 0 || splitmix(&k.rng)%8 == 0) {
		return sleeper
	}
	i := int(splitmix(&k.rng) % uint64(n))
	for j := k.base; j < k.nTasks; j++ {
		t := k.tasks[j]
		if t.state == stRunnable {
			if i == 0 {
				return t
			}
			i--
		}
	}
	return me
}

// maxRun is how many steps a task may make in a row while others could run.
const maxRun = 40000

// Sites of scheduling points that are not statements of the library.
const (
	SitePoolGet int32 = -1 - iota
	SitePoolPut
	SiteExit
	SiteHarness
	SiteBlock
	SiteLock
)

// Yield is a scheduling point at a statement of the library.
//
//go:norace
func Yield(site int32) {
	k := K
	if !k.on {
		return
	}
	t := k.cur
	if k.aborting {
		panic(Abort)
	}
	t.Steps++
	if t.Steps-t.mark > maxQuiet || k.step > k.cfg.MaxSteps {
		k.StepLimit = true
		k.abort()
		panic(Abort)
	}
	k.point(site, t)
}

// maxQuiet is how many statements the library may execute without calling a
// handler or middleware, returning or starting something new.
const maxQuiet = 40000000

// Progress tells that the running task has left the library.
//
//go:norace
func Progress() {
	if t := K.cur; t != nil {
		t.mark = t.Steps
	}
}

// Point is a scheduling point outside of the library.
//
//go:norace
func Point(site int32) {
	k := K
	if !k.on {
		return
	}
	if k.aborting {
		panic(Abort)
	}
	k.point(site, k.cur)
}

//go:norace
func (k *Kernel) point(site int32, t *Task) {
	if k.live == 1 {
		k.step++
		return
	}
	if k.choose(site, t) != t {
		k.park(t)
	}
}

// Block blocks the running task until Wake is called with the same key.
//
//go:norace
func Block(key uintptr) {
	k := K
	if !k.on {
		panic("rt: blocked outside of a simulation")
	}
	if k.aborting {
		panic(Abort)
	}
	t := k.cur
	t.state = stBlocked
	t.key = key
	if k.choose(SiteBlock, t) != t {
		k.park(t)
	} else if k.aborting {
		panic(Abort)
	}
}

// Wake makes the tasks blocked with the key runnable.
//
//go:norace
func Wake(key uintptr) {
	k := K
	for i := k.base; i < k.nTasks; i++ {
		t := k.tasks[i]
		if t.state == stBlocked && t.key == key {
			t.state = stRunnable
		}
	}
}

// SleepFor blocks the running task for d nanoseconds of simulated time.
//
//go:norace
func SleepFor(d int64) {
	k := K
	if !k.on {
		return
	}
	if k.aborting {
		panic(Abort)
	}
	t := k.cur
	if d <= 0 {
		k.point(SiteHarness, t)
		return
	}
	t.state = stSleeping
	t.wakeAt = k.Now + d
	if k.choose(SiteBlock, t) != t {
		k.park(t)
	}
}

// Current returns the running task.
//
//go:norace
func Current() *Task { return K.cur }

// Running reports whether a simulation is running.
//
//go:norace
func Running() bool { return K.on }

// Aborting reports whether the simulation is being given up.
//
//go:norace
func Aborting() bool { return K.aborting }

// Beat changes as long as a simulation goes on. It may be called from outside.
//
//go:norace
func Beat() int64 { return K.step }

// Clock returns the simulated time in nanoseconds.
//
//go:norace
func Clock() int64 { return K.Now }

// Go starts a new task.
//
//go:norace
func Go(fn func()) *Task {
	if !K.on {
		panic(fmt.Sprintf("rt: go outside of a simulation"))
	}
	t := K.newTask(fn)
	Point(SiteHarness)
	return t
}
