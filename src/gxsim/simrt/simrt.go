// Package simrt is the deterministic scheduler of the simulator.
//
// Every task is a real goroutine, but exactly one of them runs at any moment:
// a task gives up control only inside simrt (at the yield points which the
// instrumenter inserted before every statement, at the simulated
// synchronisation, time and I/O operations), and simrt alone decides who runs
// next. All decisions come from one PRNG or, on replay, from the recorded list
// of switches, so one (plan, schedule) pair is one exactly repeatable run.
//
// In a race-detector build the hand-over between tasks is hidden from the
// detector, so the only happens-before edges it sees are those the library
// under test makes itself.
package simrt

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"

	"gxsim/rng"
)

// Pre is one recorded decision: when task T reaches its local step L, control
// goes to task To.
type Pre struct {
	T  int   `json:"t"`
	L  int64 `json:"l"`
	To int   `json:"to"`
}

// Sched says how scheduling decisions are made.
type Sched struct {
	Seed   uint64  `json:"seed"`
	Q      int     `json:"q"`     // base policy: rotate after Q points without a switch
	PSync  float64 `json:"psync"` // probability of a preemption at a synchronisation point
	PStmt  float64 `json:"pstmt"` // probability of a preemption at a statement
	PPick  float64 `json:"ppick"` // probability of a random choice when a task blocks or ends
	Replay bool    `json:"replay,omitempty"`
	Forced []Pre   `json:"forced,omitempty"`
}

// TaskFault hits a task at one of its own steps.
type TaskFault struct {
	Kind string `json:"kind"` // stall, freeze, gc
	Task int    `json:"task"`
	At   int64  `json:"at"`  // local step
	Arg  int64  `json:"arg"` // stall: global steps
}

// ClockFault makes the wall clock jump when the global step is reached.
type ClockFault struct {
	At   int64 `json:"at"`
	Jump int64 `json:"jump"` // ns, may be negative
}

// Config of one run.
type Config struct {
	Sched  Sched
	Faults []TaskFault
	Clock  []ClockFault
	Cap    int64 // step cap
	Tick   int64 // ns of simulated time per step (0: frozen)
	Start  int64 // wall clock at start, ns since the epoch
	// OnStep, if set, is evaluated by the scheduler at every switch: a
	// non-empty string is an invariant violation and stops the run.
	OnSwitch func() string
	Trace    bool
}

// Trace is one switch of a traced run.
type Trace struct {
	Step int64  `json:"step"`
	From int    `json:"from"`
	Site uint32 `json:"site"` // last yield point of the task that lost control
	To   int    `json:"to"`
	Why  string `json:"why"`
}

// Outcome of a run.
type Outcome struct {
	End      string // done, deadlock, stepcap, stopped
	Stop     string // reason given to Stop
	Steps    int64
	Switches int64
	Preempts int64
	SimNs    int64
	Forced   []Pre // decisions taken, for replay
	Hash     uint64
	Stalls   int
	Freezes  int
	GCs      int
	Jumps    int
	Spawned  int
	Stuck    []string // tasks not finished, with state
	Unfin    []bool   // per initial task: not finished
	Panics   []string // tasks which ended by an uncaught panic
	Trace    []Trace
}

const (
	stRun = iota
	stBlocked
	stDone
	stFrozen
)

// Waiter is what a blocked task waits for. Ready must have no side effects and
// must be //go:norace.
type Waiter interface{ Ready() bool }

// Task is one simulated goroutine.
type Task struct {
	ID     int
	ch     chan struct{}
	done   chan struct{}
	local  int64
	consec int
	state  int
	w      Waiter
	what   string
	wakeAt int64 // simulated ns; <0: none
	stall  int64 // not before this global step
	nf     int   // next forced entry
	forced []Pre
	fq     []TaskFault
	site   uint32
	sync   [8]byte
	Proc   int // simulated process, used by the OS stubs
	Err    string
}

const maxTasks = 4096

// Sim is one run.
type Sim struct {
	calm    bool // no more decisions
	cfg     Config
	r       *rng.R
	tasks   [maxTasks]*Task
	asleep  int // tasks with a time to wake at
	retired []*Task
	n       int
	run     *Task
	step    int64
	stamp   int64
	now     int64 // monotonic simulated ns
	wall    int64 // offset wall - mono
	nextClk int
	skSync  int64
	skStmt  int64
	rec     []Pre
	nrec    int
	out     Outcome
	doneCh  chan struct{}
	ended   bool
	live    int
	root    int // unfinished tasks among those the run began with
	nroot   int
	tail    int64 // step at which the last of them ended
	timers  []*Timer
	h       uint64
	tsc     uint64
	tr      []Trace
	ntr     int
}

var cur *Sim

// Hits counts yield-point executions per site, over the life of the process.
var Hits [1 << 14]uint32

// Active tells whether a simulation is running and the caller is inside it.
//
//go:norace
func Active() bool { return cur != nil }

// Current returns the running task, or nil.
//
//go:norace
func Current() *Task {
	if cur == nil {
		return nil
	}
	return cur.run
}

// Self returns the id of the running task or -1.
//
//go:norace
func Self() int {
	if cur == nil || cur.run == nil {
		return -1
	}
	return cur.run.ID
}

// Seq returns the next global event stamp.
//
//go:norace
func Seq() int64 {
	if cur == nil {
		return 0
	}
	cur.stamp++
	return cur.stamp
}

// Step returns the global step.
//
//go:norace
func Step() int64 {
	if cur == nil {
		return 0
	}
	return cur.step
}

// LocalStep returns the running task's own step count.
//
//go:norace
func LocalStep() int64 {
	if cur == nil {
		return 0
	}
	return cur.run.local
}

// TaskAt waits for a task to reach one of its own steps.
type TaskAt struct {
	T *Task
	L int64
}

//go:norace
func (w *TaskAt) Ready() bool { return w.T != nil && w.T.local >= w.L }

// SetProc tags the running task with a simulated process id.
//
//go:norace
func SetProc(p int) {
	if cur != nil {
		cur.run.Proc = p
	}
}

// Proc returns the simulated process of the running task.
//
//go:norace
func Proc() int {
	if cur == nil {
		return 0
	}
	return cur.run.Proc
}

// Y is the yield point before a statement.
//
//go:norace
func Y(site uint32) {
	Hits[site&(1<<14-1)]++
	if s := cur; s != nil {
		s.run.site = site
		s.point(false)
	}
}

// YV is a yield point between the evaluation of v and its use.
func YV[T any](site uint32, v T) T {
	Y(site)
	return v
}

// YS is the yield point of a synchronisation operation.
//
//go:norace
func YS() {
	if s := cur; s != nil {
		s.point(true)
	}
}

// Gosched gives way to the next runnable task.
//
//go:norace
func Gosched() {
	if s := cur; s != nil {
		s.run.consec = 1 << 30
		s.point(true)
	}
}

//go:norace
func (s *Sim) runnable(t *Task) bool {
	if t.stall > s.step {
		return false
	}
	switch t.state {
	case stRun:
		return true
	case stBlocked:
		if t.wakeAt >= 0 && t.wakeAt <= s.now {
			return true
		}
		return t.w != nil && t.w.Ready()
	}
	return false
}

//go:norace
func (s *Sim) geo(p float64) int64 {
	if p <= 0 {
		return 1 << 60
	}
	if p >= 1 {
		return 0
	}
	// number of points to skip: sampled by repeated halving of the inverse
	// mean; a uniform value in [0, 2/p) has the same mean and is cheap.
	m := int64(2 / p)
	if m < 1 {
		m = 1
	}
	return int64(s.r.U64() % uint64(m))
}

// point is the only place where a running task may lose control.
//
//go:norace
func (s *Sim) point(sync bool) {
	if s.ended {
		select {}
	}
	t := s.run
	s.step++
	s.pass()
	t.local++
	t.consec++
	if s.step > s.cfg.Cap {
		s.finish("stepcap")
	}
	if s.root == 0 && s.step > s.tail+tailSteps {
		s.finish("done")
	}
	if len(s.timers) > 0 {
		s.fire()
	}
	if s.nextClk < len(s.cfg.Clock) && s.cfg.Clock[s.nextClk].At <= s.step {
		s.wall += s.cfg.Clock[s.nextClk].Jump
		s.nextClk++
		s.out.Jumps++
	}
	if len(t.fq) > 0 && t.fq[0].At <= t.local {
		f := t.fq[0]
		t.fq = t.fq[1:]
		switch f.Kind {
		case "stall":
			s.out.Stalls++
			t.stall = s.step + f.Arg
			s.next(t, -1)
			return
		case "gc":
			s.out.GCs++
			runtime.GC()
			return
		case "freeze":
			s.out.Freezes++
			t.state = stFrozen
			s.gone(t)
			s.next(t, -1)
			return
		}
	}
	to := -1
	if s.cfg.Sched.Replay {
		to = s.forcedFor(t)
	} else if s.calm {
	} else if sync {
		if s.skSync--; s.skSync < 0 {
			s.skSync = s.geo(s.cfg.Sched.PSync)
			to = s.randOther(t)
		}
	} else {
		if s.skStmt--; s.skStmt < 0 {
			s.skStmt = s.geo(s.cfg.Sched.PStmt)
			to = s.randOther(t)
		}
	}
	if to >= 0 && to != t.ID && to < s.n && s.runnable(s.tasks[to]) {
		s.record(t, to)
		s.out.Preempts++
		s.switchTo(t, s.tasks[to], "preempted")
		return
	}
	if t.consec >= s.cfg.Sched.Q {
		for i := 1; i < s.n; i++ {
			o := s.tasks[(t.ID+i)%s.n]
			if s.runnable(o) {
				s.switchTo(t, o, "rotated")
				return
			}
		}
		t.consec = 0
	}
}

//go:norace
func (s *Sim) forcedFor(t *Task) int {
	for t.nf < len(t.forced) && t.forced[t.nf].L < t.local {
		t.nf++
	}
	if t.nf < len(t.forced) && t.forced[t.nf].L == t.local {
		t.nf++
		return t.forced[t.nf-1].To
	}
	return -1
}

//go:norace
func (s *Sim) record(t *Task, to int) {
	if s.nrec < len(s.rec) {
		s.rec[s.nrec].T = t.ID
		s.rec[s.nrec].L = t.local
		s.rec[s.nrec].To = to
		s.nrec++
		if s.nrec == len(s.rec) {
			// The record is full: the run goes on without further decisions,
			// in rotation, so that whatever it finds is replayable.
			s.calm = true
		}
	}
}

//go:norace
func (s *Sim) randOther(t *Task) int {
	k := 0
	for i := 0; i < s.n; i++ {
		if i != t.ID && s.runnable(s.tasks[i]) {
			k++
		}
	}
	if k == 0 {
		return -1
	}
	k = s.r.N(k)
	for i := 0; i < s.n; i++ {
		if i != t.ID && s.runnable(s.tasks[i]) {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// next picks a successor of t, which cannot continue now.
//
//go:norace
func (s *Sim) next(t *Task, _ int) {
	for {
		if len(s.timers) > 0 {
			s.fire()
		}
		to := -1
		if s.cfg.Sched.Replay {
			to = s.forcedFor(t)
			if to >= 0 && (to >= s.n || !s.runnable(s.tasks[to])) {
				to = -1
			}
			if to >= 0 {
				s.record(t, to)
			}
		} else if !s.calm && s.r.P(s.cfg.Sched.PPick) {
			to = s.randOther(t)
			if to >= 0 {
				s.record(t, to)
			}
		}
		if to < 0 {
			for i := 1; i <= s.n; i++ {
				if o := s.tasks[(t.ID+i)%s.n]; s.runnable(o) {
					to = o.ID
					break
				}
			}
		}
		if to >= 0 {
			o := s.tasks[to]
			if o == t {
				t.consec = 0
				return
			}
			why := "blocked"
			if t.state == stDone {
				why = "ended"
			} else if t.state == stFrozen {
				why = "crashed"
			} else if t.stall > s.step {
				why = "stalled"
			}
			s.switchTo(t, o, why)
			return
		}
		// nobody is runnable: first end the shortest stall, then jump the clock
		best := int64(-1)
		for i := 0; i < s.n; i++ {
			o := s.tasks[i]
			if o.stall > s.step && (o.state == stRun || o.state == stBlocked && (o.wakeAt >= 0 || o.w != nil && o.w.Ready())) {
				if best < 0 || o.stall < best {
					best = o.stall
				}
			}
		}
		if best >= 0 {
			s.step = best
			continue
		}
		best = -1
		for i := 0; i < s.n; i++ {
			o := s.tasks[i]
			if o.state == stBlocked && o.wakeAt >= 0 && (best < 0 || o.wakeAt < best) {
				best = o.wakeAt
			}
		}
		if d := s.due(); s.root > 0 && d >= 0 && (best < 0 || d < best) {
			best = d
		}
		if best >= 0 {
			if best > s.now {
				s.now = best
			}
			continue
		}
		if s.root == 0 {
			s.finish("done")
		} else {
			s.finish("deadlock")
		}
		return
	}
}

//go:norace
func (s *Sim) switchTo(t, o *Task, why string) {
	if s.cfg.OnSwitch != nil {
		if m := s.cfg.OnSwitch(); m != "" {
			s.out.Stop = m
			s.finish("stopped")
		}
	}
	s.out.Switches++
	if s.cfg.Trace && s.ntr < len(s.tr) {
		e := &s.tr[s.ntr]
		e.Step, e.From, e.Site, e.To, e.Why = s.step, t.ID, t.site, o.ID, why
		s.ntr++
	}
	s.h = (s.h ^ uint64(o.ID+1)<<32 ^ uint64(t.site)) * 0x9E3779B97F4A7C15
	s.h ^= s.h >> 29
	// Turns are not all of one length: tasks must not stay in step for ever.
	o.consec = 0
	if q := uint64(s.cfg.Sched.Q) / 8; q > 0 {
		x := uint64(o.local+1) * 0x9E3779B97F4A7C15
		o.consec = int((x ^ x>>31) % (q + 1))
	}
	s.run = o
	RaceRelease(unsafe.Pointer(&t.sync))
	raceDisable()
	o.ch <- struct{}{}
	if t.state == stDone {
		raceEnable()
		return
	}
	<-t.ch
	raceEnable()
}

// finish ends the run; it never returns to the calling task.
//
//go:norace
func (s *Sim) finish(why string) {
	s.ended = true
	s.out.End = why
	RaceRelease(unsafe.Pointer(&s.run.sync))
	raceDisable()
	close(s.doneCh)
	raceEnable()
	if s.run.state == stDone {
		return
	}
	select {}
}

// Stop ends the run at once with the given reason (an invariant was violated).
//
//go:norace
func Stop(reason string) {
	if s := cur; s != nil {
		s.out.Stop = reason
		s.finish("stopped")
	}
}

// Block parks the running task until w is ready or, if d >= 0, d nanoseconds
// of simulated time have passed. It returns at the first scheduling after that.
//
//go:norace
func Block(w Waiter, d int64, what string) {
	s := cur
	if s == nil {
		if w != nil && !w.Ready() && d < 0 {
			panic("simrt: would block for ever outside a simulation: " + what)
		}
		return
	}
	if s.ended {
		select {}
	}
	t := s.run
	s.step++
	s.pass()
	t.local++
	if s.step > s.cfg.Cap {
		s.finish("stepcap")
	}
	t.state = stBlocked
	t.w = w
	t.what = what
	t.wakeAt = -1
	if d >= 0 {
		t.wakeAt = s.now + d
		s.asleep++
	}
	if s.root == 0 && s.step > s.tail+tailSteps {
		s.finish("done")
	}
	s.next(t, -1)
	if t.wakeAt >= 0 {
		s.asleep--
	}
	t.state = stRun
	t.w = nil
	t.wakeAt = -1
}

// pass lets the time of one step go by. A clock that stands still moves a
// little all the same while somebody waits for it: whoever else is running
// cannot stop the time.
//
//go:norace
func (s *Sim) pass() {
	if s.cfg.Tick == 0 && (s.asleep > 0 || len(s.timers) > 0) {
		s.now += 1000
		return
	}
	s.now += s.cfg.Tick
}

// Sleep parks the running task for d of simulated time.
func Sleep(d time.Duration) {
	if cur == nil {
		return
	}
	if d < 0 {
		d = 0
	}
	Block(nil, int64(d), "sleep")
}

// NowNs is the simulated monotonic clock.
//
//go:norace
func NowNs() int64 {
	if cur == nil {
		return 0
	}
	return cur.now
}

// WallNs is the simulated wall clock (monotonic clock plus injected jumps).
//
//go:norace
func WallNs() int64 {
	if cur == nil {
		return idleWall
	}
	return cur.cfg.Start + cur.now + cur.wall
}

var idleWall int64 = 1500000000 * 1e9
var idleTsc uint64 = 1000003

// SetIdleClock sets what the clocks show outside a simulation.
func SetIdleClock(wall int64, tsc uint64) { idleWall, idleTsc = wall, tsc }

// RDTSC is the simulated time-stamp counter: it moves with simulated time.
//
//go:norace
func RDTSC() uint64 {
	YS()
	if cur == nil {
		return idleTsc
	}
	return cur.tsc + uint64(WallNs())
}

var recBuf = make([]Pre, 20000)

// newSim prepares a run.
func newSim(cfg Config) *Sim {
	s := &Sim{cfg: cfg, r: rng.New(cfg.Sched.Seed), doneCh: make(chan struct{})}
	s.rec = recBuf
	if cfg.Trace {
		s.tr = make([]Trace, 2000)
	}
	if s.cfg.Sched.Q <= 0 {
		s.cfg.Sched.Q = 200
	}
	if s.cfg.Cap <= 0 {
		s.cfg.Cap = 200000
	}
	if s.cfg.Start == 0 {
		s.cfg.Start = 1500000000 * 1e9
	}
	s.tsc = 7777777
	s.h = 14695981039346656037
	if !cfg.Sched.Replay {
		s.skSync = s.geo(cfg.Sched.PSync)
		s.skStmt = s.geo(cfg.Sched.PStmt)
	}
	return s
}

//go:norace
func (s *Sim) addTask() *Task {
	if s.nroot > 0 { // a task that ended leaves its number, with its steps and faults, to the next one
		for i := s.nroot; i < s.n; i++ {
			if o := s.tasks[i]; o.state == stDone {
				t := &Task{ID: i, ch: make(chan struct{}, 1), done: make(chan struct{}), wakeAt: -1,
					local: o.local, forced: o.forced, nf: o.nf, fq: o.fq}
				s.retired = append(s.retired, o)
				s.tasks[i] = t
				s.live++
				return t
			}
		}
	}
	if s.n >= maxTasks { // more than the simulator has room for: the run decides nothing
		s.finish("reccap")
	}
	t := &Task{ID: s.n, ch: make(chan struct{}, 1), done: make(chan struct{}), wakeAt: -1}
	for _, p := range s.cfg.Sched.Forced {
		if p.T == t.ID {
			t.forced = append(t.forced, p)
		}
	}
	for _, f := range s.cfg.Faults {
		if f.Task == t.ID {
			t.fq = append(t.fq, f)
		}
	}
	s.tasks[s.n] = t
	s.n++
	s.live++
	return t
}

// body runs one task to its end. It is not norace: only the parts which touch
// scheduler state are.
func (s *Sim) body(t *Task, fn func()) {
	s.await(t)
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.fail(fmt.Sprint(e))
			}
		}()
		fn()
	}()
	s.exit(t)
}

//go:norace
func (t *Task) fail(m string) { t.Err = m }

//go:norace
func (s *Sim) await(t *Task) {
	raceDisable()
	<-t.ch
	raceEnable()
}

//go:norace
func (s *Sim) exit(t *Task) {
	if s.ended {
		select {}
	}
	t.state = stDone
	s.gone(t)
	t.local++
	s.next(t, -1)
}

// tailSteps is how long tasks the library started itself may go on after all
// the others have ended: a program would exit then.
const tailSteps = 5000

//go:norace
func (s *Sim) gone(t *Task) {
	s.live--
	if t.ID < s.nroot {
		if s.root--; s.root == 0 {
			s.tail = s.step
		}
	}
}

// Run executes the tasks under the given configuration and returns when all of
// them have ended, none of them can continue, or the step cap is reached.
//
//go:norace
func Run(cfg Config, tasks []func()) Outcome {
	if cur != nil {
		panic("simrt: nested simulation")
	}
	s := newSim(cfg)
	forgetTemp()
	for _, fn := range tasks {
		t := s.addTask()
		go s.body(t, fn)
	}
	s.nroot, s.root = s.n, s.n
	if s.n == 0 {
		return Outcome{End: "done"}
	}
	cur = s
	first := s.tasks[0]
	s.run = first
	raceDisable()
	first.ch <- struct{}{}
	<-s.doneCh
	raceEnable()
	cur = nil
	s.out.Unfin = make([]bool, len(tasks))
	for _, t := range s.retired {
		RaceAcquire(unsafe.Pointer(&t.sync))
		if t.Err != "" {
			s.out.Panics = append(s.out.Panics, fmt.Sprintf("task %d: %s", t.ID, t.Err))
		}
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		RaceAcquire(unsafe.Pointer(&t.sync))
		if t.Err != "" {
			s.out.Panics = append(s.out.Panics, fmt.Sprintf("task %d: %s", t.ID, t.Err))
		}
		if t.state != stDone {
			st := "running"
			if t.state == stBlocked {
				st = "blocked in " + t.what
			} else if t.state == stFrozen {
				st = "frozen"
			}
			s.out.Stuck = append(s.out.Stuck, fmt.Sprintf("task %d %s", t.ID, st))
			if i < len(tasks) {
				s.out.Unfin[i] = true
			}
		}
	}
	s.out.Steps = s.step
	s.out.SimNs = s.now
	s.out.Forced = append([]Pre(nil), s.rec[:s.nrec]...)
	s.out.Hash = s.h
	s.out.Trace = append([]Trace(nil), s.tr[:s.ntr]...)
	s.out.Spawned = s.n - len(tasks) + len(s.retired)
	return s.out
}

// Go starts a new task from a running one (the library's "go" statement).
func Go(fn func()) {
	s := cur
	if s == nil {
		panic("simrt: go statement outside a simulation")
	}
	t := s.addTask()
	t.Proc = s.run.Proc
	go s.body(t, fn)
	YS()
}

// Cell is an integer the harness shares between tasks without the race
// detector seeing it.
type Cell struct{ v int64 }

//go:norace
func (c *Cell) Get() int64 { return c.v }

//go:norace
func (c *Cell) Set(v int64) { c.v = v }

//go:norace
func (c *Cell) Add(d int64) int64 { c.v += d; return c.v }

// Flag is a Waiter which becomes ready when set.
type Flag struct{ v bool }

//go:norace
func (f *Flag) Ready() bool { return f.v }

//go:norace
func (f *Flag) Set() { f.v = true }

// CellAtLeast waits for a Cell to reach a value.
type CellAtLeast struct {
	C *Cell
	V int64
}

//go:norace
func (c *CellAtLeast) Ready() bool { return c.C.v >= c.V }

// KillProc ends all tasks of a simulated process where they are: none of them
// takes another step. It returns how many were still alive.
//
//go:norace
func KillProc(p int) int {
	s := cur
	if s == nil {
		return 0
	}
	n := 0
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.Proc == p && t != s.run && (t.state == stRun || t.state == stBlocked) {
			t.state = stFrozen
			s.gone(t)
			s.out.Freezes++
			n++
		}
	}
	return n
}
