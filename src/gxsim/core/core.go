// Package core is the harness side of the simulator: plans, runs, results and
// the worker process. A plan (operations, parameters, faults, schedule) is
// generated from one seed; running a plan is a pure function of the plan and
// of the code under test.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"gxsim/rng"
	"gxsim/simrt"
)

// Op is one operation of a task.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

// opJSON keeps strings that are not UTF-8.
type opJSON struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
	B []byte  `json:"b,omitempty"`
}

// MarshalJSON writes the operation so that it comes back exactly.
func (o Op) MarshalJSON() ([]byte, error) {
	x := opJSON{K: o.K, A: o.A, S: o.S}
	if !utf8.ValidString(o.S) {
		x.S, x.B = "", []byte(o.S)
	}
	return json.Marshal(x)
}

// UnmarshalJSON reads it.
func (o *Op) UnmarshalJSON(b []byte) error {
	var x opJSON
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	o.K, o.A, o.S = x.K, x.A, x.S
	if len(x.B) > 0 {
		o.S = string(x.B)
	}
	return nil
}

// Arg returns the i-th integer argument or 0.
func (o *Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Fault is one injected fault. Kinds "stall", "freeze" (Task, At = the task's
// own step, Arg) and "clock" (At = global step, Arg = jump in ns) are the
// scheduler's; all others belong to the scenario.
type Fault struct {
	Kind string `json:"kind"`
	Task int    `json:"task,omitempty"`
	At   int64  `json:"at"`
	Arg  int64  `json:"arg,omitempty"`
	S    string `json:"s,omitempty"`
}

// Plan is everything a run depends on.
type Plan struct {
	Scenario string            `json:"scenario"`
	P        map[string]int64  `json:"p,omitempty"`
	S        map[string]string `json:"s,omitempty"`
	Tasks    [][]Op            `json:"tasks,omitempty"`
	Faults   []Fault           `json:"faults,omitempty"`
	Sched    simrt.Sched       `json:"sched"`
	Cap      int64             `json:"cap,omitempty"`
	Tick     int64             `json:"tick,omitempty"`
	Seed     uint64            `json:"seed"` // the seed it was generated from
	Run      int               `json:"run"`  // index of the run in its batch
}

// Int returns a parameter.
func (p *Plan) Int(k string) int { return int(p.P[k]) }

// Set sets a parameter.
func (p *Plan) Set(k string, v int) {
	if p.P == nil {
		p.P = map[string]int64{}
	}
	p.P[k] = int64(v)
}

// AddFault appends a fault.
func (p *Plan) AddFault(kind string, task int, at, arg int64) {
	p.Faults = append(p.Faults, Fault{Kind: kind, Task: task, At: at, Arg: arg})
}

// GenSched draws a scheduling style: how often and where tasks are preempted.
func GenSched(r *rng.R) simrt.Sched {
	s := simrt.Sched{Seed: r.U64()}
	s.Q = r.Pick(7, 40, 200, 1000)
	s.PPick = r.PickF(0, 0.5, 1)
	switch r.N(6) {
	case 0: // mostly sequential, a few preemptions anywhere
		s.PSync, s.PStmt = 0.02, 0.01
	case 1:
		s.PSync, s.PStmt = 0.1, 0.04
	case 2: // at synchronisation only
		s.PSync, s.PStmt = 0.4, 0
	case 3: // at statements only
		s.PSync, s.PStmt = 0, 0.15
	case 4: // very dense
		s.PSync, s.PStmt = 0.7, 0.5
	case 5:
		s.PSync, s.PStmt = 0.25, 0.25
	}
	return s
}

// Sparse makes the plan one of a long run: rare preemptions, a high limit of
// steps.
func (p *Plan) Sparse(r *rng.R) *Plan {
	p.Sched.PSync, p.Sched.PStmt = r.PickF(0, 0.0001, 0.0005), r.PickF(0, 0.0001)
	p.Sched.Q = r.Pick(5000, 50000, 1000000)
	p.Cap = 400000000
	return p
}

// Result of one run.
type Result struct {
	Class   string         `json:"class,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Trivial bool           `json:"trivial,omitempty"`
	Hash    uint64         `json:"hash"`
	Inter   uint64         `json:"inter"`
	Steps   int64          `json:"steps"`
	Switch  int64          `json:"switches"`
	Preempt int64          `json:"preempts"`
	SimNs   int64          `json:"sim_ns"`
	Fired   map[string]int `json:"fired,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	Ends    map[string]int `json:"ends,omitempty"`
	Forced  []simrt.Pre    `json:"forced,omitempty"`
	Trace   []simrt.Trace  `json:"trace,omitempty"`
	Events  []string       `json:"events,omitempty"`
	Unknown int            `json:"unknown,omitempty"`
	More    []Violation    `json:"more,omitempty"` // further classes
}

// Violation is one broken rule.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Pick makes the first violation that matches f the result's own and tells
// whether there is one.
func (r *Result) Pick(f func(class string) bool) bool {
	if r.Class == "" {
		return false
	}
	if f(r.Class) {
		return true
	}
	for i, v := range r.More {
		if f(v.Class) {
			r.More[i] = Violation{r.Class, r.Msg}
			r.Class, r.Msg = v.Class, v.Msg
			return true
		}
	}
	return false
}

// Ctx is what a scenario sees while it runs.
type Ctx struct {
	Plan  *Plan
	R     *rng.R // for content the plan does not spell out; seeded by the plan
	res   *Result
	h     uint64
	sims  int
	fired [64]counter
	probe [64]counter
	keep  bool
	races int
}

type counter struct {
	k string
	n int
}

//go:norace
func bump(cs *[64]counter, k string, d int) {
	for i := range cs {
		if cs[i].k == k {
			cs[i].n += d
			return
		}
		if cs[i].k == "" {
			cs[i].k = k
			cs[i].n = d
			return
		}
	}
}

// Fire counts a fault which actually happened. Callable from tasks.
func (c *Ctx) Fire(kind string) { bump(&c.fired, kind, 1) }

// Probe counts a rare condition reached. Callable from tasks.
func (c *Ctx) Probe(k string) { bump(&c.probe, k, 1) }

// Fail records a violation (the first one counts). Main goroutine only.
func (c *Ctx) Fail(class, f string, a ...any) {
	if c.res.Class == "" {
		c.res.Class = class
		c.res.Msg = short(fmt.Sprintf(f, a...))
		return
	}
	if class == c.res.Class || len(c.res.More) > 20 {
		return
	}
	for _, v := range c.res.More {
		if v.Class == class {
			return
		}
	}
	c.res.More = append(c.res.More, Violation{class, short(fmt.Sprintf(f, a...))})
}

// Failed tells whether a violation was recorded.
func (c *Ctx) Failed() bool { return c.res.Class != "" }

func short(s string) string {
	if len(s) > 4000 {
		return s[:4000] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// Unknown notes an inconclusive oracle.
func (c *Ctx) Unknown() { c.res.Unknown++ }

// Trivial marks the run as not exercising anything.
func (c *Ctx) Trivial() { c.res.Trivial = true }

// Log adds one event to the run's event log.
func (c *Ctx) Log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.h = rng.Mix(c.h, rng.HashString(s))
	if c.keep && len(c.res.Events) < 400 {
		c.res.Events = append(c.res.Events, s)
	}
}

// TraceOn makes runs record their switches.
var TraceOn bool

// Sim runs tasks under the plan's schedule and faults.
func (c *Ctx) Sim(tasks []func(), mod ...func(*simrt.Config)) simrt.Outcome {
	p := c.Plan
	cfg := simrt.Config{Sched: p.Sched, Cap: p.Cap, Tick: p.Tick, Trace: TraceOn}
	for _, f := range p.Faults {
		switch f.Kind {
		case "stall", "freeze", "gc":
			cfg.Faults = append(cfg.Faults, simrt.TaskFault{Kind: f.Kind, Task: f.Task, At: f.At, Arg: f.Arg})
		case "clock":
			cfg.Clock = append(cfg.Clock, simrt.ClockFault{At: f.At, Jump: f.Arg})
		}
	}
	sort.SliceStable(cfg.Faults, func(i, j int) bool { return cfg.Faults[i].At < cfg.Faults[j].At })
	sort.SliceStable(cfg.Clock, func(i, j int) bool { return cfg.Clock[i].At < cfg.Clock[j].At })
	for _, m := range mod {
		m(&cfg)
	}
	o := simrt.Run(cfg, tasks)
	c.account(o)
	c.sims++
	c.res.Forced = append([]simrt.Pre(nil), o.Forced...)
	c.res.Trace = append(c.res.Trace, o.Trace...)
	c.Log("sim end=%s steps=%d switches=%d hash=%x stop=%q", o.End, o.Steps, o.Switches, o.Hash, o.Stop)
	for _, s := range o.Panics {
		c.Log("uncaught panic: %s", s)
	}
	return o
}

// Solo runs one function as the only task of a simulation of its own: the
// sequential reference execution. An uncaught panic is returned.
func (c *Ctx) Solo(fn func()) (panicked string) {
	o := simrt.Run(simrt.Config{Cap: 50000000, Sched: simrt.Sched{Seed: 1, Q: 1 << 30, Replay: true}}, []func(){fn})
	if o.End != "done" {
		return "solo run ended in " + o.End + " " + strings.Join(o.Stuck, ", ") + o.Stop
	}
	if len(o.Panics) > 0 {
		return o.Panics[0]
	}
	return ""
}

func (c *Ctx) account(o simrt.Outcome) {
	r := c.res
	r.Steps += o.Steps
	r.Switch += o.Switches
	r.Preempt += o.Preempts
	r.SimNs += o.SimNs
	r.Inter = rng.Mix(r.Inter, o.Hash)
	if r.Ends == nil {
		r.Ends = map[string]int{}
	}
	r.Ends[o.End]++
	if o.Stalls > 0 {
		bump(&c.fired, "task-stall", o.Stalls)
	}
	if o.GCs > 0 {
		bump(&c.fired, "garbage-collection", o.GCs)
	}
	if o.Freezes > 0 {
		bump(&c.fired, "task-crash", o.Freezes)
	}
	if o.Jumps > 0 {
		bump(&c.fired, "clock-jump", o.Jumps)
	}
}

// Try runs fn and returns the panic text, "" if none. Callable from tasks.
func Try(fn func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	fn()
	return ""
}

// Scenario is a kind of run.
type Scenario struct {
	Name string
	Gen  func(r *rng.R, tier string) *Plan
	Run  func(c *Ctx)
}

var scenarios = map[string]*Scenario{}

// Register adds a scenario to this binary.
func Register(name string, gen func(r *rng.R, tier string) *Plan, run func(c *Ctx)) {
	scenarios[name] = &Scenario{name, gen, run}
}

// RunPlan executes one plan.
func RunPlan(p *Plan, keep bool) *Result {
	sc := scenarios[p.Scenario]
	if sc == nil {
		fatal("unknown scenario %q", p.Scenario)
	}
	res := &Result{}
	c := &Ctx{Plan: p, R: rng.New(rng.Mix(p.Seed, 77)), res: res, keep: keep}
	before := simrt.RaceErrors()
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fail("panic", "uncaught panic: %v\n%s", e, debug.Stack())
			}
		}()
		sc.Run(c)
	}()
	if d := simrt.RaceErrors() - before; d > 0 {
		c.Fail("race", "the race detector reported %d data race(s) between operations the library must order", d)
	}
	res.Hash = rng.Mix(c.h, res.Inter, rng.HashString(res.Class))
	res.Fired, res.Probes = map[string]int{}, map[string]int{}
	for _, x := range c.fired {
		if x.k != "" {
			res.Fired[x.k] += x.n
		}
	}
	for _, x := range c.probe {
		if x.k != "" {
			res.Probes[x.k] += x.n
		}
	}
	return res
}

// PlanFor generates the plan of run i.
func PlanFor(prop, scenario string, seed uint64, i int, tier string) *Plan {
	sc := scenarios[scenario]
	if sc == nil {
		fatal("unknown scenario %q", scenario)
	}
	s := rng.Mix(seed, rng.HashString(scenario), uint64(i))
	p := sc.Gen(rng.New(s), tier)
	p.Scenario = scenario
	p.Seed = s
	p.Run = i
	return p
}

// Batch is what a worker reports.
type Batch struct {
	Runs      int            `json:"runs"`
	Trivial   int            `json:"trivial"`
	Hashes    []uint64       `json:"hashes"` // interleavings of the nontrivial runs
	Digest    uint64         `json:"digest"` // of all results, for determinism checks
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	Preempts  int64          `json:"preempts"`
	SimNs     int64          `json:"sim_ns"`
	Unknown   int            `json:"unknown"`
	Fired     map[string]int `json:"fired"`
	Probes    map[string]int `json:"probes"`
	Ends      map[string]int `json:"ends"`
	Samples   []any          `json:"samples"`
	SitesHit  []int          `json:"sites_hit"`
	Violation *Found         `json:"violation,omitempty"`
	Other     map[string]int `json:"other,omitempty"` // classes seen that belong to other properties
	CutShort  bool           `json:"cut_short,omitempty"`
	Next      int            `json:"next,omitempty"` // a run was cut off and may have left global state behind: go on here in a new process
}

// Found is a violation with the plan that shows it.
type Found struct {
	Run    int     `json:"run"`
	Plan   *Plan   `json:"plan"`
	Result *Result `json:"result"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(3)
}

// Match tells whether a class belongs to the list (prefix match; empty list:
// everything).
func Match(classes []string, class string) bool {
	if len(classes) == 0 || class == "panic" {
		return true
	}
	for _, c := range classes {
		if class == c || strings.HasPrefix(class, c+"/") || strings.HasPrefix(class, c+":") {
			return true
		}
	}
	return false
}

var (
	runStart time.Time
	inRun    = make(chan struct{}, 1)
)

// watchdog ends the process when one run burns far more processor time than
// any run does (the longest takes 3 s), or memory. If the code under test is
// what runs, in a loop with no point where the scheduler could step in, that is
// a call that never returns: the driver replays it before it says so. Anything
// else is an error of the check.
func watchdog(limit time.Duration) {
	go func() {
		var at time.Time
		var cpu0 time.Duration
		for {
			time.Sleep(500 * time.Millisecond)
			t := lastStart()
			if t.IsZero() {
				continue
			}
			if !t.Equal(at) {
				at, cpu0 = t, cpuTime()
				continue
			}
			what := ""
			if d := cpuTime() - cpu0; d > limit {
				what = fmt.Sprintf("did not end in %v of processor time", limit)
			} else if r := rss(); r > 6<<30 {
				what = "took more than 6 GiB of memory"
			} else if time.Since(t) > 10*limit {
				what = fmt.Sprintf("did not end in %v", 10*limit)
			}
			if what == "" {
				continue
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			for _, g := range strings.Split(string(buf), "\n\n") {
				if h, _, _ := strings.Cut(g, "\n"); !strings.Contains(h, "[run") {
					continue
				}
				for _, l := range strings.Split(g, "\n") {
					if strings.HasPrefix(l, "github.com/vipally/gx/") {
						l = l[:strings.LastIndex(l, "(")]
						fmt.Fprintf(os.Stderr, "gxsim-endless: a run %s: the call of %s\n%s\n", what, l, buf)
						os.Exit(3)
					}
				}
			}
			fmt.Fprintf(os.Stderr, "harness error: a run %s\n%s\n", what, buf)
			os.Exit(3)
		}
	}()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

//go:norace
func lastStart() time.Time { return runStart }

//go:norace
func setStart(t time.Time) { runStart = t }

// Main is the worker process.
func Main() {
	mode := flag.String("mode", "batch", "")
	prop := flag.String("prop", "", "")
	scen := flag.String("scenario", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 0, "")
	classes := flag.String("classes", "", "")
	progress := flag.String("progress", "", "")
	budget := flag.Float64("budget", 0, "wall seconds after which a batch stops early")
	dump := flag.Bool("dump", false, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	if *tier == "thorough" {
		watchdog(240 * time.Second)
	} else {
		watchdog(60 * time.Second)
	}
	enc := json.NewEncoder(os.Stdout)
	var cl []string
	if *classes != "" {
		cl = strings.Split(*classes, ",")
	}
	switch *mode {
	case "list":
		var ns []string
		for n := range scenarios {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		enc.Encode(ns)
	case "one":
		// runs the plans given on stdin, in order, and reports the last
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			fatal("%v", err)
		}
		var plans []*Plan
		if err := json.Unmarshal(b, &plans); err != nil {
			fatal("%v", err)
		}
		TraceOn = true
		var res *Result
		for _, p := range plans {
			setStart(time.Now())
			res = RunPlan(p, true)
		}
		enc.Encode(res)
	case "plan":
		enc.Encode(PlanFor(*prop, *scen, *seed, *from, *tier))
	case "batch":
		var pf *os.File
		if *progress != "" {
			var err error
			if pf, err = os.Create(*progress); err != nil {
				fatal("%v", err)
			}
		}
		begin := time.Now()
		b := &Batch{Fired: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, Other: map[string]int{}}
		for i := *from; i < *to; i++ {
			if *budget > 0 && time.Since(begin).Seconds() > *budget {
				b.CutShort = true
				break
			}
			if pf != nil {
				pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
			}
			p := PlanFor(*prop, *scen, *seed, i, *tier)
			setStart(time.Now())
			r := RunPlan(p, *dump)
			if *dump {
				enc.Encode(r)
			}
			b.Runs++
			if r.Trivial {
				b.Trivial++
			} else {
				b.Hashes = append(b.Hashes, rng.Mix(r.Inter, r.Hash))
			}
			b.Digest = rng.Mix(b.Digest, r.Hash, uint64(r.Steps))
			b.Steps += r.Steps
			b.Switches += r.Switch
			b.Preempts += r.Preempt
			b.SimNs += r.SimNs
			b.Unknown += r.Unknown
			for k, v := range r.Fired {
				b.Fired[k] += v
			}
			for k, v := range r.Probes {
				b.Probes[k] += v
			}
			for k, v := range r.Ends {
				b.Ends[k] += v
			}
			if len(b.Samples) < 1 && !r.Trivial {
				b.Samples = append(b.Samples, map[string]any{"run": i, "plan": p, "steps": r.Steps, "switches": r.Switch, "fired": r.Fired})
			}
			if r.Class != "" {
				if r.Pick(func(x string) bool { return Match(cl, x) }) {
					b.Violation = &Found{i, p, r}
					break
				}
				b.Other[r.Class]++
			}
			if i+1 < *to && cutOff(r) {
				b.Next = i + 1
				break
			}
		}
		for i, h := range simrt.Hits {
			if h > 0 {
				b.SitesHit = append(b.SitesHit, i)
			}
		}
		enc.Encode(b)
	default:
		fatal("mode?")
	}
}

// cutOff tells whether a simulation of the run ended with tasks inside the
// library.
func cutOff(r *Result) bool {
	for k, n := range r.Ends {
		if k != "done" && n > 0 {
			return true
		}
	}
	return false
}

// Merge adds the counts of a batch that continues this one.
func (b *Batch) Merge(o *Batch) {
	b.Runs += o.Runs
	b.Trivial += o.Trivial
	b.Hashes = append(b.Hashes, o.Hashes...)
	b.Digest = rng.Mix(b.Digest, o.Digest)
	b.Steps += o.Steps
	b.Switches += o.Switches
	b.Preempts += o.Preempts
	b.SimNs += o.SimNs
	b.Unknown += o.Unknown
	for k, v := range o.Fired {
		b.Fired[k] += v
	}
	for k, v := range o.Probes {
		b.Probes[k] += v
	}
	for k, v := range o.Ends {
		b.Ends[k] += v
	}
	for k, v := range o.Other {
		if b.Other == nil {
			b.Other = map[string]int{}
		}
		b.Other[k] += v
	}
	if len(b.Samples) == 0 {
		b.Samples = o.Samples
	}
	b.SitesHit = append(b.SitesHit, o.SitesHit...)
	b.Violation = o.Violation
	b.CutShort = b.CutShort || o.CutShort
	b.Next = o.Next
}

// StopFail ends the simulation with a violation. Callable from tasks.
func StopFail(class, f string, a ...any) {
	simrt.Stop(class + "|" + fmt.Sprintf(f, a...))
}

// Stopped turns a run that was stopped by an invariant into a violation and
// reports whether it was.
func (c *Ctx) Stopped(o simrt.Outcome) bool {
	if o.End != "stopped" {
		return false
	}
	cl, msg, _ := strings.Cut(o.Stop, "|")
	c.Fail(cl, "%s", msg)
	return true
}

// GenStalls adds up to n stalls of random tasks.
func GenStalls(p *Plan, r *rng.R, n int, maxAt, maxLen int) {
	for i := r.N(n + 1); i > 0; i-- {
		p.AddFault("stall", r.N(len(p.Tasks)), int64(r.N(maxAt)), int64(1+r.N(maxLen)))
	}
}
