// Command gxcheck decides one property: it instruments the library from
// /repo's working tree, builds the harness of the property's group, runs the
// seeded simulations in worker processes, minimises and replays what fails,
// and writes the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gxsim/checks"
	"gxsim/core"
	"gxsim/gpinst"
	"gxsim/inst"
	"gxsim/simrt"
)

var (
	repo    = flag.String("repo", "/repo", "")
	verif   = flag.String("verif", "/verif", "")
	work    = flag.String("work", "", "")
	prop    = flag.String("prop", "", "")
	tier    = flag.String("tier", "quick", "")
	seed    = flag.Uint64("seed", 1, "")
	replayF = flag.String("replay", "", "")
	jobs    = flag.Int("j", runtime.NumCPU(), "")
	digest  = flag.Bool("digest", false, "print batch digests only (determinism proof)")
	scale   = flag.Float64("scale", 1, "multiply the number of runs")
	only    = flag.String("scenario", "", "run only this scenario")
	verbose = flag.Bool("v", false, "")
	groupF  = flag.String("build-group", "", "only instrument and build this group into -work")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gxcheck: "+f+"\n", a...)
	os.Exit(3)
}

func note(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

type built struct {
	bin   string
	race  string
	sites []inst.Site
	pkgs  []string
	env   []string
}

func build(g *checks.Group, wantRace bool) *built {
	out := filepath.Join(*work, "gopath", "src")
	opt := inst.Options{Repo: *repo, Out: out, SimRoot: filepath.Join(*verif, "src", "gxsim"), Pkgs: g.Pkgs, OS: g.OS, Windows: g.Windows}
	for _, t := range g.Gp {
		ex, err := gpinst.Instantiate(*repo, t)
		if err != nil {
			die("instantiate %s: %v", t, err)
		}
		opt.Extra = append(opt.Extra, ex...)
	}
	r, err := inst.Run(opt)
	if err != nil {
		die("instrument: %v", err)
	}
	b := &built{bin: filepath.Join(*work, "h_"+g.Name), race: filepath.Join(*work, "h_"+g.Name+"_race"), sites: r.Sites, pkgs: r.Pkgs, env: g.Env}
	env := append(os.Environ(), "GOPATH="+filepath.Join(*work, "gopath")+":"+*verif)
	run := func(args ...string) error {
		c := exec.Command("go", args...)
		c.Env = env
		c.Dir = *work
		o, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, o)
		}
		return nil
	}
	var wg sync.WaitGroup
	var e1, e2 error
	wg.Add(1)
	go func() {
		defer wg.Done()
		e1 = run("build", "-trimpath", "-o", b.bin, "gxsim/h/"+g.Name)
	}()
	if wantRace {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e2 = run("build", "-race", "-trimpath", "-o", b.race, "gxsim/h/"+g.Name)
		}()
	}
	wg.Wait()
	if e1 != nil {
		die("build of the instrumented library failed\n%v", e1)
	}
	if e2 != nil {
		die("race build of the instrumented library failed\n%v", e2)
	}
	return b
}

func (b *built) cmd(ctx context.Context, race bool, args ...string) *exec.Cmd {
	bin := b.bin
	if race {
		bin = b.race
	}
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = *work
	c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(*work, "racelog"),
		"GOTRACEBACK=single")
	c.Env = append(c.Env, b.env...)
	return c
}

type job struct {
	part     int
	race     bool
	from, to int
}

type jobOut struct {
	job
	b    *core.Batch
	err  string
	died int // run index at which the process died, -1
	// first run of the process that found the violation
	vfrom int
	wall  float64
}

// runJob runs a batch, in as many processes as it takes: a process ends after
// a run that was cut off inside the library.
func (b *built) runJob(c *checks.Check, j job) jobOut {
	r := b.runPart(c, j)
	sub := j
	for r.b != nil && r.b.Violation == nil && r.b.Next > 0 {
		sub.from = r.b.Next
		x := b.runPart(c, sub)
		r.wall += x.wall
		if x.b == nil {
			r.b, r.err, r.died = nil, x.err, x.died
			return r
		}
		r.b.Merge(x.b)
	}
	r.vfrom = sub.from
	return r
}

func (b *built) runPart(c *checks.Check, j job) jobOut {
	p := c.Parts[j.part]
	pf := filepath.Join(*work, fmt.Sprintf("prog_%d_%v_%d", j.part, j.race, j.from))
	ctx, cancel := context.WithTimeout(context.Background(), 780*time.Second)
	if *tier == "thorough" {
		cancel()
		ctx, cancel = context.WithTimeout(context.Background(), 6*time.Hour)
	}
	defer cancel()
	cl := append([]string(nil), p.Classes...)
	cm := b.cmd(ctx, j.race, "-mode", "batch", "-prop", c.Prop, "-scenario", p.Scenario, "-tier", *tier,
		"-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(j.from), "-to", strconv.Itoa(j.to),
		"-classes", strings.Join(cl, ","), "-progress", pf)
	var so, se bytes.Buffer
	cm.Stdout, cm.Stderr = &so, &se
	t0 := time.Now()
	err := cm.Run()
	r := jobOut{job: j, died: -1, wall: time.Since(t0).Seconds()}
	if err != nil {
		r.err = fmt.Sprintf("%v: %s", err, tail(se.String(), 3000))
		if pb, e := os.ReadFile(pf); e == nil {
			if n, e := strconv.Atoi(strings.TrimSpace(string(pb))); e == nil {
				r.died = n
			}
		}
		return r
	}
	r.b = &core.Batch{}
	if e := json.Unmarshal(so.Bytes(), r.b); e != nil {
		r.b = nil
		r.err = "bad worker output: " + e.Error() + tail(so.String(), 300)
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// one runs plans in a fresh process and returns the last result; a process
// that dies of a Go fatal error gives class "fatal".
func (b *built) one(race bool, plans []*core.Plan) (*core.Result, error) {
	in, _ := json.Marshal(plans)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cm := b.cmd(ctx, race, "-mode", "one")
	cm.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cm.Stdout, cm.Stderr = &so, &se
	if err := cm.Run(); err != nil {
		if f := fatalLine(se.String()); f != "" {
			if m, ok := strings.CutPrefix(f, endless); ok {
				return &core.Result{Class: "endless", Msg: m}, nil
			}
			return &core.Result{Class: "fatal", Msg: "the process died: " + f}, nil
		}
		return nil, fmt.Errorf("%v: %s", err, tail(se.String(), 2000))
	}
	r := &core.Result{}
	if err := json.Unmarshal(so.Bytes(), r); err != nil {
		return nil, err
	}
	return r, nil
}

// fatalLine recognises a death of the Go runtime caused by the code under test
// (stack overflow, concurrent map access, a memory fault); anything else is an
// error of the check.
func fatalLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: stack overflow") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") ||
			strings.HasPrefix(l, "fatal error: concurrent map") || strings.Contains(l, "found bad pointer in Go heap") ||
			strings.HasPrefix(l, endless) ||
			strings.Contains(l, "checkptr:") || strings.Contains(l, "unexpected fault address") {
			return l
		}
	}
	return ""
}

// endless starts the line with which a worker reports a call that never ends.
const endless = "gxsim-endless: "

func has(r *core.Result, class string) bool {
	return r.Pick(func(c string) bool { return c == class })
}

type replay struct {
	Property string       `json:"property"`
	Group    string       `json:"group"`
	Class    string       `json:"class"`
	Message  string       `json:"message"`
	Race     bool         `json:"race"`
	Seed     uint64       `json:"seed"`
	Run      int          `json:"run"`
	Runs     []*core.Plan `json:"runs"`
	Schedule []string     `json:"schedule_trace"`
	Events   []string     `json:"event_log"`
	RaceLog  string       `json:"race_report,omitempty"`
	Hash     uint64       `json:"hash"`
	Shrunk   string       `json:"shrunk"`
}

func clone(p *core.Plan) *core.Plan {
	b, _ := json.Marshal(p)
	q := &core.Plan{}
	json.Unmarshal(b, q)
	return q
}

func size(p *core.Plan) (ops, faults, pre int) {
	for _, t := range p.Tasks {
		ops += len(t)
	}
	return ops, len(p.Faults), len(p.Sched.Forced)
}

// minimise drops preemptions, faults, tasks and operations while the same
// class of violation stays.
func (b *built) minimise(race bool, p *core.Plan, class string) *core.Plan {
	best := clone(p)
	end := time.Now().Add(25 * time.Second)
	tries := 0
	over := func() bool { return time.Now().After(end) || tries > 500 }
	fails := func(q *core.Plan) bool {
		if over() {
			return false
		}
		tries++
		r, err := b.one(race, []*core.Plan{q})
		return err == nil && has(r, class)
	}
	chunked := func(n int, without func(lo, hi int) *core.Plan) {
		for sz := n; sz >= 1; sz /= 2 {
			for lo := 0; lo < n; {
				if over() {
					return
				}
				hi := lo + sz
				if hi > n {
					hi = n
				}
				if hi > lo {
					if q := without(lo, hi); q != nil && fails(q) {
						best = q
						n -= hi - lo
						continue
					}
				}
				lo = hi
			}
		}
	}
	for round := 0; round < 3; round++ {
		o0, f0, p0 := size(best)
		for t := range best.Tasks {
			if len(best.Tasks[t]) > 0 {
				q := clone(best)
				q.Tasks[t] = []core.Op{}
				if fails(q) {
					best = q
				}
			}
		}
		chunked(len(best.Faults), func(lo, hi int) *core.Plan {
			q := clone(best)
			q.Faults = append(q.Faults[:lo:lo], q.Faults[hi:]...)
			return q
		})
		chunked(len(best.Sched.Forced), func(lo, hi int) *core.Plan {
			q := *best
			q.Sched.Forced = append(best.Sched.Forced[:lo:lo], best.Sched.Forced[hi:]...)
			return &q
		})
		for t := range best.Tasks {
			chunked(len(best.Tasks[t]), func(lo, hi int) *core.Plan {
				q := clone(best)
				q.Tasks[t] = append(q.Tasks[t][:lo:lo], q.Tasks[t][hi:]...)
				return q
			})
		}
		o1, f1, p1 := size(best)
		if o1 == o0 && f1 == f0 && p1 == p0 {
			break
		}
	}
	return best
}

func (b *built) siteName(id uint32) string {
	if id >= 1 && int(id) <= len(b.sites) {
		s := b.sites[id-1]
		return s.Pos + " (" + s.Func + ")"
	}
	return "start"
}

func frozen(p *core.Plan, forced []simrt.Pre) *core.Plan {
	q := clone(p)
	q.Sched.Replay = true
	q.Sched.Forced = forced
	return q
}

// confirm reproduces a finding in fresh processes, minimises it and returns
// the replay file's content.
func (b *built) confirm(c *checks.Check, j job, f *core.Found) *replay {
	class := f.Result.Class
	rp := &replay{Property: c.Prop, Group: c.Group, Class: class, Message: f.Result.Msg, Race: j.race, Seed: *seed, Run: f.Run}
	lead := func(k int) []*core.Plan { // the k runs of the same process before this one
		var ps []*core.Plan
		for i := f.Run - k; i < f.Run; i++ {
			if i < j.from {
				continue
			}
			cm := b.cmd(context.Background(), j.race, "-mode", "plan", "-prop", c.Prop, "-scenario", c.Parts[j.part].Scenario,
				"-tier", *tier, "-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(i))
			o, err := cm.Output()
			if err != nil {
				continue
			}
			p := &core.Plan{}
			if json.Unmarshal(o, p) == nil {
				ps = append(ps, p)
			}
		}
		return ps
	}
	try := func(ps []*core.Plan) *core.Result {
		r, err := b.one(j.race, ps)
		if err != nil {
			note("replay attempt: %v", err)
			return nil
		}
		if has(r, class) {
			return r
		}
		return nil
	}
	if class == "endless" { // reproduced once already, at a minute each
		rp.Runs = []*core.Plan{f.Plan}
		rp.Shrunk = "not minimised: each attempt takes the time limit"
		return rp
	}
	fz := frozen(f.Plan, f.Result.Forced)
	if class == "fatal" {
		fz = clone(f.Plan)
	}
	if r := try([]*core.Plan{fz}); r != nil {
		o0, f0, p0 := size(fz)
		m := b.minimise(j.race, fz, class)
		o1, f1, p1 := size(m)
		rp.Runs = []*core.Plan{m}
		rp.Shrunk = fmt.Sprintf("operations %d -> %d, faults %d -> %d, preemptions %d -> %d", o0, o1, f0, f1, p0, p1)
	} else if r := try([]*core.Plan{f.Plan}); r != nil || again(try, f.Plan) {
		rp.Runs = []*core.Plan{f.Plan}
		rp.Shrunk = "not minimised: reproduces from its seed only"
	} else {
		for _, k := range []int{1, 5, 40, 1 << 20} {
			if k > f.Run-j.from {
				k = f.Run - j.from
			}
			ps := append(lead(k), fz)
			if r := try(ps); r != nil {
				rp.Runs = ps
				rp.Shrunk = fmt.Sprintf("needs %d earlier run(s) of the same process", len(ps)-1)
				break
			}
			if k == f.Run-j.from {
				break
			}
		}
	}
	if rp.Runs == nil {
		return nil
	}
	os.Remove(filepath.Join(*work, "racelog"))
	r1 := try(rp.Runs)
	r2 := try(rp.Runs)
	for k := 0; k < 10 && (r1 == nil || r2 == nil); k++ {
		r1, r2 = try(rp.Runs), r1
		if r1 == nil {
			r1, r2 = r2, nil
		}
	}
	if r1 == nil {
		return nil
	}
	if (r2 == nil || r1.Hash != r2.Hash) && !j.race {
		rp.Shrunk += "; the violation replays, but the code under test also depends on something the simulator does not control, so its event log varies"
	}
	rp.Message = r1.Msg
	rp.Hash = r1.Hash
	rp.Events = r1.Events
	for _, t := range r1.Trace {
		rp.Schedule = append(rp.Schedule, fmt.Sprintf("step %d: task %d %s after %s -> task %d", t.Step, t.From, t.Why, b.siteName(t.Site), t.To))
		if len(rp.Schedule) > 300 {
			break
		}
	}
	if j.race {
		if ms, _ := filepath.Glob(filepath.Join(*work, "racelog.*")); len(ms) > 0 {
			sort.Strings(ms)
			if lb, err := os.ReadFile(ms[len(ms)-1]); err == nil {
				rp.RaceLog = tail(string(lb), 4000)
			}
		}
	}
	return rp
}

// again gives a plan that depends on something uncontrolled a few more tries.
func again(try func([]*core.Plan) *core.Result, p *core.Plan) bool {
	for k := 0; k < 8; k++ {
		if try([]*core.Plan{p}) != nil {
			return true
		}
	}
	return false
}

func doReplay() {
	rb, err := os.ReadFile(*replayF)
	if err != nil {
		die("%v", err)
	}
	rp := &replay{}
	if err := json.Unmarshal(rb, rp); err != nil {
		die("%v", err)
	}
	b := build(checks.Groups[rp.Group], rp.Race)
	r, err := b.one(rp.Race, rp.Runs)
	if err != nil {
		die("%v", err)
	}
	fmt.Printf("class=%q message=%q hash=%x recorded=%x\n", r.Class, r.Msg, r.Hash, rp.Hash)
	if has(r, rp.Class) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *replayF)
		os.Exit(1)
	}
	os.Exit(0)
}

type known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Replay   string `json:"replay,omitempty"`
}

func main() {
	flag.Parse()
	if *work == "" {
		die("-work is required")
	}
	if *groupF != "" {
		g := checks.Groups[*groupF]
		if g == nil {
			die("no such group")
		}
		b := build(g, true)
		sb, _ := json.Marshal(b.sites)
		os.WriteFile(filepath.Join(*work, "sites.json"), sb, 0o644)
		return
	}
	if *replayF != "" {
		doReplay()
	}
	start := time.Now()
	c := checks.Checks[*prop]
	if c == nil {
		die("no check for property %q", *prop)
	}
	g := checks.Groups[c.Group]
	if g == nil {
		die("no group %q", c.Group)
	}
	count := func(q, t int) int {
		n := q
		if *tier == "thorough" {
			n = t
		}
		return int(float64(n)**scale + 0.5)
	}
	wantRace := false
	for _, p := range c.Parts {
		if count(p.RaceQ, p.RaceT) > 0 {
			wantRace = true
		}
	}
	b := build(g, wantRace)
	buildS := time.Since(start).Seconds()

	var jobsL []job
	for i, p := range c.Parts {
		if *only != "" && p.Scenario != *only {
			continue
		}
		add := func(n int, race bool) {
			if n == 0 {
				return
			}
			bs := p.Batch
			if bs == 0 {
				bs = (n + 2**jobs - 1) / (2 * *jobs)
				if bs > 2000 {
					bs = 2000
				}
				if race && bs > 300 {
					bs = 300
				}
			}
			for f := 0; f < n; f += bs {
				t := f + bs
				if t > n {
					t = n
				}
				jobsL = append(jobsL, job{i, race, f, t})
			}
		}
		add(count(p.Quick, p.Thorough), false)
		add(count(p.RaceQ, p.RaceT), true)
	}
	outs := make([]jobOut, len(jobsL))
	var mu sync.Mutex
	next, stopAt := 0, len(jobsL)
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= stopAt {
					mu.Unlock()
					return
				}
				k := next
				next++
				mu.Unlock()
				o := b.runJob(c, jobsL[k])
				mu.Lock()
				outs[k] = o
				if (o.b == nil || o.b.Violation != nil) && k+1 < stopAt {
					stopAt = k + 1
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	runWall := time.Since(start).Seconds() - buildS

	if *digest {
		for k, o := range outs[:next] {
			if o.b == nil {
				die("%s", o.err)
			}
			fmt.Printf("%s race=%v [%d,%d) digest=%016x runs=%d\n", c.Parts[jobsL[k].part].Scenario, jobsL[k].race, o.from, o.to, o.b.Digest, o.b.Runs)
		}
		return
	}

	tot := &core.Batch{Fired: map[string]int{}, Probes: map[string]int{}, Ends: map[string]int{}, Other: map[string]int{}}
	uniq := map[uint64]bool{}
	sites := map[int]bool{}
	raceRuns := 0
	perScenario := map[string]int{}
	var found *core.Found
	var foundJob job
	var firstErr string
	var cpu float64
	for k := range outs[:min(next, len(outs))] {
		o := outs[k]
		cpu += o.wall
		if o.b == nil {
			if found == nil && firstErr == "" {
				// a process that died: is it the code under test?
				if o.died >= 0 {
					cm := b.cmd(context.Background(), o.race, "-mode", "plan", "-prop", c.Prop, "-scenario", c.Parts[o.part].Scenario,
						"-tier", *tier, "-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(o.died))
					if ob, err := cm.Output(); err == nil {
						p := &core.Plan{}
						if json.Unmarshal(ob, p) == nil {
							if r, err := b.one(o.race, []*core.Plan{p}); err == nil && (r.Class == "fatal" || r.Class == "endless") {
								found = &core.Found{Run: o.died, Plan: p, Result: r}
								foundJob = o.job
								continue
							}
						}
					}
				}
				firstErr = o.err
			}
			continue
		}
		tot.Runs += o.b.Runs
		perScenario[c.Parts[o.part].Scenario] += o.b.Runs
		if o.race {
			raceRuns += o.b.Runs
		}
		tot.Trivial += o.b.Trivial
		for _, h := range o.b.Hashes {
			uniq[h] = true
		}
		tot.Steps += o.b.Steps
		tot.Switches += o.b.Switches
		tot.Preempts += o.b.Preempts
		tot.SimNs += o.b.SimNs
		tot.Unknown += o.b.Unknown
		for k, v := range o.b.Fired {
			tot.Fired[k] += v
		}
		for k, v := range o.b.Probes {
			tot.Probes[k] += v
		}
		for k, v := range o.b.Ends {
			tot.Ends[k] += v
		}
		for k, v := range o.b.Other {
			tot.Other[k] += v
		}
		for _, s := range o.b.SitesHit {
			sites[s] = true
		}
		if len(tot.Samples) < 3 && o.from == 0 && !o.race {
			tot.Samples = append(tot.Samples, o.b.Samples...)
		}
		if o.b.Violation != nil && found == nil {
			found = o.b.Violation
			foundJob = o.job
			foundJob.from = o.vfrom
		}
	}

	var kf []known
	if kb, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(kb, &kf); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	var shown []string
	for _, k := range kf {
		if k.Property != c.Prop || k.Status != "known" || k.Replay == "" {
			continue
		}
		rb, err := os.ReadFile(filepath.Join(*verif, k.Replay))
		if err != nil {
			die("%v", err)
		}
		rp := &replay{}
		if err := json.Unmarshal(rb, rp); err != nil {
			die("%s: %v", k.Replay, err)
		}
		if rp.Race && !wantRace {
			continue
		}
		if r, err := b.one(rp.Race, rp.Runs); err == nil && has(r, rp.Class) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, k.What)
			shown = append(shown, k.ID+": "+r.Msg)
		} else {
			note("known finding %s does not show on this tree", k.ID)
		}
	}

	viol := 0
	exit := 0
	if found != nil {
		rp := b.confirm(c, foundJob, found)
		if rp == nil {
			firstErr = fmt.Sprintf("a violation of class %s (%s) was seen in run %d but did not reproduce in a fresh process", found.Result.Class, found.Result.Msg, found.Run)
		} else {
			dir := filepath.Join(*verif, "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, c.Prop+".json")
			rb, _ := json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(path, rb, 0o644); err != nil {
				die("%v", err)
			}
			viol = 1
			exit = 1
			fmt.Printf("class: %s\nwhat: %s\nseed: %d run: %d race-detector build: %v\nminimised: %s\n", rp.Class, rp.Message, rp.Seed, rp.Run, rp.Race, rp.Shrunk)
			for i, s := range rp.Schedule {
				if i >= 25 {
					fmt.Printf("  ... (%d more in the replay file)\n", len(rp.Schedule)-i)
					break
				}
				fmt.Printf("  %s\n", s)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		}
	}
	if exit == 0 && firstErr != "" {
		note("gxcheck: %s", firstErr)
		exit = 3
	}
	if exit == 0 && tot.Runs-tot.Trivial == 0 {
		note("gxcheck: every run was trivial")
		exit = 3
	}

	wall := time.Since(start).Seconds()
	samples := tot.Samples
	for i := range samples {
		if sb, err := json.Marshal(samples[i]); err == nil && len(sb) > 6000 {
			samples[i] = string(sb[:6000]) + "... (cut)"
		}
	}
	libSites := map[string]int{}
	for _, s := range b.sites {
		libSites[s.Pos[:strings.LastIndex(s.Pos, "/")]]++
	}
	ev := map[string]any{
		"property": c.Prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"wall_s": wall, "violations": viol,
		"assumptions": append([]string{
			"a clean batch is evidence for the schedules and faults sampled, not a proof",
			"preemption happens at statement boundaries, synchronisation operations and inside read-modify-write statements of the library, not inside the standard library; the race-detector runs cover unsynchronised accesses in between",
		}, c.Assume...),
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": len(uniq),
			"rule":                c.Rule + " Distinct: the hash over all context switches (task, yield point) and the recorded history differs. Non-trivial: the run executed at least one operation under test.",
			"samples":             samples,
			"runs_per_scenario":   perScenario,
			"race_detector_runs":  raceRuns,
			"seeds_per_hour":      int(float64(tot.Runs) / (runWall / 3600)),
			"simulated_seconds":   float64(tot.SimNs) / 1e9,
			"scheduler_steps":     tot.Steps,
			"context_switches":    tot.Switches,
			"random_preemptions":  tot.Preempts,
			"faults_fired":        tot.Fired,
			"probes":              tot.Probes,
			"run_endings":         tot.Ends,
			"oracle_inconclusive": tot.Unknown,
			"yield_points":        map[string]any{"in_instrumented_code": len(b.sites), "reached": len(sites), "per_package": libSites},
			"real_code":           append(append([]string(nil), g.Real...), "instrumented copy of: "+strings.Join(b.pkgs, " ")),
			"stubs":               append([]string{"goroutine scheduling, sync, sync/atomic wrappers, channels, clock and timers (gxsim/simrt, simsync, simatomic, simtime)"}, g.Stub...),
			"known_findings":      shown,
			"other_classes_seen":  tot.Other,
			"build_seconds":       buildS,
		},
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", c.Prop+".json"), eb, 0o644); err != nil {
		die("%v", err)
	}
	if *verbose || exit == 0 {
		fmt.Printf("%s %s: %d runs (%d race-detector), %d distinct, %d steps, faults %v, probes %v, ends %v, unknown %d, other %v, build %.1fs, total %.1fs\n",
			c.Prop, *tier, tot.Runs, raceRuns, len(uniq), tot.Steps, tot.Fired, tot.Probes, tot.Ends, tot.Unknown, tot.Other, buildS, wall)
	}
	os.Exit(exit)
}
