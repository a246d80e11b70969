// Harness for the spin locks: C01 to C04.
package main

import (
	"fmt"
	"strings"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	gsync "github.com/vipally/gx/sync"
)

func main() {
	core.Register("spin", genSpin, runSpin)
	core.Register("rw", genRW, runRW)
	core.Register("rw-share", genShare, runShare)
	core.Register("long-hold", genLong, runLong)
	core.Register("long-late", genLate, runLate)
	core.Register("misuse-race", genMisuse, runMisuse)
	core.Register("misuse-seq", genMisuseSeq, runMisuseSeq)
	core.Register("misuse-mix", genMisuseMix, runMisuseMix)
	core.Main()
}

// guarded is the data a lock protects. a and b are plain variables: the lock
// alone must order accesses to them. The cells are the oracle's shadow.
type guarded struct {
	a, b    int
	writers simrt.Cell
	readers simrt.Cell
	shadow  simrt.Cell
}

func (g *guarded) write(class string, work int) {
	if w, r := g.writers.Add(1), g.readers.Get(); w != 1 || r != 0 {
		core.StopFail(class+"excl", "a writer entered while %d other writer(s) and %d reader(s) were inside", w-1, r)
	}
	v := g.a
	if int64(v) != g.shadow.Get() {
		core.StopFail(class+"excl", "a holder read %d although %d writes happened before it entered: an update was lost", v, g.shadow.Get())
	}
	for i := 0; i < work; i++ {
		simrt.YS()
	}
	g.a = v + 1
	simrt.YS()
	g.b = v + 1
	g.shadow.Add(1)
	if w, r := g.writers.Get(), g.readers.Get(); w != 1 || r != 0 {
		core.StopFail(class+"excl", "%d writers and %d readers inside together", w, r)
	}
	g.writers.Add(-1)
}

func (g *guarded) read(class string, work int) {
	g.readers.Add(1)
	if w := g.writers.Get(); w != 0 {
		core.StopFail(class+"excl", "a reader entered while %d writer(s) were inside", w)
	}
	v := g.a
	for i := 0; i < work; i++ {
		simrt.YS()
	}
	u := g.b
	if v != u || int64(v) != g.shadow.Get() {
		core.StopFail(class+"excl", "a reader saw %d and %d although %d writes were complete", v, u, g.shadow.Get())
	}
	if w := g.writers.Get(); w != 0 {
		core.StopFail(class+"excl", "a writer entered while a reader was inside")
	}
	g.readers.Add(-1)
}

// rwlock is what both locks offer here.
type rwlock interface {
	Lock()
	Unlock()
	RLock()
	RUnlock()
}

type spin struct{ gsync.SpinLock }

func (s *spin) RLock()   { s.Lock() }
func (s *spin) RUnlock() { s.Unlock() }

func genSpin(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 2000000}
	n, m := r.Range(2, 6), 5
	if r.P(0.04) {
		n, m = r.Range(7, 24), 2
	}
	x := r.N(2500)
	if x < 4 { // a crowd waits while the first holder is busy
		n, m = r.Range(200, 400), 1
		p.Cap = 40000000
	}
	for i := 0; i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, m); k > 0; k-- {
			ops = append(ops, core.Op{K: "w", A: []int64{int64(r.N(4))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Set("rw", 0)
	if x < 4 {
		for i := range p.Tasks {
			p.Tasks[i][0].A[0] = int64(r.Pick(0, 0, 0, 200))
		}
		return p
	}
	if x < 6 { // a long history of use
		p.Tasks = p.Tasks[:2]
		for i := range p.Tasks {
			p.Tasks[i] = p.Tasks[i][:1]
			p.Tasks[i][0].A = []int64{0, int64(r.Range(1000, 50000))}
		}
		p.Sparse(r)
		return p
	}
	faults(p, r)
	return p
}

func faults(p *core.Plan, r *rng.R) {
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 60, 6000)
	}
	if r.P(0.08) {
		p.AddFault("freeze", r.N(len(p.Tasks)), int64(r.N(60)), 0)
	}
}

func genRW(r *rng.R, tier string) *core.Plan {
	p := genSpin(r, tier)
	p.Set("rw", 1)
	for _, ops := range p.Tasks {
		for i := range ops {
			if r.P(0.55) {
				ops[i].K = "r"
			}
		}
	}
	return p
}

func newLock(rw bool) rwlock {
	if rw {
		return &gsync.RWSpinLock{}
	}
	return &spin{}
}

func runSpin(c *core.Ctx) { contend(c, false) }
func runRW(c *core.Ctx)   { contend(c, true) }

func contend(c *core.Ctx, rw bool) {
	l := newLock(rw)
	g := &guarded{}
	var tasks []func()
	entered := make([]int, len(c.Plan.Tasks))
	want := 0
	last := &simrt.Cell{} // step at which a task last came through
	for i, ops := range c.Plan.Tasks {
		want += len(ops)
		tasks = append(tasks, func() {
			for _, o := range ops {
				work := int(o.Arg(0))
				for k := max(o.Arg(1), 1); k > 0; k-- {
					var p string
					if o.K == "r" {
						p = core.Try(l.RLock)
					} else {
						p = core.Try(l.Lock)
					}
					if p != "" {
						core.StopFail("progress/gave-up", "a waiter gave up (%s) although the lock was only held briefly", p)
					}
					if o.K == "r" {
						g.read("", work)
						p = core.Try(l.RUnlock)
					} else {
						g.write("", work)
						p = core.Try(l.Unlock)
					}
					if p != "" {
						core.StopFail("misuse/refused-legit", "the release of a held lock was refused: %s", p)
					}
					entered[i]++
					last.Set(simrt.Step())
				}
			}
		})
	}
	if want < 2 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	c.Log("entered %v a=%d b=%d", entered, g.a, g.b)
	if c.Stopped(o) {
		return
	}
	crashed := false
	for _, f := range c.Plan.Faults {
		if f.Kind == "freeze" {
			crashed = true
		}
	}
	if o.End != "done" {
		// a crowd may take its time as long as it moves
		moves := len(tasks) > 100 && last.Get() > o.Steps/2
		if !crashed && !moves && o.End != "reccap" {
			c.Fail("progress/hang", "not every task got the lock although holders always release: %s after %d steps, %v", o.End, o.Steps, o.Stuck)
		}
		return
	}
	if crashed && len(o.Stuck) > 0 {
		return
	}
	if g.a != int(g.shadow.Get()) || g.b != g.a {
		c.Fail("excl", "writes were lost: %d done, data shows %d/%d", g.shadow.Get(), g.a, g.b)
	}
	usable(c, l, rw, "progress/stuck-after")
}

// usable: a lock nobody holds is acquired at once, in every mode.
func usable(c *core.Ctx, l rwlock, rw bool, class string) {
	var p string
	seq := func() {
		for i := 0; i < 2; i++ {
			if p = core.Try(l.Lock); p != "" {
				return
			}
			if p = core.Try(l.Unlock); p != "" {
				return
			}
			if rw {
				if p = core.Try(l.RLock); p != "" {
					return
				}
				if p = core.Try(l.RLock); p != "" {
					return
				}
				if p = core.Try(l.RUnlock); p != "" {
					return
				}
				if p = core.Try(l.RUnlock); p != "" {
					return
				}
			}
		}
	}
	o := simrt.Run(simrt.Config{Cap: 20000, Sched: simrt.Sched{Q: 1 << 30, Replay: true}}, []func(){seq})
	if o.End != "done" || p != "" {
		c.Fail(class, "a lock that nobody holds could not be acquired and released: %s %s", o.End, p)
	}
}

// rw-share: readers hold the lock together.
func genShare(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 6000000}
	n := r.Range(2, 6)
	for i := 0; i < n; i++ {
		p.Tasks = append(p.Tasks, []core.Op{{K: "share"}})
	}
	p.Set("nested", 1)
	switch x := r.N(100); {
	case x < 6:
		p.Set("nested", 300)
	case x > 85:
		p.Set("nested", r.Range(2, 40))
	case x < 9:
		p.Set("nested", 5000)
	case x < 11:
		p.Set("nested", 40000+r.N(40000))
	}
	if p.Int("nested") > 40 {
		p.Sched.PStmt, p.Sched.PSync, p.Sched.Q = 0.0005, 0.0005, 1000
		p.Tasks = p.Tasks[:2]
		p.Cap += int64(p.Int("nested")) * 1000
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 2, 30, 2000)
	}
	p.Set("writer", r.N(2))
	return p
}

func runShare(c *core.Ctx) {
	l := &gsync.RWSpinLock{}
	g := &guarded{}
	n := int64(0)
	for _, t := range c.Plan.Tasks {
		if len(t) > 0 {
			n++
		}
	}
	var holding simrt.Cell
	all := &simrt.CellAtLeast{C: &holding, V: n}
	nested := c.Plan.Int("nested")
	var released simrt.Cell
	var tasks []func()
	for _, ops := range c.Plan.Tasks {
		if len(ops) == 0 {
			tasks = append(tasks, func() {})
			continue
		}
		tasks = append(tasks, func() {
			for k := 0; k < nested; k++ {
				if p := core.Try(l.RLock); p != "" {
					core.StopFail("share", "a reader could not enter although no writer held or wanted the lock: %s", p)
				}
			}
			holding.Add(1)
			for !all.Ready() {
				simrt.Block(all, -1, "other readers")
			}
			v := g.a
			for k := 0; k < nested; k++ {
				if released.Get() < 0 {
					break
				}
				if k == nested-1 {
					released.Add(1)
					if g.a != v {
						core.StopFail("excl", "data changed under a reader")
					}
				}
				if p := core.Try(l.RUnlock); p != "" {
					core.StopFail("misuse/refused-legit", "the release of a held read lock was refused: %s", p)
				}
			}
		})
	}
	if c.Plan.Int("writer") == 1 {
		tasks = append(tasks, func() {
			for !all.Ready() {
				simrt.Block(all, -1, "readers")
			}
			if p := core.Try(l.Lock); p != "" {
				core.StopFail("progress/gave-up", "a writer gave up: %s", p)
			}
			if released.Get() < n {
				core.StopFail("excl", "a writer entered while %d of %d readers still held the lock", n-released.Get(), n)
			}
			g.a++
			if p := core.Try(l.Unlock); p != "" {
				core.StopFail("misuse/refused-legit", "the release of a held write lock was refused: %s", p)
			}
		})
	}
	if n < 2 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	if c.Stopped(o) {
		return
	}
	if o.End != "done" {
		if o.End != "reccap" {
			cl := "share"
			if holding.Get() >= n {
				cl = "progress/hang"
			}
			c.Fail(cl, "%d of %d readers got in together: %s %v", holding.Get(), n, o.End, o.Stuck)
		}
		return
	}
	usable(c, l, true, "progress/stuck-after")
}

// long-hold: the holders keep the lock longer than any waiter is prepared to
// spin. Nobody may enter in a mode that excludes the holders; waiters give up
// by panicking; afterwards the holders still hold the lock, can release it,
// and it works for everybody else.
func genLong(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Cap: 900000000}
	p.Sched = simrt.Sched{Seed: r.U64(), Q: 1 << 20}
	if r.P(0.5) {
		p.Sched.Q = 1 << r.Range(8, 18)
	}
	x := r.N(8)
	p.Set("rw", min(x, 1))
	p.Set("abandon", r.N(4)/3)
	p.Set("seed2", int(r.U64()>>2))
	hold := "w"
	n := 1
	if x > 2 {
		hold, n = "r", r.Range(1, 3)
	}
	var ops []core.Op
	for i := 0; i < n; i++ {
		ops = append(ops, core.Op{K: hold})
	}
	p.Tasks = append(p.Tasks, ops)
	for i, n := 0, 1+r.N(8)/5+r.N(8)/7; i < n; i++ {
		w := core.Op{K: "w"}
		if p.Int("rw") == 1 && (hold == "w" || i > 0) && r.P(0.5) {
			w.K = "r"
		}
		p.Tasks = append(p.Tasks, []core.Op{w})
	}
	return p
}

func runLong(c *core.Ctx) {
	rw := c.Plan.Int("rw") == 1
	l := newLock(rw)
	acquire := func(m string) string {
		if m == "r" {
			return core.Try(l.RLock)
		}
		return core.Try(l.Lock)
	}
	release := func(m string) string {
		if m == "r" {
			return core.Try(l.RUnlock)
		}
		return core.Try(l.Unlock)
	}
	holds := c.Plan.Tasks[0]
	if len(holds) == 0 {
		c.Trivial()
		return
	}
	mode := holds[0].K
	desc := "spin lock"
	if rw {
		desc = "reader-writer lock held in mode " + mode
	}
	held := &simrt.Flag{}
	msg := make([]string, len(c.Plan.Tasks))
	gave := 0
	tasks := []func(){func() {
		for range holds {
			if p := acquire(mode); p != "" {
				core.StopFail("progress/gave-up", "a free lock was not acquired: %s", p)
			}
		}
		held.Set()
	}}
	for i, ops := range c.Plan.Tasks[1:] {
		if len(ops) == 0 {
			continue
		}
		m := ops[0].K
		tasks = append(tasks, func() {
			for !held.Ready() {
				simrt.Block(held, -1, "the holder")
			}
			p := acquire(m)
			msg[i+1] = p
			if p != "" {
				gave++
				return
			}
			if mode == "w" || m == "w" {
				core.StopFail("excl", "%s: a waiter entered in mode %s after a long wait although the lock was never released", desc, m)
			}
			if p := release(m); p != "" {
				core.StopFail("progress/damaged", "%s: the release of a read lock was refused: %s", desc, p)
			}
		})
	}
	if len(tasks) < 2 {
		c.Trivial()
	}
	c.Fire("holder-stalled-beyond-spin-limit")
	o := c.Sim(tasks)
	c.Log("%s: waiters: %v", desc, msg)
	if c.Stopped(o) {
		return
	}
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("progress/silent", "%s: a waiter was still spinning silently after %d scheduling steps on a lock that is never released (%s)", desc, o.Steps, o.End)
		}
		return
	}
	for ; gave > 0; gave-- {
		c.Probe("waiter-gave-up")
	}
	// Second phase: the holders still hold the lock, others come, the
	// holders leave (or one of them never does).
	abandon := c.Plan.Int("abandon") == 1
	if abandon && mode == "w" {
		return
	}
	g := &guarded{}
	if mode == "w" {
		g.writers.Set(1)
	} else {
		g.readers.Set(int64(len(holds)))
	}
	seed := uint64(c.Plan.Int("seed2"))
	var more []func()
	for i := range holds {
		if abandon && i == 0 {
			continue
		}
		more = append(more, func() {
			v := g.a
			for k := 0; k < int(seed>>(4*i)&15)*20; k++ {
				simrt.YS()
				if mode == "r" && g.writers.Get() != 0 {
					core.StopFail("excl", "%s: after a waiter gave up a writer entered while a reader was inside", desc)
				}
			}
			if g.a != v {
				core.StopFail("excl", "%s: after a waiter gave up the data changed under a holder", desc)
			}
			if mode == "w" {
				g.writers.Add(-1)
			} else {
				g.readers.Add(-1)
			}
			if p := release(mode); p != "" {
				core.StopFail("progress/damaged", "%s: after a waiter gave up the release of a hold was refused: %s", desc, p)
			}
		})
	}
	for i := 0; i < 1+int(seed>>20&1); i++ {
		more = append(more, func() {
			for k := 0; k < 3; k++ {
				m := "w"
				if rw && (abandon || seed>>(24+3*i+k)&1 == 1) {
					m = "r"
				}
				if p := acquire(m); p != "" {
					core.StopFail("progress/damaged", "%s: after a waiter gave up another call could not get in: %s", desc, p)
				}
				if m == "w" {
					g.write("", 2)
				} else {
					g.read("", 2)
				}
				if p := release(m); p != "" {
					core.StopFail("progress/damaged", "%s: after a waiter gave up a release was refused: %s", desc, p)
				}
			}
		})
	}
	o = simrt.Run(simrt.Config{Cap: 2000000, Sched: simrt.Sched{Seed: seed, Q: 50, PSync: 0.2, PStmt: 0.1}}, more)
	c.Log("second phase: %s %d steps %q", o.End, o.Steps, o.Stop)
	if c.Stopped(o) {
		return
	}
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("progress/stuck-after", "%s: after a waiter gave up the lock no longer works: %s %v", desc, o.End, o.Stuck)
		}
		return
	}
	if abandon {
		var q string
		c.Solo(func() { q = release(mode) })
		if q != "" {
			c.Fail("progress/damaged", "%s: after a waiter gave up the release of a hold was refused: %s", desc, q)
		}
	}
	usable(c, l, rw, "progress/stuck-after")
}

// long-late: the holders leave, and others come, at the very steps at which a
// waiter reaches the end of its patience. How long its patience is is measured
// first. The waiter may still get in or give up; either way nothing is lost.
func genLate(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Cap: 900000000}
	p.Sched = simrt.Sched{Seed: r.U64(), Q: r.Pick(20, 50, 200), PSync: []float64{0.1, 0.3, 0.5}[r.N(3)], PStmt: []float64{0, 0.1, 0.3}[r.N(3)]}
	hold, want, n := "r", "w", r.Range(1, 3)
	switch x := r.N(20); {
	case x < 2:
		hold, n = "w", 1
	case x < 7:
		hold, want, n = "w", "r", 1
	case x < 9:
		p.Set("spin", 1)
		hold, n = "w", 1
	}
	p.Set("before", r.Pick(r.Range(0, 6), r.Range(0, 12), r.Range(0, 24)))
	p.Tasks = append(p.Tasks, []core.Op{{K: want}})
	for i := 0; i < n; i++ {
		p.Tasks = append(p.Tasks, []core.Op{{K: "hold-" + hold, A: []int64{int64(r.Pick(0, 0, r.N(12), r.N(40)))}}})
	}
	for i, n := 0, r.N(3); i < n; i++ {
		w := "w"
		if p.Int("spin") == 0 && r.P(0.4) {
			w = "r"
		}
		p.Tasks = append(p.Tasks, []core.Op{{K: w, A: []int64{int64(r.Pick(0, 0, r.N(12), r.N(40)))}}})
	}
	return p
}

// patience holds how many of its own steps a waiter takes until it gives up.
var patience = map[string]int64{}

func runLate(c *core.Ctx) {
	rw := c.Plan.Int("spin") == 0
	ts := c.Plan.Tasks
	acq := func(l rwlock, m string) string {
		if m == "r" {
			return core.Try(l.RLock)
		}
		return core.Try(l.Lock)
	}
	rel := func(l rwlock, m string) string {
		if m == "r" {
			return core.Try(l.RUnlock)
		}
		return core.Try(l.Unlock)
	}
	if len(ts) < 2 || len(ts[0]) == 0 || len(ts[1]) == 0 || !strings.HasPrefix(ts[1][0].K, "hold-") {
		c.Trivial()
		return
	}
	want, hold := ts[0][0].K, ts[1][0].K[len("hold-"):]
	key := fmt.Sprint(rw, want, hold)
	if _, ok := patience[key]; !ok {
		n := int64(-1)
		l := newLock(rw)
		o := simrt.Run(simrt.Config{Cap: c.Plan.Cap, Sched: simrt.Sched{Q: 1 << 30, Replay: true}}, []func(){func() {
			if acq(l, hold) != "" {
				return
			}
			at := simrt.LocalStep()
			if acq(l, want) != "" {
				n = simrt.LocalStep() - at
			}
		}})
		if o.End != "done" {
			n = -1
		}
		patience[key] = n
	}
	n := patience[key]
	if n < 0 { // long-hold judges that
		c.Trivial()
		return
	}
	desc := "spin lock"
	if rw {
		desc = "reader-writer lock held in mode " + hold
	}
	l := newLock(rw)
	g := &guarded{}
	held := &simrt.CellAtLeast{C: &simrt.Cell{}}
	near := &simrt.TaskAt{}
	use := func(m string, may bool) {
		if p := acq(l, m); p != "" {
			if may {
				c.Probe("waiter-gave-up")
				return
			}
			core.StopFail("progress/damaged", "%s: the holders left while a waiter was giving up; another call could not get in: %s", desc, p)
		}
		if may {
			c.Probe("waiter-got-in")
		}
		if m == "w" {
			g.write("", 2)
		} else {
			g.read("", 2)
		}
		if p := rel(l, m); p != "" {
			core.StopFail("progress/damaged", "%s: the holders left while a waiter was giving up; a release was refused: %s", desc, p)
		}
	}
	tasks := []func(){func() {
		for !held.Ready() {
			simrt.Block(held, -1, "the holders")
		}
		near.L = simrt.LocalStep() + n - int64(c.Plan.Int("before"))
		near.T = simrt.Current()
		use(want, true)
		near.L = 0 // it may have had less patience this time
	}}
	for _, ops := range ts[1:] {
		if len(ops) == 0 {
			continue
		}
		o := ops[0]
		if strings.HasPrefix(o.K, "hold-") {
			held.V++
		}
		tasks = append(tasks, func() {
			m := o.K
			holder := strings.HasPrefix(m, "hold-")
			if holder {
				m = hold
				if p := acq(l, m); p != "" {
					core.StopFail("progress/gave-up", "a free lock was not acquired: %s", p)
				}
				if m == "w" {
					g.writers.Add(1)
				} else {
					g.readers.Add(1)
				}
				held.C.Add(1)
			}
			for !near.Ready() {
				simrt.Block(near, -1, "the waiter to lose patience")
			}
			for i := 0; i < int(o.Arg(0)); i++ {
				simrt.YS()
			}
			if !holder {
				use(m, false)
				return
			}
			if m == "w" {
				g.writers.Add(-1)
			} else {
				if g.writers.Get() != 0 {
					core.StopFail("excl", "%s: a writer entered after a long wait while a reader was inside", desc)
				}
				g.readers.Add(-1)
			}
			if p := rel(l, m); p != "" {
				core.StopFail("progress/damaged", "%s: the release of a hold was refused while a waiter was giving up: %s", desc, p)
			}
		})
	}
	c.Fire("holder-stalled-up-to-spin-limit")
	o := c.Sim(tasks)
	c.Log("%s: %s", desc, o.End)
	if c.Stopped(o) {
		return
	}
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("progress/stuck-after", "%s: the holders left while a waiter was giving up and the lock no longer works: %s %v", desc, o.End, o.Stuck)
		}
		return
	}
	usable(c, l, rw, "progress/stuck-after")
}

// misuse-race: more releases than holds race with each other and with users.
func genMisuse(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 2000000}
	p.Set("rw", r.N(3)) // 0 spin, 1 rw write hold, 2 rw read holds
	holds := 1
	if p.Int("rw") == 2 {
		holds = r.Range(1, 3)
	}
	if r.P(0.15) {
		holds = 0
	}
	p.Set("holds", holds)
	for i, n := 0, holds+r.Range(1, 3); i < n; i++ {
		p.Tasks = append(p.Tasks, []core.Op{{K: "release"}})
	}
	if p.Int("rw") != 0 && r.P(0.4) { // releases in the mode that nobody holds
		for n := r.Range(1, 3); n > 0; n-- {
			p.Tasks = append(p.Tasks, []core.Op{{K: "release-other"}})
		}
	}
	// users whose own misuse is certain
	if p.Int("rw") != 0 && r.P(0.7) {
		n := r.Range(1, 3)
		mix := []string{"r", "w", "r+bad", "w+bad"}
		if r.P(0.4) { // writers queue up behind readers that err
			n = r.Range(3, 4)
			mix = []string{"r+bad", "r+bad", "w", "w", "w"}
		}
		for i := 0; i < n; i++ {
			var ops []core.Op
			for k := r.Range(1, 3); k > 0; k-- {
				ops = append(ops, core.Op{K: r.PickS(mix...), A: []int64{int64(r.N(3)), int64(r.Pick(0, 5, 40))}})
			}
			p.Tasks = append(p.Tasks, ops)
		}
		p.Set("users", 1)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 2, 30, 2000)
	}
	return p
}

func runMisuse(c *core.Ctx) {
	kind := c.Plan.Int("rw")
	l := newLock(kind != 0)
	holds := c.Plan.Int("holds")
	g := &guarded{}
	if p := c.Solo(func() {
		for i := 0; i < holds; i++ {
			if kind == 2 {
				l.RLock()
			} else {
				l.Lock()
			}
		}
	}); p != "" {
		c.Fail("progress/gave-up", "a free lock was not acquired: %s", p)
		return
	}
	var okN, badN simrt.Cell
	rel, other := 0, 0
	users := false
	var tasks []func()
	for _, ops := range c.Plan.Tasks {
		for _, o := range ops {
			if o.K != "release" && o.K != "release-other" {
				users = true
			}
		}
	}
	// With users about, a racing extra release could release a user's own
	// hold; so users start only when all releases have been attempted.
	var attempted simrt.Cell
	for _, ops := range c.Plan.Tasks {
		for _, o := range ops {
			if o.K == "release" {
				rel++
			}
			if o.K == "release-other" {
				other++
			}
		}
	}
	if rel < holds {
		c.Trivial()
		return
	}
	alldone := &simrt.CellAtLeast{C: &attempted, V: int64(rel + other)}
	for _, ops := range c.Plan.Tasks {
		tasks = append(tasks, func() {
			for _, o := range ops {
				if o.K == "release" {
					var p string
					if kind == 2 {
						p = core.Try(l.RUnlock)
					} else {
						p = core.Try(l.Unlock)
					}
					if p == "" {
						okN.Add(1)
					} else {
						badN.Add(1)
					}
					attempted.Add(1)
					continue
				}
				if o.K == "release-other" {
					m, f := "write", l.Unlock
					if kind == 1 {
						m, f = "read", l.RUnlock
					}
					if core.Try(f) == "" {
						core.StopFail("misuse/accepted", "a release of a %s hold was accepted although the lock was never held in that mode", m)
					}
					attempted.Add(1)
					continue
				}
				for !alldone.Ready() {
					simrt.Block(alldone, -1, "the releases")
				}
				work := int(o.Arg(0))
				if o.K[0] == 'r' {
					if p := core.Try(l.RLock); p != "" {
						core.StopFail("misuse/damage", "after refused releases a reader could not enter: %s", p)
					}
					if o.K == "r+bad" {
						g.read("misuse/damage:", work)
						for k := int(o.Arg(1)); k > 0; k-- {
							simrt.YS() // others queue up meanwhile
						}
						if core.Try(l.Unlock) == "" {
							core.StopFail("misuse/accepted", "a write-unlock was accepted while only readers held the lock")
						}
					}
					g.read("misuse/damage:", work)
					if p := core.Try(l.RUnlock); p != "" {
						core.StopFail("misuse/refused-legit", "the release of a held read lock was refused: %s", p)
					}
				} else {
					if p := core.Try(l.Lock); p != "" {
						core.StopFail("misuse/damage", "after refused releases a writer could not enter: %s", p)
					}
					if o.K == "w+bad" {
						if core.Try(l.RUnlock) == "" {
							core.StopFail("misuse/accepted", "a read-unlock was accepted while a writer held the lock")
						}
					}
					g.write("misuse/damage:", work)
					if p := core.Try(l.Unlock); p != "" {
						core.StopFail("misuse/refused-legit", "the release of a held write lock was refused: %s", p)
					}
				}
			}
		})
	}
	o := c.Sim(tasks)
	c.Log("holds=%d released=%d refused=%d", holds, okN.Get(), badN.Get())
	if c.Stopped(o) {
		return
	}
	if int(okN.Get()) > holds {
		c.Fail("misuse/accepted", "%d release(s) of %d hold(s) were accepted", okN.Get(), holds)
	}
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("misuse/damage", "after refused releases the lock no longer works: %s %v", o.End, o.Stuck)
		}
		return
	}
	if int(okN.Get()) != holds {
		c.Fail("misuse/refused-legit", "%d release(s) of %d hold(s) were accepted", okN.Get(), holds)
	}
	_ = users
	c.Fire("unlock-of-unheld")
	usable(c, l, kind != 0, "misuse/damage")
}

// misuse-seq: any sequence of calls, legal or not, against a model.
func genMisuseSeq(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Cap: 2000000, Sched: simrt.Sched{Seed: r.U64(), Q: 1 << 30}}
	p.Set("rw", r.N(4)&1|r.N(2))
	var ops []core.Op
	for i, n := 0, r.Range(3, 40); i < n; i++ {
		ops = append(ops, core.Op{K: r.PickS("L", "U", "RL", "RU", "U", "RU", "RL")})
	}
	p.Tasks = [][]core.Op{ops}
	return p
}

func runMisuseSeq(c *core.Ctx) {
	rw := c.Plan.Int("rw") == 1
	l := newLock(rw)
	w, rd, refused := 0, 0, 0
	o := c.Sim([]func(){func() {
		for i, o := range c.Plan.Tasks[0] {
			k := o.K
			if !rw && k[0] == 'R' {
				k = k[1:]
			}
			switch k {
			case "L":
				if w == 0 && rd == 0 {
					if p := core.Try(l.Lock); p != "" {
						core.StopFail("misuse/damage", "op %d: a lock that nobody holds was not acquired: %s", i, p)
					}
					w = 1
				}
			case "RL":
				if w == 0 {
					if p := core.Try(l.RLock); p != "" {
						core.StopFail("misuse/damage", "op %d: a reader could not enter: %s", i, p)
					}
					rd++
				}
			case "U":
				p := core.Try(l.Unlock)
				if w == 1 && p != "" {
					core.StopFail("misuse/refused-legit", "op %d: the release of a held lock was refused: %s", i, p)
				}
				if w == 0 {
					refused++
					if p == "" {
						core.StopFail("misuse/accepted", "op %d: a write-unlock was accepted with %d readers and no writer holding", i, rd)
					}
				}
				w = 0
			case "RU":
				p := core.Try(l.RUnlock)
				if rd > 0 {
					if p != "" {
						core.StopFail("misuse/refused-legit", "op %d: the release of a held read lock was refused: %s", i, p)
					}
					rd--
				} else {
					refused++
					if p == "" {
						core.StopFail("misuse/accepted", "op %d: a read-unlock was accepted with no reader (writers: %d)", i, w)
					}
				}
			}
		}
		for ; rd > 0; rd-- {
			if p := core.Try(l.RUnlock); p != "" {
				core.StopFail("misuse/refused-legit", "the release of a held read lock was refused: %s", p)
			}
		}
		if w == 1 {
			if p := core.Try(l.Unlock); p != "" {
				core.StopFail("misuse/refused-legit", "the release of a held lock was refused: %s", p)
			}
		}
	}})
	c.Log("refused=%d", refused)
	if refused == 0 {
		c.Trivial()
	} else {
		c.Fire("unlock-of-unheld")
	}
	if c.Stopped(o) {
		return
	}
	if o.End != "done" {
		c.Fail("misuse/damage", "the lock no longer works: %s", o.End)
		return
	}
	usable(c, l, rw, "misuse/damage")
}

// misuse-mix: everybody acquires and releases as they like; what was accepted
// and refused must fit one order of the calls.
func genMisuseMix(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 2000000}
	p.Set("rw", r.Pick(0, 1, 1))
	mix := []string{"w", "w-", "w-"}
	if p.Int("rw") == 1 {
		mix = [][]string{{"w", "r", "w-", "r-"}, {"w", "w-", "w-"}, {"r", "r", "w", "r-", "w-"}, {"r", "r-", "r-", "w"}}[r.N(4)]
	}
	for t, n := 0, r.Range(2, 5); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 4); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS(mix...), A: []int64{int64(r.Pick(0, 0, 2, 10))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 60, 2000)
	}
	return p
}

func runMisuseMix(c *core.Ctx) {
	rw := c.Plan.Int("rw") == 1
	l := newLock(rw)
	hist := make([][]core.LinOp, len(c.Plan.Tasks))
	var tasks []func()
	for t, ops := range c.Plan.Tasks {
		do := func(name string, f func()) {
			call := simrt.Seq()
			p := core.Try(f)
			hist[t] = append(hist[t], core.LinOp{Task: t, Call: call, Ret: simrt.Seq(), Name: name, Out: p == ""})
			if p != "" && name[len(name)-1] != '-' {
				core.StopFail("misuse/damage", "task %d gave up on a lock that everybody releases: %s", t, p)
			}
		}
		tasks = append(tasks, func() {
			for _, o := range ops {
				switch o.K {
				case "w":
					do("w", l.Lock)
				case "r":
					do("r", l.RLock)
				}
				if o.K == "w" || o.K == "r" {
					for k := o.Arg(0); k > 0; k-- {
						simrt.YS()
					}
				}
				if o.K[0] == 'w' {
					do("w-", l.Unlock)
				} else {
					do("r-", l.RUnlock)
				}
			}
		})
	}
	o := c.Sim(tasks)
	if c.Stopped(o) {
		return
	}
	var all []core.LinOp
	for t := range hist {
		for _, x := range hist[t] {
			c.Log("task %d %s %v [%d,%d]", t, x.Name, x.Out, x.Call, x.Ret)
			all = append(all, x)
		}
	}
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("misuse/damage", "somebody waits for ever on a lock that everybody releases: %s %v", o.End, o.Stuck)
		}
		return
	}
	c.Fire("unlock-of-unheld")
	ok, unknown := core.CheckLin("0 0", all, func(st string, x *core.LinOp) (bool, string) {
		var w, r int
		fmt.Sscan(st, &w, &r)
		good := x.Out.(bool)
		switch x.Name {
		case "w":
			return w == 0 && r == 0, fmt.Sprint(1, " ", r)
		case "r":
			return w == 0, fmt.Sprint(w, " ", r+1)
		case "w-":
			if good != (w == 1) {
				return false, st
			}
			return true, fmt.Sprint(0, " ", r)
		}
		if good != (r > 0) {
			return false, st
		}
		if good {
			r--
		}
		return true, fmt.Sprint(w, " ", r)
	}, 200000)
	if unknown {
		c.Unknown()
	}
	if !ok {
		s := ""
		for _, x := range all {
			s += fmt.Sprintf(" task %d %s %v [%d,%d];", x.Task, x.Name, x.Out, x.Call, x.Ret)
		}
		c.Fail("misuse/order", "no order of the calls explains which releases (w- write, r- read) were accepted:%s", s)
		return
	}
	usable(c, l, rw, "misuse/damage")
}
