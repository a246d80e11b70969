// Harness for the isolation of distinct objects, and for common objects that
// are only read (C29).
package main

//go:debug cryptocustomrand=1
//go:debug rsa1024min=0

import (
	"fmt"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simos"
)

func main() {
	core.Register("own", genOwn, runOwn)
	core.Register("shared-read", genShared, runShared)
	core.Main()
}

// record is what one worker saw.
type record struct {
	lines []string
	skip  string // why the worker could not finish
}

func (l *record) log(f string, a ...any) { l.lines = append(l.lines, fmt.Sprintf(f, a...)) }

func genOwn(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 200000000}
	one := -1
	if r.P(0.6) { // several tasks with the same kind of object
		one = r.N(len(workers))
	}
	for t, n := 0, r.Range(2, 5); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 3); k > 0; k-- {
			w := one
			if w < 0 || r.P(0.15) {
				w = r.N(len(workers))
			}
			seed := int64(r.U64() >> 1)
			n, big := r.Range(1, 12), 0
			if r.P(0.08) {
				big = 1
				if r.P(0.3) {
					n = r.Range(20, 80)
				}
			}
			ops = append(ops, core.Op{K: workers[w].name, A: []int64{seed, int64(n), int64(big)}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.3) {
		core.GenStalls(p, r, 3, 200, 500)
	}
	return p
}

func find(n string) worker {
	for _, w := range workers {
		if w.name == n {
			return w.fn
		}
	}
	return nil
}

// act runs the work of one task.
func act(t int, ops []core.Op, l *record) {
	for i, o := range ops {
		w := find(o.K)
		if w == nil {
			continue
		}
		l.log("work %d %s", i, o.K)
		if p := core.Try(func() {
			w(&job{r: rng.New(uint64(o.Arg(0))), n: int(o.Arg(1)), big: o.Arg(2) != 0, dir: fmt.Sprintf("/data/t%d-%d", t, i), log: l.log})
		}); p != "" {
			l.log("panic: %s", p)
		}
	}
}

func runOwn(c *core.Ctx) {
	tasks := c.Plan.Tasks
	simos.Reset().PutDir("/data")
	solo := func() []record {
		out := make([]record, len(tasks))
		for t := range tasks {
			if p := c.Solo(func() { act(t, tasks[t], &out[t]) }); p != "" {
				out[t].skip = p
			}
		}
		return out
	}
	before := solo()
	together := make([]record, len(tasks))
	var fns []func()
	for t := range tasks {
		fns = append(fns, func() { act(t, tasks[t], &together[t]) })
	}
	if len(fns) < 2 {
		c.Trivial()
	}
	o := c.Sim(fns)
	if o.End == "reccap" {
		return
	}
	if o.End != "done" {
		for t := range before {
			if before[t].skip != "" {
				c.Unknown()
				return
			}
		}
		c.Fail("iso/hang", "tasks with objects of their own did not end: %s", o.End)
		return
	}
	after := solo()
	for t := range tasks {
		if before[t].skip != "" || after[t].skip != "" {
			c.Fail("iso/hang", "task %d did not end alone: %s%s", t, before[t].skip, after[t].skip)
			continue
		}
		diff(c, t, "together with others", &before[t], &together[t])
		diff(c, t, "alone again", &before[t], &after[t])
		for _, s := range together[t].lines {
			c.Log("%d %s", t, s)
		}
	}
}

func diff(c *core.Ctx, t int, when string, a, b *record) {
	for i := 0; i < len(a.lines) || i < len(b.lines); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a.lines) {
			x = a.lines[i]
		}
		if i < len(b.lines) {
			y = b.lines[i]
		}
		if x != y {
			c.Fail("iso/differs", "task %d, line %d, alone: %.200s; %s: %.200s", t, i, x, when, y)
			return
		}
	}
}

func genShared(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 200000000}
	p.Set("kind", r.N(len(shared)))
	p.Set("seed", r.N(1<<30))
	for t, n := 0, r.Range(2, 5); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 10); k > 0; k-- {
			ops = append(ops, core.Op{K: "read", A: []int64{int64(r.N(1 << 30))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.3) {
		core.GenStalls(p, r, 3, 200, 500)
	}
	return p
}

func runShared(c *core.Ctx) {
	tasks := c.Plan.Tasks
	k := c.Plan.Int("kind")
	if k < 0 || k >= len(shared) || len(tasks) == 0 {
		c.Trivial()
		return
	}
	simos.Reset().PutDir("/data")
	var read reader
	if p := c.Solo(func() {
		read = shared[k].fn(&job{r: rng.New(uint64(c.Plan.Int("seed"))), dir: "/data/s"})
	}); p != "" {
		c.Fail("iso/hang", "%s: building alone: %s", shared[k].name, p)
		return
	}
	act := func(ops []core.Op, l *record) {
		for i, o := range ops {
			l.log("read %d", i)
			if p := core.Try(func() { read(&job{r: rng.New(uint64(o.Arg(0))), log: l.log}) }); p != "" {
				l.log("panic: %s", p)
			}
		}
	}
	// read together first, so that no read alone can have settled anything
	together := make([]record, len(tasks))
	var fns []func()
	for t := range tasks {
		fns = append(fns, func() { act(tasks[t], &together[t]) })
	}
	o := c.Sim(fns)
	if o.End == "reccap" {
		return
	}
	if o.End != "done" {
		c.Fail("iso/hang", "%s: readers did not end: %s", shared[k].name, o.End)
		return
	}
	var fresh reader
	c.Solo(func() {
		fresh = shared[k].fn(&job{r: rng.New(uint64(c.Plan.Int("seed"))), dir: "/data/s"})
	})
	for t := range tasks {
		for _, again := range []bool{false, true} {
			var alone record
			if again {
				read = fresh
			}
			if p := c.Solo(func() { act(tasks[t], &alone) }); p != "" {
				c.Fail("iso/hang", "%s: reader %d did not end alone: %s", shared[k].name, t, p)
				return
			}
			diff(c, t, "together with other readers", &alone, &together[t])
		}
		for _, s := range together[t].lines {
			c.Log("%d %s", t, s)
		}
	}
}
