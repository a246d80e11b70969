// Harness for the file lock: C23 and C24. Several simulated processes with one
// or more goroutines each contend for lock files on a simulated Windows file
// table; processes are killed and restarted, calls fail, other programs hold
// the file for a while.
package main

import (
	"fmt"
	"syscall"
	"time"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"
	"gxsim/simwin"

	"github.com/vipally/gx/sync/filelock"
)

func main() {
	core.Register("filelock", gen, run)
	core.Main()
}

var names = []string{`c:\locks\a.lck`, `c:\locks\b.lck`}

const (
	limit    = 3 * time.Minute // a free lock with a waiter is taken within this
	restarts = 100             // process ids of restarted processes
)

func gen(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000, Tick: int64(r.Pick(0, 1000, 100000, 1000000))}
	nf := r.Pick(1, 1, 2)
	np := r.Range(1, 4)
	p.Set("files", nf)
	p.Set("private", r.N(2))
	t := 0
	kill := -1
	if np > 1 && r.P(0.5) {
		kill = r.N(np)
	}
	add := func(proc, n int) {
		for i := 0; i < n; i++ {
			obj := i
			if p.Int("private") == 0 && r.P(0.6) {
				obj = 0
			}
			p.Set(fmt.Sprintf("proc%d", t), proc)
			p.Set(fmt.Sprintf("obj%d", t), obj)
			var ops []core.Op
			for k := r.Range(1, 4); k > 0; k-- {
				switch x := r.N(20); {
				case x == 0:
					ops = append(ops, core.Op{K: "missing"})
				case x == 1:
					ops = append(ops, core.Op{K: "noinit"})
				case x == 2:
					ops = append(ops, core.Op{K: "reinit"})
				case x == 3:
					ops = append(ops, core.Op{K: "pause", A: []int64{int64(r.N(200))}})
				default:
					if r.P(0.3) {
						ops = append(ops, core.Op{K: "extra"})
					}
					h := 0
					if r.P(0.3) {
						h = r.Pick(1, 30, 59, 60, 61, 200, 3600)
					}
					if r.P(0.001) {
						h = r.Pick(20000, 90000, 700000)
						p.Cap = 40000000
					}
					ops = append(ops, core.Op{K: "hold", A: []int64{int64(r.N(6)), int64(h)}})
				}
			}
			p.Tasks = append(p.Tasks, ops)
			t++
		}
	}
	for i := 0; i < np; i++ {
		n := r.Pick(1, 1, 2, 3)
		if np == 1 {
			n = r.Range(2, 4)
		}
		add(i, n)
	}
	if kill >= 0 {
		p.Faults = append(p.Faults, core.Fault{Kind: "kill", Task: kill, At: int64(r.Pick(0, 0, 1, 30, 60, 61, 90, 200)), Arg: int64(r.N(300))})
		if r.P(0.7) {
			add(kill+restarts, r.Range(1, 2))
		}
	}
	for r.P(0.25) {
		p.Faults = append(p.Faults, core.Fault{Kind: "cferr", Task: r.N(t), At: int64(r.N(5)), Arg: int64(r.Pick(2, 3, 4, 5, 5, 8, 33, 53, 1450))})
	}
	if r.P(0.15) {
		p.Faults = append(p.Faults, core.Fault{Kind: "foreign", Task: r.N(nf), At: int64(r.N(150)), Arg: int64(1 + r.N(400))})
	}
	if r.P(0.3) {
		core.GenStalls(p, r, 3, 80, 3000)
	}
	return p
}

type object struct {
	m    filelock.Mutex
	file int
	path string
}

func run(c *core.Ctx) {
	p := c.Plan
	nf := p.Int("files")
	if nf < 1 {
		nf = 1
	}
	n := len(p.Tasks)
	errs := make([][]core.Fault, n)
	var kill, foreign *core.Fault
	stalls := false
	for i := range p.Faults {
		f := &p.Faults[i]
		switch f.Kind {
		case "cferr":
			if f.Task < n {
				errs[f.Task] = append(errs[f.Task], *f)
			}
		case "kill":
			kill = f
		case "foreign":
			foreign = f
		case "stall":
			stalls = true
		}
	}
	calls := make([]simrt.Cell, n)
	hit := make([]simrt.Cell, n)
	fnames := make([]string, nf)
	copy(fnames, names[:nf])
	simwin.Reset(fnames, func(task int) error {
		if task < 0 || task >= n {
			return nil
		}
		k := calls[task].Get()
		calls[task].Add(1)
		for i := range errs[task] {
			if errs[task][i].At == k {
				hit[task].Set(errs[task][i].Arg)
				c.Fire("CreateFile error")
				return syscall.Errno(errs[task][i].Arg)
			}
		}
		return nil
	})

	// objects: one per (process, index)
	objs := map[[2]int]*object{}
	users := map[*object]int{}
	proc := make([]int, n)
	obj := make([]*object, n)
	for i := range p.Tasks {
		proc[i] = p.Int(fmt.Sprintf("proc%d", i))
		k := [2]int{proc[i], p.Int(fmt.Sprintf("obj%d", i))}
		if objs[k] == nil {
			f := (k[0]%restarts + k[1]) % nf
			objs[k] = &object{file: f, path: names[f]}
			objs[k].m.Init(names[f])
		}
		obj[i] = objs[k]
		users[obj[i]]++
	}

	holder := make([]simrt.Cell, nf)    // task+1
	freeSince := make([]simrt.Cell, nf) // ns
	waiting := make([]simrt.Cell, n)    // file+1
	waitSince := make([]simrt.Cell, n)  // ns
	done := make([]simrt.Cell, n)
	var killed, up simrt.Flag
	acquired := new(simrt.Cell)

	// overdue tells how long file f has been free while somebody was waiting.
	overdue := func(f int) time.Duration {
		since := int64(-1)
		for t := 0; t < n; t++ {
			if waiting[t].Get() == int64(f+1) && (since < 0 || waitSince[t].Get() < since) {
				since = waitSince[t].Get()
			}
		}
		if since < 0 || holder[f].Get() != 0 {
			return 0
		}
		if fs := freeSince[f].Get(); fs > since {
			since = fs
		}
		return time.Duration(simrt.NowNs() - since)
	}
	lock := func(t int, m *filelock.Mutex, f int, want syscall.Errno) bool {
		hit[t].Set(0)
		from := simrt.NowNs()
		if f >= 0 {
			waitSince[t].Set(from)
			waiting[t].Set(int64(f + 1))
		}
		err := m.Lock()
		now := simrt.NowNs()
		if err == nil {
			if simwin.Handles(proc[t]+1, -1) == 0 {
				core.StopFail("excl/unheld", "Lock succeeded but the process of task %d has no file open", t)
			}
			if want != 0 {
				core.StopFail("progress/no-error", "Lock succeeded on a lock without a file (expected error %d)", want)
			}
			if h := hit[t].Get(); h != 0 {
				core.StopFail("progress/error-hidden", "Lock succeeded after CreateFile had failed with Windows error %d; the error was swallowed", h)
			}
			if o := holder[f].Get(); o != 0 {
				core.StopFail("excl", "task %d (process %d) got the lock while task %d (process %d) held it", t, proc[t], o-1, proc[o-1])
			}
			if !stalls && foreign == nil {
				if d := overdue(f); d > limit {
					core.StopFail("progress/late", "the lock was free and waited for during %v of simulated time before it was taken", d)
				}
			}
			if now-from > int64(30*time.Second) {
				c.Probe("waited for the lock")
			}
			waiting[t].Set(0)
			holder[f].Set(int64(t + 1))
			acquired.Add(1)
			return true
		}
		waiting[t].Set(0)
		e, _ := err.(syscall.Errno)
		exp := want
		if exp == 0 {
			exp = syscall.Errno(hit[t].Get())
		}
		if hit[t].Get() != 0 {
			exp = syscall.Errno(hit[t].Get())
		}
		if exp == 0 {
			core.StopFail("progress/refused", "Lock failed with Windows error %d (%T) although the file was there and only locked or free", int64(e), err)
		}
		if e != exp {
			core.StopFail("progress/wrong-error", "Lock returned %v (%d) after CreateFile failed with Windows error %d", err, int64(e), int64(exp))
		}
		if k := simwin.Handles(proc[t]+1, t); k != 0 && holderIs(holder, t) == 0 {
			core.StopFail("excl/failed-holds", "Lock failed but left %d handle(s) open", k)
		}
		c.Probe("Lock reported an error")
		return false
	}

	var tasks []func()
	for i, ops := range p.Tasks {
		tasks = append(tasks, func() {
			defer done[i].Set(1)
			if proc[i] >= restarts {
				simrt.Block(&up, -1, "restart")
			} else if kill != nil && proc[i] == kill.Task && killed.Ready() {
				return
			}
			simrt.SetProc(proc[i] + 1)
			o := obj[i]
			for _, op := range ops {
				switch op.K {
				case "pause":
					simrt.Sleep(time.Duration(op.Arg(0)) * time.Second)
				case "missing":
					m := new(filelock.Mutex)
					m.Init(`c:\locks\nothing.lck`)
					lock(i, m, -1, 2)
				case "noinit":
					lock(i, new(filelock.Mutex), -1, 3)
				case "reinit":
					if o.m.Init(names[1-o.file]) {
						core.StopFail("excl/reinit", "a second Init of a lock was accepted")
					}
				case "extra":
					if users[o] == 1 {
						o.m.Unlock()
						c.Probe("extra Unlock")
					}
				case "hold":
					if !lock(i, &o.m, o.file, 0) {
						continue
					}
					for k := op.Arg(0); k > 0; k-- {
						simrt.YS()
						if h := holder[o.file].Get(); h != int64(i+1) {
							core.StopFail("excl", "task %d took the lock while task %d held it", h-1, i)
						}
					}
					if op.Arg(1) > 0 {
						simrt.Sleep(time.Duration(op.Arg(1)) * time.Second)
					}
					if simwin.Handles(proc[i]+1, i) == 0 {
						core.StopFail("excl/lost", "the lock's handle was closed while the lock was held")
					}
					// from here on others may get the lock
					holder[o.file].Set(0)
					freeSince[o.file].Set(simrt.NowNs())
					o.m.Unlock()
					freeSince[o.file].Set(simrt.NowNs())
				}
			}
		})
	}
	if kill != nil {
		f := *kill
		tasks = append(tasks, func() {
			if f.At > 0 {
				simrt.Sleep(time.Duration(f.At) * time.Second)
			}
			for k := f.Arg; k > 0; k-- {
				simrt.YS()
			}
			killed.Set()
			dead := simrt.KillProc(f.Task + 1)
			simwin.Kill(f.Task + 1)
			for t := 0; t < n; t++ {
				if proc[t] == f.Task {
					waiting[t].Set(0)
					if k := holderIs(holder, t); k != 0 {
						holder[k-1].Set(0)
						freeSince[k-1].Set(simrt.NowNs())
						c.Probe("holder killed")
					}
				}
			}
			if dead > 0 {
				c.Fire("process kill")
			}
			simrt.YS()
			up.Set()
		})
	}
	if foreign != nil {
		f := *foreign
		tasks = append(tasks, func() {
			file := names[f.Task%nf]
			simrt.Sleep(time.Duration(f.At) * time.Second)
			simwin.Foreign(file, true)
			c.Fire("file held by another program")
			simrt.Sleep(time.Duration(f.Arg) * time.Second)
			simwin.Foreign(file, false)
		})
	}
	o := c.Sim(tasks)
	if o.Freezes > 0 {
		c.Log("killed %d", o.Freezes)
	}
	if c.Stopped(o) {
		return
	}
	for _, s := range o.Panics {
		c.Fail("panic", "%s", s)
	}
	switch o.End {
	case "deadlock":
		c.Fail("progress/stuck", "nobody can continue: %v", o.Stuck)
		return
	case "stepcap":
		for f := range holder {
			if holder[f].Get() != 0 { // held for longer than the run lasts
				c.Unknown()
				return
			}
		}
		c.Fail("progress/hang", "the lock is never handed on: %v", o.Stuck)
		return
	case "reccap":
		c.Unknown()
		return
	}
	if k := simwin.Handles(-1, -1); k != 0 {
		c.Fail("progress/leak", "%d handle(s) still open after every holder had unlocked", k)
	}
	if acquired.Get() == 0 {
		c.Trivial()
	}
}

func holderIs(h []simrt.Cell, t int) int {
	for f := range h {
		if h[f].Get() == int64(t+1) {
			return f + 1
		}
	}
	return 0
}
