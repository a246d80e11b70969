package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simos"
	"gxsim/simrt"

	"github.com/vipally/gx/fs"
)

// The working directory (C36): tasks change it and ask for it at the same time.

var cwdDirs = []string{"/work", "/work/a", "/work/a/b", "/work/a/b/c", "/work/c", "/other", "/other/a", "/other/long-name-of-a-directory/x", "/",
	"/work/a/" + strings.Repeat("n", 250), "/other" + strings.Repeat("/directory", 40)}

func cwdPath(r *rng.R) string {
	switch r.N(12) {
	case 0:
		return r.PickS("/nowhere", "nowhere", "/work/file", "a/../nowhere", "/work/a/nowhere/b")
	case 1:
		return r.PickS("a", "b", "a/b", "c")
	case 2:
		return r.PickS("..", "../a", "../..", ".", "./a", "")
	case 3:
		return r.PickS("/work/../other", "/work/./a//b", "//other/a/", "/work/nowhere/../c")
	}
	return cwdDirs[r.N(len(cwdDirs))]
}

func genCwd(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	nt := r.Pick(1, 2, 2, 3, 3, 4, 5)
	few := r.P(0.5)
	for t := 0; t < nt; t++ {
		var l []core.Op
		for k := r.Range(1, 7); k > 0; k-- {
			o := core.Op{K: r.PickS("chdir", "chdir", "chdir", "read", "read", "rel", "relobj"), A: []int64{0, int64(r.N(1 << 10))}}
			if few && t > 0 && o.K == "chdir" && r.P(0.5) {
				o.K = "read"
			}
			switch o.K {
			case "chdir":
				o.S = cwdPath(r)
				if r.P(0.12) {
					o.A[0] = 1
				} else if nt == 1 && r.P(0.15) {
					o.A[0] = 2
				}
			case "rel", "relobj":
				o.S = cwdDirs[r.N(len(cwdDirs))] + r.PickS("", "/x", "/x/y", "/../z")
			}
			l = append(l, o)
		}
		p.Tasks = append(p.Tasks, l)
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 60, 300)
	}
	return p
}

type cwdRec struct {
	op        core.Op
	call, ret int64
	err       error
	out, p    string
	real      string // the system's directory after the call
	hit       string
}

func relOf(wd, p string) string {
	s, _ := filepath.Rel(wd, filepath.Clean(p))
	return filepath.Clean(s)
}

func runCwd(c *core.Ctx) {
	n := len(c.Plan.Tasks)
	if n == 0 {
		c.Trivial()
		return
	}
	fsys := simos.Reset()
	for _, d := range cwdDirs {
		if d != "/" {
			fsys.PutDir(d)
		}
	}
	fsys.Put("/work/file", []byte("x"))
	if p := c.Solo(func() { fs.Chdir("/work") }); p != "" { // the library remembers it from run to run
		c.Fail("cwd/panic", "Chdir panics: %s", p)
		return
	}
	dirs := map[string]bool{}
	for _, d := range cwdDirs {
		for ; ; d = filepath.Dir(d) {
			dirs[d] = true
			if d == "/" {
				break
			}
		}
	}
	recs := make([][]cwdRec, n)
	now := make([]*cwdRec, n+1)
	fsys.Hook = func(op, name string, k int) (in simos.Inject) {
		p := simrt.Proc()
		if p <= 0 || now[p] == nil || now[p].hit != "" {
			return
		}
		x := now[p]
		if x.op.Arg(0) == 1 && op == "chdir" || x.op.Arg(0) == 2 && op == "getwd" {
			x.hit = op
			in.Err = []error{syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.ENOTDIR}[int(x.op.Arg(1))%4]
		}
		return
	}
	var tasks []func()
	for t := 0; t < n; t++ {
		recs[t] = make([]cwdRec, len(c.Plan.Tasks[t]))
		for i, o := range c.Plan.Tasks[t] {
			recs[t][i].op = o
		}
		tasks = append(tasks, func() {
			simrt.SetProc(t + 1)
			for i := range recs[t] {
				x := &recs[t][i]
				now[t+1] = x
				x.call = simrt.Seq()
				x.p = core.Try(func() {
					switch x.op.K {
					case "chdir":
						x.err = fs.Chdir(x.op.S)
					case "read":
						x.out = fs.WorkPath()
					case "rel":
						x.out = fs.RelateWorkPath(x.op.S)
					case "relobj":
						x.out = fs.FilePath(x.op.S).RelateWorkPath().String()
					}
				})
				x.ret = simrt.Seq()
				if n == 1 {
					x.real = fsys.Cwd()
				}
				now[t+1] = nil
			}
		})
	}
	o := c.Sim(tasks)
	fsys.Hook = nil
	if o.End == "reccap" {
		return
	}
	if o.End != "done" {
		c.Fail("cwd/hang", "did not end: %s %v %v", o.End, o.Stuck, o.Panics)
		return
	}
	var hist []core.LinOp
	lost := false // the library could not learn where it is
	for t := range recs {
		for i := range recs[t] {
			x := &recs[t][i]
			id := fmt.Sprintf("task %d call %d %s(%q)", t, i, x.op.K, x.op.S)
			if x.p != "" {
				c.Fail("cwd/panic", "%s panics: %s (failing call: %q)", id, x.p, x.hit)
				return
			}
			if x.hit != "" {
				c.Fire("fs-" + x.hit + "-error")
			}
			c.Log("%s [%d,%d] %s %q", id, x.call, x.ret, errText(x.err), x.out)
			if x.hit == "chdir" && x.err == nil {
				c.Fail("cwd/error", "%s: the system refused and it reports success", id)
				return
			}
			if x.op.K == "chdir" && x.err == nil {
				c.Probe("changed")
			}
			hist = append(hist, core.LinOp{Task: t, Call: x.call, Ret: x.ret, Name: x.op.K, In: x, Out: x})
			if n == 1 {
				if x.op.K == "chdir" {
					lost = x.err != nil && (lost || x.hit == "getwd")
				}
				if lost {
					continue
				}
				want := x.real
				switch x.op.K {
				case "rel", "relobj":
					want = relOf(x.real, x.op.S)
				case "chdir":
					continue
				}
				if x.out != want {
					c.Fail("cwd/wrong", "%s gives %q, the working directory is %s", id, x.out, x.real)
					return
				}
			}
		}
	}
	var end string
	if p := c.Solo(func() { end = fs.WorkPath() }); p != "" {
		c.Fail("cwd/panic", "WorkPath panics: %s", p)
		return
	}
	if !lost && end != fsys.Cwd() {
		c.Fail("cwd/wrong", "in the end WorkPath gives %q, the working directory is %s", end, fsys.Cwd())
		return
	}
	if n == 1 {
		return
	}
	hist = append(hist, core.LinOp{Call: 1 << 40, Ret: 1<<40 + 1, Name: "end"})
	ok, unknown := core.CheckLin("/work", hist, func(st string, l *core.LinOp) (bool, string) {
		if l.Name == "end" {
			return st == end, st
		}
		x := l.In.(*cwdRec)
		switch l.Name {
		case "read":
			return x.out == st, st
		case "rel", "relobj":
			return x.out == relOf(st, x.op.S), st
		}
		d := filepath.Clean(x.op.S)
		if !filepath.IsAbs(d) {
			d = filepath.Join(st, d)
		}
		if good := dirs[d] && x.hit == ""; good != (x.err == nil) {
			return false, st
		} else if good {
			return true, d
		}
		return true, st
	}, 200000)
	if unknown {
		c.Unknown()
	}
	if !ok {
		var b []string
		for _, l := range hist[:len(hist)-1] {
			x := l.In.(*cwdRec)
			b = append(b, fmt.Sprintf("[%d,%d] task %d %s(%q) %s %q", l.Call, l.Ret, l.Task, l.Name, x.op.S, errText(x.err), x.out))
		}
		c.Fail("cwd/order", "no order of the calls explains them (first /work, last %s): %s", end, strings.Join(b, "; "))
	}
}
