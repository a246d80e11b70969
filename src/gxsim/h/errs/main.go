// Harness for the error id registry (C18).
package main

import (
	"fmt"
	"strings"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	gerr "github.com/vipally/gx/errors"
)

// stringer is text that its owner changes later.
type stringer struct{ s string }

func (s *stringer) String() string { return s.s }
func (s *stringer) Error() string  { return s.s }

func main() {
	core.Register("err", genErr, runErr)
	core.Register("err-full", genFull, runErr)
	core.Main()
}

const (
	idMin = 1001
	idMax = 9999
)

func conv[T ~uint32](_ T, v uint32) T { return T(v) }

// known is what this process has registered, by id.
var known map[uint32]string
var serial int

func names(r *rng.R) string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return "50% of %d %s %!"
	case 2:
		if r.P(0.1) {
			return strings.Repeat("very long ", r.Pick(103, 420, 7000)) + "end"
		}
		return strings.Repeat("long ", 40) + "end"
	case 3:
		return "same"
	case 4:
		return r.PickS(" lead", "trail ", "\t", "日本\u3000", "\u00a0x", "a\x00b", "(x)", "):", "error#1001 (x)", "A", "a", "é", "\\n")
	}
	return fmt.Sprintf("error name %d", r.N(1000))
}

func genOps(r *rng.R, p *core.Plan, regBias int) {
	for t, n := 0, r.Range(2, 5); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			if r.N(10) < regBias {
				ops = append(ops, core.Op{K: "reg", S: names(r)})
				continue
			}
			ops = append(ops, core.Op{K: r.PickS("get", "get", "str", "new", "newf", "std", "show", "bad"), A: []int64{int64(r.N(1 << 20)), int64(r.N(4))}, S: names(r)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 60, 400)
	}
}

func genErr(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	genOps(r, p, 5)
	return p
}

func genFull(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("left", r.N(8))
	genOps(r, p, 7)
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if p.Tasks[t][i].K == "show" && r.P(0.8) {
				p.Tasks[t][i].K = "get"
			}
		}
	}
	return p
}

func runErr(c *core.Ctx) {
	std := uint32(gerr.ERRID_STD)
	unk := uint32(gerr.ERRID_UNKNOWN)
	if known == nil {
		known = map[uint32]string{}
		for id := uint32(idMin); ; id++ {
			n, err := conv(gerr.ERRID_STD, id).Get()
			if err != nil {
				break
			}
			known[id] = n
		}
		if std == unk {
			c.Fail("err/predef", "the standard error and the unknown error have the same id %d", std)
			return
		}
		if known[std] != "standard error" || known[unk] != "unknown error" {
			c.Fail("err/predef", "the predefined errors are named %q and %q", known[std], known[unk])
			return
		}
	}
	if left, full := c.Plan.P["left"]; full {
		p := c.Solo(func() {
			for len(known) < idMax-idMin+1-int(left) {
				n := fmt.Sprintf("filler %d", serial)
				serial++
				id, err := gerr.Reg(n)
				if err != nil {
					c.Fail("err/full", "registration %d failed with %v although ids are left", len(known)+1, err)
					return
				}
				if o, dup := known[uint32(id)]; dup {
					c.Fail("err/dup", "id %d was given to %q and again to %q", uint32(id), o, n)
					return
				}
				known[uint32(id)] = n
			}
		})
		if p != "" {
			c.Fail("err/panic", "registering: %s", p)
		}
		if c.Failed() {
			return
		}
	} else if len(known) > idMax-idMin-60 {
		c.Trivial()
		return
	}
	free := idMax - idMin + 1 - len(known)
	old := make([]uint32, 0, len(known))
	for id := uint32(idMin); id <= idMax; id++ {
		if _, ok := known[id]; ok {
			old = append(old, id)
		}
	}
	type rec struct {
		op        *core.Op
		name      string
		id        uint32
		err       error
		call, ret int64
		s         string
		look      uint32 // the id looked up
		want      string // its name, if known at the call
		p         string
	}
	recs := make([][]rec, len(c.Plan.Tasks))
	pub := make([][]simrt.Cell, len(c.Plan.Tasks)) // ids as they are returned
	nregs := 0
	for t := range c.Plan.Tasks {
		recs[t] = make([]rec, len(c.Plan.Tasks[t]))
		pub[t] = make([]simrt.Cell, len(c.Plan.Tasks[t]))
		for i := range recs[t] {
			o := &c.Plan.Tasks[t][i]
			recs[t][i].op = o
			recs[t][i].name = o.S
			if o.K == "reg" {
				nregs++
			}
		}
	}
	pick := func(a int64, b int64) (uint32, string) {
		if b > 0 { // one of this run, if it is there already
			t := int(a) % len(pub)
			for i := range pub[t] {
				if v := pub[t][i].Get(); v != 0 {
					return uint32(v), c.Plan.Tasks[t][i].S
				}
			}
		}
		id := old[int(a)%len(old)]
		return id, known[id]
	}
	var tasks []func()
	for t := range recs {
		tasks = append(tasks, func() {
			for i := range recs[t] {
				x := &recs[t][i]
				x.call = simrt.Seq()
				x.p = core.Try(func() {
					switch x.op.K {
					case "reg":
						id, err := gerr.Reg(x.name)
						x.id, x.err = uint32(id), err
						if err == nil {
							pub[t][i].Set(int64(id))
						}
					case "get":
						x.look, x.want = pick(x.op.Arg(0), x.op.Arg(1))
						x.s, x.err = conv(gerr.ERRID_STD, x.look).Get()
					case "str":
						x.look, x.want = pick(x.op.Arg(0), x.op.Arg(1))
						x.s = conv(gerr.ERRID_STD, x.look).String()
					case "new":
						x.look, x.want = pick(x.op.Arg(0), x.op.Arg(1))
						e := gerr.New(conv(gerr.ERRID_STD, x.look))
						x.s = e.Error()
						x.id = uint32(e.Id())
					case "newf":
						x.look, x.want = pick(x.op.Arg(0), x.op.Arg(1))
						arg := &stringer{x.name}
						e := gerr.Newf(conv(gerr.ERRID_STD, x.look), "text %s|%d", arg, x.op.Arg(0))
						arg.s = "changed"
						x.s = e.Error()
						x.id = uint32(e.Id())
					case "std":
						arg := &stringer{x.name}
						e := gerr.StdErr(arg)
						arg.s = "changed"
						x.s = e.Error()
						x.id = uint32(e.Id())
						if w := gerr.StdErr(e); uint32(w.Id()) != x.id || w.Error() != fmt.Sprintf("error#%d (standard error): %s", x.id, x.s) {
							x.s = "of such an error: " + w.Error()
						}
					case "show":
						x.s = gerr.ShowAll()
					case "bad":
						x.look = []uint32{0, 1, idMin - 1, idMax + 1, idMax + 7, 1 << 31, 1<<32 - 1}[int(x.op.Arg(0))%7]
						x.s, x.err = conv(gerr.ERRID_STD, x.look).Get()
						if x.err != nil {
							conv(gerr.ERRID_STD, x.look).String()
							gerr.New(conv(gerr.ERRID_STD, x.look)).Error()
							gerr.Newf(conv(gerr.ERRID_STD, x.look), "x").Error()
						}
					}
				})
				x.ret = simrt.Seq()
			}
		})
	}
	if nregs == 0 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("err/hang", "did not end: %s %v", o.End, o.Stuck)
		}
		// what was registered is not known any more
		for t := range recs {
			for i := range recs[t] {
				if x := recs[t][i]; x.op.K == "reg" && x.ret > 0 && x.err == nil {
					known[x.id] = x.name
				}
			}
		}
		return
	}
	before := len(known)
	ok, refused := 0, 0
	for t := range recs {
		for i, x := range recs[t] {
			if x.p != "" {
				c.Fail("err/panic", "task %d op %d %s panicked: %s", t, i, x.op.K, x.p)
				return
			}
			if x.op.K != "reg" {
				continue
			}
			c.Log("task %d op %d reg [%d,%d] id %d err %v", t, i, x.call, x.ret, x.id, x.err != nil)
			if x.err != nil {
				refused++
				c.Probe("refused")
				continue
			}
			ok++
			if n, dup := known[x.id]; dup {
				c.Fail("err/dup", "id %d was given to %q and to %q", x.id, n, x.name)
				continue
			}
			known[x.id] = x.name
		}
	}
	want := min(free, nregs)
	if ok != want {
		c.Fail("err/full", "%d registrations with %d ids left: %d succeeded, %d were refused", nregs, free, ok, refused)
	}
	for t := range recs {
		for i, x := range recs[t] {
			id := fmt.Sprintf("task %d op %d %s(%d)", t, i, x.op.K, x.look)
			switch x.op.K {
			case "get":
				if x.err != nil || x.s != x.want {
					c.Fail("err/name", "%s gave %q, %v; the id is registered as %q", id, x.s, x.err, x.want)
				}
			case "str", "new":
				if w := fmt.Sprintf("error#%d (%s)", x.look, x.want); x.s != w {
					c.Fail("err/name", "%s gave %q, want %q", id, x.s, w)
				}
				if x.op.K == "new" && x.id != x.look {
					c.Fail("err/name", "%s: the error's id is %d", id, x.id)
				}
			case "newf":
				if w := fmt.Sprintf("error#%d (%s): text %s|%d", x.look, x.want, x.name, x.op.Arg(0)); x.s != w || x.id != x.look {
					c.Fail("err/text", "%s gave %q with id %d, want %q", id, x.s, x.id, w)
				}
			case "std":
				if w := fmt.Sprintf("error#%d (standard error): %s", std, x.name); x.s != w || x.id != std {
					c.Fail("err/text", "StdErr of %q gave %q with id %d, want %q", x.name, x.s, x.id, w)
				}
			case "bad":
				if x.err == nil {
					c.Fail("err/bad", "id %d was never given out but is accepted as %q", x.look, x.s)
				}
			case "show":
				lo, hi := before, before
				for t := range recs {
					for _, y := range recs[t] {
						if y.op.K == "reg" && y.err == nil {
							if y.ret < x.call {
								lo++
							}
							if y.call < x.ret {
								hi++
							}
						}
					}
				}
				show(c, id, x.s, lo, hi)
			}
		}
	}
	// afterwards, alone
	if p := c.Solo(func() {
		for id, n := range known {
			got, err := conv(gerr.ERRID_STD, id).Get()
			if err != nil || got != n {
				c.Fail("err/name", "at the end id %d gives %q, %v; it was registered as %q", id, got, err, n)
				return
			}
		}
		next := uint32(idMin + len(known))
		if _, err := conv(gerr.ERRID_STD, next).Get(); err == nil {
			c.Fail("err/bad", "id %d was never given out but is accepted", next)
		}
		if !full(c) || len(c.Plan.Tasks) == 2 {
			show(c, "ShowAll at the end", gerr.ShowAll(), len(known), len(known))
		}
	}); p != "" {
		c.Fail("err/panic", "at the end: %s", p)
	}
}

func full(c *core.Ctx) bool { _, f := c.Plan.P["left"]; return f }

// show checks a listing made while between lo and hi errors were registered.
func show(c *core.Ctx, id, s string, lo, hi int) {
	lines := strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n")
	n := len(lines) - 1
	var cnt int
	if _, err := fmt.Sscanf(lines[0], "[errors] Count:%d", &cnt); err != nil || cnt != n {
		c.Fail("err/show", "%s: %q heads %d lines", id, lines[0], n)
		return
	}
	if n < lo || n > hi {
		c.Fail("err/show", "%s lists %d errors, between %d and %d were registered", id, n, lo, hi)
		return
	}
	for k := 0; k < n; k++ {
		i := uint32(idMin + k)
		if w := fmt.Sprintf("error#%d (%s)", i, known[i]); lines[k+1] != w {
			c.Fail("err/show", "%s: line %d is %q, want %q", id, k+1, lines[k+1], w)
			return
		}
	}
}
