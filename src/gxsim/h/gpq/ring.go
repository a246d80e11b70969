package main

import (
	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	rb "github.com/vipally/gx/gpinst/ringbufferb"
)

func capOf(n int) int {
	k := 1
	if n < 8 {
		n = 8
	}
	for k < n {
		k *= 2
	}
	return k
}

// ring is the buffer; the values that go in are not always small numbers.
type ring struct {
	rb.RingBuffer
	mode int
}

func (q *ring) in(v int) rb.GOGPValueType { return rb.GOGPValueType(out(q.mode, v)) }
func (q *ring) Push(v int) bool           { return q.RingBuffer.Push(q.in(v)) }
func (q *ring) MustPush(v int) bool       { return q.RingBuffer.MustPush(q.in(v)) }
func (q *ring) Pop() (int, bool)          { return q.got(q.RingBuffer.Pop()) }
func (q *ring) MustPop() (int, bool)      { return q.got(q.RingBuffer.MustPop()) }
func (q *ring) got(v rb.GOGPValueType, ok bool) (int, bool) {
	if ok {
		return back(q.mode, int(v)), true
	}
	return int(v), false
}

func genRing(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	size := r.Pick(-1, 0, 1, 7, 8, 8, 8, 8, 9, 16)
	p.Set("size", size)
	p.Set("vals", vals(r))
	c := capOf(size)
	p.Set("cycle", r.N(2*c))
	switch r.N(4) {
	case 0:
		p.Set("prefill", 0)
	case 1:
		p.Set("prefill", c)
	case 2:
		p.Set("prefill", c-1-r.N(2))
	case 3:
		p.Set("prefill", r.N(c+1))
	}
	must := r.PickF(0, 0, 0.3, 0.7)
	bias := r.PickF(0.3, 0.5, 0.7)
	for i := r.Range(2, 5); i > 0; i-- {
		var ops []core.Op
		for k := r.Range(1, 5); k > 0; k-- {
			m := ""
			if r.P(must) {
				m = "must"
			}
			switch {
			case r.P(0.08):
				ops = append(ops, core.Op{K: "size"})
			case r.P(bias):
				ops = append(ops, core.Op{K: m + "push"})
			default:
				ops = append(ops, core.Op{K: m + "pop"})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 3, 40, r.Pick(2000, 2000, 2000, 2000, 2000, 2000, 2000, 2000, 2000, 100000))
	}
	return p
}

func runRing(c *core.Ctx) {
	q := &ring{mode: c.Plan.Int("vals")}
	q.Init(c.Plan.Int("size"))
	cp := capOf(c.Plan.Int("size"))
	if int(q.Cap()) != cp {
		c.Fail("lin/cap", "Init(%d) made a buffer of %d, expected %d", c.Plan.Int("size"), q.Cap(), cp)
		return
	}
	val := new(simrt.Cell)
	for i := c.Plan.Int("cycle"); i > 0; i-- {
		if !q.Push(5000 + i) {
			c.Fail("lin/seq", "Push into an empty buffer was refused")
			return
		}
		if v, ok := q.Pop(); !ok || int(v) != 5000+i {
			c.Fail("lin/seq", "Pop gave %d, %v after Push of %d", v, ok, 5000+i)
			return
		}
	}
	init := ""
	pre := c.Plan.Int("prefill")
	if pre > cp {
		pre = cp
	}
	for i := 0; i < pre; i++ {
		v := same(c.Plan, int(val.Add(1)))
		if !q.Push(v) {
			c.Fail("lin/seq", "Push was refused with %d of %d inside", i, cp)
			return
		}
		init += enc(v)
	}
	n := len(c.Plan.Tasks)
	hs := make([]hist, n+1)
	left := new(simrt.Cell)
	left.Set(int64(n))
	progress := new(simrt.Cell)
	inPush, inPop := new(simrt.Cell), new(simrt.Cell)
	do := func(h *hist, k string) {
		switch k {
		case "push", "mustpush":
			v := same(c.Plan, int(val.Add(1)))
			ret := h.begin(k, v)
			var ok bool
			if k == "push" {
				ok = q.Push(v)
			} else {
				inPush.Add(1)
				ok = q.MustPush(v)
				inPush.Add(-1)
				if !ok {
					core.StopFail("lin/refused", "MustPush returned false")
				}
			}
			ret(ok)
		case "pop", "mustpop":
			ret := h.begin(k, nil)
			var v int
			var ok bool
			if k == "pop" {
				v, ok = q.Pop()
			} else {
				inPop.Add(1)
				v, ok = q.MustPop()
				inPop.Add(-1)
				if !ok {
					core.StopFail("lin/refused", "MustPop returned false")
				}
			}
			ret(res{int(v), ok})
		case "size":
			ret := h.begin("size", nil)
			s := q.Size()
			ret(s)
			if s < 0 || s > cp {
				core.StopFail("size/range", "Size returned %d for a buffer of %d", s, cp)
			}
		}
		progress.Add(1)
	}
	var tasks []func()
	for i, ops := range c.Plan.Tasks {
		h := &hs[i]
		tasks = append(tasks, func() {
			for _, o := range ops {
				do(h, o.K)
			}
			left.Add(-1)
		})
	}
	// the janitor helps blocking calls which nobody else would serve, but only
	// after a while without progress
	tasks = append(tasks, func() {
		quiet, seen := 0, int64(-1)
		for left.Get() > 0 {
			simrt.Gosched()
			if p := progress.Get(); p != seen {
				quiet, seen = 0, p
				continue
			}
			if quiet++; quiet < 150 {
				continue
			}
			quiet = 0
			if inPop.Get() > 0 {
				c.Probe("blocked pop served")
				do(&hs[n], "push")
			} else if inPush.Get() > 0 {
				c.Probe("blocked push served")
				do(&hs[n], "pop")
			}
		}
	})
	o := c.Sim(tasks)
	if !endOf(c, o) {
		return
	}
	all := join(hs)
	size := q.Size()
	got := 0
	seq := int64(1 << 40)
	for {
		v, ok := q.Pop()
		seq += 2
		all = append(all, core.LinOp{Task: -1, Name: "pop", Out: res{int(v), ok}, Call: seq, Ret: seq + 1})
		if !ok {
			break
		}
		if got++; got > 300 {
			c.Fail("lin/endless", "draining the buffer does not end")
			return
		}
	}
	c.Log("%s", show(all))
	ringFails(c, all, cp, pre)
	var succ []core.LinOp
	for _, x := range all {
		switch v := x.Out.(type) {
		case bool:
			if v {
				succ = append(succ, x)
			}
		case res:
			if v.ok {
				succ = append(succ, x)
			}
		}
	}
	good, unknown := core.CheckLin(init, succ, func(s string, op *core.LinOp) (bool, string) {
		if op.In != nil {
			return len([]rune(s)) < cp, s + enc(op.In.(int))
		}
		if s == "" {
			return false, s
		}
		v, k := first(s)
		return v == op.Out.(res).v, s[k:]
	}, 300000)
	if unknown {
		c.Unknown()
	}
	if !good {
		c.Fail("lin", "no order of the calls explains their results: capacity %d, started with %d values; %s", cp, pre, show(all))
	}
	if size != got || q.Size() != 0 || !q.Empty() {
		c.Fail("size", "Size was %d when no call was running, draining gave %d values, and then Size was %d and Empty %v", size, got, q.Size(), q.Empty())
	}
}

// ringFails checks the refused calls and the sizes: each must be explained by
// the number of values inside or on their way at some moment of the call.
func ringFails(c *core.Ctx, all []core.LinOp, cp, pre int) {
	type ev struct {
		at int64
		// pushes begun, pushes done, pops begun, pops done (successful ones)
		pb, pd, ob, od int
	}
	var marks []int64
	for _, x := range all {
		marks = append(marks, x.Call, x.Ret)
	}
	count := func(at int64, skip int) (e ev) {
		e.pb, e.pd = pre, pre
		for i, x := range all {
			if i == skip {
				continue
			}
			push := x.In != nil
			ok := false
			switch v := x.Out.(type) {
			case bool:
				ok = v
			case res:
				ok = v.ok
			}
			if !ok {
				continue
			}
			if x.Call <= at {
				if push {
					e.pb++
				} else {
					e.ob++
				}
			}
			if x.Ret <= at {
				if push {
					e.pd++
				} else {
					e.od++
				}
			}
		}
		return
	}
	for i, x := range all {
		var ok func(e ev) bool
		what := ""
		switch v := x.Out.(type) {
		case bool:
			if v {
				continue
			}
			ok = func(e ev) bool { return e.pb-e.od >= cp }
			what = "Push was refused although the buffer had room throughout"
		case res:
			if v.ok {
				continue
			}
			ok = func(e ev) bool { return e.pd-e.ob <= 0 }
			what = "Pop found nothing although the buffer held values throughout"
		case int:
			ok = func(e ev) bool { return e.pd-e.ob <= v && v <= e.pb-e.od }
			what = "Size returned a number that was never true during the call"
		default:
			continue
		}
		good := false
		for _, m := range marks {
			if m >= x.Call && m <= x.Ret && ok(count(m, i)) {
				good = true
				break
			}
		}
		if !good {
			cl := "lin/spurious"
			if _, is := x.Out.(int); is {
				cl = "size/wrong"
			}
			c.Fail(cl, "%s: call %d of capacity %d, started with %d: %s", what, i, cp, pre, show(all))
			return
		}
	}
}

func genRingSeq(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r)}
	p.Set("size", r.Pick(-5, 0, 1, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100))
	p.Set("n", r.Range(1, 400))
	p.Set("vals", vals(r))
	p.Set("bias", r.Range(30, 75))
	if r.P(0.1) { // long, and often refused
		p.Set("n", r.Range(1000, 5000))
		p.Set("bias", r.Pick(2, 20, 50, 80, 98))
	}
	if r.P(0.3) {
		p.Set("reinit", r.Range(1, 10))
	}
	if r.P(0.02) {
		p.Set("size", r.Pick(255, 256, 257, 1000, 4097, 65535, 65536, 65537, 131073))
		p.Cap = 2000000000
		p.Set("fill", capOf(p.Int("size"))-r.N(20))
	}
	return p
}

func runRingSeq(c *core.Ctx) {
	if m := c.Solo(func() { ringSeq(c) }); m != "" {
		c.Fail("lin/seq", "%s", m)
	}
}

func ringSeq(c *core.Ctx) {
	q := &ring{mode: c.Plan.Int("vals")}
	q.Init(c.Plan.Int("size"))
	cp := capOf(c.Plan.Int("size"))
	if int(q.Cap()) != cp {
		c.Fail("lin/cap", "Init(%d) made a buffer of %d, expected %d", c.Plan.Int("size"), q.Cap(), cp)
		return
	}
	var m []int
	r := c.R
	for i := c.Plan.Int("fill"); i > 0; i-- {
		if !q.Push(-i) {
			c.Fail("lin/seq", "Push was refused with %d of %d inside", len(m), cp)
			return
		}
		m = append(m, -i)
	}
	for i := 0; i < c.Plan.Int("n"); i++ {
		if c.Plan.Int("reinit") > 0 && r.N(100) < c.Plan.Int("reinit") { // made already: nothing changes
			q.Init(r.Pick(-1, 0, 8, 9, c.Plan.Int("size"), 4*cp))
			if int(q.Cap()) != cp {
				c.Fail("lin/cap", "operation %d: a second Init made a buffer of %d of one of %d with %d inside", i, q.Cap(), cp, len(m))
				return
			}
		} else if r.N(100) < c.Plan.Int("bias") {
			var ok bool
			v := same(c.Plan, i)
			if r.P(0.3) && len(m) < cp {
				ok = q.MustPush(v)
			} else {
				ok = q.Push(v)
			}
			if ok != (len(m) < cp) {
				c.Fail("lin/seq", "operation %d: a push returned %v with %d of %d inside", i, ok, len(m), cp)
				return
			}
			if ok {
				m = append(m, v)
			} else {
				c.Probe("ring full")
			}
		} else {
			var v int
			var ok bool
			if r.P(0.3) && len(m) > 0 {
				v, ok = q.MustPop()
			} else {
				v, ok = q.Pop()
			}
			if ok != (len(m) > 0) || ok && int(v) != m[0] {
				c.Fail("lin/seq", "operation %d: a pop returned %v, %v with %v inside", i, v, ok, m)
				return
			}
			if ok {
				m = m[1:]
			}
		}
		if q.Size() != len(m) || q.Empty() != (len(m) == 0) {
			c.Fail("size", "operation %d: Size %d, Empty %v with %d inside", i, q.Size(), q.Empty(), len(m))
			return
		}
	}
	c.Log("n=%d left=%d", c.Plan.Int("n"), len(m))
}
