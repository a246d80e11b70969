// Harness for the lock-free container templates: C25 to C27. The templates are
// instantiated from /repo by the driver: package ...a from the .gp file,
// package ...b from the .gp.go file.
package main

import (
	"fmt"
	"sort"
	"time"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	dqa "github.com/vipally/gx/gpinst/lfdequea"
	dqb "github.com/vipally/gx/gpinst/lfdequeb"
	qa "github.com/vipally/gx/gpinst/lfqueuea"
	qb "github.com/vipally/gx/gpinst/lfqueueb"
)

func main() {
	core.Register("lfqueue", genQueue, runQueue)
	core.Register("lfqueue-seq", genQueueSeq, runQueueSeq)
	core.Register("ring", genRing, runRing)
	core.Register("ring-seq", genRingSeq, runRingSeq)
	core.Register("deque", genDeque, runDeque)
	core.Register("deque-seq", genDequeSeq, runDequeSeq)
	core.Register("deque-multi", genDequeMulti, runDeque)
	core.Main()
}

// hist is one task's recorded calls.
type hist struct{ ops []core.LinOp }

// begin notes a call; the returned function notes its result.
func (h *hist) begin(name string, in any) func(out any) {
	h.ops = append(h.ops, core.LinOp{Task: simrt.Self(), Name: name, In: in, Pending: true, Call: simrt.Seq()})
	i := len(h.ops) - 1
	return func(out any) {
		h.ops[i].Ret = simrt.Seq()
		h.ops[i].Out = out
		h.ops[i].Pending = false
	}
}

func join(hs []hist) []core.LinOp {
	var all []core.LinOp
	for i := range hs {
		all = append(all, hs[i].ops...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	return all
}

func (r res) String() string {
	if !r.ok {
		return "none"
	}
	return fmt.Sprint(r.v)
}

// res is what a pop returned.
type res struct {
	v  int
	ok bool
}

func show(ops []core.LinOp) string {
	s := ""
	for i, o := range ops {
		if i >= 40 {
			return s + "..."
		}
		out := fmt.Sprint(o.Out)
		if o.Pending {
			out = "(never returned)"
		}
		in := ""
		if o.In != nil {
			in = fmt.Sprint(o.In)
		}
		s += fmt.Sprintf("task %d %s(%s)=%s at %d..%d; ", o.Task, o.Name, in, out, o.Call, o.Ret)
	}
	return s
}

const ch0 = 0x100 // values are encoded in model states as runes from here

func enc(v int) string { return string(rune(ch0 + v)) }

func endOf(c *core.Ctx, o simrt.Outcome) bool {
	if c.Stopped(o) {
		return false
	}
	for _, s := range o.Panics {
		c.Fail("panic", "%s", s)
	}
	switch o.End {
	case "done":
		return len(o.Panics) == 0
	case "reccap":
		c.Unknown()
	default:
		c.Fail("progress", "the calls do not finish (%s): %v", o.End, o.Stuck)
	}
	return false
}

// ---- the queue (both ends at the front: last in, first out) ----

type queue interface {
	PushFront(v int) bool
	PopFront() (int, bool)
	Clear()
	Size() int
	Empty() bool
}

type queueA struct{ q qa.LFQueue }

func (q *queueA) PushFront(v int) bool { return q.q.PushFront(qa.GOGPValueType(v)) }
func (q *queueA) PopFront() (int, bool) {
	v, ok := q.q.PopFront()
	return int(v), ok
}
func (q *queueA) Clear()      { q.q.Clear() }
func (q *queueA) Size() int   { return q.q.Size() }
func (q *queueA) Empty() bool { return q.q.Empty() }

type queueB struct{ q qb.LFQueue }

func (q *queueB) PushFront(v int) bool { return q.q.PushFront(qb.GOGPValueType(v)) }
func (q *queueB) PopFront() (int, bool) {
	v, ok := q.q.PopFront()
	return int(v), ok
}
func (q *queueB) Clear()      { q.q.Clear() }
func (q *queueB) Size() int   { return q.q.Size() }
func (q *queueB) Empty() bool { return q.q.Empty() }

func newQueue(p *core.Plan) queue {
	if p.Int("form") == 0 {
		return queueT{&queueA{}, p.Int("vals")}
	}
	return queueT{&queueB{}, p.Int("vals")}
}

// The values that go in are not always small numbers.
func out(mode, v int) int {
	switch mode {
	case 1:
		return -v
	case 2:
		return v << 33
	case 3:
		return v + -1<<63
	case 4:
		return 1<<63 - 1 - v
	}
	return v
}

func back(mode, v int) int {
	switch mode {
	case 1:
		return -v
	case 2:
		if v&(1<<33-1) != 0 {
			return -77
		}
		return v >> 33
	case 3:
		return v - -1<<63
	case 4:
		return 1<<63 - 1 - v
	}
	return v
}

// vals draws the kind of values; 5 is the same few again and again.
func vals(r *rng.R) int {
	if r.P(0.6) {
		return 0
	}
	return r.Range(1, 5)
}

// same gives the value to push as the n-th.
func same(p *core.Plan, n int) int {
	if p.Int("vals") == 5 {
		return n / 3 % 2
	}
	return n
}

type queueT struct {
	queue
	mode int
}

func (q queueT) PushFront(v int) bool { return q.queue.PushFront(out(q.mode, v)) }
func (q queueT) PopFront() (int, bool) {
	v, ok := q.queue.PopFront()
	if ok {
		v = back(q.mode, v)
	}
	return v, ok
}

type dequeT struct {
	deque
	mode int
}

func (q dequeT) PushFront(v int) bool { return q.deque.PushFront(out(q.mode, v)) }
func (q dequeT) PushBack(v int) bool  { return q.deque.PushBack(out(q.mode, v)) }
func (q dequeT) PopFront() (int, bool) {
	v, ok := q.deque.PopFront()
	if ok {
		v = back(q.mode, v)
	}
	return v, ok
}
func (q dequeT) PopBack() (int, bool) {
	v, ok := q.deque.PopBack()
	if ok {
		v = back(q.mode, v)
	}
	return v, ok
}

func genQueue(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("form", r.N(2))
	p.Set("vals", vals(r))
	p.Set("prefill", r.N(4))
	if r.P(0.06) {
		p.Set("prefill", r.Pick(16, 33, 65, 130))
	}
	n := r.Range(2, 5)
	clear := r.P(0.15)
	bias := r.PickF(0.3, 0.5, 0.7)
	for i := 0; i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, 5); k > 0; k-- {
			switch {
			case clear && r.P(0.15):
				ops = append(ops, core.Op{K: "clear"})
			case r.P(0.08):
				ops = append(ops, core.Op{K: "empty"})
			case r.P(0.05):
				ops = append(ops, core.Op{K: "size"})
			case r.P(bias):
				ops = append(ops, core.Op{K: "push"})
			default:
				ops = append(ops, core.Op{K: "pop"})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 3, 40, 2000)
	}
	if r.P(0.1) {
		p.AddFault("freeze", r.N(n), int64(r.N(40)), 0)
	}
	return p
}

func queueStep(s string, op *core.LinOp) (bool, string) {
	switch op.Name {
	case "push":
		return true, enc(op.In.(int)) + s
	case "pop":
		if op.Pending {
			if s == "" {
				return true, s
			}
			_, k := first(s)
			return true, s[k:]
		}
		o := op.Out.(res)
		if s == "" {
			return !o.ok, s
		}
		v, k := first(s)
		return o.ok && v == o.v, s[k:]
	case "clear":
		return true, ""
	case "empty":
		if op.Pending {
			return true, s
		}
		return op.Out.(bool) == (s == ""), s
	}
	return true, s
}

func first(s string) (v, n int) {
	for _, r := range s {
		return int(r) - ch0, len(string(r))
	}
	return -1, 0
}

func last(s string) (v, n int) {
	r := []rune(s)
	return int(r[len(r)-1]) - ch0, len(string(r[len(r)-1]))
}

func runQueue(c *core.Ctx) {
	q := newQueue(c.Plan)
	val := new(simrt.Cell)
	init := ""
	for i := c.Plan.Int("prefill"); i > 0; i-- {
		v := same(c.Plan, int(val.Add(1)))
		q.PushFront(v)
		init = enc(v) + init
	}
	hs := make([]hist, len(c.Plan.Tasks))
	var tasks []func()
	for i, ops := range c.Plan.Tasks {
		h := &hs[i]
		tasks = append(tasks, func() {
			for _, o := range ops {
				switch o.K {
				case "push":
					v := same(c.Plan, int(val.Add(1)))
					ret := h.begin("push", v)
					ok := q.PushFront(v)
					ret(ok)
					if !ok {
						core.StopFail("lin/refused", "PushFront returned false")
					}
				case "pop":
					ret := h.begin("pop", nil)
					v, ok := q.PopFront()
					ret(res{v, ok})
				case "clear":
					ret := h.begin("clear", nil)
					q.Clear()
					ret(nil)
				case "empty":
					ret := h.begin("empty", nil)
					ret(q.Empty())
				case "size":
					q.Size()
				}
			}
		})
	}
	o := c.Sim(tasks)
	if !endOf(c, o) {
		return
	}
	all := join(hs)
	pending := false
	for _, x := range all {
		pending = pending || x.Pending
	}
	// drain: the last part of the history
	size := q.Size()
	left := 0
	seq := int64(1 << 40)
	for {
		v, ok := q.PopFront()
		seq += 2
		all = append(all, core.LinOp{Task: -1, Name: "pop", Out: res{v, ok}, Call: seq, Ret: seq + 1})
		if !ok {
			break
		}
		left++
		if left > 400 {
			c.Fail("lin/endless", "draining the queue does not end")
			return
		}
	}
	c.Log("%s", show(all))
	good, unknown := core.CheckLin(init, all, queueStep, 200000)
	if unknown {
		c.Unknown()
	}
	if !good {
		c.Fail("lin", "no order of the calls explains their results: started with %d values; %s", c.Plan.Int("prefill"), show(all))
	}
	if !pending {
		if size != left {
			c.Fail("size", "Size was %d when no call was running, but draining gave %d values", size, left)
		}
		if e := q.Size(); e != 0 {
			c.Fail("size", "Size is %d after draining", e)
		}
		if !q.Empty() {
			c.Fail("size", "Empty is false after draining")
		}
	}
	if len(all) < 3 {
		c.Trivial()
	}
}

func genQueueSeq(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("form", r.N(2))
	p.Set("n", r.Range(1, 200))
	p.Set("vals", vals(r))
	if r.P(0.1) {
		p.Set("n", r.Range(1000, 5000))
	}
	p.Set("bias", r.Range(30, 70))
	p.Set("clear", r.N(8))
	if r.P(0.15) {
		p.Set("bias", r.Range(70, 99))
		p.Set("clear", 0)
	}
	p.Set("end", r.N(2))
	if r.P(0.01) {
		p.Set("n", r.Pick(70000, 140000))
		p.Set("bias", r.Pick(50, 99))
		p.Set("clear", 0)
		p.Set("end", r.N(2))
		p.Cap = 2000000000
	}
	return p
}

func runQueueSeq(c *core.Ctx) {
	if m := c.Solo(func() { queueSeq(c) }); m != "" {
		c.Fail("lin/seq", "%s", m)
	}
}

func queueSeq(c *core.Ctx) {
	q := newQueue(c.Plan)
	r := c.R
	var m []int
	for i := 0; i < c.Plan.Int("n"); i++ {
		switch {
		case r.N(100) < c.Plan.Int("clear"):
			q.Clear()
			m = nil
		case r.N(100) < c.Plan.Int("bias"):
			v := same(c.Plan, i)
			if !q.PushFront(v) {
				c.Fail("lin/seq", "PushFront returned false")
			}
			m = append(m, v)
		default:
			v, ok := q.PopFront()
			if ok != (len(m) > 0) || ok && v != m[len(m)-1] {
				c.Fail("lin/seq", "operation %d: PopFront gave %v, %v with %d values inside", i, v, ok, len(m))
				return
			}
			if ok {
				m = m[:len(m)-1]
			}
		}
		if q.Size() != len(m) || q.Empty() != (len(m) == 0) {
			c.Fail("size", "operation %d: Size %d, Empty %v with %d values inside", i, q.Size(), q.Empty(), len(m))
			return
		}
	}
	if c.Plan.Int("end") == 1 {
		q.Clear()
		if q.Size() != 0 || !q.Empty() {
			c.Fail("size", "Size %d, Empty %v after clearing %d values", q.Size(), q.Empty(), len(m))
		}
	}
	c.Log("n=%d left=%d", c.Plan.Int("n"), len(m))
}

// ---- the deque ----

type deque interface {
	PushFront(v int) bool
	PushBack(v int) bool
	PopFront() (int, bool)
	PopBack() (int, bool)
	Clear()
	Cap() int
	Size() int
	Empty() bool
}

type dequeA struct{ *dqa.LFDeque }

func (q dequeA) PushFront(v int) bool { return q.LFDeque.PushFront(dqa.GOGPValueType(v)) }
func (q dequeA) PushBack(v int) bool  { return q.LFDeque.PushBack(dqa.GOGPValueType(v)) }
func (q dequeA) PopFront() (int, bool) {
	v, ok := q.LFDeque.PopFront()
	return int(v), ok
}
func (q dequeA) PopBack() (int, bool) {
	v, ok := q.LFDeque.PopBack()
	return int(v), ok
}
func (q dequeA) Size() int { return int(q.LFDeque.Size()) }
func (q dequeA) Cap() int  { return int(q.LFDeque.Cap()) }

type dequeB struct{ *dqb.LFDeque }

func (q dequeB) PushFront(v int) bool { return q.LFDeque.PushFront(dqb.GOGPValueType(v)) }
func (q dequeB) PushBack(v int) bool  { return q.LFDeque.PushBack(dqb.GOGPValueType(v)) }
func (q dequeB) PopFront() (int, bool) {
	v, ok := q.LFDeque.PopFront()
	return int(v), ok
}
func (q dequeB) PopBack() (int, bool) {
	v, ok := q.LFDeque.PopBack()
	return int(v), ok
}
func (q dequeB) Size() int { return int(q.LFDeque.Size()) }
func (q dequeB) Cap() int  { return int(q.LFDeque.Cap()) }

// defaults are the sizes of deques that were not asked for any, by form.
var defaults = [2]int{sane(int(dqa.NewLFDeque(0).Cap())), sane(int(dqb.NewLFDeque(0).Cap()))}

func sane(n int) int {
	if n >= 2 && n <= 64 {
		return n
	}
	return 8
}

func newDeque(p *core.Plan) (deque, int) {
	d, n := makeDeque(p)
	return dequeT{d, p.Int("vals")}, n
}

func makeDeque(p *core.Plan) (deque, int) {
	n := p.Int("cap")
	want := n
	if n <= 0 {
		want = defaults[p.Int("form")&1]
	}
	if p.Int("zero") == 1 {
		if p.Int("form") == 0 {
			return dequeA{&dqa.LFDeque{}}, want
		}
		return dequeB{&dqb.LFDeque{}}, want
	}
	if p.Int("form") == 0 {
		if p.Int("ctor") == 0 {
			return dequeA{dqa.NewLFDeque(int32(n))}, want
		}
		d := &dqa.LFDeque{}
		d.Init(int32(n))
		return dequeA{d}, want
	}
	if p.Int("ctor") == 0 {
		return dequeB{dqb.NewLFDeque(int32(n))}, want
	}
	d := &dqb.LFDeque{}
	d.Init(int32(n))
	return dequeB{d}, want
}

func genDeque(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000, Tick: int64(r.Pick(0, 100, 100000))}
	p.Set("form", r.N(2))
	p.Set("ctor", r.N(2))
	p.Set("cap", r.Pick(2, 2, 3, 3, 4, 5, 8, 0))
	p.Set("vals", vals(r))
	p.Set("warm", r.N(12))
	p.Set("pushers", 1)
	// which ends are used
	pu := r.Pick(0, 1, 2) // back, front, both
	po := r.Pick(0, 1, 2)
	var a, b, w []core.Op
	for k := r.Range(1, 8); k > 0; k-- {
		e := pu
		if e == 2 {
			e = r.N(2)
		}
		a = append(a, core.Op{K: "push", A: []int64{int64(e)}})
	}
	for k := r.Range(1, 10); k > 0; k-- {
		e := po
		if e == 2 {
			e = r.N(2)
		}
		if len(b) > 0 && r.P(0.02) { // a push may have to wait for long
			b = append(b, core.Op{K: "pause", A: []int64{int64(r.Pick(10, 100, 1000, 5000, 20000))}})
		}
		b = append(b, core.Op{K: "pop", A: []int64{int64(1 - e)}})
	}
	p.Tasks = [][]core.Op{a, b}
	if r.P(0.4) {
		for k := r.Range(1, 4); k > 0; k-- {
			w = append(w, core.Op{K: []string{"size", "empty"}[r.N(2)]})
		}
		p.Tasks = append(p.Tasks, w)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 3, 60, 2000)
	}
	return p
}

func genDequeMulti(r *rng.R, tier string) *core.Plan {
	p := genDeque(r, tier)
	p.Set("multi", 1)
	n := r.Range(1, 2)
	if n == 2 {
		var a []core.Op
		for k := r.Range(1, 3); k > 0; k-- {
			a = append(a, core.Op{K: "push", A: []int64{int64(r.N(2))}})
		}
		p.Tasks = append(p.Tasks, a)
	}
	if n == 1 || r.P(0.5) {
		var a []core.Op
		for k := r.Range(1, 4); k > 0; k-- {
			a = append(a, core.Op{K: "pop", A: []int64{int64(r.N(2))}})
		}
		p.Tasks = append(p.Tasks, a)
	}
	return p
}

func runDeque(c *core.Ctx) {
	q, want := newDeque(c.Plan)
	if q.Cap() != want {
		c.Fail("lin/cap", "the buffer has %d slots, %d were asked for", q.Cap(), want)
		return
	}
	room := want - 1
	val := new(simrt.Cell)
	init := ""
	n := 0
	for i := c.Plan.Int("warm"); i > 0; i-- {
		if n < room && c.R.P(0.55) {
			v := same(c.Plan, int(val.Add(1)))
			n++
			if c.R.P(0.5) {
				q.PushBack(v)
				init += enc(v)
			} else {
				q.PushFront(v)
				init = enc(v) + init
			}
		} else if n > 0 {
			n--
			if c.R.P(0.5) {
				v, k := first(init)
				init = init[k:]
				if g, ok := q.PopFront(); !ok || g != v {
					c.Fail("lin/seq", "PopFront gave %d, %v; %d was first", g, ok, v)
					return
				}
			} else {
				v, k := last(init)
				init = init[:len(init)-k]
				if g, ok := q.PopBack(); !ok || g != v {
					c.Fail("lin/seq", "PopBack gave %d, %v; %d was last", g, ok, v)
					return
				}
			}
		}
	}
	hs := make([]hist, len(c.Plan.Tasks))
	pushing := new(simrt.Cell)
	for _, ops := range c.Plan.Tasks {
		if len(ops) > 0 && ops[0].K == "push" {
			pushing.Add(1)
		}
	}
	lastPopper := -1
	for i, ops := range c.Plan.Tasks {
		if len(ops) > 0 && ops[0].K == "pop" {
			lastPopper = i
		}
	}
	var tasks []func()
	for i, ops := range c.Plan.Tasks {
		h := &hs[i]
		pop := func(back bool) {
			name := "popfront"
			if back {
				name = "popback"
			}
			ret := h.begin(name, nil)
			var v int
			var ok bool
			if back {
				v, ok = q.PopBack()
			} else {
				v, ok = q.PopFront()
			}
			ret(res{v, ok})
		}
		tasks = append(tasks, func() {
			for _, o := range ops {
				switch o.K {
				case "push":
					v := same(c.Plan, int(val.Add(1)))
					var ok bool
					if o.Arg(0) == 0 {
						ret := h.begin("pushback", v)
						ok = q.PushBack(v)
						ret(ok)
					} else {
						ret := h.begin("pushfront", v)
						ok = q.PushFront(v)
						ret(ok)
					}
					if !ok {
						core.StopFail("lin/refused", "a push returned false")
					}
				case "pop":
					pop(o.Arg(0) == 1)
				case "pause":
					simrt.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
				case "size":
					ret := h.begin("size", nil)
					ret(q.Size())
				case "empty":
					ret := h.begin("empty", nil)
					ret(q.Empty())
				}
			}
			if len(ops) > 0 && ops[0].K == "push" {
				pushing.Add(-1)
			}
			// the last popper makes room until every push is done
			if i == lastPopper {
				for k := 0; pushing.Get() > 0; k++ {
					simrt.Sleep(2e6)
					if k > 3 && pushing.Get() > 0 && q.Size() >= room {
						pop(ops[0].Arg(0) == 1)
					}
				}
			}
		})
	}
	if lastPopper < 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	multi := c.Plan.Int("multi") == 1
	overlap := func() bool {
		all := join(hs)
		for i := range all {
			for j := i + 1; j < len(all); j++ {
				a, b := &all[i], &all[j]
				if a.Task != b.Task && a.Name[:3] == b.Name[:3] && (a.Name[0] == 'p') && a.Name[1] == b.Name[1] &&
					(a.Pending || b.Call < a.Ret) {
					return true
				}
			}
		}
		return false
	}
	if multi && o.End != "done" && overlap() {
		c.Fail("multi-overlap", "concurrent calls of one kind: %s %s", o.End, o.Stop)
		return
	}
	if !endOf(c, o) {
		return
	}
	all := join(hs)
	size := q.Size()
	left := 0
	seq := int64(1 << 40)
	for {
		v, ok := q.PopFront()
		seq += 2
		all = append(all, core.LinOp{Task: -1, Name: "popfront", Out: res{v, ok}, Call: seq, Ret: seq + 1})
		if !ok {
			break
		}
		if left++; left > 200 {
			c.Fail("lin/endless", "draining the deque does not end")
			return
		}
	}
	c.Log("%s", show(all))
	good, unknown := core.CheckLin(init, all, func(s string, op *core.LinOp) (bool, string) { return dequeStep(s, op, room) }, 300000)
	if unknown {
		c.Unknown()
	}
	if !good {
		if multi && overlap() {
			c.Fail("multi-overlap", "concurrent calls of one kind lose, repeat or reorder values: %s", show(all))
			return
		}
		c.Fail("lin", "no order of the calls explains their results: buffer of %d, started with %d values; %s", want, n, show(all))
	}
	if size != left && !(multi && overlap()) {
		c.Fail("size", "Size was %d when no call was running, but draining gave %d values", size, left)
	}
}

func dequeStep(s string, op *core.LinOp, room int) (bool, string) {
	n := len([]rune(s))
	switch op.Name {
	case "pushback":
		return n < room, s + enc(op.In.(int))
	case "pushfront":
		return n < room, enc(op.In.(int)) + s
	case "popfront", "popback":
		o := op.Out.(res)
		if n == 0 {
			return !o.ok, s
		}
		if op.Name == "popfront" {
			v, k := first(s)
			return o.ok && v == o.v, s[k:]
		}
		v, k := last(s)
		return o.ok && v == o.v, s[:len(s)-k]
	case "size":
		return op.Out.(int) == n, s
	case "empty":
		return op.Out.(bool) == (n == 0), s
	}
	return false, s
}

func genDequeSeq(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("form", r.N(2))
	p.Set("ctor", r.N(2))
	p.Set("cap", r.Pick(2, 3, 4, 5, 7, 8, 9, 16, 0, -1, 33))
	p.Set("n", r.Range(1, 300))
	if r.P(0.1) {
		p.Set("n", r.Range(1000, 4000))
		p.Set("cap", r.Pick(2, 8, 63, 64, 255, 256, 257, 1000))
	}
	if r.P(0.03) { // a large buffer, filled at once
		p.Set("cap", r.Pick(32768, 65535, 65536, 65537, 70001))
		p.Set("fill", p.Int("cap")-1-r.N(10))
		p.Set("fillfront", r.N(2))
		p.Set("turn", r.N(2))
		p.Cap = 200000000
	}
	if r.P(0.1) && p.Int("fill") == 0 { // never initialised
		p.Set("zero", 1)
		p.Set("cap", 0)
	}
	p.Set("vals", vals(r))
	p.Set("bias", r.Range(30, 80))
	p.Set("front", r.Pick(0, 100, r.N(100)))
	p.Set("pfront", r.Pick(0, 100, r.N(100)))
	p.Set("clear", r.N(4))
	return p
}

func runDequeSeq(c *core.Ctx) {
	if m := c.Solo(func() { dequeSeq(c) }); m != "" {
		c.Fail("lin/seq", "%s", m)
	}
}

func dequeSeq(c *core.Ctx) {
	q, want := newDeque(c.Plan)
	r := c.R
	var m []int
	if q.Cap() != want && c.Plan.Int("zero") == 0 {
		core.StopFail("lin/cap", "the buffer has %d slots, %d were asked for", q.Cap(), want)
	}
	for i := c.Plan.Int("fill"); i > 0; i-- {
		v := -i
		if c.Plan.Int("fillfront") == 1 {
			v = i - c.Plan.Int("fill") - 1
			if !q.PushFront(-i) {
				c.Fail("lin/seq", "PushFront was refused with %d of %d inside", len(m), want-1)
				return
			}
		} else if !q.PushBack(-i) {
			c.Fail("lin/seq", "PushBack was refused with %d of %d inside", len(m), want-1)
			return
		}
		m = append(m, v)
	}
	if c.Plan.Int("turn") == 1 { // every slot is used again from the other end
		for i := range m {
			var v int
			var ok bool
			if c.Plan.Int("fillfront") == 1 {
				v, ok = q.PopBack()
				if ok = ok && v == m[len(m)-1-i]; ok {
					ok = q.PushFront(v)
				}
			} else {
				v, ok = q.PopFront()
				if ok = ok && v == m[i]; ok {
					ok = q.PushBack(v)
				}
			}
			if !ok || q.Size() != len(m) {
				c.Fail("lin/seq", "turning over a deque of %d values: step %d gave %v, %v; the size is %d", len(m), i, v, ok, q.Size())
				return
			}
		}
	}
	none := -1 << 40
	for i := 0; i < c.Plan.Int("n"); i++ {
		switch {
		case r.N(100) < c.Plan.Int("clear"):
			q.Clear()
			m = nil
		case r.N(100) < c.Plan.Int("bias") && len(m) < want-1:
			ok := false
			v := same(c.Plan, i)
			if r.N(100) < c.Plan.Int("front") {
				ok = q.PushFront(v)
				m = append([]int{v}, m...)
			} else {
				ok = q.PushBack(v)
				m = append(m, v)
			}
			if !ok {
				c.Fail("lin/seq", "operation %d: a push was refused with room left", i)
				return
			}
			if len(m) == want-1 {
				c.Probe("deque full")
			}
		default:
			var v, w int
			var ok bool
			name := "PopBack"
			if r.N(100) < c.Plan.Int("pfront") {
				name = "PopFront"
				v, ok = q.PopFront()
				if len(m) > 0 {
					w = m[0]
					m = m[1:]
				} else {
					w = none
				}
			} else {
				v, ok = q.PopBack()
				if len(m) > 0 {
					w = m[len(m)-1]
					m = m[:len(m)-1]
				} else {
					w = none
				}
			}
			if ok != (w != none) || ok && v != w {
				c.Fail("lin/seq", "operation %d: %s gave %v, %v; expected %v", i, name, v, ok, w)
				return
			}
		}
		if q.Size() != len(m) || q.Empty() != (len(m) == 0) {
			c.Fail("size", "operation %d: Size %d, Empty %v with %d values inside", i, q.Size(), q.Empty(), len(m))
			return
		}
	}
	c.Log("n=%d left=%d", c.Plan.Int("n"), len(m))
}
