// Harness for debug (C28) and unsafe (C30).
package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	"github.com/vipally/gx/debug"
	gunsafe "github.com/vipally/gx/unsafe"
)

func main() {
	core.Register("trace", genTrace, runTrace)
	core.Register("views", genViews, runViews)
	core.Main()
}

// ---- backtraces ----

type tracer struct {
	op     string
	depth  int
	want   []runtime.Frame // from the leaf outwards
	got    string
	list   []string
	panicV string
}

// capture is the oracle: the caller's own stack, read with the runtime's
// frame iterator.
//
//go:noinline
func capture() []runtime.Frame {
	pcs := make([]uintptr, 400)
	n := runtime.Callers(2, pcs)
	it := runtime.CallersFrames(pcs[:n])
	var out []runtime.Frame
	for more := n > 0; more; {
		var f runtime.Frame
		f, more = it.Next()
		out = append(out, f)
	}
	return out
}

// leaf calls the oracle and the function under test from the same line.
//
//go:noinline
func leaf(t *tracer) {
	switch t.op {
	case "Bt":
		t.want, t.got = capture(), debug.Bt()
	case "BtFileLine":
		t.want, t.got = capture(), debug.BtFileLine()
	case "BtFunc":
		t.want, t.got = capture(), debug.BtFunc()
	case "Caller":
		t.want, t.got = capture(), debug.Caller(t.depth)
	case "CallerFileLine":
		t.want, t.got = capture(), debug.CallerFileLine(t.depth)
	case "CallerFunc":
		t.want, t.got = capture(), debug.CallerFunc(t.depth)
	case "Bts":
		t.want, t.got = capture(), debug.Bts()
	case "CallStackList":
		t.want, t.list = capture(), debug.CallStackList(t.depth)
	case "Assert":
		leafAssert(t)
	}
}

//go:noinline
func leafAssert(t *tracer) {
	defer func() { t.panicV = fmt.Sprint(recover()) }()
	if !debug.Assert(true) {
		t.got = "Assert(true) returned false"
		return
	}
	debug.Assert(set(t, capture()))
	t.got = "Assert(false) did not panic"
}

func set(t *tracer, f []runtime.Frame) bool { t.want = f; return false }

type walker interface {
	walk(path string, t *tracer)
}

type hop struct{}
type jump struct{ n int }

//go:noinline
func fa(path string, t *tracer) { next(path, t) }

//go:noinline
func fb(path string, t *tracer) {
	next(path, t)
	runtime.KeepAlive(t)
}

// fc may be inlined.
func fc(path string, t *tracer) {
	next(path, t)
}

// fd may be inlined and calls another that may be.
func fd(path string, t *tracer) { fe(path, t) }
func fe(path string, t *tracer) {

	next(path, t)
}

//go:noinline
func fdefer(path string, t *tracer) {
	defer func() {
		next(path, t)
	}()
	if len(path) > 1000 {
		panic("too deep")
	}
}

//go:noinline
func (hop) walk(path string, t *tracer) { next(path, t) }

//go:noinline
func (j *jump) walk(path string, t *tracer) {
	next(path, t)
	j.n++
}

//go:noinline
func next(path string, t *tracer) {
	if path == "" {
		leaf(t)
		return
	}
	p := path[1:]
	switch path[0] {
	case 'a':
		fa(p, t)
	case 'b':
		fb(p, t)
	case 'c':
		fc(p, t)
	case 'd':
		fd(p, t)
	case 'e':
		fdefer(p, t)
	case 'f':
		func() { next(p, t) }()
	case 'g':
		var w walker = hop{}
		w.walk(p, t)
	case 'h':
		var w walker = &jump{}
		w.walk(p, t)
	case 'i':
		fLongVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongName(p, t)
	case 'j':
		fgen(len(p), p, t)
	case 'k':
		f := (&jump{}).walk
		f(p, t)
	case 'l':
		fpanic(p, t)
	case 'm':
		n := 0
		sort.Slice([]int{2, 1}, func(i, j int) bool {
			if n++; n == 1 {
				next(p, t)
			}
			return i < j
		})
	}
}

//go:noinline
func fLongVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongNameVeryLongName(path string, t *tracer) {
	next(path, t)
}

// fgen is generic.
//
//go:noinline
func fgen[T any](v T, path string, t *tracer) { next(path, t) }

//go:noinline
func fpanic(path string, t *tracer) {
	defer func() {
		recover()
	}()
	defer next(path, t)
	panic("on the way")
}

func genTrace(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	ops := []string{"Bt", "BtFileLine", "BtFunc", "Caller", "CallerFileLine", "CallerFunc", "Bts", "Bts", "CallStackList", "CallStackList", "Assert"}
	for i := r.Range(1, 5); i > 0; i-- {
		var os []core.Op
		for k := r.Range(1, 4); k > 0; k-- {
			n := r.N(8)
			if r.P(0.15) {
				n = r.Range(8, 40)
			}
			path := ""
			if r.P(0.05) {
				path = strings.Repeat(r.PickS("i", "k", "l", "ij"), r.Range(10, 30))
			}
			for ; n > 0; n-- {
				path += string(rune('a' + r.N(13)))
			}
			d := r.N(6)
			if r.P(0.2) {
				d = r.N(120)
			}
			if r.P(0.05) {
				d = r.Pick(1000, 100000, 1<<30)
			}
			os = append(os, core.Op{K: ops[r.N(len(ops))], A: []int64{int64(d)}, S: path})
		}
		p.Tasks = append(p.Tasks, os)
	}
	if r.P(0.3) {
		core.GenStalls(p, r, 2, 60, 500)
	}
	return p
}

const maxList = 50

func runTrace(c *core.Ctx) {
	res := make([][]*tracer, len(c.Plan.Tasks))
	var tasks []func()
	for i, ops := range c.Plan.Tasks {
		for range ops {
			res[i] = append(res[i], nil)
		}
		tasks = append(tasks, func() {
			for k, o := range ops {
				t := &tracer{op: o.K, depth: int(o.Arg(0))}
				next(o.S, t)
				res[i][k] = t
			}
		})
	}
	o := c.Sim(tasks)
	if c.Stopped(o) {
		return
	}
	for _, s := range o.Panics {
		c.Fail("panic", "%s", s)
		return
	}
	if o.End != "done" {
		c.Fail("trace/hang", "tracing does not end: %s", o.End)
		return
	}
	for i, ops := range c.Plan.Tasks {
		for k, op := range ops {
			if m := judge(res[i][k]); m != "" {
				c.Fail("trace", "task %d on the path %q: %s", i, op.S, m)
				return
			}
		}
		c.Log("task %d: %d traces", i, len(ops))
	}
}

// frame tells what is wrong with a description of f: the parts asked for must
// be there and no other.
func frame(got string, f runtime.Frame, fn, line bool) string {
	name := "Func{" + f.Function + "}"
	pos := fmt.Sprintf("{%s : %d}", f.File, f.Line)
	if strings.Contains(got, "Func{") != fn || fn && !strings.Contains(got, name) {
		return fmt.Sprintf("got %q, expected the function %s", got, f.Function)
	}
	if strings.Contains(got, " : ") != line || line && !strings.Contains(got, pos) {
		return fmt.Sprintf("got %q, expected the place %s", got, pos)
	}
	return ""
}

func frames(got []string, want []runtime.Frame) string {
	n := len(want)
	if n > maxList {
		n = maxList
	}
	if len(got) != n {
		return fmt.Sprintf("%d frames listed, expected %d", len(got), n)
	}
	for i := range got {
		if m := frame(got[i], want[i], true, true); m != "" {
			return fmt.Sprintf("frame %d: %s", i, m)
		}
	}
	return ""
}

// below counts the leading frames of the package under test and the runtime.
func below(ls []string) int {
	k := 0
	for k < len(ls) && (strings.Contains(ls[k], "Func{github.com/vipally/gx/debug.") || strings.Contains(ls[k], "Func{runtime.")) {
		k++
	}
	return k
}

func cut(w []runtime.Frame, n int) []runtime.Frame {
	if n < 0 {
		n = 0
	}
	if len(w) > n {
		w = w[:n]
	}
	return w
}

func judge(t *tracer) string {
	w := t.want
	fn, line := true, true
	switch t.op {
	case "BtFileLine", "CallerFileLine":
		fn = false
	case "BtFunc", "CallerFunc":
		line = false
	}
	m := ""
	switch t.op {
	case "Bt", "BtFileLine", "BtFunc":
		m = frame(t.got, w[0], fn, line)
	case "Caller", "CallerFileLine", "CallerFunc":
		if d := t.depth + 1; d < len(w) {
			m = frame(t.got, w[d], fn, line)
		} else if strings.Contains(t.got, "{") {
			m = fmt.Sprintf("got %q at a depth beyond the stack", t.got)
		}
	case "Bts":
		m = frames(lines(t.got), w)
		for i, l := range lines(t.got) {
			if m == "" && !strings.HasPrefix(l, fmt.Sprintf("#%d ", i)) {
				m = fmt.Sprintf("line %d is not numbered: %q", i, l)
			}
		}
	case "CallStackList":
		// 2 is the caller, 1 CallStackList itself, 0 the runtime below it
		d := t.depth
		if d >= 2 {
			if d-2 < len(w) {
				m = frames(t.list, w[d-2:])
			} else if len(t.list) != 0 {
				m = fmt.Sprintf("%d frames at a depth beyond the stack", len(t.list))
			}
		} else {
			// which frames below the caller are listed is the package's own
			// business
			k := below(t.list)
			if k == 0 {
				m = "the frames below the caller are missing"
			} else {
				m = frames(t.list[k:], cut(w, maxList-k))
			}
		}
	case "Assert":
		if t.got != "" {
			m = t.got
			break
		}
		ls := lines(t.panicV)
		if len(ls) < 3 || !strings.Contains(ls[0], "Assert") {
			m = fmt.Sprintf("Assert panicked with %q", t.panicV)
			break
		}
		// the trace starts in Assert itself or in what it calls
		ls = ls[1:]
		k := below(ls)
		m = frames(ls[k:], cut(w, maxList-k))
	}
	if m != "" {
		return fmt.Sprintf("%s(%d): %s", t.op, t.depth, m)
	}
	return ""
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// ---- views ----

func genViews(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for i := r.Range(1, 3); i > 0; i-- {
		var ops []core.Op
		for k := r.Range(2, 12); k > 0; k-- {
			n := r.Pick(0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 1000, 5000)
			if r.P(0.005) {
				n = r.Pick(32767, 32768, 65535, 65536, 70001, 1<<20, 1<<20+1, 3<<20)
			}
			ops = append(ops, core.Op{K: []string{"sb", "sb", "sb", "bs", "bs", "round", "sub", "keep", "use", "churn"}[r.N(10)],
				A: []int64{int64(n), int64(r.N(1 << 20)), int64(r.N(n + 1)), int64(r.N(n + 1))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for k := r.Range(1, 5); k > 0; k-- {
		p.AddFault("gc", r.N(len(p.Tasks)), int64(1+r.N(60)), 0)
	}
	return p
}

// fill makes the expected content.
func fill(n int, seed int64) []byte {
	r := rng.New(uint64(seed)*2654435761 + uint64(n))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 11)
	}
	return b
}

//go:noinline
func mkString(n int, seed int64) string { return string(fill(n, seed)) }

// viewOf drops the only other reference to the string.
//
//go:noinline
func viewOf(n int, seed int64) []byte { return gunsafe.StringBytes(mkString(n, seed)) }

//go:noinline
func stringOf(n int, seed int64) string { return string2(gunsafe.BytesString(fill(n, seed))) }

func string2(s gunsafe.String) string { return string(s) }

//go:noinline
func roundOf(n int, seed int64) []byte {
	return gunsafe.StringBytes(string(gunsafe.BytesString(fill(n, seed))))
}

//go:noinline
func subOf(n int, seed int64, lo, hi int) []byte {
	return gunsafe.StringBytes(mkString(n, seed)[lo:hi])
}

type view struct {
	b    []byte
	s    string
	str  bool
	want func() []byte
	what string
}

func (v *view) check() string {
	w := v.want()
	if v.str {
		if v.s != string(w) {
			return fmt.Sprintf("a string view of %s no longer shows the bytes it views (%d bytes, expected %d)", v.what, len(v.s), len(w))
		}
		return ""
	}
	if len(v.b) != len(w) || cap(v.b) != len(w) {
		return fmt.Sprintf("a byte view of %s has length %d and capacity %d, expected %d", v.what, len(v.b), cap(v.b), len(w))
	}
	if string(v.b) != string(w) {
		return fmt.Sprintf("a byte view of %s (%d bytes) no longer shows the bytes it views", v.what, len(w))
	}
	return ""
}

func runViews(c *core.Ctx) {
	var tasks []func()
	for _, ops := range c.Plan.Tasks {
		tasks = append(tasks, func() {
			var vs []*view
			var sink [8][]byte
			use := func() {
				for _, v := range vs {
					if m := v.check(); m != "" {
						core.StopFail("view", "%s", m)
					}
				}
			}
			for _, o := range ops {
				n, seed, lo, hi := int(o.Arg(0)), o.Arg(1), int(o.Arg(2)), int(o.Arg(3))
				want := func() []byte { return fill(n, seed) }
				switch o.K {
				case "sb":
					vs = append(vs, &view{b: viewOf(n, seed), want: want, what: "a string"})
				case "bs":
					vs = append(vs, &view{s: stringOf(n, seed), str: true, want: want, what: "bytes"})
				case "round":
					vs = append(vs, &view{b: roundOf(n, seed), want: want, what: "a view"})
				case "sub":
					if lo > hi {
						lo, hi = hi, lo
					}
					vs = append(vs, &view{b: subOf(n, seed, lo, hi), want: func() []byte { return fill(n, seed)[lo:hi] }, what: "part of a string"})
				case "keep":
					// the original stays: same memory, unchanged by viewing
					s := mkString(n, seed)
					b := gunsafe.StringBytes(s)
					if n > 0 && gunsafe.StringPointer(s) != gunsafe.BytesPointer(b) {
						core.StopFail("view/copy", "the byte view of a string of %d bytes is a copy", n)
					}
					x := fill(n, seed)
					t := gunsafe.BytesString(x)
					if n > 0 && gunsafe.BytesPointer(x) != t.Pointer() {
						core.StopFail("view/copy", "the string view of %d bytes is a copy", n)
					}
					if s != string(fill(n, seed)) || string(x) != s || string(t) != s {
						core.StopFail("view", "making views changed the bytes")
					}
				case "churn":
					for k := 0; k < 40; k++ {
						x := make([]byte, 1+(n+k*7)%300)
						for j := range x {
							x[j] = 0xA5
						}
						sink[k%8] = x
					}
				case "use":
					use()
				}
				simrt.YS()
			}
			runtime.GC()
			use()
			runtime.KeepAlive(&sink)
		})
	}
	o := c.Sim(tasks)
	if c.Stopped(o) {
		return
	}
	for _, s := range o.Panics {
		c.Fail("panic", "%s", s)
	}
	if o.End != "done" {
		c.Fail("view/hang", "%s", o.End)
	}
}
