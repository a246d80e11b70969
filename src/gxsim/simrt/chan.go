package simrt

import (
	"reflect"
	"time"
	"unsafe"
)

// Channels of the library under test. The instrumenter turns channel
// operations into these calls. Buffered channels keep their values in the real
// channel; an operation on an unbuffered channel which cannot go ahead parks in
// the channel's queue and is completed by its partner, as in the Go runtime.

type chState struct {
	p      unsafe.Pointer
	next   *chState
	ref    any // keeps the channel alive, so that its address stays unique
	closed bool
	temp   bool // made by a timer: forgotten after the run
	recvq  []parked
	sendq  []parked
	pad    [8]byte
}

// sel is one blocking operation: a single send or receive, or a select.
type sel struct {
	cases []Case
	fired int // index of the case a partner completed, or -1
}

type parked struct {
	s *sel
	i int
	c Case
}

// The table of channel states is not a Go map: the race detector watches maps
// even in norace code.
var chans [256]*chState

//go:norace
func st(ch any) *chState {
	p := ptr(ch)
	b := &chans[(uintptr(p)>>5*0x9E3779B9>>7)%256]
	for c := *b; c != nil; c = c.next {
		if c.p == p {
			return c
		}
	}
	c := &chState{ref: ch, p: p, next: *b}
	*b = c
	return c
}

// forgetTemp drops the channels of the last run's timers.
//
//go:norace
func forgetTemp() {
	for i := range chans {
		b := &chans[i]
		for *b != nil {
			c := *b
			c.recvq, c.sendq = nil, nil
			if c.temp {
				*b = c.next
			} else {
				b = &c.next
			}
		}
	}
}

func ptr(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

// edge orders this operation after all earlier ones on the channel. That is
// more order than the language promises, so a race may be missed but none is
// invented.
func (c *chState) edge() {
	RaceAcquire(unsafe.Pointer(&c.pad))
	RaceRelease(unsafe.Pointer(&c.pad))
}

// pop takes the first operation which is still waiting.
//
//go:norace
func pop(q *[]parked) (parked, bool) {
	for len(*q) > 0 {
		p := (*q)[0]
		*q = (*q)[1:]
		if p.s.fired < 0 {
			return p, true
		}
	}
	return parked{}, false
}

//go:norace
func waits(q []parked) bool {
	for _, p := range q {
		if p.s.fired < 0 {
			return true
		}
	}
	return false
}

// Case is one select case, also used for single operations.
type Case interface {
	ready() bool // could complete now
	try() bool   // complete if possible
	park(s *sel, i int)
	unpark(s *sel)
	after() // the partner has completed it
}

//go:norace
func drop(q []parked, s *sel) []parked {
	var r []parked
	for _, p := range q {
		if p.s != s {
			r = append(r, p)
		}
	}
	return r
}

// RCase receives.
type RCase[T any] struct {
	ch <-chan T
	c  *chState
	V  T
	OK bool
}

// RC makes a receive case.
func RC[T any](ch <-chan T) *RCase[T] {
	r := &RCase[T]{ch: ch}
	if ch != nil {
		r.c = st(ch)
	}
	return r
}

//go:norace
func (r *RCase[T]) ready() bool {
	if r.ch == nil {
		return false
	}
	return r.c.closed || len(r.ch) > 0 || waits(r.c.sendq)
}

//go:norace
func (r *RCase[T]) park(s *sel, i int) {
	if r.c != nil {
		RaceRelease(unsafe.Pointer(&r.c.pad))
		r.c.recvq = append(r.c.recvq, parked{s, i, r})
	}
}

//go:norace
func (r *RCase[T]) unpark(s *sel) {
	if r.c != nil {
		r.c.recvq = drop(r.c.recvq, s)
	}
}

func (r *RCase[T]) after() { r.c.edge() }

//go:norace
func (r *RCase[T]) try() bool {
	if r.ch == nil {
		return false
	}
	if len(r.ch) > 0 {
		r.c.edge()
		r.V, r.OK = <-r.ch, true
		return true
	}
	if cap(r.ch) == 0 {
		if p, ok := pop(&r.c.sendq); ok {
			r.c.edge()
			r.V, r.OK = p.c.(*SCase[T]).v, true
			p.s.fired = p.i
			return true
		}
	}
	if r.c.closed {
		r.c.edge()
		var z T
		r.V, r.OK = z, false
		return true
	}
	return false
}

// SCase sends.
type SCase[T any] struct {
	ch chan<- T
	c  *chState
	v  T
}

// SC makes a send case.
func SC[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] {
		s := &SCase[T]{ch: ch, v: v}
		if ch != nil {
			s.c = st(ch)
		}
		return s
	}
}

//go:norace
func (s *SCase[T]) ready() bool {
	if s.ch == nil {
		return false
	}
	if s.c.closed {
		return true
	}
	if cap(s.ch) > 0 {
		return len(s.ch) < cap(s.ch)
	}
	return waits(s.c.recvq)
}

//go:norace
func (s *SCase[T]) park(x *sel, i int) {
	if s.c != nil && cap(s.ch) == 0 {
		RaceRelease(unsafe.Pointer(&s.c.pad))
		s.c.sendq = append(s.c.sendq, parked{x, i, s})
	}
}

//go:norace
func (s *SCase[T]) unpark(x *sel) {
	if s.c != nil {
		s.c.sendq = drop(s.c.sendq, x)
	}
}

func (s *SCase[T]) after() { s.c.edge() }

//go:norace
func (s *SCase[T]) try() bool {
	if s.ch == nil {
		return false
	}
	if s.c.closed {
		panic("send on closed channel")
	}
	if cap(s.ch) > 0 {
		if len(s.ch) >= cap(s.ch) {
			return false
		}
		s.c.edge()
		s.ch <- s.v
		return true
	}
	p, ok := pop(&s.c.recvq)
	if !ok {
		return false
	}
	s.c.edge()
	r := p.c.(*RCase[T])
	r.V, r.OK = s.v, true
	p.s.fired = p.i
	return true
}

//go:norace
func (x *sel) Ready() bool {
	if x.fired >= 0 {
		return true
	}
	for _, c := range x.cases {
		if c.ready() {
			return true
		}
	}
	return false
}

//go:norace
func (x *sel) done() int { return x.fired }

// Select runs the first ready case, starting at a scheduler-chosen one, and
// returns its index, or -1 for the default.
func Select(hasDefault bool, cases ...Case) int { return doSelect(hasDefault, "select", cases) }

func doSelect(hasDefault bool, what string, cases []Case) int {
	YS()
	for {
		off := 0
		if len(cases) > 1 {
			off = int(uint64(Step()) % uint64(len(cases)))
		}
		for i := range cases {
			j := (i + off) % len(cases)
			if cases[j].try() {
				return j
			}
		}
		if hasDefault {
			return -1
		}
		x := &sel{cases: cases, fired: -1}
		for i, c := range cases {
			c.park(x, i)
		}
		Block(x, -1, what)
		for _, c := range cases {
			c.unpark(x)
		}
		if i := x.done(); i >= 0 {
			cases[i].after()
			return i
		}
	}
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) { doSelect(false, "channel send", []Case{SC(ch)(v)}) }

// SendTo is ch <- v, with the value's type taken from the channel.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	r := RC(ch)
	doSelect(false, "channel receive", []Case{r})
	return r.V, r.OK
}

// Recv1 is <-ch.
func Recv1[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	YS()
	closeCh(ch, st(ch))
}

//go:norace
func closeCh[T any](ch chan<- T, c *chState) {
	if ch == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.edge()
	c.closed = true
}

// G0 and GoCall are the library's go statements: function and arguments are
// evaluated by the starting task.
func G0(f func()) { Go(f) }

// GoCall starts f with args; spread says that the last one was given with "...".
func GoCall(spread bool, f any, args ...any) {
	if g, ok := f.(func()); ok && len(args) == 0 {
		Go(g)
		return
	}
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var p reflect.Type
		switch {
		case t.IsVariadic() && i >= t.NumIn()-1 && !spread:
			p = t.In(t.NumIn() - 1).Elem()
		default:
			p = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(p)
			continue
		}
		in[i] = reflect.ValueOf(a)
		if !in[i].Type().AssignableTo(p) {
			in[i] = in[i].Convert(p)
		}
	}
	Go(func() {
		if spread {
			v.CallSlice(in)
		} else {
			v.Call(in)
		}
	})
}

// Timer is an event of the simulated clock: a time sent on a channel, or a
// function started in a task of its own.
type Timer struct {
	C      chan time.Time
	F      func()
	when   int64
	period int64
	armed  bool
	proc   int
	pad    [8]byte
}

// NewChanTimer makes a stopped timer with a channel.
//
//go:norace
func NewChanTimer() *Timer {
	t := &Timer{C: make(chan time.Time, 1)}
	st(t.C).temp = true
	return t
}

// Arm sets the timer; a period of 0 means that it fires once. It tells whether
// the timer was set before.
//
//go:norace
func (t *Timer) Arm(d, period int64) bool {
	YS()
	s := cur
	if s == nil {
		return false
	}
	was := t.armed
	RaceRelease(unsafe.Pointer(&t.pad))
	if d < 0 {
		d = 0
	}
	if t.C != nil && len(t.C) > 0 {
		<-t.C // since Go 1.23 Stop and Reset leave no stale value
	}
	t.when, t.period, t.armed, t.proc = s.now+d, period, true, s.run.Proc
	for _, o := range s.timers {
		if o == t {
			return was
		}
	}
	s.timers = append(s.timers, t)
	return was
}

// Disarm stops the timer.
//
//go:norace
func (t *Timer) Disarm() bool {
	YS()
	was := t.armed
	t.armed = false
	if t.C != nil && len(t.C) > 0 {
		<-t.C
		was = true
	}
	return was
}

func (t *Timer) run() {
	RaceAcquire(unsafe.Pointer(&t.pad))
	t.F()
}

// fire runs the timers which are due.
//
//go:norace
func (s *Sim) fire() {
	k := 0
	n := len(s.timers)
	for i := 0; i < n; i++ {
		t := s.timers[i]
		if !t.armed {
			continue
		}
		if t.when > s.now {
			s.timers[k] = t
			k++
			continue
		}
		if t.period > 0 {
			t.when += t.period
			if t.when <= s.now {
				t.when = s.now + t.period
			}
			s.timers[k] = t
			k++
		} else {
			t.armed = false
		}
		if t.F != nil {
			nt := s.addTask()
			nt.Proc = t.proc
			go s.body(nt, t.run)
		} else if len(t.C) == 0 {
			t.C <- time.Unix(0, WallNs()).UTC()
		}
	}
	s.timers = s.timers[:k]
}

// due tells the time of the next timer, or -1.
//
//go:norace
func (s *Sim) due() int64 {
	best := int64(-1)
	for _, t := range s.timers {
		if t.armed && (best < 0 || t.when < best) {
			best = t.when
		}
	}
	return best
}
