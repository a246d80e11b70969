// Package simsync replaces package sync in the instrumented copy of the
// library: the same API, but waiting tasks are parked in the simulator and the
// order in which they are served is the simulator's choice.
package simsync

import (
	"sync"
	"unsafe"

	"gxsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	locked bool
	pad    [8]byte
}

//go:norace
func (m *Mutex) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	simrt.YS()
	for m.locked {
		simrt.Block(m, -1, "Mutex.Lock")
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.YS()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	simrt.YS()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.pad))
	m.locked = false
	simrt.YS()
}

// RWMutex is a simulated sync.RWMutex. A waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	pad     [8]byte
	padr    [8]byte
}

type rwW struct{ m *RWMutex }

//go:norace
func (x *rwW) Ready() bool { return !x.m.w && x.m.r == 0 }

type rwR struct{ m *RWMutex }

//go:norace
func (x *rwR) Ready() bool { return !x.m.w && x.m.waiting == 0 }

//go:norace
func (m *RWMutex) Lock() {
	simrt.YS()
	m.waiting++
	for m.w || m.r > 0 {
		simrt.Block(&rwW{m}, -1, "RWMutex.Lock")
	}
	m.waiting--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
	simrt.RaceAcquire(unsafe.Pointer(&m.padr))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.YS()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
	simrt.RaceAcquire(unsafe.Pointer(&m.padr))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	simrt.YS()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.pad))
	m.w = false
	simrt.YS()
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.YS()
	for m.w || m.waiting > 0 {
		simrt.Block(&rwR{m}, -1, "RWMutex.RLock")
	}
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.YS()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	simrt.RaceAcquire(unsafe.Pointer(&m.pad))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	simrt.YS()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.padr))
	m.r--
	simrt.YS()
}

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n   int
	pad [8]byte
}

//go:norace
func (g *WaitGroup) Ready() bool { return g.n == 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	simrt.YS()
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(&g.pad))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	simrt.YS()
	for g.n != 0 {
		simrt.Block(g, -1, "WaitGroup.Wait")
	}
	simrt.RaceAcquire(unsafe.Pointer(&g.pad))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
	pad  [8]byte
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.pad))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	simrt.RaceRelease(unsafe.Pointer(&o.pad))
	o.done = true
}

func (o *Once) Do(f func()) {
	simrt.YS()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

// OnceFunc and friends, as in package sync (panics are not cached).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L    Locker
	gen  int64 // broadcasts
	sig  int64 // signals available
	wait int64
	pad  [8]byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condW struct {
	c *Cond
	g int64
}

//go:norace
func (x *condW) Ready() bool { return x.c.gen > x.g || x.c.sig > 0 }

//go:norace
func (c *Cond) enter() *condW { c.wait++; return &condW{c, c.gen} }

//go:norace
func (c *Cond) leave(x *condW) {
	if c.gen <= x.g {
		c.sig--
	}
	c.wait--
	simrt.RaceAcquire(unsafe.Pointer(&c.pad))
}

func (c *Cond) Wait() {
	x := c.enter()
	c.L.Unlock()
	for !x.Ready() {
		simrt.Block(x, -1, "Cond.Wait")
	}
	c.leave(x)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.YS()
	simrt.RaceRelease(unsafe.Pointer(&c.pad))
	if c.sig < c.wait {
		c.sig++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.YS()
	simrt.RaceRelease(unsafe.Pointer(&c.pad))
	c.gen++
	c.sig = 0
}

// Pool is a simulated sync.Pool: a LIFO shared by all tasks, the choice that
// makes reuse across tasks most likely.
type Pool struct {
	New   func() any
	items []any
	pad   [8]byte
}

//go:norace
func (p *Pool) take() (v any, ok bool) {
	simrt.RaceAcquire(unsafe.Pointer(&p.pad))
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
		return v, true
	}
	return nil, false
}

//go:norace
func (p *Pool) put(x any) {
	simrt.RaceRelease(unsafe.Pointer(&p.pad))
	p.items = append(p.items, x)
}

func (p *Pool) Get() any {
	simrt.YS()
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.put(x)
	simrt.YS()
}

// Map is a simulated sync.Map: the real one behind yield points. Its Range
// order is made independent of hash seeds by insertion order.
type Map struct {
	m    sync.Map
	keys []any
}

func (m *Map) Load(k any) (any, bool) { simrt.YS(); return m.m.Load(k) }

//go:norace
func (m *Map) note(k any) { m.keys = append(m.keys, k) }

func (m *Map) Store(k, v any) {
	simrt.YS()
	if _, ok := m.m.Swap(k, v); !ok {
		m.note(k)
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.YS()
	a, ok := m.m.LoadOrStore(k, v)
	if !ok {
		m.note(k)
	}
	return a, ok
}
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.YS(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { simrt.YS(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.YS()
	a, ok := m.m.Swap(k, v)
	if !ok {
		m.note(k)
	}
	return a, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool { simrt.YS(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { simrt.YS(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { simrt.YS(); m.m.Clear() }

//go:norace
func (m *Map) keyAt(i int) (any, bool) {
	if i >= len(m.keys) {
		return nil, false
	}
	return m.keys[i], true
}

func (m *Map) Range(f func(k, v any) bool) {
	simrt.YS()
	seen := map[any]bool{}
	for i := 0; ; i++ {
		k, ok := m.keyAt(i)
		if !ok {
			return
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if v, ok := m.m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
