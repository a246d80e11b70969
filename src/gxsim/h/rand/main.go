// Harness for the random generators (C05, C06) and random strings (C07).
package main

import (
	"fmt"
	"strconv"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	grand "github.com/vipally/gx/math/rand"
	gstr "github.com/vipally/gx/strings"
)

func main() {
	core.Register("rand-lin", genLin, runLin)
	core.Register("rand-seed", genSeed, runSeed)
	core.Register("rand-range", genRange, runRange)
	core.Register("rand-string", genStr, runStr)
	core.Main()
}

// gen is a 32- or 64-bit generator behind one face.
type gen interface {
	Rand() uint64
	RandMax(m uint64) uint64
	RandRange(a, b uint64) uint64
	Seed() uint64
	Srand(s uint64) uint64
}

type g32 struct{ *grand.Rand32T }

func (g g32) Rand() uint64                 { return uint64(g.Rand32T.Rand()) }
func (g g32) RandMax(m uint64) uint64      { return uint64(g.Rand32T.RandMax(uint32(m))) }
func (g g32) RandRange(a, b uint64) uint64 { return uint64(g.Rand32T.RandRange(uint32(a), uint32(b))) }
func (g g32) Seed() uint64                 { return uint64(g.Rand32T.Seed()) }
func (g g32) Srand(s uint64) uint64        { return uint64(g.Rand32T.Srand(uint32(s))) }

// p32 and p64 are the package-level generators.
type p32 struct{}

func (p32) Rand() uint64                 { return uint64(grand.Rand32()) }
func (p32) RandMax(m uint64) uint64      { return uint64(grand.RandMax32(uint32(m))) }
func (p32) RandRange(a, b uint64) uint64 { return uint64(grand.RandRange32(uint32(a), uint32(b))) }
func (p32) Seed() uint64                 { return 0 }
func (p32) Srand(s uint64) uint64        { return 0 }

type p64 struct{}

func (p64) Rand() uint64                 { return grand.Rand64() }
func (p64) RandMax(m uint64) uint64      { return grand.RandMax64(m) }
func (p64) RandRange(a, b uint64) uint64 { return grand.RandRange64(a, b) }
func (p64) Seed() uint64                 { return 0 }
func (p64) Srand(s uint64) uint64        { return 0 }

func fresh(bits int, seed uint64) gen {
	if bits == 32 {
		return g32{grand.NewRand32S(uint32(seed))}
	}
	return grand.NewRand64S(seed)
}

func mask(bits int, v uint64) uint64 {
	if bits == 32 {
		return uint64(uint32(v))
	}
	return v
}

func value(r *rng.R, bits int) int64 {
	top := uint64(1)<<uint(bits-1)<<1 - 1
	switch r.N(7) {
	case 0:
		return int64(mask(bits, uint64(r.N(30))))
	case 3, 4: // any magnitude
		return int64(mask(bits, r.U64()>>uint(r.N(64))))
	case 1:
		return int64(mask(bits, top-uint64(r.N(3))))
	case 2:
		return int64(mask(bits, top/2+uint64(r.N(3))))
	}
	return int64(mask(bits, r.U64()))
}

func genLin(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	bits := r.Pick(32, 64)
	p.Set("bits", bits)
	p.Set("pkg", r.N(4)/3)
	p.P["seed"] = value(r, bits)
	if r.P(0.5) { // one of the first draws is to be this one
		p.P["aim"] = value(r, bits)
		p.Set("back", 1+r.N(6))
	}
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, 8); k > 0; k-- {
			op := core.Op{K: r.PickS("rand", "rand", "rand", "max", "range", "range", "seed", "srand"), A: []int64{value(r, bits), value(r, bits)}}
			if p.Int("pkg") == 1 && (op.K == "seed" || op.K == "srand") {
				op.K = "rand"
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 30, 500)
	}
	return p
}

func do(g gen, o *core.Op) (v uint64, p string) {
	p = core.Try(func() {
		a, b := uint64(o.Arg(0)), uint64(o.Arg(1))
		switch o.K {
		case "rand":
			v = g.Rand()
		case "max":
			v = g.RandMax(a)
		case "range":
			v = g.RandRange(a, b)
		case "seed":
			v = g.Seed()
		case "srand":
			v = g.Srand(a)
		}
	})
	return
}

func runLin(c *core.Ctx) {
	bits := c.Plan.Int("bits")
	state := mask(bits, uint64(c.Plan.P["seed"]))
	if n := c.Plan.Int("back"); n > 0 {
		s, ok := mask(bits, uint64(c.Plan.P["aim"])), true
		for ; n > 0 && ok; n-- {
			s, ok = before(bits, s)
		}
		if ok {
			state = s
			c.Probe("aimed-draw")
		}
	}
	var g gen = fresh(bits, state)
	if c.Plan.Int("pkg") == 1 {
		// the package's own generator shows its state in what it returns
		t := fresh(bits, state)
		if t.Rand() != t.Seed() {
			c.Trivial()
			return
		}
		g = p64{}
		if bits == 32 {
			g = p32{}
		}
		state = g.Rand()
	}
	type rec struct {
		op        *core.Op
		call, ret int64
		v         uint64
		p         string
	}
	recs := make([][]rec, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		recs[t] = make([]rec, len(ops))
		for i := range recs[t] {
			recs[t][i].op = &ops[i]
		}
		tasks = append(tasks, func() {
			for i := range recs[t] {
				x := &recs[t][i]
				x.call = simrt.Seq()
				x.v, x.p = do(g, x.op)
				x.ret = simrt.Seq()
			}
		})
	}
	if total < 2 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("rand/hang", "draws did not end: %s %v", o.End, o.Stuck)
		}
		return
	}
	var ops []core.LinOp
	for t := range recs {
		for i := range recs[t] {
			x := &recs[t][i]
			if x.p != "" {
				c.Fail("range/panic", "%s(%d, %d) panicked: %s", x.op.K, uint64(x.op.Arg(0)), uint64(x.op.Arg(1)), x.p)
				return
			}
			ops = append(ops, core.LinOp{Task: t, Call: x.call, Ret: x.ret, Name: x.op.K, In: x.op, Out: x.v})
			c.Log("task %d [%d,%d] %s(%d,%d) = %d", t, x.call, x.ret, x.op.K, uint64(x.op.Arg(0)), uint64(x.op.Arg(1)), x.v)
		}
	}
	if len(ops) > 60 {
		ops = ops[:0]
		c.Unknown()
		return
	}
	ok, unknown := core.CheckLin(strconv.FormatUint(state, 10), ops, func(st string, op *core.LinOp) (bool, string) {
		s, _ := strconv.ParseUint(st, 10, 64)
		m := fresh(bits, s)
		v, p := do(m, op.In.(*core.Op))
		if p != "" || v != op.Out.(uint64) {
			return false, ""
		}
		return true, strconv.FormatUint(m.Seed(), 10)
	}, 200000)
	if unknown {
		c.Unknown()
		return
	}
	if !ok {
		c.Fail("rand/lin", "no sequential order of the %d operations gives the values they returned (a draw was repeated, skipped or torn)", len(ops))
	}
}

// rand-seed: generators seeded automatically.
func genSeed(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Tick = int64(r.Pick(0, 0, 1, 1000))
	if r.P(0.002) {
		p.Set("crowd", 150000)
		p.Tick = 0
		return p.Sparse(r)
	}
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("new32", "new64")})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if p.Tick > 0 && r.P(0.5) {
		p.AddFault("clock", 0, int64(r.N(60)), -int64(r.N(5000)))
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 2, 30, 300)
	}
	return p
}

// crowd creates many generators and looks for more equal seeds than chance
// gives: among n 64-bit seeds none, among n 32-bit seeds hardly any.
func crowd(c *core.Ctx, n int) {
	half := n / 2
	g64 := make([][]uint64, 2)
	g32 := make([][]uint32, 2)
	o := c.Sim([]func(){
		func() {
			for i := 0; i < half; i++ {
				g64[0] = append(g64[0], grand.NewRand64().Seed())
				if i%64 == 0 {
					g32[0] = append(g32[0], grand.NewRand32().Seed())
				}
			}
		},
		func() {
			for i := 0; i < half; i++ {
				g64[1] = append(g64[1], grand.NewRand64().Seed())
				if i%64 == 0 {
					g32[1] = append(g32[1], grand.NewRand32().Seed())
				}
			}
		},
	})
	if o.End != "done" {
		return
	}
	c.Probe("crowd")
	seen := map[uint64]bool{}
	for _, l := range g64 {
		for _, s := range l {
			if seen[s] {
				c.Fail("rand/seed", "two of %d 64-bit generators were seeded alike: seed %d", n, s)
				return
			}
			seen[s] = true
		}
	}
	// m 32-bit seeds: m*m/2^33 equal pairs are chance
	seen32 := map[uint32]bool{}
	m, dup := 0, 0
	for _, l := range g32 {
		for _, s := range l {
			m++
			if seen32[s] {
				dup++
			}
			seen32[s] = true
		}
	}
	if dup > 6 {
		c.Fail("rand/seed", "%d of %d 32-bit generators were seeded like another one", dup, m)
	}
}

func runSeed(c *core.Ctx) {
	if n := c.Plan.Int("crowd"); n > 0 {
		if c.Plan.Tick == 0 {
			c.Fire("clock-frozen")
		}
		crowd(c, n)
		return
	}
	total := 0
	for _, ops := range c.Plan.Tasks {
		total += len(ops)
	}
	if total < 2 {
		c.Trivial()
		return
	}
	if c.Plan.Tick == 0 {
		c.Fire("clock-frozen")
	}
	dup, ok := seeds(c)
	if !ok {
		return
	}
	for _, d := range dup {
		if d.bits == 64 {
			c.Fail("rand/seed", "%s and %s were seeded alike: seed %d", d.a, d.b, d.seed)
			return
		}
	}
	if len(dup) == 0 {
		return
	}
	// 32-bit seeds can be equal by chance. What is not chance happens to the
	// same two generators again when the rest of the world is further on.
	c.Probe("equal-32-bit-seeds")
	for k := 0; k < 3; k++ {
		for i := 0; i <= 10*k; i++ {
			grand.Rand32()
			grand.Rand64()
		}
		again, ok := seeds(c)
		if !ok {
			return
		}
		var both []same
		for _, d := range dup {
			for _, e := range again {
				if d.a == e.a && d.b == e.b {
					both = append(both, d)
					break
				}
			}
		}
		dup = both
	}
	for _, d := range dup {
		c.Fail("rand/seed", "%s and %s are seeded alike every time: seed %d", d.a, d.b, d.seed)
	}
}

type same struct {
	a, b string
	bits int
	seed uint64
}

func seeds(c *core.Ctx) (dup []same, ok bool) {
	got := make([][]gen, len(c.Plan.Tasks))
	var tasks []func()
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		tasks = append(tasks, func() {
			for _, o := range ops {
				if o.K == "new32" {
					got[t] = append(got[t], g32{grand.NewRand32()})
				} else {
					got[t] = append(got[t], grand.NewRand64())
				}
			}
		})
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("rand/hang", "creating generators did not end: %s", o.End)
		}
		return nil, false
	}
	seen := map[string]string{}
	for t := range got {
		for i, g := range got[t] {
			k := fmt.Sprintf("%T %d", g, g.Seed())
			id := fmt.Sprintf("task %d generator %d", t, i)
			if o, is := seen[k]; is {
				bits := 64
				if _, x := g.(g32); x {
					bits = 32
				}
				dup = append(dup, same{o, id, bits, g.Seed()})
			}
			seen[k] = id
		}
	}
	return dup, true
}

// before returns the seed after which a generator draws v, if it is one whose
// next state is a linear function of its state.
func before(bits int, v uint64) (seed uint64, ok bool) {
	c := fresh(bits, 0).Rand()
	a := mask(bits, fresh(bits, 1).Rand()-c)
	inv := a
	for i := 0; i < 6; i++ {
		inv *= 2 - a*inv
	}
	seed = mask(bits, (v-c)*inv)
	return seed, fresh(bits, seed).Rand() == v
}

// rand-range: bounds, for every argument and draw.
func genRange(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	bits := r.Pick(32, 64)
	p.Set("bits", bits)
	p.Set("pkg", r.N(2))
	p.P["seed"] = value(r, bits)
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, 8); k > 0; k-- {
			a, b := value(r, bits), value(r, bits)
			if r.P(0.15) {
				b = a
			}
			if r.P(0.1) {
				a, b = 0, -1
				if bits == 32 {
					b = 1<<32 - 1
				}
				if r.P(0.5) {
					a, b = b, a
				}
			}
			op := core.Op{K: r.PickS("max", "range", "range"), A: []int64{a, b}}
			if r.P(0.5) { // the draw behind it is to be this one
				op.A = append(op.A, value(r, bits))
				if r.P(0.3) {
					op.A[0] = int64(1 + r.N(30))
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func runRange(c *core.Ctx) {
	bits := c.Plan.Int("bits")
	var g gen = fresh(bits, uint64(c.Plan.P["seed"]))
	if c.Plan.Int("pkg") == 1 {
		g = p64{}
		if bits == 32 {
			g = p32{}
		}
	}
	bad := make([]string, len(c.Plan.Tasks))
	class := make([]string, len(c.Plan.Tasks))
	reach := make([]int, len(c.Plan.Tasks))
	aimed := make([]int, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			for i := range ops {
				o := &ops[i]
				lo, hi := mask(bits, uint64(o.Arg(0))), mask(bits, uint64(o.Arg(1)))
				if o.K == "max" {
					if lo == 0 {
						continue
					}
					lo, hi = 0, lo-1
				}
				if lo > hi {
					lo, hi = hi, lo
				}
				n := 3
				var seen map[uint64]bool
				if hi-lo < 12 && (hi-lo)%2 == 0 { // an odd number of values
					n = 600
					seen = map[uint64]bool{}
				}
				g := g
				if len(o.A) > 2 {
					n, seen = 1, nil
					seed, ok := before(bits, mask(bits, uint64(o.A[2])))
					if !ok {
						continue
					}
					g = fresh(bits, seed)
					aimed[t]++
				}
				for k := 0; k < n; k++ {
					v, p := do(g, o)
					if p != "" {
						bad[t], class[t] = fmt.Sprintf("%s(%d, %d) panicked: %s", o.K, uint64(o.Arg(0)), uint64(o.Arg(1)), p), "range/panic"
						return
					}
					if v < lo || v > hi {
						bad[t], class[t] = fmt.Sprintf("%d-bit %s(%d, %d) gave %d, outside [%d, %d]", bits, o.K, uint64(o.Arg(0)), uint64(o.Arg(1)), v, lo, hi), "range/bounds"
						return
					}
					if seen != nil {
						seen[v] = true
					}
				}
				if seen != nil && uint64(len(seen)) != hi-lo+1 {
					bad[t], class[t] = fmt.Sprintf("%d-bit %s(%d, %d): %d draws gave only %d of the %d values in [%d, %d]", bits, o.K, uint64(o.Arg(0)), uint64(o.Arg(1)), n, len(seen), hi-lo+1, lo, hi), "range/reach"
					return
				}
				reach[t]++
			}
		})
	}
	if total == 0 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	c.Log("%v %v", reach, bad)
	for _, n := range aimed {
		for ; n > 0; n-- {
			c.Probe("extreme-draw")
		}
	}
	if o.End != "done" {
		return
	}
	for t := range bad {
		if bad[t] != "" {
			c.Fail(class[t], "%s", bad[t])
		}
	}
}

// rand-string
func genStr(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	if r.P(0.002) { // many short strings
		l, n := r.Range(11, 13), r.Pick(700, 25000)
		if r.P(0.5) {
			l = r.Range(1, 10)
			n = 3000 / l
		}
		for i := 0; i < 3; i++ {
			p.Tasks = append(p.Tasks, []core.Op{{K: "many", A: []int64{int64(l), 0, int64(n)}}})
		}
		return p.Sparse(r)
	}
	huge := r.P(0.003)
	if huge {
		p.Sparse(r)
	}
	for i, n := 0, r.Range(2, 4); i < n; i++ {
		var ops []core.Op
		for k := r.Range(1, 4); k > 0; k-- {
			l := r.Pick(0, 1, 2, 8, 16, 24, 24, 33, 64)
			if r.P(0.04) {
				l = r.Pick(1500, 3000, 5000)
			}
			if huge && r.P(0.5) {
				l = r.Pick(65535, 65537, 70000, 200000)
			}
			ops = append(ops, core.Op{K: "rand", A: []int64{int64(l), int64(r.Pick(0, 1<<16, 1<<17, 1<<18, 1<<20, 1<<21, 10|1<<17|1<<19))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 2, 60, 300)
	}
	return p
}

func runStr(c *core.Ctx) {
	type rec struct {
		s, cp string
		l     int
		p     string
	}
	recs := make([][]rec, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			for _, o := range ops {
				n := 1
				if o.K == "many" {
					n = int(o.Arg(2))
				}
				for ; n > 0; n-- {
					x := rec{l: int(o.Arg(0))}
					x.p = core.Try(func() { x.s = gstr.Rand(gstr.Rule(o.Arg(1)), x.l) })
					x.cp = string(append([]byte(nil), x.s...))
					recs[t] = append(recs[t], x)
				}
			}
		})
	}
	if total < 2 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("str/hang", "strings.Rand did not end: %s", o.End)
		}
		return
	}
	const win = 11
	huge := false // too many windows of 11 characters to be all different
	for t := range recs {
		for _, x := range recs[t] {
			huge = huge || x.l > 5000
		}
	}
	var seen [26]bool
	chars := 0
	where := map[string]string{}
	for t := range recs {
		for i, x := range recs[t] {
			id := fmt.Sprintf("task %d string %d", t, i)
			c.Log("%s len %d %s", id, x.l, x.cp[:min(len(x.cp), 8)])
			if x.p != "" {
				c.Fail("str/bad", "%s: Rand(%d) panicked: %s", id, x.l, x.p)
				return
			}
			if x.s != x.cp {
				c.Fail("str/bad", "%s changed after it was returned: %q became %q", id, x.cp, x.s)
			}
			if len(x.s) != x.l {
				c.Fail("str/bad", "%s: %d characters asked for, %d given", id, x.l, len(x.s))
			}
			for k := 0; k < len(x.s); k++ {
				if x.s[k] < 'A' || x.s[k] > 'Z' {
					c.Fail("str/bad", "%s: character %q at %d is not in the alphabet", id, x.s[k], k)
					break
				}
				seen[x.s[k]-'A'] = true
			}
			chars += len(x.s)
			if x.l >= 1500 {
				c.Probe("long-string")
			}
			win := win
			if huge {
				win = 16
			}
			for k := 0; k+win <= len(x.s); k++ {
				w := x.s[k : k+win]
				if o, dup := where[w]; dup {
					c.Fail("str/shared", "%s and %s share the %d characters %q: draws were handed out twice", o, id, win, w)
				}
				where[w] = id
			}
		}
	}
	// (Two tasks that take turns can share out the even and the odd draws, so
	// one string alone says nothing.)
	if chars >= 3000 {
		for k, b := range seen {
			if !b {
				c.Fail("str/bad", "%q never occurs in %d characters", 'A'+k, chars)
			}
		}
	}
}
