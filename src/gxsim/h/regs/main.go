// Harness for registered variables (C19).
package main

import (
	"fmt"
	"strings"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	"github.com/vipally/gx/regable"
)

func main() {
	core.Register("reg", genReg, runReg)
	core.Register("reg-full", genFull, runReg)
	core.Main()
}

// vr is one variable of the reference registry.
type vr struct {
	id   regable.Uint32Id
	obj  regable.Uint32Obj
	name string
	val  uint32
	rg   *rgr
	num  uint32
}

// rgr is one registrar of the reference registry.
type rgr struct {
	r    *regable.Uint32Reger
	name string
	id   uint32 // 0: not known yet
	max  int    // 0: the default
	vars []*vr
}

// the reference registry; registrations live as long as the process
var (
	regers []*rgr
	byID   = map[regable.Uint32Id]*vr{}
	locked bool
	serial uint32
)

func names(r *rng.R) string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return "50% of %d %s %!"
	case 2:
		return strings.Repeat("long ", 30)
	case 3:
		return "same"
	}
	return fmt.Sprintf("name %d", r.N(1000))
}

func value(r *rng.R) int64 {
	if r.P(0.3) {
		return int64(uint32(r.Pick(0, 0, 1, 2, 255, 256, 65535, 1<<31-1, 1<<31, 1<<32-1)))
	}
	return int64(r.U64() & (1<<32 - 1))
}

// the first list of operations is the registration phase; the others are the
// tasks that use the variables afterwards
func gen(r *rng.R, full bool) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	var ops []core.Op
	for k := r.Range(3, 24); k > 0; k-- {
		switch r.N(14) {
		case 0, 1:
			ops = append(ops, core.Op{K: "new", S: names(r)})
		case 2:
			n := r.Pick(0, 1, 2, 3, 5, 8, 1024, 1<<24-1, 1<<24, 1<<31)
			ops = append(ops, core.Op{K: "max", A: []int64{int64(r.N(100)), int64(n)}})
		case 3, 4:
			ops = append(ops, core.Op{K: "bad", A: []int64{int64(r.U64() >> 1), int64(r.N(6))}})
		case 5, 6, 7, 8, 9:
			ops = append(ops, core.Op{K: "reg", A: []int64{int64(r.N(100)), value(r)}, S: names(r)})
		case 10, 11:
			ops = append(ops, core.Op{K: "rego", A: []int64{int64(r.N(100)), value(r)}, S: names(r)})
		case 12:
			ops = append(ops, core.Op{K: "set", A: []int64{int64(r.N(1000)), value(r), int64(r.N(2))}})
		case 13:
			ops = append(ops, core.Op{K: "show"})
		}
	}
	if full {
		switch r.N(4) {
		case 0: // exhaust the registrars
			ops = append(ops, core.Op{K: "newmany", A: []int64{300}})
		case 1: // exhaust one registrar
			ops = append(ops, core.Op{K: "new"}, core.Op{K: "regmany", A: []int64{-1, 1100}})
		case 2:
			ops = append(ops, core.Op{K: "new"}, core.Op{K: "max", A: []int64{-1, int64(r.Range(1, 300))}}, core.Op{K: "regmany", A: []int64{-1, 310}})
		}
		if r.P(0.12) { // a large registrar
			n := r.Range(4000, 5000)
			if r.P(0.15) {
				n = r.Range(66000, 70000)
			}
			ops = append(ops, core.Op{K: "new"}, core.Op{K: "max", A: []int64{-1, int64(n + r.N(3) - 1)}}, core.Op{K: "regmany", A: []int64{-1, int64(n)}})
		}
		for k := r.N(4); k > 0; k-- {
			ops = append(ops, core.Op{K: "reg", A: []int64{int64(r.N(100)), int64(r.N(1000))}, S: names(r)})
		}
		if r.P(0.6) {
			ops = append(ops, core.Op{K: "finish"})
			for k := r.Range(1, 4); k > 0; k-- {
				ops = append(ops, core.Op{K: r.PickS("new", "reg", "rego", "bad"), A: []int64{int64(r.N(100)), int64(r.N(1000))}, S: names(r)})
			}
		}
	}
	p.Tasks = append(p.Tasks, ops)
	nv := r.Range(1, 3) // variables in play
	for t, n := 0, r.Range(2, 4); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			v := int64(r.N(nv))
			in := int64(-1)
			if r.P(0.3) {
				in = value(r)
			}
			ops = append(ops, core.Op{K: r.PickS("set", "set", "get", "get", "getn", "str", "name", "show", "bad"), A: []int64{v, int64(r.N(2)), in}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.5) {
		for i := r.N(4); i > 0; i-- {
			p.AddFault("stall", r.N(len(p.Tasks)-1), int64(r.N(60)), int64(1+r.N(400)))
		}
	}
	p.Set("pick", r.N(1<<20))
	return p
}

func genReg(r *rng.R, tier string) *core.Plan  { return gen(r, false) }
func genFull(r *rng.R, tier string) *core.Plan { return gen(r, true) }

// must calls fn and returns the panic text.
func caught(fn func()) string { return core.Try(fn) }

func count() (n int) {
	for _, g := range regers {
		n += len(g.vars)
	}
	return
}

// seen checks one variable alone through every access path.
func seen(c *core.Ctx, when string, v *vr) {
	bad := func(f string, a ...any) {
		c.Fail("reg/lookup", "%s: variable %q of registrar %q (number %d): %s", when, v.name, v.rg.name, v.num, fmt.Sprintf(f, a...))
	}
	if p := caught(func() {
		if !v.id.Valid() {
			bad("its id %d is not valid", uint32(v.id))
			return
		}
		if x, err := v.id.Get(); err != nil || x != v.val {
			bad("Get gives %d, %v, want %d", x, err, v.val)
		}
		if x := v.id.GetNoErr(); x != v.val {
			bad("GetNoErr gives %d, want %d", x, v.val)
		}
		if n, err := v.id.Name(); err != nil || n != v.name {
			bad("Name gives %q, %v", n, err)
		}
		if a, b := v.id.Ids(); a != v.rg.id || b != v.num {
			bad("Ids gives %d, %d, want %d, %d", a, b, v.rg.id, v.num)
		}
		w := fmt.Sprintf("(%d|%d|%s)%d", v.rg.id, v.num, v.name, v.val)
		if s := v.id.String(); !strings.HasSuffix(s, w) {
			bad("its string is %q, want ...%q", s, w)
		}
		for _, o := range []regable.Uint32Obj{v.obj, v.id.Oject()} {
			if !o.Valid() {
				bad("its object is not valid")
				continue
			}
			if x, err := o.Get(); err != nil || x != v.val {
				bad("the object's Get gives %d, %v, want %d", x, err, v.val)
			}
			if x := o.GetNoErr(); x != v.val {
				bad("the object's GetNoErr gives %d, want %d", x, v.val)
			}
			if n, err := o.Name(); err != nil || n != v.name {
				bad("the object's Name gives %q, %v", n, err)
			}
			if o.Id() != v.id {
				bad("the object's id is %d, want %d", uint32(o.Id()), uint32(v.id))
			}
			if s := o.String(); !strings.HasSuffix(s, w) {
				bad("the object's string is %q, want ...%q", s, w)
			}
		}
	}); p != "" {
		c.Fail("reg/panic", "%s: looking up variable %q panicked: %s", when, v.name, p)
	}
}

// never checks an id that was never given out.
func never(c *core.Ctx, when string, id regable.Uint32Id) {
	if byID[id] != nil {
		return
	}
	bad := func(f string, a ...any) {
		c.Fail("reg/bad", "%s: id %#x was never given out: %s", when, uint32(id), fmt.Sprintf(f, a...))
	}
	if p := caught(func() {
		if id.Valid() {
			bad("it is called valid")
		}
		if x, err := id.Get(); err == nil {
			bad("Get gives %d without an error", x)
		}
		if _, err := id.Set(7); err == nil {
			bad("Set gives no error")
		}
		if n, err := id.Name(); err == nil {
			bad("Name gives %q without an error", n)
		}
		id.Ids()
		_ = id.String()
		o := id.Oject()
		if o.Valid() {
			bad("its object is called valid")
		}
		if x, err := o.Get(); err == nil {
			bad("its object's Get gives %d without an error", x)
		}
		if _, err := o.Set(3); err == nil {
			bad("its object's Set gives no error")
		}
		if _, err := o.Name(); err == nil {
			bad("its object's Name gives no error")
		}
		_ = o.String()
		if o.Id() != 0 && byID[o.Id()] != nil {
			bad("its object has the id of another variable")
		}
	}); p != "" {
		bad("panic: %s", p)
	}
	if caught(func() { id.GetNoErr() }) == "" {
		bad("GetNoErr did not panic")
	}
}

func badID(a int64, k int64) regable.Uint32Id {
	g := uint32(len(regers))
	switch k {
	case 0:
		return regable.Uint32Id(regable.MakeRegedId(g+1, 1))
	case 1:
		if g > 0 {
			x := regers[int(uint64(a)%uint64(g))]
			return regable.Uint32Id(regable.MakeRegedId(x.id, uint32(len(x.vars)+1)))
		}
	case 2:
		if g > 0 {
			x := regers[int(uint64(a)%uint64(g))]
			return regable.Uint32Id(regable.MakeRegedId(x.id, 0))
		}
	case 3:
		return regable.Uint32Id(regable.MakeRegedId(0, uint32(a)%5))
	case 4:
		return regable.Uint32Id(uint32(a) & 0xff00ffff)
	}
	return regable.Uint32Id(uint32(a))
}

func register(c *core.Ctx, g *rgr, name string, val uint32, obj bool) bool {
	var id regable.Uint32Id
	var o regable.Uint32Obj
	var err error
	serial++
	p := caught(func() {
		if obj {
			if serial%2 == 0 {
				o = g.r.MustRegO(name, val)
			} else {
				o, err = g.r.RegO(name, val)
			}
			id = o.Id()
		} else {
			if serial%2 == 0 {
				id = g.r.MustReg(name, val)
			} else {
				id, err = g.r.Reg(name, val)
			}
			o = id.Oject()
		}
	})
	if locked {
		if p == "" && err == nil {
			c.Fail("reg/locked", "%q was registered after registration was finished", name)
			return false
		}
		c.Probe("refused-finished")
		return false
	}
	room := g.max == 0 && len(g.vars) < 1000 || g.max != 0 && len(g.vars) < g.max
	if p != "" || err != nil {
		if room {
			c.Fail("reg/refused", "registration %d in registrar %q was refused (max %d): %s %v", len(g.vars)+1, g.name, g.max, p, err)
		}
		c.Probe("refused-full")
		return false
	}
	if g.max != 0 && len(g.vars) >= g.max {
		c.Fail("reg/full", "registration %d in registrar %q was accepted, its maximum is %d", len(g.vars)+1, g.name, g.max)
		return false
	}
	if w := byID[id]; w != nil {
		c.Fail("reg/dup", "%q got the id %#x of %q", name, uint32(id), w.name)
		return false
	}
	rid, num := id.Ids()
	if g.id == 0 {
		for _, h := range regers {
			if h.id == rid && h != g {
				c.Fail("reg/dup", "registrar %q has the number %d of %q", g.name, rid, h.name)
				return false
			}
		}
		g.id = rid
	}
	v := &vr{id: id, obj: o, name: name, val: val, rg: g, num: num}
	if rid != g.id || num != uint32(len(g.vars)+1) {
		c.Fail("reg/lookup", "registration %d of registrar %d got the id (%d|%d)", len(g.vars)+1, g.id, rid, num)
		return false
	}
	g.vars = append(g.vars, v)
	byID[id] = v
	return true
}

func newReger(c *core.Ctx, name string) bool {
	var r *regable.Uint32Reger
	var err error
	serial++
	p := caught(func() {
		if serial%2 == 0 {
			r = regable.MustNewUint32Reger(name)
		} else {
			r, err = regable.NewUint32Reger(name)
		}
	})
	if locked {
		if p == "" && err == nil {
			c.Fail("reg/locked", "registrar %q was made after registration was finished", name)
		}
		c.Probe("refused-finished")
		return false
	}
	if p != "" || err != nil {
		if len(regers) < 200 {
			c.Fail("reg/refused", "registrar %d was refused: %s %v", len(regers)+1, p, err)
		}
		c.Probe("refused-registrar")
		return false
	}
	g := &rgr{r: r, name: name}
	regers = append(regers, g)
	// its number shows with its first variable
	return register(c, g, fmt.Sprintf("first of %d", len(regers)), uint32(len(regers)), false)
}

func listing(c *core.Ctx, when string) {
	s := regable.ShowAllRegs()
	if !strings.Contains(s, fmt.Sprintf("locked:%v", locked)) {
		c.Fail("reg/show", "%s: ShowAllRegs does not say locked:%v", when, locked)
	}
	at := 0
	for _, g := range regers {
		for _, v := range g.vars {
			w := fmt.Sprintf("#%d [%s]: %d", v.num, v.name, v.val)
			k := strings.Index(s[at:], w)
			if k < 0 {
				c.Fail("reg/show", "%s: ShowAllRegs lacks %q of registrar %d", when, w, g.id)
				return
			}
			at += k + len(w)
		}
	}
}

func all(c *core.Ctx, when string) {
	for _, g := range regers {
		for _, v := range g.vars {
			seen(c, when, v)
			if c.Failed() {
				return
			}
		}
		if g.id != 0 {
			never(c, when, regable.Uint32Id(regable.MakeRegedId(g.id, uint32(len(g.vars)+1))))
		}
	}
	never(c, when, 0)
	never(c, when, regable.Uint32Id(regable.MakeRegedId(0, 1)))
	for k := uint32(1); k < 4 && uint32(len(regers))+k < 256; k++ {
		never(c, when, regable.Uint32Id(regable.MakeRegedId(uint32(len(regers))+k, 1)))
	}
}

func setup(c *core.Ctx) {
	for i := range c.Plan.Tasks[0] {
		o := &c.Plan.Tasks[0][i]
		if c.Failed() {
			return
		}
		var g *rgr
		if len(regers) > 0 {
			if o.Arg(0) < 0 {
				g = regers[len(regers)-1]
			} else {
				g = regers[len(regers)-1-int(o.Arg(0))%min(len(regers), 4)]
			}
		}
		switch o.K {
		case "new":
			newReger(c, o.S)
		case "newmany":
			for k := int64(0); k < o.Arg(0) && !c.Failed(); k++ {
				newReger(c, fmt.Sprintf("many %d", k))
			}
		case "reg", "rego":
			if g != nil {
				register(c, g, o.S, uint32(o.Arg(1)), o.K == "rego")
			}
		case "regmany":
			for k := int64(0); g != nil && k < o.Arg(1) && !c.Failed(); k++ {
				register(c, g, fmt.Sprintf("many %d", k), uint32(k), k%2 == 0)
			}
		case "max":
			if g == nil {
				continue
			}
			n := uint32(o.Arg(1))
			m, err := g.r.MaxReg(n)
			if err == nil {
				if m != n {
					c.Fail("reg/full", "MaxReg(%d) gives %d", n, m)
				}
				if n == 0 || n > 1<<24-1 {
					c.Fail("reg/full", "MaxReg(%d) was accepted", n)
				}
				g.max = int(n)
				if len(g.vars) > g.max {
					g.max = len(g.vars)
				}
			} else if n > 0 && n < 1<<24 && int(n) >= len(g.vars) {
				c.Fail("reg/full", "MaxReg(%d) with %d registered: %v", n, len(g.vars), err)
			}
		case "set":
			if g != nil && len(g.vars) > 0 {
				v := g.vars[int(o.Arg(0))%len(g.vars)]
				var x uint32
				var err error
				if o.Arg(2) == 0 {
					x, err = v.id.Set(uint32(o.Arg(1)))
				} else {
					x, err = v.obj.Set(uint32(o.Arg(1)))
				}
				if err != nil || x != uint32(o.Arg(1)) {
					c.Fail("reg/lookup", "Set(%d) gives %d, %v", uint32(o.Arg(1)), x, err)
				}
				v.val = uint32(o.Arg(1))
			}
		case "bad":
			never(c, "while registering", badID(o.Arg(0), o.Arg(1)))
		case "show":
			listing(c, "while registering")
		case "finish":
			regable.FinishReg()
			locked = true
		}
	}
}

func runReg(c *core.Ctx) {
	if len(c.Plan.Tasks) == 0 {
		c.Trivial()
		return
	}
	if len(regers) > 240 || count() > 4000 {
		c.Trivial()
		return
	}
	if p := c.Solo(func() {
		setup(c)
		if !c.Failed() {
			all(c, "after registering")
		}
	}); p != "" {
		c.Fail("reg/panic", "while registering: %s", p)
	}
	if c.Failed() {
		return
	}
	c.Log("%d registrars, %d variables, locked %v", len(regers), count(), locked)
	var vars []*vr
	pk := c.Plan.Int("pick")
	for _, g := range regers {
		vars = append(vars, g.vars...)
	}
	if len(vars) == 0 || len(c.Plan.Tasks) < 2 {
		c.Trivial()
		return
	}
	play := func(i int64) *vr { // prefers variables of this run
		n := min(len(vars), 12)
		return vars[len(vars)-1-(pk+int(i)*5)%n]
	}
	type rec struct {
		op        *core.Op
		call, ret int64
		v         *vr
		in, out   uint32
		s         string
		err       error
		p         string
	}
	work := c.Plan.Tasks[1:]
	recs := make([][]rec, len(work))
	var tasks []func()
	for t := range work {
		recs[t] = make([]rec, len(work[t]))
		for i := range recs[t] {
			x := &recs[t][i]
			x.op = &work[t][i]
			x.v = play(x.op.Arg(0))
			serial++
			x.in = 1<<31 | serial
			if len(x.op.A) > 2 && x.op.A[2] >= 0 {
				x.in = uint32(x.op.A[2])
			}
		}
		tasks = append(tasks, func() {
			for i := range recs[t] {
				x := &recs[t][i]
				x.call = simrt.Seq()
				byid := x.op.Arg(1) == 0
				x.p = core.Try(func() {
					switch x.op.K {
					case "set":
						if byid {
							x.out, x.err = x.v.id.Set(x.in)
						} else {
							x.out, x.err = x.v.obj.Set(x.in)
						}
					case "get":
						if byid {
							x.out, x.err = x.v.id.Get()
						} else {
							x.out, x.err = x.v.obj.Get()
						}
					case "getn":
						if byid {
							x.out = x.v.id.GetNoErr()
						} else {
							x.out = x.v.obj.GetNoErr()
						}
					case "str":
						if byid {
							x.s = x.v.id.String()
						} else {
							x.s = x.v.obj.String()
						}
					case "name":
						if byid {
							x.s, x.err = x.v.id.Name()
						} else {
							x.s, x.err = x.v.id.Oject().Name()
						}
					case "show":
						x.s = x.v.rg.r.String()
					case "bad":
						_, x.err = badID(int64(i), int64(i)%3).Get()
					}
				})
				x.ret = simrt.Seq()
			}
		})
	}
	o := c.Sim(tasks)
	if o.End == "reccap" {
		return
	}
	if o.End != "done" {
		c.Fail("reg/hang", "gets and sets did not end: %s %v", o.End, o.Stuck)
		return
	}
	hist := map[*vr][]core.LinOp{}
	var order []*vr
	for t := range recs {
		for i := range recs[t] {
			x := &recs[t][i]
			id := fmt.Sprintf("task %d op %d %s of %q", t, i, x.op.K, x.v.name)
			if x.p != "" {
				c.Fail("reg/panic", "%s panicked: %s", id, x.p)
				return
			}
			l := core.LinOp{Task: t, Call: x.call, Ret: x.ret, Name: "r", In: x.in, Out: x.out}
			switch x.op.K {
			case "set":
				if x.err != nil || x.out != x.in {
					c.Fail("reg/lookup", "%s(%d) gives %d, %v", id, x.in, x.out, x.err)
				}
				l.Name = "w"
			case "get", "getn":
				if x.err != nil {
					c.Fail("reg/lookup", "%s: %v", id, x.err)
				}
			case "str":
				pre := fmt.Sprintf("(%d|%d|%s)", x.v.rg.id, x.v.num, x.v.name)
				k := strings.Index(x.s, pre)
				var val uint32
				if k < 0 {
					c.Fail("reg/lookup", "%s gives %q, want ...%q", id, x.s, pre)
					return
				}
				if _, err := fmt.Sscanf(x.s[k+len(pre):], "%d", &val); err != nil {
					c.Fail("reg/lookup", "%s gives %q", id, x.s)
					return
				}
				l.Out = val
			case "name":
				if x.err != nil || x.s != x.v.name {
					c.Fail("reg/lookup", "%s gives %q, %v", id, x.s, x.err)
				}
				continue
			case "show":
				pre := fmt.Sprintf("\n#%d [%s]: ", x.v.num, x.v.name)
				k := strings.Index(x.s, pre)
				var val uint32
				if k < 0 {
					c.Fail("reg/show", "%s: the registrar's listing lacks %q", id, pre)
					return
				}
				fmt.Sscanf(x.s[k+len(pre):], "%d", &val)
				l.Out = val
			case "bad":
				if x.err == nil {
					c.Fail("reg/bad", "%s: an id never given out was accepted", id)
				}
				continue
			}
			c.Log("%s [%d,%d] %s in %x out %x", id, x.call, x.ret, l.Name, x.in, l.Out)
			if hist[x.v] == nil {
				order = append(order, x.v)
			}
			hist[x.v] = append(hist[x.v], l)
		}
	}
	for _, v := range order {
		h := hist[v]
		var fin uint32
		if p := caught(func() { fin, _ = v.id.Get() }); p != "" {
			c.Fail("reg/panic", "%s", p)
			return
		}
		h = append(h, core.LinOp{Call: 1 << 40, Ret: 1<<40 + 1, Name: "r", Out: fin})
		ok, unknown := core.CheckLin(fmt.Sprint(v.val), h, func(st string, o *core.LinOp) (bool, string) {
			if o.Name == "w" {
				return true, fmt.Sprint(o.In)
			}
			return fmt.Sprint(o.Out) == st, st
		}, 200000)
		if unknown {
			c.Unknown()
		}
		if !ok {
			c.Fail("reg/atomic", "gets and sets of %q (first %d, last %d) have no order that explains them: %s", v.name, v.val, fin, text(h))
		}
		v.val = fin
	}
	if p := c.Solo(func() {
		all(c, "at the end")
		listing(c, "at the end")
	}); p != "" {
		c.Fail("reg/panic", "at the end: %s", p)
	}
}

func text(h []core.LinOp) string {
	var b strings.Builder
	for _, o := range h {
		if o.Name == "w" {
			fmt.Fprintf(&b, "[%d,%d] set %d; ", o.Call, o.Ret, o.In)
		} else {
			fmt.Fprintf(&b, "[%d,%d] read %d; ", o.Call, o.Ret, o.Out)
		}
	}
	return b.String()
}
