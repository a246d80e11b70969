// Harness for the hash methods (C12) and the none hash (C13).
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"runtime"
	"time"

	"gxsim/core"
	"gxsim/rng"

	ghash "github.com/vipally/gx/hash"
)

func main() {
	core.Register("hash", genHash, runHash)
	core.Register("none", genNone, runNone)
	core.Main()
}

var methods = []ghash.HashMethod{ghash.MD5, ghash.SHA1, ghash.SHA256, ghash.SHA512, ghash.CRC32, ghash.CRC64, ghash.FINGERPRINT}
var names = []string{"MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT"}

// ref is the reference digest of data under method m; size stands in the
// fingerprint.
func ref(m int, data []byte, size int64) []byte {
	var h hash.Hash
	switch m {
	case 0:
		h = md5.New()
	case 1:
		h = sha1.New()
	case 2:
		h = sha256.New()
	case 3:
		h = sha512.New()
	case 4:
		h = crc32.NewIEEE()
	case 5:
		h = crc64.New(crc64.MakeTable(crc64.ISO))
	case 6:
		var out []byte
		for i := 5; i >= 0; i-- {
			out = append(out, byte(size>>(8*uint(i))))
		}
		out = append(out, ref(0, data, 0)[4:10]...)
		out = append(out, ref(1, data, 0)[7:13]...)
		return append(out, ref(5, data, 0)[1:7]...)
	}
	h.Write(data)
	return h.Sum(nil)
}

func genHash(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(1, 4); t < n; t++ {
		m := r.N(len(methods))
		if r.P(0.35) {
			m = 6
		}
		ops := []core.Op{{K: "new", A: []int64{int64(m), int64(r.N(3))}}}
		for k := r.Range(1, 14); k > 0; k-- {
			switch x := r.N(20); {
			case x < 9:
				l := r.Pick(0, 1, 3, 55, 56, 63, 64, 65, 127, 128, 129, 500, 4096)
				if r.P(0.4) {
					l = r.N(300)
				}
				if r.P(0.02) {
					l = r.Pick(8192, 32769, 65535, 65536, 65537, 100000, 300000)
				}
				if r.P(0.0005) {
					l = 1<<20 + 1<<r.N(12)
				}
				if r.P(0.0001) {
					l = r.Pick(9, 17)<<20 + r.N(9)
				}
				ops = append(ops, core.Op{K: "write", A: []int64{int64(r.U64() >> 1), int64(l)}})
			case x < 13:
				ops = append(ops, core.Op{K: "sum", A: []int64{int64(r.Pick(0, 0, 1, 5, 24, 40, 65, 300, 5000)), int64(r.Pick(0, 1, 4, 24, 100))}})
			case x < 15:
				ops = append(ops, core.Op{K: "reset"})
			case x < 16:
				sz := int64(r.U64() >> uint(r.Range(1, 60)))
				if r.P(0.3) {
					sz = int64(r.N(2))
				}
				ops = append(ops, core.Op{K: "resize", A: []int64{sz}})
			case x < 18:
				sl := r.N(200)
				if r.P(0.04) {
					sl = r.Pick(4095, 4097, 65535, 65536, 65537, 70000, 200000)
				}
				ops = append(ops, core.Op{K: "str", A: []int64{int64(r.U64() >> 1), int64(sl), int64(r.N(2))}})
				for r.P(0.4) {
					ops = append(ops, core.Op{K: "str", A: []int64{int64(r.U64() >> 1), 1, int64(r.N(2)), int64(r.N(4))}})
				}
			default:
				ops = append(ops, core.Op{K: "string"})
			}
		}
		p.Tasks = append(p.Tasks, append(ops, core.Op{K: "sum", A: []int64{0, 0}}))
	}
	return p
}

func runHash(c *core.Ctx) {
	bad := make([]string, len(c.Plan.Tasks))
	var tasks []func()
	n := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		n += len(ops)
		tasks = append(tasks, func() {
			if p := core.Try(func() { bad[t] = drive(ops) }); p != "" {
				bad[t] = "panic: " + p
			}
		})
	}
	if n == 0 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	c.Log("%v", bad)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("hash/bad", "hashing did not end: %s", o.End)
		}
		return
	}
	for t := range bad {
		if bad[t] != "" {
			c.Fail("hash/bad", "task %d: %s", t, bad[t])
		}
	}
}

func drive(ops []core.Op) string {
	var h hash.Hash
	m := 6
	var data, last []byte
	var size int64
	h = ghash.NewFingerprint()
	check := func(i int, b []byte) string {
		keep := append([]byte(nil), b...)
		got := h.Sum(b)
		want := append(append([]byte(nil), keep...), ref(m, data, size)...)
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("op %d: %s.Sum(%d bytes) of %d bytes written gave %x, want %x", i, names[m], len(keep), len(data), got, want)
		}
		if !bytes.Equal(b, keep) {
			return fmt.Sprintf("op %d: %s.Sum changed the bytes it appends to", i, names[m])
		}
		if h.Size() != len(want)-len(keep) {
			return fmt.Sprintf("op %d: %s.Size() is %d, the digest has %d bytes", i, names[m], h.Size(), len(want)-len(keep))
		}
		return ""
	}
	for i, o := range ops {
		switch o.K {
		case "new":
			m = int(o.A[0])
			data, size = nil, 0
			switch o.A[1] {
			case 0:
				h = methods[m].New()
			case 1:
				h = ghash.New(methods[m])
			default:
				if m == 6 {
					h = ghash.NewFingerprint().Hash()
				} else {
					h = methods[m].New()
				}
			}
		case "write":
			b := rng.New(uint64(o.A[0])).Bytes(int(o.A[1]))
			keep := append([]byte(nil), b...)
			k, e := h.Write(b)
			if k != len(b) || e != nil {
				return fmt.Sprintf("op %d: %s.Write of %d bytes returned %d, %v", i, names[m], len(b), k, e)
			}
			if !bytes.Equal(b, keep) {
				return fmt.Sprintf("op %d: %s.Write changed the caller's bytes", i, names[m])
			}
			data = append(data, keep...)
			size += int64(len(keep))
			for k := range b {
				b[k] ^= 0xA5 // the caller reuses its buffer
			}
		case "sum":
			b := make([]byte, o.A[0], o.A[0]+o.A[1])
			for k := range b {
				b[k] = byte(k + 1)
			}
			for k := 0; k < 2; k++ {
				if s := check(i, b); s != "" {
					return s
				}
			}
		case "reset":
			h.Reset()
			data, size = nil, 0
			if s := check(i, nil); s != "" {
				return s
			}
		case "resize":
			if f, ok := h.(*ghash.Fingerprint); ok {
				f.Resetsize(o.A[0])
				size = o.A[0]
			}
		case "string":
			if f, ok := h.(*ghash.Fingerprint); ok {
				d := ref(6, data, size)
				want := fmt.Sprintf("%x-%x-%x-%x", d[:6], d[6:12], d[12:18], d[18:])
				if got := f.String(); got != want {
					return fmt.Sprintf("op %d: Fingerprint.String() of %d bytes is %s, want %s", i, len(data), got, want)
				}
			}
		case "str":
			raw := rng.New(uint64(o.A[0])).Bytes(int(o.A[1]))
			if len(o.A) > 3 && len(raw) > 0 { // one that differs little from the one before
				raw = append([]byte(nil), last...)
				if len(raw) == 0 {
					raw = []byte{1}
				}
				switch o.A[3] {
				case 0:
					raw[int(o.A[0]%int64(len(raw)))] ^= 1
				case 1:
					raw[len(raw)/2] ^= 0x80
				case 2:
					raw = append(raw, raw[0])
				}
			}
			last = raw
			s := string(raw)
			d := ref(m, []byte(s), int64(len(s)))
			want := fmt.Sprintf("%x", d)
			got := ""
			if o.A[2] == 0 {
				got = methods[m].StringHash(s)
			} else {
				want = fmt.Sprintf("%010d-%x", len(s), d)
				got = methods[m].StringHashL(s)
			}
			if got != want {
				return fmt.Sprintf("op %d: %s string hash of %d bytes is %s, want %s", i, names[m], len(s), got, want)
			}
		}
	}
	return ""
}

func genNone(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(2, 5); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			op := core.Op{K: r.PickS("new", "New", "method", "str", "strl"), A: []int64{int64(r.N(4)), int64(r.N(50))}}
			if r.P(0.03) {
				op.A[1] = int64(r.Pick(255, 256, 1025, 4097, 65536, 70000))
			}
			if r.P(0.01) {
				op.A[0], op.A[1] = int64(r.Pick(100, 300, 1100)), int64(r.N(5))
			}
			if r.P(0.0008) {
				op.A[0], op.A[1] = 1, int64(r.Pick(1<<20, 1<<20+5, 3<<20, 17<<20))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if x := r.N(1000); x < 43 {
		// many hashes in one process
		n := r.Range(200, 700)
		if x < 3 {
			n = r.Range(66000, 140000)
			p.Sched.Q, p.Sched.PStmt, p.Sched.PSync = 5000, 0.0002, 0.0002
		}
		p.Cap = 20000000
		t := r.N(len(p.Tasks))
		p.Tasks[t] = append(p.Tasks[t], core.Op{K: "bulk", A: []int64{int64(n), 0}})
	} else if r.P(0.0001) {
		// so many that an id of three bytes is used up, of which only the last ones are looked at
		p.Sched.Q, p.Sched.PStmt, p.Sched.PSync = 5000000, 0.0000002, 0.0000002
		p.Cap = 400000000
		p.Tasks[0] = append(p.Tasks[0], core.Op{K: "forward", A: []int64{1<<24 - int64(r.N(5000)), 0}},
			core.Op{K: "bulk", A: []int64{12000, 0}})
	}
	if r.P(0.03) {
		p.Set("gc", 1)
	}
	if r.P(0.5) {
		core.GenStalls(p, r, 3, 30, 300)
	}
	return p
}

// collect ends when what was garbage at its start has been finalized.
func collect() {
	for i := 0; i < 3; i++ {
		done := make(chan bool)
		x := new([64]byte)
		runtime.SetFinalizer(x, func(*[64]byte) { close(done) })
		runtime.GC()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	}
}

func runNone(c *core.Ctx) {
	type rec struct {
		id, bad string
		h       hash.Hash
	}
	recs := make([][]rec, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			for _, o := range ops {
				if o.K == "bulk" {
					for k := int64(0); k < o.A[0]; k++ {
						h := ghash.New(ghash.NONE)
						recs[t] = append(recs[t], rec{id: fmt.Sprintf("%x", h.Sum(nil)), h: h})
					}
					continue
				}
				if o.K == "forward" {
					for k := int64(0); k < o.A[0]; k++ {
						ghash.NewNoneHash()
					}
					continue
				}
				var x rec
				if p := core.Try(func() { x.id, x.bad, x.h = none(o) }); p != "" {
					x.bad = "panic: " + p
				}
				recs[t] = append(recs[t], x)
			}
		})
	}
	if total < 2 {
		c.Trivial()
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("none/bad", "did not end: %s", o.End)
		}
		return
	}
	if c.Plan.Int("gc") > 0 {
		// hashes that nobody holds any more keep their ids
		late := make([]rec, 0, 40)
		again := func(n int) {
			for k := 0; k < n; k++ {
				h := ghash.New(ghash.NONE)
				late = append(late, rec{id: fmt.Sprintf("%x", h.Sum(nil))})
			}
		}
		if p := c.Solo(func() { again(20) }); p != "" {
			c.Fail("none/bad", "panic: %s", p)
			return
		}
		for k := range recs {
			for i := range recs[k] {
				recs[k][i].h = nil
			}
		}
		c.Fire("garbage-collection")
		collect()
		if p := c.Solo(func() { again(20) }); p != "" {
			c.Fail("none/bad", "panic: %s", p)
			return
		}
		recs = append(recs, late)
	}
	seen := map[string]string{}
	for t := range recs {
		for i, x := range recs[t] {
			id := fmt.Sprintf("task %d hash %d", t, i)
			if x.bad != "" {
				c.Fail("none/bad", "%s: %s", id, x.bad)
				continue
			}
			if o, dup := seen[x.id]; dup {
				c.Fail("none/dup", "%s and %s have the same id %s", o, id, x.id)
			}
			seen[x.id] = id
			if x.h != nil {
				if y := fmt.Sprintf("%x", x.h.Sum(nil)); y != x.id {
					c.Fail("none/bad", "%s: the id was %s and is %s in the end", id, x.id, y)
				}
			}
		}
	}
}

func none(o core.Op) (id, bad string, h hash.Hash) {
	s := string(rng.New(uint64(o.A[1])).Bytes(int(o.A[1])))
	switch o.K {
	case "new":
		h = ghash.NewNoneHash()
	case "New":
		h = ghash.New(ghash.NONE)
	case "method":
		h = ghash.NONE.New()
	case "str":
		return ghash.NONE.StringHash(s), "", nil
	case "strl":
		v := ghash.NONE.StringHashL(s)
		if p := fmt.Sprintf("%010d-", len(s)); len(v) < len(p) || v[:len(p)] != p {
			return "", fmt.Sprintf("StringHashL of %d bytes is %q", len(s), v), nil
		} else {
			return v[len(p):], "", nil
		}
	}
	d := h.Sum(nil)
	id = fmt.Sprintf("%x", d)
	if len(d) != h.Size() || len(d) == 0 {
		return "", fmt.Sprintf("Size() is %d, the digest has %d bytes", h.Size(), len(d)), nil
	}
	for k := int64(0); k < o.A[0]; k++ {
		n, e := h.Write([]byte(s))
		if n != len(s) || e != nil {
			return "", fmt.Sprintf("Write of %d bytes returned %d, %v", len(s), n, e), nil
		}
		if k == 1 {
			h.Reset()
		}
		if x := fmt.Sprintf("%x", h.Sum(nil)); x != id {
			return "", fmt.Sprintf("the id changed from %s to %s", id, x), nil
		}
		if x := fmt.Sprintf("%x", h.Sum([]byte("ab"))); x != "6162"+id {
			return "", fmt.Sprintf("Sum does not append the id: %s", x), nil
		}
		if w := s[:min(len(s), 70000)]; fmt.Sprintf("%x", h.Sum([]byte(w))) != fmt.Sprintf("%x", w)+id {
			return "", fmt.Sprintf("Sum does not append the id to %d bytes", len(w)), nil
		}
		b := append(make([]byte, 0, 64), s[:min(len(s), 20)]...)
		if x := h.Sum(b); fmt.Sprintf("%x", x) != fmt.Sprintf("%x", b)+id || string(b) != s[:len(b)] {
			return "", fmt.Sprintf("Sum does not append the id to %d bytes with room behind them: %x", len(b), x), nil
		}
	}
	return id, "", h
}
