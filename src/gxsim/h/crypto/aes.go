package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrt"

	gcrypto "github.com/vipally/gx/crypto"
	gaes "github.com/vipally/gx/crypto/aes"
)

func msgLen(r *rng.R) int64 {
	l := r.Pick(0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 240, 255, 256, 257, 1000)
	if r.P(0.4) {
		l = r.N(90)
	}
	if r.P(0.02) {
		l = r.Pick(4095, 4096, 4097, 8192, 40000, 65535, 65536, 65537)
		if r.P(0.05) {
			l = r.Pick(131073, 1<<20, 1<<20+5)
		}
	}
	return int64(l)
}

// content of a message: mostly random, sometimes of a kind that could be
// mistaken for padding or text.
func content(seed int64, l int) []byte {
	m := rng.New(uint64(seed)).Bytes(l)
	switch seed % 16 {
	case 0:
		clear(m)
	case 1:
		for i := range m {
			m[i] = byte(1 + seed>>8&15)
		}
	case 2:
		for i := range m {
			m[i] = "abc xyz\n=;[]%"[int(m[i])%13]
		}
	case 3:
		if l > 0 {
			m[l-1] = byte(seed >> 8 & 31)
		}
	case 4:
		for i := l - min(l, int(seed>>8&31)); i < l; i++ {
			m[i] = 0
		}
	}
	return m
}

// spare copies a key into a slice whose spare capacity holds other bytes.
func spare(k []byte, seed int64) []byte {
	b := rng.New(uint64(seed) + 77).Bytes(len(k) + 40)
	copy(b, k)
	return b[:len(k)]
}

// aes: pairs of sessions, each a sender and one or two receivers.
func genAES(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for s, n := 0, r.Range(1, 3); s < n; s++ {
		ops := []core.Op{{K: "key", A: []int64{int64(r.U64() >> 1), int64(r.Pick(16, 24, 32)), int64(r.N(3)), int64(r.N(32))}}}
		for k := r.Range(1, 6); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("bytes", "bytes", "string"), A: []int64{int64(r.U64() >> 1), msgLen(r), int64(r.N(2)), int64(r.N(3))}})
		}
		if s == 0 && r.P(0.01) {
			for k := r.Range(250, 600); k > 0; k-- { // a long session
				ops = append(ops, core.Op{K: r.PickS("bytes", "string"), A: []int64{int64(r.U64() >> 1), int64(r.N(40)), int64(r.N(2)), int64(r.N(3))}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.3) {
		p.Set("badkey", r.N(70)+1)
	}
	if r.P(0.4) {
		core.GenStalls(p, r, 3, 60, 300)
	}
	return p
}

type link struct {
	n    simrt.Cell
	hb   atomic.Int64 // orders the hand-over for the race detector
	msgs [][]byte     // plaintext as given
	cts  [][]byte
}

func runAES(c *core.Ctx) {
	if bk := c.Plan.Int("badkey"); bk > 0 {
		l := bk - 1
		k := c.R.Bytes(l + 40)[:l]
		var e1, e2 error
		p := core.Try(func() {
			_, e1 = gaes.NewAESEncrypter(k)
			_, e2 = gaes.NewAESDecrypter(k)
		})
		good := l == 16 || l == 24 || l == 32
		if p != "" {
			c.Fail("aes/key", "a key of %d bytes: panic %s", l, p)
		} else if good != (e1 == nil) || good != (e2 == nil) {
			c.Fail("aes/key", "a key of %d bytes: encrypter error %v, decrypter error %v", l, e1, e2)
		}
	}
	n := len(c.Plan.Tasks)
	bad := make([]string, 3*n)
	var tasks []func()
	total := 0
	for s := 0; s < n; s++ {
		ops := c.Plan.Tasks[s]
		if len(ops) < 2 || ops[0].K != "key" {
			tasks = append(tasks, func() {})
			continue
		}
		total += len(ops)
		ln := &link{msgs: make([][]byte, len(ops)), cts: make([][]byte, len(ops))}
		key := rng.New(uint64(ops[0].Arg(0))).Bytes(int(ops[0].Arg(1)))
		mine := spare(key, ops[0].Arg(0))
		tasks = append(tasks, func() {
			bad[3*s] = guard(func() string {
				enc, err := gaes.NewAESEncrypter(mine)
				if err != nil {
					return fmt.Sprintf("NewAESEncrypter with %d key bytes: %v", len(mine), err)
				}
				for i := range mine {
					mine[i] ^= 0x5c // the caller clears its key
				}
				buf := make([]byte, 0, 2000)
				var given [][]byte // what was returned, and a copy of it
				var giveAt []int
				for i, o := range ops[1:] {
					m := content(o.Arg(0), int(o.Arg(1)))
					if o.Arg(3) == 0 && len(m) > 0 {
						m[len(m)-1] = byte(len(m) % 17) // looks like padding
					}
					var ct []byte
					if o.K == "string" {
						ct = enc.EncryptString(string(m))
					} else {
						buf = append(buf[:0], m...)
						ct = enc.Encrypt(buf)
						if !bytes.Equal(buf, m) {
							return fmt.Sprintf("message %d: Encrypt changed the caller's bytes", i)
						}
						for k := range buf {
							buf[k] = 0xEE // the buffer is reused
						}
					}
					if len(ct)%16 != 0 || len(ct) <= len(m) || len(ct) > len(m)+16 {
						return fmt.Sprintf("message %d: %d bytes became %d", i, len(m), len(ct))
					}
					if len(m) >= 16 && bytes.Contains(ct, m[:16]) {
						return fmt.Sprintf("message %d: the plaintext shows in the ciphertext", i)
					}
					ln.msgs[i] = m
					ln.cts[i] = ct // the message on its way is the slice itself
					asked := append([]byte(nil), ct...)
					given, giveAt = append(given, ct, asked), append(giveAt, i)
					if o.Arg(2) == 1 {
						ln.cts[i] = asked
						given, giveAt = given[:len(given)-2], giveAt[:len(giveAt)-1]
						for k := range ct {
							ct[k] = 0xCC // the result belongs to the caller
						}
					}
					ln.hb.Add(1)
					ln.n.Add(1)
				}
				for i := range giveAt {
					if !bytes.Equal(given[2*i], given[2*i+1]) {
						return fmt.Sprintf("the ciphertext of message %d changed after it was returned", giveAt[i])
					}
				}
				return ""
			})
		})
		recv := func(slot int, str bool) func() {
			return func() {
				bad[slot] = guard(func() string {
					k := spare(key, ops[0].Arg(0)+int64(slot))
					dec, err := gaes.NewAESDecrypter(k)
					if err != nil {
						return fmt.Sprintf("NewAESDecrypter: %v", err)
					}
					for i := range k {
						k[i] = 0
					}
					var outs [][]byte
					var strs []string
					var strAt []int
					for i := 0; i < len(ops)-1; i++ {
						simrt.Block(&simrt.CellAtLeast{C: &ln.n, V: int64(i + 1)}, -1, "the next message")
						ln.hb.Load()
						ct := append([]byte(nil), ln.cts[i]...)
						keep := append([]byte(nil), ct...)
						var got []byte
						if str && ops[i+1].Arg(2) == 1 {
							s := dec.DecryptToString(ct)
							strs = append(strs, s)
							strAt = append(strAt, i)
							got = []byte(s)
						} else {
							got = dec.Decrypt(ct)
						}
						if !bytes.Equal(ct, keep) {
							return fmt.Sprintf("message %d: Decrypt changed the ciphertext", i)
						}
						if !bytes.Equal(got, ln.msgs[i]) {
							return fmt.Sprintf("message %d of %d bytes came out as %d other bytes", i, len(ln.msgs[i]), len(got))
						}
						for k := range ct {
							ct[k] = 0xDD // the buffer is reused
						}
						if str {
							for k := range got {
								got[k] = 0xAA // the result belongs to the caller
							}
							continue
						}
						outs = append(outs, got)
					}
					for i, s := range strs {
						if s != string(ln.msgs[strAt[i]]) {
							return fmt.Sprintf("message %d changed after it was delivered", strAt[i])
						}
					}
					for i := range outs {
						if !bytes.Equal(outs[i], ln.msgs[i]) {
							return fmt.Sprintf("message %d changed after it was delivered", i)
						}
					}
					return ""
				})
			}
		}
		tasks = append(tasks, recv(3*s+1, false))
		if ops[0].Arg(2) > 0 {
			tasks = append(tasks, recv(3*s+2, true))
		}
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	c.Log("%v", bad)
	if o.End != "done" {
		for _, b := range bad {
			if b != "" {
				c.Fail("aes/round", "%s", b)
				return
			}
		}
		if o.End != "reccap" {
			c.Fail("aes/round", "did not end: %s %v", o.End, o.Stuck)
		}
		return
	}
	for t, b := range bad {
		if b != "" {
			c.Fail("aes/round", "session %d, party %d: %s", t/3, t%3, b)
		}
	}
	// another key must not open the messages
	for s := 0; s < n; s++ {
		ops := c.Plan.Tasks[s]
		if len(ops) < 2 || ops[0].K != "key" {
			continue
		}
		key := rng.New(uint64(ops[0].Arg(0))).Bytes(int(ops[0].Arg(1)))
		other := append([]byte(nil), key...)
		other[int(ops[0].Arg(3))%len(other)] ^= 1 << uint(ops[0].Arg(3)%8)
		e, err1 := gaes.NewAESEncrypter(key)
		d, err2 := gaes.NewAESDecrypter(other)
		if err1 != nil || err2 != nil {
			continue
		}
		for _, o := range ops[1:] {
			m := content(o.Arg(0), int(o.Arg(1)))
			if len(m) < 32 {
				continue
			}
			got := d.Decrypt(e.Encrypt(m))
			if len(got) >= 32 && bytes.Equal(got[16:32], m[16:32]) {
				c.Fail("aes/round", "a key of %d bytes that differs in byte %d opens the message", len(key), int(ops[0].Arg(3))%len(key))
				break
			}
		}
	}
}

func guard(f func() string) (s string) {
	if p := core.Try(func() { s = f() }); p != "" {
		return "panic: " + p
	}
	return
}

// aes-damage: a lossy link between the sessions.
func genDamage(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for s, n := 0, r.Range(1, 2); s < n; s++ {
		ops := []core.Op{{K: "key", A: []int64{int64(r.U64() >> 1), int64(r.Pick(16, 24, 32))}}}
		for k := r.Range(2, 8); k > 0; k-- {
			ops = append(ops, core.Op{K: "msg", A: []int64{int64(r.U64() >> 1), msgLen(r), int64(r.N(2))}})
		}
		for f := r.Range(0, 5); f > 0; f-- {
			p.Faults = append(p.Faults, core.Fault{Kind: r.PickS("lose", "dup", "swap", "flip", "fliplast", "cut", "cut16", "extend", "empty", "junk", "nil"), Task: s, At: int64(r.N(len(ops) - 1)), Arg: int64(r.U64() >> 1)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func runDamage(c *core.Ctx) {
	n := len(c.Plan.Tasks)
	bad := make([]string, n)
	var tasks []func()
	total := 0
	for s := 0; s < n; s++ {
		ops := c.Plan.Tasks[s]
		if len(ops) < 2 || ops[0].K != "key" {
			tasks = append(tasks, func() {})
			continue
		}
		total += len(ops)
		tasks = append(tasks, func() {
			bad[s] = guard(func() string {
				key := rng.New(uint64(ops[0].Arg(0))).Bytes(int(ops[0].Arg(1)))
				enc, err := gaes.NewAESEncrypter(key)
				if err != nil {
					return err.Error()
				}
				dec, err := gaes.NewAESDecrypter(key)
				if err != nil {
					return err.Error()
				}
				type pkt struct {
					ct  []byte
					msg int // the message this is exactly, or -1
				}
				var msgs, cts [][]byte
				var q []pkt
				for i, o := range ops[1:] {
					m := content(o.Arg(0), int(o.Arg(1)))
					ct := enc.Encrypt(m)
					msgs, cts = append(msgs, m), append(cts, ct)
					q = append(q, pkt{ct, i})
				}
				for _, f := range c.Plan.Faults {
					if f.Task != s || len(q) == 0 {
						continue
					}
					i := int(f.At) % len(q)
					r := rng.New(uint64(f.Arg))
					c.Fire("msg-" + f.Kind)
					switch f.Kind {
					case "lose":
						q = append(q[:i:i], q[i+1:]...)
					case "dup":
						q = append(q[:i+1:i+1], q[i:]...)
					case "swap":
						j := r.N(len(q))
						q[i], q[j] = q[j], q[i]
					case "flip", "fliplast":
						b := append([]byte(nil), q[i].ct...)
						if len(b) > 0 {
							k := r.N(len(b))
							if f.Kind == "fliplast" && len(b) > 32 {
								k = len(b) - 1 - r.N(32)
							}
							b[k] ^= byte(1 + r.N(255))
							q[i] = pkt{b, -1}
						}
					case "cut":
						b := q[i].ct
						q[i] = pkt{b[:r.N(len(b)+1)], -1}
					case "cut16":
						b := q[i].ct
						q[i] = pkt{b[:r.N(len(b)/16+1)*16], -1}
					case "extend":
						q[i] = pkt{append(append([]byte(nil), q[i].ct...), r.Bytes(r.Range(1, 40))...), -1}
					case "empty":
						q[i] = pkt{[]byte{}, -1}
					case "nil":
						q[i] = pkt{nil, -1}
					case "junk":
						q[i] = pkt{r.Bytes(r.N(100)), -1}
					}
				}
				// last: what the session's chaining value is, by the history
				var last []byte // nil: the start
				for i, x := range q {
					simrt.YS()
					in := append([]byte(nil), x.ct...)
					var got []byte
					p := core.Try(func() {
						if ops[1+i%(len(ops)-1)].Arg(2) == 1 {
							got = []byte(dec.DecryptToString(in))
						} else {
							got = dec.Decrypt(in)
						}
					})
					if p != "" {
						return fmt.Sprintf("delivery %d (%d bytes): Decrypt panicked: %s", i, len(in), p)
					}
					if !bytes.Equal(in, x.ct) {
						return fmt.Sprintf("delivery %d: Decrypt changed the ciphertext", i)
					}
					if len(got) > len(in) {
						return fmt.Sprintf("delivery %d: %d bytes decrypted to %d", i, len(in), len(got))
					}
					if len(in)%16 != 0 {
						if len(got) != 0 {
							return fmt.Sprintf("delivery %d: %d bytes, not whole blocks, gave %d bytes of plaintext", i, len(in), len(got))
						}
						c.Probe("refused")
						continue
					}
					if x.msg >= 0 {
						var prev []byte
						if x.msg > 0 {
							pc := cts[x.msg-1]
							prev = pc[len(pc)-16:]
						}
						m := msgs[x.msg]
						if (prev == nil && last == nil) || (prev != nil && last != nil && bytes.Equal(prev, last)) {
							if !bytes.Equal(got, m) {
								return fmt.Sprintf("delivery %d is message %d (%d bytes), intact and in sequence, but came out as %d other bytes", i, x.msg, len(m), len(got))
							}
							c.Probe("in-sequence")
						} else if len(m) > 16 {
							if len(got) != len(m) || !bytes.Equal(got[16:], m[16:]) {
								return fmt.Sprintf("delivery %d is message %d (%d bytes), intact after a loss, but more than its first block is damaged", i, x.msg, len(m))
							}
							c.Probe("resync")
						}
					}
					if len(in) > 0 {
						last = append([]byte(nil), x.ct[len(x.ct)-16:]...)
					}
				}
				return ""
			})
		})
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	c.Log("%v", bad)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("damage", "did not end: %s", o.End)
		}
		return
	}
	for t, b := range bad {
		if b != "" {
			c.Fail("damage", "session %d: %s", t, b)
		}
	}
}

// padding
func genPad(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(1, 2); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 8); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("pkcs5", "pkcs7", "pkcs7s", "zero", "unpkcs5", "unpkcs7", "unzero"),
				A: []int64{int64(r.U64() >> 1), msgLen(r), int64(r.Pick(1, 2, 7, 8, 15, 16, 16, 32, 255)), int64(r.N(256)), int64(r.N(3))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func runPad(c *core.Ctx) {
	bad := make([]string, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			bad[t] = guard(func() string {
				for i := range ops {
					if s := pad(&ops[i]); s != "" {
						return fmt.Sprintf("op %d %s: %s", i, ops[i].K, s)
					}
				}
				return ""
			})
		})
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	c.Log("%v", bad)
	if o.End != "done" {
		return
	}
	for _, b := range bad {
		if b != "" {
			c.Fail("pad", "%s", b)
		}
	}
}

func pad(o *core.Op) string {
	m := content(o.Arg(0), int(o.Arg(1)))
	if o.Arg(4) == 0 && len(m) > 0 {
		m[len(m)-1] = byte(o.Arg(3))
	}
	if o.Arg(4) == 1 && len(m) > 3 {
		m[len(m)-1], m[len(m)-2] = byte(o.Arg(3)), byte(o.Arg(3))
	}
	bs := int(o.Arg(2))
	keep := append([]byte(nil), m...)
	var padded, back []byte
	switch o.K {
	case "pkcs5":
		padded = gcrypto.PKCS5Padding(m, bs)
		back = gcrypto.PKCS5UnPadding(append([]byte(nil), padded...))
	case "pkcs7":
		padded = gaes.PKCS7Padding(m, bs)
		back = gaes.PKCS7Unpadding(append([]byte(nil), padded...))
	case "pkcs7s":
		padded = gaes.PKCS7PaddingString(string(m), bs)
		back = gaes.PKCS7Unpadding(append([]byte(nil), padded...))
	case "zero":
		padded = gcrypto.ZeroPadding(m, bs)
		back = gcrypto.ZeroUnPadding(append([]byte(nil), padded...))
		m = bytes.TrimRight(keep, "\x00")
	default:
		in := append([]byte(nil), m...)
		switch o.K {
		case "unpkcs5":
			back = gcrypto.PKCS5UnPadding(in)
		case "unpkcs7":
			back = gaes.PKCS7Unpadding(in)
		case "unzero":
			back = gcrypto.ZeroUnPadding(in)
			if !bytes.Equal(back, bytes.TrimRight(keep, "\x00")) {
				return fmt.Sprintf("%d bytes became %d", len(in), len(back))
			}
		}
		if len(back) > len(keep) || !bytes.Equal(back, keep[:len(back)]) {
			return fmt.Sprintf("the result is not a prefix of the %d bytes given", len(keep))
		}
		return ""
	}
	if len(padded)%bs != 0 || len(padded) <= len(keep) || len(padded) > len(keep)+bs {
		return fmt.Sprintf("%d bytes padded to %d with block size %d", len(keep), len(padded), bs)
	}
	if !bytes.Equal(padded[:len(keep)], keep) {
		return "padding changed the data"
	}
	if !bytes.Equal(back, m) {
		return fmt.Sprintf("%d bytes padded and unpadded (block size %d) gave %d bytes", len(m), bs, len(back))
	}
	return ""
}
