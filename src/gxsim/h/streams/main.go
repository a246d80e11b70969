// Harness for the stream copier (C08, C09) and the INI reader (C10, C11).
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simos"
	"gxsim/simrt"

	"github.com/vipally/gx/encoding/ini"
	gio "github.com/vipally/gx/io"
)

func main() {
	core.Register("copy", genCopy, runCopy)
	core.Register("copy-fault", genCopyFault, runCopy)
	core.Register("ini", genIni, runIni)
	core.Register("ini-fault", genIniFault, runIniFault)
	core.Main()
}

var errRead = errors.New("injected: source device failed")
var errWrite = errors.New("injected: destination device failed")

// What devices can fail with. A reader's io.EOF is its end and no failure; a
// writer's is one.
var errText = errors.New("EOF") // not io.EOF
var readErrs = []error{errText, errRead, io.ErrUnexpectedEOF, errRead, io.ErrNoProgress, syscall.EAGAIN, syscall.EINTR, os.ErrDeadlineExceeded, io.ErrShortBuffer, io.ErrClosedPipe, syscall.EIO, syscall.ETIMEDOUT, os.ErrClosed, fmt.Errorf("device: %w", io.ErrUnexpectedEOF)}
var writeErrs = []error{errWrite, io.EOF, errText, io.ErrClosedPipe, syscall.EAGAIN, io.ErrShortWrite, syscall.ENOSPC, io.ErrUnexpectedEOF, syscall.EPIPE, os.ErrDeadlineExceeded} // at most ten

// source is a simulated input device.
type source struct {
	c      *core.Ctx
	data   []byte
	pos    int
	r      *rng.R
	style  int
	errAt  int // -1: never
	err    error
	with   bool // the error, or EOF, comes together with the last bytes
	once   bool // the device recovers after the error
	zeros  int
	idle   int // empty reads left of the long idle time at idleAt
	idleAt int
	idled  bool
	fired  bool
	reads  int
	max    int   // largest chunk delivered
	count  int   // bytes delivered
	ends   []int // position after each read
}

func (s *source) Read(b []byte) (int, error) {
	simrt.YS()
	s.reads++
	if s.style&4 != 0 && s.r.P(0.2) {
		simrt.Sleep(1000)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.idle > 0 && s.pos >= s.idleAt {
		s.idle--
		s.idled = true
		s.c.Fire("empty-read")
		return 0, nil
	}
	if s.style&2 != 0 && s.zeros < 3 && s.r.P(0.15) {
		s.zeros++
		s.c.Fire("empty-read")
		return 0, nil
	}
	s.zeros = 0
	end, e := len(s.data), error(io.EOF)
	if s.errAt >= 0 && s.errAt <= end && !(s.once && s.fired) {
		end, e = s.errAt, s.err
	}
	n := end - s.pos
	if n > len(b) {
		n = len(b)
	}
	if s.style&1 != 0 && n > 0 {
		m := n
		switch s.r.N(3) {
		case 0:
			n = 1
		case 1:
			n = 1 + s.r.N(m)
		}
		if n < m {
			s.c.Fire("short-read")
		}
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	s.count += n
	if n > s.max {
		s.max = n
	}
	s.ends = append(s.ends, s.pos)
	if s.pos == end && (n == 0 || s.with) {
		if e != io.EOF {
			s.fired = true
			s.c.Fire("read-error")
		} else if n > 0 {
			s.c.Fire("data-with-eof")
		}
		return n, e
	}
	return n, nil
}

// sourceW also implements io.WriterTo: its data can be taken once.
type sourceW struct{ source }

func (s *sourceW) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 1+s.r.N(700))
	for {
		k, e := s.Read(buf)
		if k > 0 {
			m, ew := w.Write(buf[:k])
			n += int64(m)
			if ew != nil {
				return n, ew
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// sink is a simulated output device. Failing once, it would take later writes
// again: a failure that is overlooked leaves a gap.
type sink struct {
	c      *core.Ctx
	got    []byte
	failAt int // -1: never
	short  bool
	part   bool
	fired  bool
	err    error
	tail   bool
	full   bool  // the failing write takes all of its data
	whole  int   // bytes received with writes that succeeded
	failed *bool // one of this copy's writes has failed
}

func (d *sink) Write(b []byte) (int, error) {
	simrt.YS()
	if *d.failed {
		d.tail = true
	}
	if d.failAt >= 0 && !d.fired && len(d.got)+len(b) > d.failAt {
		d.fired = true
		*d.failed = true
		k := d.failAt - len(d.got)
		if k < 0 || !d.part {
			k = 0
		}
		if d.full && !d.short {
			k = len(b)
		}
		d.got = append(d.got, b[:k]...)
		if d.short {
			d.c.Fire("short-write")
			return k, nil
		}
		d.c.Fire("write-error")
		return k, d.err
	}
	d.got = append(d.got, b...)
	d.whole = len(d.got)
	return len(b), nil
}

// sinkR also offers the optional interfaces a copier might use.
type sinkR struct{ sink }

func (d *sinkR) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 333)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			m, ew := d.Write(buf[:k])
			n += int64(m)
			if ew != nil {
				return n, ew
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

func (d *sinkR) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

func genCopy(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(1, 3); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 3); k > 0; k-- {
			size := 0
			switch r.N(6) {
			case 0:
				size = r.N(3)
			case 1, 2:
				size = r.N(300)
			case 3:
				size = 32*1024*r.Range(1, 2) + r.N(3) - 1
			case 4:
				size = r.N(5000)
			case 5:
				size = r.Range(30000, 100000)
			}
			buf := -1
			if r.P(0.6) {
				buf = r.Pick(0, 1, 2, 7, 64, 512, 4096, 40000)
				if buf > 0 && size/buf > 3000 {
					buf = 512
				}
			}
			dsts := r.Range(1, 4)
			if r.P(0.04) {
				dsts = 0
			}
			if r.P(0.03) {
				dsts = r.Range(5, 9)
			}
			if r.P(0.006) {
				size = r.Pick(1<<20-1, 1<<20+1, 3<<20, 9<<20+1)
				buf = r.Pick(-1, 0, 4096, 1<<16, 1<<16+1, 200000, 2<<20)
			}
			style := r.N(8)
			if size > 10000 {
				style &^= 1
				if r.P(0.3) {
					style |= 8
				}
			}
			if r.P(0.06) {
				style |= 16
			}
			ops = append(ops, core.Op{K: r.PickS("plain", "plain", "writerto"), A: []int64{
				int64(r.U64() >> 1), int64(size), int64(dsts), int64(buf), int64(style), int64(r.N(2)), int64(r.N(512)), int64(r.N(16))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func genCopyFault(r *rng.R, tier string) *core.Plan {
	p := genCopy(r, tier)
	for t, ops := range p.Tasks {
		for i, o := range ops {
			if k := o.A[7]; k >= 4 && k != 9 && k < 15 { // these hide the device's faults
				o.A[7] = 0
			}
			size := int(o.A[1])
			at := func() int64 {
				switch r.N(4) {
				case 0:
					return 0
				case 1:
					return int64(max(0, size-1-r.N(3)))
				}
				return int64(r.N(size + 1))
			}
			if r.P(0.35) {
				p.Faults = append(p.Faults, core.Fault{Kind: "read-err", Task: t, At: at(), Arg: int64(i*1000 + r.N(2) + 10*r.N(2*len(readErrs)))})
			}
			for d := 0; d < int(o.A[2]); d++ {
				if r.P(0.25) {
					p.Faults = append(p.Faults, core.Fault{Kind: r.PickS("write-err", "short-write"), Task: t, At: at(), Arg: int64(i*1000 + d*10 + r.N(3) + 100*r.N(len(writeErrs)))})
				}
			}
		}
	}
	return p
}

// wrap puts the device behind one of the standard library's readers.
func (x *copyRes) wrap(rd io.Reader) io.Reader {
	data := x.src.data
	q := rng.New(uint64(x.o.A[0]) + 3)
	switch x.o.A[7] {
	case 1: // to the end and more
		return &io.LimitedReader{R: rd, N: int64(len(data)) + int64(q.Pick(0, 1, 1<<20, 1<<62))}
	case 2, 3: // part of what the device has
		x.src.data = append(data[:len(data):len(data)], "and this is behind the limit"...)
		if x.src.errAt > len(data) {
			x.src.errAt = -1
		}
		if x.o.A[7] == 3 && x.src.errAt < 0 {
			x.want = nil
			return &io.LimitedReader{R: rd, N: int64(-q.N(3))}
		}
		return io.LimitReader(rd, int64(len(data)))
	case 4:
		return bytes.NewReader(data)
	case 5:
		return bytes.NewBuffer(append([]byte(nil), data...))
	case 6:
		return strings.NewReader(string(data))
	case 7:
		return bufio.NewReaderSize(rd, q.Pick(16, 100, 4096))
	case 8:
		return io.NewSectionReader(bytes.NewReader(data), 0, int64(len(data)))
	case 9: // an empty one first
		return io.MultiReader(strings.NewReader(""), rd)
	case 10, 11, 12, 13, 14: // one that somebody has read from before
		pre := q.N(40)
		all := append(bytes.Repeat([]byte{0xA5}, pre), data...)
		var s io.Reader
		switch x.o.A[7] {
		case 10:
			s = bytes.NewReader(all)
		case 11:
			s = strings.NewReader(string(all))
		case 12:
			s = bytes.NewBuffer(all)
		case 13:
			s = io.NewSectionReader(bytes.NewReader(append([]byte("before"), all...)), 6, int64(len(all)))
		case 14:
			b := bytes.NewReader(all)
			s = struct {
				io.ReadSeeker
				io.ReaderAt
				io.ByteScanner
			}{b, b, b}
		}
		io.ReadFull(s, make([]byte, pre))
		return s
	}
	return rd
}

type copyRes struct {
	want    []byte // what the destinations are to get if nothing fails
	o       core.Op
	src     *source
	sinks   []*sink
	failed  bool
	n       int64
	err     error
	panicd  string
	buf     []byte
	full    []byte
	started bool
	ended   bool
}

func runCopy(c *core.Ctx) {
	var tasks []func()
	res := make([][]*copyRes, len(c.Plan.Tasks))
	any := false
	for t, ops := range c.Plan.Tasks {
		for i, o := range ops {
			any = true
			x := &copyRes{o: o}
			x.src = &source{c: c, data: rng.New(uint64(o.A[0])).Bytes(int(o.A[1])), r: rng.New(uint64(o.A[0]) + 1), style: int(o.A[4]), with: o.A[5] == 1, errAt: -1, err: errRead}
			x.want = x.src.data
			if o.A[4]&16 != 0 {
				q := rng.New(uint64(o.A[0]) + 2)
				x.src.idle, x.src.idleAt = q.Pick(20, 101, 110, 260, 1100), q.N(int(o.A[1])+1)
				if q.P(0.3) {
					x.src.idleAt = int(o.A[1])
				}
			}
			for d := 0; d < int(o.A[2]); d++ {
				x.sinks = append(x.sinks, &sink{c: c, failAt: -1, failed: &x.failed})
			}
			for _, f := range c.Plan.Faults {
				if f.Task != t || int(f.Arg/1000) != i {
					continue
				}
				switch f.Kind {
				case "read-err":
					x.src.errAt = int(f.At)
					x.src.with = f.Arg%10 == 1
					k := int(f.Arg%1000) / 10
					x.src.err = readErrs[k/2%len(readErrs)]
					x.src.once = k%2 == 1
				case "write-err", "short-write":
					d := int(f.Arg%100) / 10
					if d < len(x.sinks) {
						x.sinks[d].failAt = int(f.At)
						x.sinks[d].short = f.Kind == "short-write"
						x.sinks[d].part = f.Arg%10 == 1
						x.sinks[d].full = f.Arg%10 == 2
						x.sinks[d].err = writeErrs[int(f.Arg%1000)/100%len(writeErrs)]
					}
				}
			}
			if b := int(o.A[3]); b >= 0 {
				x.full = bytes.Repeat([]byte{0xEE}, b+32)
				x.buf = x.full[:b]
			}
			res[t] = append(res[t], x)
		}
		tasks = append(tasks, func() {
			for _, x := range res[t] {
				x.started = true
				var rd io.Reader = x.src
				if x.o.K == "writerto" {
					w := &sourceW{*x.src}
					x.src = &w.source
					rd = w
				}
				rd = x.wrap(rd)
				var ws []io.Writer
				for d := range x.sinks {
					if x.o.A[6]>>uint(d)&1 == 1 {
						w := &sinkR{*x.sinks[d]}
						x.sinks[d] = &w.sink
						ws = append(ws, w)
					} else {
						ws = append(ws, x.sinks[d])
					}
				}
				x.panicd = core.Try(func() {
					if x.o.A[3] < 0 {
						x.n, x.err = gio.Copys(rd, ws...)
					} else {
						x.n, x.err = gio.CopysBuffer(rd, x.buf, ws...)
					}
				})
				x.ended = true
			}
		})
	}
	if !any {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	if o.End == "stepcap" || o.End == "deadlock" {
		for t := range res {
			for _, x := range res[t] {
				if x.started && !x.ended {
					c.Fail("copy/hang", "a copy of %d bytes did not end: %s after %d steps and %d reads", len(x.src.data), o.End, o.Steps, x.src.reads)
					return
				}
			}
		}
		return
	}
	if o.End != "done" {
		return
	}
	for t := range res {
		for i, x := range res[t] {
			x.judge(c, fmt.Sprintf("task %d copy %d (%s/%d, %d bytes, %d dsts, buffer %d)", t, i, x.o.K, x.o.A[7], x.o.A[1], x.o.A[2], x.o.A[3]))
			c.Log("%d/%d n=%d err=%v reads=%d", t, i, x.n, x.err, x.src.reads)
		}
	}
}

func (x *copyRes) judge(c *core.Ctx, id string) {
	if x.panicd != "" {
		c.Fail("copy/panic", "%s: panic: %s", id, x.panicd)
		return
	}
	stream := x.want
	if x.src.errAt >= 0 && x.src.errAt < len(stream) {
		stream = stream[:x.src.errAt]
	}
	minGot, minWhole, wfail, sfail, same := 1<<62, 1<<62, false, false, false
	for d, s := range x.sinks {
		if len(s.got) > len(stream) || !bytes.Equal(s.got, stream[:len(s.got)]) {
			c.Fail("copy/data", "%s: destination %d received something that is not a prefix of the source's stream (%d bytes received)", id, d, len(s.got))
		}
		if len(s.got) < minGot {
			minGot = len(s.got)
		}
		if s.whole < minWhole {
			minWhole = s.whole
		}
		if s.fired && s.short {
			sfail = true
		} else if s.fired {
			wfail = true
			same = same || errors.Is(x.err, s.err)
		}
	}
	for k := len(x.buf); k < len(x.full); k++ {
		if x.full[k] != 0xEE {
			c.Fail("copy/data", "%s: the copy wrote beyond the buffer it was given", id)
			break
		}
	}
	if x.err == nil {
		for d, s := range x.sinks {
			if !bytes.Equal(s.got, x.want) {
				c.Fail("copy/data", "%s: the copy reported success but destination %d holds %d of %d bytes", id, d, len(s.got), len(x.want))
			}
		}
		if x.src.fired || wfail || sfail {
			c.Fail("copy/error", "%s: reported success although an operation failed (read failed: %v, write failed: %v, short write: %v)", id, x.src.fired, wfail, sfail)
		}
		if x.n != int64(len(x.want)) {
			c.Fail("copy/error", "%s: count %d after a complete copy of %d bytes", id, x.n, len(x.want))
		}
		return
	}
	switch {
	case errors.Is(x.err, io.ErrNoProgress) && x.src.idled, errors.Is(x.err, x.src.err) && x.src.fired, same, errors.Is(x.err, io.ErrShortWrite) && sfail:
	default:
		c.Fail("copy/error", "%s: failed with %q, which no operation reported (read failed: %v, write failed: %v, short write: %v)", id, x.err, x.src.fired, wfail, sfail)
	}
	if x.n > int64(minGot) || x.n < 0 {
		c.Fail("copy/error", "%s: count %d after an error although one destination received only %d bytes", id, x.n, minGot)
	}
	full := 0 // bytes of the reads that every destination took whole
	for _, e := range x.src.ends {
		if e <= minWhole {
			full = e
		}
	}
	if x.n < int64(full) {
		c.Fail("copy/error", "%s: count %d after an error although every destination received all of the first %d bytes read", id, x.n, full)
	}
	if x.src.fired && !wfail && !sfail {
		for d, s := range x.sinks {
			if len(s.got) != len(stream) {
				c.Fail("copy/error", "%s: the source failed after %d bytes, destination %d received %d of them", id, len(stream), d, len(s.got))
			}
		}
		if x.n != int64(len(stream)) {
			c.Fail("copy/error", "%s: count %d although every destination received %d bytes before the source failed", id, x.n, len(stream))
		}
	}
	for d, s := range x.sinks {
		if s.tail {
			c.Fail("copy/error", "%s: destination %d was written to after a write had failed", id, d)
		}
	}
}

// ---------------------------------------------------------------- INI

var wordRunes = []rune("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-/:#\"'\\$%é世")

func word(r *rng.R, n int) string {
	rs := wordRunes
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.N(len(rs))])
	}
	return b.String()
}

func pad(r *rng.R) string {
	return r.PickS("", "", "", "", " ", " ", "\t", "  \t ", "\v", "\f", "\u00a0", "\u0085 ", "\u2003\u3000", "\r")
}

func genIni(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	var keys, secs []string
	for i := 0; i < 4; i++ {
		keys = append(keys, "k"+word(r, r.Range(0, 6)))
		secs = append(secs, "s"+word(r, r.Range(0, 6)))
	}
	keys = append(keys, "two words", "a;b", "[x]y", "[", "[half", "half]", "a\tb", "]", "#hash", "//slashes", "!bang", "\ufeffbom", "k\ue000", "\ue001", "a\ue001b\ue000", "\u200bzero", "\x00", "a\x00b", "@at", "'q'", "\"q q\"", "include", "rem x", "a:b", "a\\", "%x%", "${y}", "k", "K", strings.Repeat("long key ", 40)+".")
	secs = append(secs, "sec with space", "a]b[c", "a=b", ";s", " padded ", "\u2003x\u00a0", "s\ue000", "\ue001t", "nul\x00s", "S", "s", "#s", "default", "a.b", "a/b", "\\", strings.Repeat("long section ", 40)+".")
	var ops []core.Op
	n := r.Range(1, 30)
	if r.P(0.08) {
		n = r.Range(200, 500)
	}
	if r.P(0.01) { // a file of many sections or many keys
		for i := 0; i < 1100; i++ {
			secs = append(secs, fmt.Sprintf("many%d", i))
			keys = append(keys, fmt.Sprintf("key%d", i))
		}
		p.Sparse(r)
		n = r.Range(1500, 4000)
		if r.P(0.5) {
			secs = secs[:2]
		}
	}
	for i := 0; i < n; i++ {
		if n >= 1500 && r.P(0.98) {
			if len(secs) > 2 && r.P(0.5) {
				ops = append(ops, core.Op{K: "line", S: "[" + r.PickS(secs...) + "]", A: []int64{0}})
			} else {
				ops = append(ops, core.Op{K: "line", S: r.PickS(keys...) + "=" + word(r, 5), A: []int64{0}})
			}
			continue
		}
		eol := int64(r.N(6) / 5) // 1: CRLF
		switch x := r.N(20); {
		case x < 4:
			ops = append(ops, core.Op{K: "line", S: pad(r) + "[" + r.PickS(secs...) + "]" + pad(r), A: []int64{eol}})
		case x < 13:
			v := word(r, r.N(12))
			if r.P(0.3) {
				v = r.PickS("a = b", "=", "x=y=z", "  ", "", "; not a comment", "[not a section]", "tail ;", "\"quoted\"", "\ue000", "a\ue001b", "nul\x00", "\u200b", "\ufeff")
			}
			ops = append(ops, core.Op{K: "line", S: pad(r) + r.PickS(keys...) + pad(r) + "=" + pad(r) + v + pad(r), A: []int64{eol}})
		case x < 14:
			ops = append(ops, core.Op{K: "line", S: pad(r) + r.PickS(keys...) + pad(r), A: []int64{eol}})
		case x < 15:
			ops = append(ops, core.Op{K: "line", S: pad(r) + "=" + word(r, 3), A: []int64{eol}})
		case x < 17:
			ops = append(ops, core.Op{K: "line", S: pad(r) + ";" + word(r, r.N(20)) + "=x", A: []int64{eol}})
		case x < 18:
			ops = append(ops, core.Op{K: "line", S: pad(r), A: []int64{eol}})
		default:
			if r.P(0.5) {
				sz := r.Pick(4090, 4095, 4096, 4097, 8192, 32768, 65535, 70000, 140000)
				if r.P(0.01) {
					sz = r.Pick(1<<20-3, 1<<20, 3<<20)
				}
				ops = append(ops, core.Op{K: "long", S: r.PickS(keys...), A: []int64{eol, int64(r.U64() >> 1), int64(sz + r.N(5))}})
			} else {
				ops = append(ops, core.Op{K: "line", S: r.PickS(keys...) + "=" + word(r, 5), A: []int64{eol}})
			}
		}
	}
	if r.P(0.4) {
		ops[len(ops)-1].A[0] = 2 // no end of line
	}
	if r.P(0.002) { // a file of many lines
		p.Sparse(r)
		p.Cap = 200000000
		at := r.N(len(ops))
		ops = append(ops[:at:at], append([]core.Op{{K: "rep", S: r.PickS("; nothing", "", "k=v", "[s]", "word"), A: []int64{0, int64(r.Pick(33000, 70000, 140000))}}}, ops[at:]...)...)
	}
	p.Tasks = [][]core.Op{ops}
	p.Set("readers", r.Range(2, 4))
	p.Set("style", r.N(8))
	return p
}

func text(p *core.Plan) string {
	var b strings.Builder
	for i, o := range p.Tasks[0] {
		// a replay file is JSON: these stand for bytes that are not UTF-8
		s := strings.NewReplacer("\ue000", "\xff", "\ue001", "\xc3\xfe").Replace(o.S)
		if o.K == "long" {
			s += "=" + word(rng.New(uint64(o.A[1])), int(o.A[2]))
		}
		if o.K == "rep" {
			for k := o.A[1]; k > 1; k-- {
				b.WriteString(s + "\n")
			}
		}
		b.WriteString(s)
		switch {
		case o.A[0] == 2 && i == len(p.Tasks[0])-1:
		case o.A[0] == 1:
			b.WriteString("\r\n")
		default:
			b.WriteString("\n")
		}
	}
	return b.String()
}

// model is the reference reader: whole text, line by line.
func model(s string) map[string]map[string]string {
	m := map[string]map[string]string{}
	var cur map[string]string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, ";") {
			continue
		}
		if strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]") && len(l) > 2 {
			n := l[1 : len(l)-1]
			if m[n] == nil {
				m[n] = map[string]string{}
			}
			cur = m[n]
			continue
		}
		if cur == nil {
			continue
		}
		k, v, _ := strings.Cut(l, "=")
		if k = strings.TrimSpace(k); k != "" {
			cur[k] = strings.TrimSpace(v)
		}
	}
	return m
}

func show(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// differs compares a parsed file with the reference.
func differs(f *ini.IniFile, m map[string]map[string]string) string {
	if f == nil {
		return "no result at all"
	}
	secs := f.Sections()
	sort.Strings(secs)
	var want []string
	for s := range m {
		want = append(want, s)
	}
	sort.Strings(want)
	if strings.Join(secs, "\x00") != strings.Join(want, "\x00") {
		return fmt.Sprintf("sections are %.100q, the text has %.100q", secs, want)
	}
	for _, s := range want {
		keys := f.Keys(s)
		sort.Strings(keys)
		var wk []string
		for k := range m[s] {
			wk = append(wk, k)
		}
		sort.Strings(wk)
		if strings.Join(keys, "\x00") != strings.Join(wk, "\x00") {
			return fmt.Sprintf("section %q has keys %.100q, the text has %.100q", s, keys, wk)
		}
		for _, k := range wk {
			if v := f.GetString(s, k, "\x00def"); v != m[s][k] {
				return fmt.Sprintf("%q.%q is %s, the text says %s", s, k, show(v), show(m[s][k]))
			}
		}
		if v := f.GetString(s, "no\x00such", "dflt"); v != "dflt" {
			return "a missing key does not give the default but " + show(v)
		}
	}
	if v := f.GetString("no\x00such", "k", "dflt"); v != "dflt" {
		return "a missing section does not give the default but " + show(v)
	}
	if k := f.Keys("no\x00such"); len(k) != 0 {
		return "a missing section has keys"
	}
	return ""
}

func runIni(c *core.Ctx) {
	txt := text(c.Plan)
	if len(c.Plan.Tasks[0]) == 0 {
		c.Trivial()
		return
	}
	m := model(txt)
	n := c.Plan.Int("readers")
	out := make([]string, n)
	pan := make([]string, n)
	fsys := simos.Reset()
	fsys.Put("/work/a.ini", []byte(txt))
	hr := rng.New(c.Plan.Seed)
	style := c.Plan.Int("style")
	fsys.Hook = func(op, name string, k int) simos.Inject {
		if op == "read" && style&1 != 0 && k > 1 {
			c.Fire("short-read")
			return simos.Inject{Limit: 1 + hr.N(min(k, 3000))}
		}
		return simos.Inject{}
	}
	var shared *ini.IniFile
	ready := &simrt.Flag{}
	var tasks []func()
	for i := 0; i < n; i++ {
		src := &source{c: c, data: []byte(txt), r: rng.New(rng.Mix(c.Plan.Seed, uint64(i))), style: style, errAt: -1, with: (style+i)%2 == 0}
		if len(txt) > 6000 {
			src.style &^= 1
			if i > 0 {
				src.style |= 8
			}
		}
		tasks = append(tasks, func() {
			var f *ini.IniFile
			pan[i] = core.Try(func() {
				if i == 0 {
					var e error
					if f, e = ini.New("/work/a.ini"); e != nil {
						out[i] = "New failed on a readable file: " + e.Error()
						return
					}
				} else {
					f = ini.Load(src)
				}
				out[i] = differs(f, m)
			})
			if i == 0 {
				shared = f
				ready.Set()
				return
			}
			if out[i] == "" && pan[i] == "" {
				_ = ready
			}
		})
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("ini/hang", "parsing did not end: %s", o.End)
		}
		return
	}
	for i := range out {
		c.Log("%d: %s%s", i, out[i], pan[i])
		if pan[i] != "" {
			c.Fail("ini/parse", "parsing %d bytes panicked: %s", len(txt), pan[i])
		}
		if out[i] != "" {
			c.Fail("ini/parse", "reader %d of the same text: %s", i, out[i])
		}
	}
	if l := fsys.Leaked(); len(l) > 0 {
		c.Fail("ini/leak", "files left open: %v", l)
	}
	if c.Failed() || shared == nil {
		return
	}
	// the parsed file is read by several tasks at once
	var rd []func()
	for i := 0; i < n; i++ {
		rd = append(rd, func() { out[i] = differs(shared, m) })
	}
	simrt.Run(simrt.Config{Sched: c.Plan.Sched, Cap: 20000000}, rd)
	for i := range out {
		if out[i] != "" {
			c.Fail("ini/parse", "concurrent user %d: %s", i, out[i])
		}
	}
}

func genIniFault(r *rng.R, tier string) *core.Plan {
	p := genIni(r, tier)
	p.Set("at", r.N(1000001))
	p.Set("what", r.N(8))
	p.Set("kind", r.N(2*len(readErrs)))
	p.AddFault([]string{"read", "read", "read", "readwith", "open", "close", "stat", "dir"}[p.Int("what")], 0, int64(p.Int("at")), 0)
	return p
}

func runIniFault(c *core.Ctx) {
	txt := text(c.Plan)
	if len(c.Plan.Tasks[0]) == 0 || len(c.Plan.Faults) == 0 {
		c.Trivial()
		return
	}
	f := c.Plan.Faults[0]
	at := int(f.At * int64(len(txt)+1) / 1000001)
	complete := txt[:at]
	if i := strings.LastIndexByte(complete, '\n'); i >= 0 {
		complete = complete[:i+1]
	} else {
		complete = ""
	}
	fsys := simos.Reset()
	path := "/work/a.ini"
	fsys.Put(path, []byte(txt))
	if f.Kind == "dir" {
		fsys.PutDir("/work/d.ini")
		path = "/work/d.ini"
	}
	hr := rng.New(c.Plan.Seed)
	fired := false
	pos := 0
	style := c.Plan.Int("style")
	failReads := f.Kind == "read" || f.Kind == "readwith"
	fsys.Hook = func(op, name string, k int) (in simos.Inject) {
		if op == "open" && f.Kind == "open" {
			fired = true
			c.Fire("open-error")
			return simos.Inject{Err: []error{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOENT, syscall.ENOTDIR, syscall.EINTR}[hr.N(6)]}
		}
		if op == "close" && f.Kind == "close" {
			c.Fire("close-error")
			return simos.Inject{Err: syscall.EIO}
		}
		if (op == "stat" || op == "fstat" || op == "lstat") && f.Kind == "stat" {
			c.Fire("stat-error")
			return simos.Inject{Err: syscall.EIO}
		}
		if op == "read" && k > 0 {
			lim := k
			if style&1 != 0 {
				lim = 1 + hr.N(k)
			}
			end := len(txt)
			failReads := failReads && !(fired && c.Plan.Int("kind")%2 == 1)
			if failReads {
				end = at
			}
			if lim > end-pos {
				lim = end - pos
			}
			if failReads && (lim <= 0 || f.Kind == "readwith" && pos+lim == end) {
				fired = true
				c.Fire("read-error")
				pos += lim
				return simos.Inject{Err: []error{syscall.EIO, syscall.EIO, syscall.ESTALE, syscall.EAGAIN, syscall.ETIMEDOUT, syscall.ENXIO, syscall.EINVAL, syscall.EACCES}[c.Plan.Int("kind")/2%8], Limit: lim, After: lim > 0}
			}
			if lim > 0 {
				pos += lim
				in.Limit = lim
			}
		}
		return
	}
	if f.Kind == "dir" {
		fired = true
		c.Fire("read-of-directory")
	}
	var r1, r2 *ini.IniFile
	var e1 error
	var p1, p2, d2 string
	src := &source{c: c, data: []byte(txt), r: rng.New(c.Plan.Seed), style: style &^ 1, errAt: at, err: readErrs[c.Plan.Int("kind")/2%len(readErrs)], once: c.Plan.Int("kind")%2 == 1, with: f.Kind == "readwith"}
	if len(txt) < 6000 {
		src.style = style
	}
	tasks := []func(){
		func() { p1 = core.Try(func() { r1, e1 = ini.New(path) }) },
	}
	if failReads {
		tasks = append(tasks, func() {
			p2 = core.Try(func() {
				if r2 = ini.Load(src); r2 != nil {
					d2 = differs(r2, model(complete))
				}
			})
		})
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("ini/hang", "parsing did not end: %s", o.End)
		}
		return
	}
	c.Log("fired=%v err=%v %s %s %s", fired, e1, p1, p2, d2)
	if p1 != "" || p2 != "" {
		c.Fail("ini/fault", "panic when reading fails: %s%s", p1, p2)
	}
	if fired && e1 == nil {
		c.Fail("ini/fault", "New reported success although the %s failed after %d of %d bytes", f.Kind, at, len(txt))
	}
	if e1 != nil && !fired && f.Kind != "close" && f.Kind != "stat" {
		c.Fail("ini/fault", "New failed although nothing went wrong: %v", e1)
	}
	if e1 == nil && !fired {
		var d string
		c.Solo(func() { d = differs(r1, model(txt)) })
		if d != "" {
			c.Fail("ini/parse", "%s", d)
		}
	}
	if e1 != nil && r1 != nil {
		var d string
		c.Solo(func() { d = differs(r1, model(complete)) })
		if d != "" {
			c.Fail("ini/fault", "New returned an error and wrong contents: %s", d)
		}
	}
	if d2 != "" {
		c.Fail("ini/fault", "the reader failed after %d of %d bytes: %s", at, len(txt), d2)
	}
	if l := fsys.Leaked(); len(l) > 0 {
		c.Fail("ini/leak", "the file was left open: %v", l)
	}
	_ = os.ErrClosed
}
