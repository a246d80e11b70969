package main

import (
	"bytes"
	"fmt"
	"hash"
	stdio "io"
	"sort"
	"strings"
	"time"

	"gxsim/rng"
	"gxsim/simos"

	"github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"
	"github.com/vipally/gx/crypto/ecb"
	"github.com/vipally/gx/crypto/rsa"
	"github.com/vipally/gx/encoding/ini"
	"github.com/vipally/gx/fs"
	ghash "github.com/vipally/gx/hash"
	"github.com/vipally/gx/io"
	"github.com/vipally/gx/math"
	"github.com/vipally/gx/math/prime"
	"github.com/vipally/gx/math/rand"
	"github.com/vipally/gx/reflect"
	"github.com/vipally/gx/stl"
	gtime "github.com/vipally/gx/time"
	"github.com/vipally/gx/unsafe"
)

// job is one piece of work: its choices, its place and its record.
type job struct {
	r   *rng.R
	n   int // operations
	big bool
	dir string
	log func(f string, a ...any)
}

// size is a size below n, or of a big job one some way beyond it.
func (j *job) size(n int) int {
	if j.big && j.r.P(0.4) {
		n *= j.r.Pick(10, 100, 1000)
	}
	return j.r.N(n)
}

type worker func(j *job)

var workers = []struct {
	name string
	fn   worker
}{
	{"hash", wHash}, {"stringhash", wStringHash}, {"ini", wIni}, {"aes", wAES}, {"ecb", wECB}, {"codec", wCodec}, {"rsa", wRSA}, {"padding", wPadding},
	{"rand32", wRand32}, {"rand64", wRand64}, {"range32", wRange32}, {"range64", wRange64}, {"numbers", wNumbers},
	{"deque", wDeque}, {"queue", wQueue}, {"stack", wStack}, {"heap", wHeap}, {"list", wList}, {"slist", wSList}, {"sortslice", wSortSlice}, {"tree", wTree}, {"nodes", wNodes}, {"cmp", wCmp},
	{"copy", wCopy}, {"paths", wPaths}, {"dir", wDir}, {"dirhash", wDirHash}, {"reflect", wReflect}, {"views", wViews},
}

var hashes = []ghash.HashMethod{ghash.MD5, ghash.SHA1, ghash.SHA256, ghash.SHA512, ghash.CRC32, ghash.CRC64, ghash.FINGERPRINT}

func wHash(j *job) {
	hs := make([]hash.Hash, j.r.Range(1, 3))
	for i := range hs {
		hs[i] = hashes[j.r.N(len(hashes))].New()
	}
	for k := 0; k < j.n; k++ {
		i := j.r.N(len(hs))
		switch j.r.N(8) {
		case 0:
			hs[i].Reset()
		case 1, 2:
			j.log("%d sum %x", i, hs[i].Sum(j.r.Bytes(j.r.N(4))))
		case 3:
			j.log("%d size %d %d", i, hs[i].Size(), hs[i].BlockSize())
		case 4:
			if f, ok := hs[i].(*ghash.Fingerprint); ok {
				j.log("%d string %s", i, f.String())
				f.Resetsize(int64(j.r.N(1 << 30)))
			}
		default:
			n, e := hs[i].Write(j.r.Bytes(j.size(200)))
			j.log("%d write %d %v", i, n, e)
		}
	}
	for i := range hs {
		j.log("%d end %x", i, hs[i].Sum(nil))
	}
}

func wStringHash(j *job) {
	for k := 0; k < j.n; k++ {
		m := hashes[j.r.N(len(hashes))]
		s := string(j.r.Bytes(j.size(100)))
		j.log("%s %s", m.StringHash(s), m.StringHashL(s))
	}
}

func text(r *rng.R) []byte {
	var b bytes.Buffer
	for k := r.Range(1, 12); k > 0; k-- {
		switch r.N(6) {
		case 0, 1:
			fmt.Fprintf(&b, "[s%d]\n", r.N(4))
		case 2:
			fmt.Fprintf(&b, "; %x\n", r.Bytes(r.N(5)))
		default:
			fmt.Fprintf(&b, "k%d = %x\r\n", r.N(4), r.Bytes(r.N(20)))
		}
	}
	return b.Bytes()
}

func showIni(j *job, f *ini.IniFile) {
	if f == nil {
		j.log("no file")
		return
	}
	ss := f.Sections()
	sort.Strings(ss)
	for _, s := range ss {
		ks := f.Keys(s)
		sort.Strings(ks)
		for _, k := range ks {
			j.log("%q %q %q", s, k, f.GetString(s, k, "?"))
		}
		j.log("%q none %q", s, f.GetString(s, "none", "?"))
	}
}

func wIni(j *job) {
	var fs []*ini.IniFile
	simos.Mkdir(j.dir, 0777)
	for k := 0; k < j.n/3+1; k++ {
		b := text(j.r)
		if j.r.P(0.5) {
			fs = append(fs, ini.Load(bytes.NewReader(b)))
		} else {
			p := fmt.Sprintf("%s/f%d.ini", j.dir, k)
			if j.r.P(0.9) {
				if f, e := simos.Create(p); e == nil {
					f.Write(b)
					f.Close()
				}
			} else {
				simos.Remove(p)
			}
			f, e := ini.New(p)
			j.log("new %v", e)
			if e == nil {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 {
			showIni(j, fs[j.r.N(len(fs))])
		}
	}
	simos.RemoveAll(j.dir)
}

func wAES(j *job) {
	key := j.r.Bytes(j.r.Pick(16, 24, 32, 5))
	e, e1 := aes.NewAESEncrypter(key)
	d, e2 := aes.NewAESDecrypter(key)
	j.log("%v %v", e1, e2)
	if e1 != nil || e2 != nil {
		return
	}
	for k := 0; k < j.n; k++ {
		b := j.r.Bytes(j.size(60))
		var x []byte
		if j.r.P(0.3) {
			x = e.EncryptString(string(b))
		} else {
			x = e.Encrypt(b)
		}
		j.log("enc %x", x)
		y := append([]byte(nil), x...)
		if j.r.P(0.3) {
			j.log("dec %x", d.DecryptToString(y))
		} else {
			j.log("dec %x", d.Decrypt(y))
		}
	}
}

func wECB(j *job) {
	key := j.r.Bytes(24)
	for k := 0; k < j.n/2+1; k++ {
		x, e := ecb.TripleDesEncrypt(j.r.Bytes(j.size(40)), key)
		j.log("%x %v", x, e)
		y, e := ecb.TripleDesDecrypt(append([]byte(nil), x...), key)
		j.log("%x %v", y, e)
	}
}

func wCodec(j *job) {
	for k := 0; k < j.n/2+1; k++ {
		b := j.r.Bytes(j.size(40))
		x := rsa.Encode(append([]byte(nil), b...))
		j.log("%s %x %x", x, rsa.Decode(x), rsa.Hash(b))
		y := rsa.EncodeString(string(b))
		j.log("%s %x %s", y, rsa.DecodeString(y), rsa.HashString(string(b)))
		j.log("%x", rsa.HexStringToBytes(rsa.BytesToHexString(b)))
	}
}

func wRSA(j *job) {
	k := keys[j.r.N(len(keys))]
	s, e1 := rsa.NewServer([]byte(k.pri))
	c, e2 := rsa.NewClient([]byte(k.pub))
	j.log("%v %v", e1, e2)
	if e1 != nil || e2 != nil {
		return
	}
	useRSA(j, s, c)
}

func useRSA(j *job, s *rsa.RsaServer, c *rsa.RsaClient) {
	b := j.r.Bytes(j.r.N(40))
	x, e := c.Encrypt(b)
	j.log("%v", e)
	y, e := s.Decrypt(x)
	j.log("%x %v", y, e)
	g, e := s.SignDefault(b)
	j.log("sign %x %v", g, e)
	j.log("%v", c.VerifyDefault(b, g))
	j.log("%v", c.VerifyDefault(append(b, 1), g))
}

func wPadding(j *job) {
	for k := 0; k < j.n; k++ {
		b := j.r.Bytes(j.size(40))
		n := j.r.Pick(8, 16)
		x := crypto.PKCS5Padding(append([]byte(nil), b...), n)
		j.log("%x %x", x, crypto.PKCS5UnPadding(append([]byte(nil), x...)))
		x = crypto.ZeroPadding(append([]byte(nil), b...), n)
		j.log("%x %x", x, crypto.ZeroUnPadding(append([]byte(nil), x...)))
		x = aes.PKCS7Padding(append([]byte(nil), b...), n)
		y := aes.PKCS7PaddingString(string(b), n)
		j.log("%x %x %x", x, y, aes.PKCS7Unpadding(append([]byte(nil), x...)))
	}
}

func wRand32(j *job) {
	g := rand.NewRand32S(uint32(j.r.U64()))
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(6) {
		case 0:
			j.log("srand %d", g.Srand(uint32(j.r.U64())))
		case 1:
			j.log("seed %d", g.Seed())
		case 2:
			j.log("max %d", g.RandMax(uint32(1+j.r.U64()>>uint(j.r.Range(33, 63)))))
		case 3:
			a := uint32(j.r.U64() >> uint(j.r.Range(33, 63)))
			j.log("range %d", g.RandRange(a, a+1+uint32(j.r.U64()>>uint(j.r.Range(34, 63)))))
		default:
			j.log("rand %d", g.Rand())
		}
	}
}

func wRand64(j *job) {
	g := rand.NewRand64S(j.r.U64())
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(6) {
		case 0:
			j.log("srand %d", g.Srand(j.r.U64()))
		case 1:
			j.log("seed %d", g.Seed())
		case 2:
			j.log("max %d", g.RandMax(1+j.r.U64()>>uint(j.r.Range(1, 63))))
		case 3:
			a := j.r.U64() >> uint(j.r.Range(2, 63))
			j.log("range %d", g.RandRange(a, a+1+j.r.U64()>>uint(j.r.Range(2, 63))))
		default:
			j.log("rand %d", g.Rand())
		}
	}
}

func wRange32(j *job) {
	lo := uint32(j.r.N(100))
	if j.r.P(0.2) {
		lo = ^uint32(0) - 50 - uint32(j.r.N(100))
	}
	g, e := math.NewRangeUint32(lo+uint32(j.r.N(60)), lo, lo+50)
	j.log("%v", e)
	if e != nil {
		return
	}
	for k := 0; k < j.n*2; k++ {
		v := uint32(j.r.N(160))
		if j.r.P(0.3) {
			v = lo + uint32(j.r.N(52))
		}
		var x uint32
		var e error
		switch j.r.N(11) {
		case 0:
			x, e = g.Add(v)
		case 1:
			x, e = g.Sub(v)
		case 2:
			x, e = g.Mul(v)
		case 3:
			x, e = g.Div(v)
		case 4:
			x, e = g.Mod(v)
		case 5:
			x, e = g.Inc()
		case 6:
			x, e = g.Dec(v)
		case 7:
			x, e = g.Set(v)
		case 8:
			g.Reset()
		case 9:
			g.ResetR()
		case 10:
			e = g.Init(v, lo, lo+50)
		}
		j.log("%d %v %s %s %v %v", x, e, g.String(), g.Info(), g.InRange(v), g.InCurrentRange(v))
		a, b, c := g.Get()
		j.log("%d %d %d %d %d %d", a, b, c, g.Val(), g.Min(), g.Max())
	}
}

func wRange64(j *job) {
	lo := uint64(j.r.N(100))
	if j.r.P(0.2) {
		lo = ^uint64(0) - 50 - uint64(j.r.N(100))
	}
	g, e := math.NewRangeUInt64(lo+uint64(j.r.N(60)), lo, lo+50)
	j.log("%v", e)
	if e != nil {
		return
	}
	for k := 0; k < j.n*2; k++ {
		v := uint64(j.r.N(160))
		if j.r.P(0.3) {
			v = lo + uint64(j.r.N(52))
		}
		var x uint64
		var e error
		switch j.r.N(11) {
		case 0:
			x, e = g.Add(v)
		case 1:
			x, e = g.Sub(v)
		case 2:
			x, e = g.Mul(v)
		case 3:
			x, e = g.Div(v)
		case 4:
			x, e = g.Mod(v)
		case 5:
			x, e = g.Inc()
		case 6:
			x, e = g.Dec(v)
		case 7:
			x, e = g.Set(v)
		case 8:
			g.Reset()
		case 9:
			g.ResetR()
		case 10:
			e = g.Init(v, lo, lo+50)
		}
		j.log("%d %v %s %v %v", x, e, g.Info(), g.InRange(v), g.InCurrentRange(v))
		a, b, c := g.Get()
		j.log("%d %d %d %d %d %d", a, b, c, g.Val(), g.Min(), g.Max())
	}
}

func wNumbers(j *job) {
	for k := 0; k < j.n; k++ {
		v := j.r.U64() >> uint(j.r.N(64))
		x, e := math.GetBit(uint32(v), uint32(j.r.N(40)))
		y, e2 := math.GetByte(uint32(v), uint32(j.r.N(5)))
		z, e3 := math.GetWord(uint32(v), uint32(j.r.N(3)))
		j.log("%s %s %s %d %v %d %v %d %v", math.Uint64(v).CommaString(), fs.FileSize(v>>4), gtime.Duration(v>>1), x, e, y, e2, z, e3)
		j.log("%v %v %d", prime.IsPrime(uint32(v)), math.Equal(float64(v), float64(v>>1)), math.BToI(math.Bool(v&1 == 1)))
		j.log("%d", prime.SqrtUint32(uint32(v)))
		d, e := gtime.ParseDuration(fmt.Sprintf("%dms", v>>40))
		j.log("%v %v %.3f %.3f", d, e, d.Days(), d.Weeks())
		d = gtime.Duration(v >> uint(1+j.r.N(30)))
		if j.r.P(0.3) {
			d = -d
		}
		j.log("%s %.3f %.3f %.3f %v %v", d, d.Hours(), d.Minutes(), d.Seconds(), d.Std(), math.ItoB(j.r.N(3)))
	}
}

func wDeque(j *job) {
	q := stl.NewGOGPDequeNamePrefixDeque(j.size(6))
	for k := 0; k < j.n*3; k++ {
		var v int
		ok := false
		switch j.r.N(10) {
		case 0, 1:
			ok = q.PushFront(j.r.N(1000))
		case 2, 3, 4:
			ok = q.PushBack(j.r.N(1000))
		case 5:
			v, ok = q.PopFront()
		case 6:
			v, ok = q.PopBack()
		case 7:
			v, ok = q.Front()
		case 8:
			v, ok = q.Back()
		case 9:
			switch j.r.N(6) {
			case 0:
				q.Clear()
			case 1, 2:
				ok = q.Shrink()
			case 3:
				q.Init(j.r.N(20))
			}
		}
		j.log("%d %v size %d cap %d empty %v", v, ok, q.Size(), q.Cap(), q.Empty())
	}
}

func wQueue(j *job) {
	q := stl.NewGOGPQueueNamePrefixQueue(j.size(6))
	for k := 0; k < j.n*3; k++ {
		var v int
		ok := false
		switch j.r.N(8) {
		case 0, 1, 2:
			ok = q.Push(j.r.N(1000))
		case 3, 4:
			v, ok = q.Pop()
		case 5:
			v, ok = q.Front()
		case 6:
			v, ok = q.Back()
		case 7:
			switch j.r.N(6) {
			case 0:
				q.Clear()
			case 1, 2:
				ok = q.Shrink()
			case 3:
				q.Init(j.r.N(20))
			}
		}
		j.log("%d %v size %d cap %d empty %v", v, ok, q.Size(), q.Cap(), q.Empty())
	}
}

func wStack(j *job) {
	q := stl.NewGOGPStackNamePrefixStack(j.size(6))
	for k := 0; k < j.n*3; k++ {
		var v int
		ok := false
		switch j.r.N(6) {
		case 0, 1, 2:
			ok = q.Push(j.r.N(1000))
		case 3:
			v, ok = q.Pop()
		case 4:
			v, ok = q.Top()
		case 5:
			if j.r.P(0.2) {
				q.Clear()
			}
		}
		j.log("%d %v size %d empty %v", v, ok, q.Size(), q.Empty())
	}
}

func ints(r *rng.R, n int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = r.N(100)
	}
	return b
}

func wHeap(j *job) {
	h := stl.NewIntHeap(j.r.N(5), j.r.Pick(0, 0, 3), j.r.P(0.5))
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(6) {
		case 0, 1, 2:
			h.Push(j.r.N(100))
		case 3:
			v, ok := h.Pop()
			j.log("pop %d %v", v, ok)
		case 4:
			v, ok := h.Top()
			j.log("top %d %v", v, ok)
		case 5:
			useHeap(j, h)
		}
		j.log("%v %d %v", h.Buffer(), h.Size(), h.Empty())
	}
}

func useHeap(j *job, h *stl.IntHeap) {
	b := ints(j.r, j.size(12))
	j.log("sort %v", h.SortHeap(b))
	h.Reverse(b)
	h.MakeHeap(b)
	j.log("make %v %v", b, h.CheckHeap(b))
	b = h.PushHeap(b, j.r.N(100))
	b, v, ok := h.PopHeap(b)
	j.log("%v %d %v", b, v, ok)
}

// oddList does one less common thing to a list of its own.
func oddList(j *job) {
	l, o := stl.NewIntList(), stl.NewIntList()
	var ns []*stl.IntListNode
	for k := j.r.N(6); k > 0; k-- {
		ns = append(ns, l.PushBack(j.r.N(100)))
		if j.r.P(0.5) {
			o.PushBack(j.r.N(100))
		}
	}
	var a, b, n *stl.IntListNode
	if len(ns) > 0 {
		a, b = ns[j.r.N(len(ns))], ns[j.r.N(len(ns))]
	}
	k := j.r.N(17)
	switch k {
	case 0:
		n = l.InsertAfter(&stl.IntListNode{}, a)
	case 1:
		n = l.InsertBefore(&stl.IntListNode{}, a)
	case 2:
		n = l.InsertFront(&stl.IntListNode{})
	case 3:
		n = l.InsertBack(&stl.IntListNode{})
	case 4:
		j.log("%v", l.InsertFrontList(o))
	case 5:
		n = l.MoveAfter(a, b)
	case 6:
		n = l.MoveBefore(a, b)
	case 7:
		n = l.MoveBack(a)
	case 8:
		n = l.MoveFront(a)
	case 9:
		j.log("%v %v", l.Reachable(a, b), l.IsValidNode(a))
	case 10:
		n = l.RemoveBack()
	case 11:
		n = l.RemoveFront()
	case 12:
		l.RotateBackward()
	case 13:
		l.RotateForward()
	case 14:
		l.Clear()
	case 15:
		l.Reverse()
	case 16:
		n = l.PushAfter(j.r.N(100), a)
	}
	j.log("odd %d %v", k, n != nil)
	if n != nil {
		j.log("%d %d", n.Set(7), n.Get())
	}
	showList(j, l)
	if a != nil {
		j.log("%d %v %v", a.Get(), a.Next() != nil, a.Prev() != nil)
	}
}

func showList(j *job, l *stl.IntList) {
	var b []int
	for v := l.Visitor(); v.Next() && len(b) < 200; {
		b = append(b, v.Get().Get())
	}
	j.log("%v", b)
	if v := l.Visitor(); v.Next() && v.Next() {
		v.Reset()
		j.log("%v", v.Next())
	}
}

func wList(j *job) {
	l := stl.NewIntList()
	o := stl.NewIntList()
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(9) {
		case 0, 1:
			l.PushFront(j.r.N(100))
		case 2, 3:
			l.PushBack(j.r.N(100))
		case 4:
			v, ok := l.PopFront()
			j.log("%d %v", v, ok)
		case 5:
			v, ok := l.PopBack()
			j.log("%d %v", v, ok)
		case 6:
			l.Sort()
		case 7:
			o.PushBack(j.r.N(100))
			if j.r.P(0.3) {
				j.log("%v", l.InsertBackList(o))
				o = stl.NewIntList()
			}
		case 8:
			if f := l.Front(); f != nil {
				l.PushBefore(j.r.N(100), f)
			}
		}
		if j.r.P(0.4) {
			oddList(j)
		}
		showList(j, l)
	}
}

func showSList(j *job, l *stl.IntSList) {
	var b []int
	for n := l.Front(); n != nil && len(b) < 200; n = n.Next() {
		b = append(b, n.Get())
	}
	v := l.Visitor()
	j.log("%v %d %v %v %v", b, l.Len(), l.Empty(), v.Next(), v.Get() != nil)
}

// oddSList does one less common thing to a list of its own.
func oddSList(j *job) {
	l, o := stl.NewIntSList(), stl.NewIntSList()
	var ns []*stl.IntSListNode
	for k := j.r.N(6); k > 0; k-- {
		ns = append(ns, l.PushFront(j.r.N(100)))
		if j.r.P(0.5) {
			o.PushFront(j.r.N(100))
		}
	}
	var a, b, n *stl.IntSListNode
	if len(ns) > 0 {
		a, b = ns[j.r.N(len(ns))], ns[j.r.N(len(ns))]
	}
	k := j.r.N(11)
	switch k {
	case 0:
		n = l.InsertAfter(&stl.IntSListNode{}, a)
	case 1:
		n = l.InsertFront(&stl.IntSListNode{})
	case 2:
		n = l.MoveAfter(a, b)
	case 3:
		n = l.MoveFront(a)
	case 4:
		l.PushFrontList(o)
	case 5:
		j.log("%v %v", l.Reachable(a, b), l.IsValidNode(a))
	case 6:
		n = l.RemoveFront()
	case 7:
		n = l.Remove(a)
	case 8:
		l.Clear()
	case 9:
		l.Reverse()
	case 10:
		t, c := a.Tail()
		j.log("%v %d", t != nil, c)
	}
	j.log("odd %d %v", k, n != nil)
	if n != nil {
		j.log("%d %d", n.Set(7), n.Get())
	}
	showSList(j, l)
}

func wSList(j *job) {
	l := stl.NewIntSList()
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(7) {
		case 0, 1, 2:
			l.PushFront(j.r.N(100))
		case 3:
			v, ok := l.PopFront()
			j.log("%d %v", v, ok)
		case 4:
			l.Sort()
		case 5:
			if f := l.Front(); f != nil {
				l.PushAfter(j.r.N(100), f)
			}
		case 6:
			j.log("%v", l.HasCycle(l.Front()))
		}
		if j.r.P(0.4) {
			oddSList(j)
		}
		showSList(j, l)
	}
}

func wSortSlice(j *job) {
	s := stl.NewIntSortSlice(j.size(8))
	for k := 0; k < j.n*2; k++ {
		switch j.r.N(10) {
		case 0, 1, 2:
			s.Push(j.r.N(100))
		case 3:
			s.Sort()
		case 4:
			v, ok := s.Remove(j.r.N(10))
			j.log("%d %v", v, ok)
		case 5:
			v, ok := s.Get(j.r.N(10))
			j.log("%d %v", v, ok)
		case 6:
			if s.Len() > 0 {
				v, ok := s.Pop()
				j.log("%d %v", v, ok)
			}
		case 7:
			j.log("insert %d", s.Insert(j.r.N(100), j.r.N(12)))
		case 8:
			if n := s.Len(); n > 0 {
				a, b := j.r.N(n), j.r.N(n)
				s.Swap(a, b)
				j.log("%d %v", s.MustGet(a), s.Less(a, b))
			}
		case 9:
			if j.r.P(0.2) {
				s.Init(j.r.N(8))
			}
		}
		j.log("%v %d", s.Buffer(), s.Len())
	}
}

func makeTree(r *rng.R, n int) *stl.IntTreeNode {
	root := &stl.IntTreeNode{}
	all := []*stl.IntTreeNode{root}
	for k := 0; k < n; k++ {
		p := all[r.N(len(all))]
		switch {
		case r.P(0.15):
			all = append(all, p.AddChild(r.N(100), r.N(3)))
		case r.P(0.15):
			all = append(all, p.AddChildNode(&stl.IntTreeNode{}, -1))
		default:
			all = append(all, p.AddChild(r.N(100), -1))
		}
		if r.P(0.2) {
			p.SortChildren()
		}
	}
	return root
}

func readTree(j *job, n *stl.IntTreeNode) {
	j.log("all %v", n.All())
	var b []int
	v := n.Visitor()
	for v.Next() {
		b = append(b, v.Get())
	}
	j.log("next %v", b)
	b = nil
	if v = n.Visitor(); v.Prev() {
		b = append(b, v.Get())
		for v.Prev() {
			b = append(b, v.Get())
		}
	}
	j.log("prev %v %d", b, n.NumChildren())
	c, ok := n.GetChild(j.r.N(3))
	if ok {
		j.log("child %v %d", c.All(), len(n.Children()))
	}
}

func wTree(j *job) {
	n := makeTree(j.r, j.n*2)
	if t := stl.NewIntTree(); t != nil {
		j.log("%v", *t)
	}
	for k := j.r.N(4); k > 0; k-- {
		c := stl.CreateCmpIntTreeNode(j.r.PickS("", "LESS", "GREAT", "Lesser", "Greater", "#x"))
		a, b := makeTree(j.r, 0), makeTree(j.r, 0)
		j.log("%s %v %v %v", c, c.F(a, b), c.CreateByBool(j.r.P(0.5)).F(a, b), a.Less(b))
	}
	readTree(j, n)
	c, ok := n.RemoveChild(j.r.N(3))
	j.log("removed %v", ok)
	if ok {
		readTree(j, c)
	}
	readTree(j, n)
}

// wNodes keeps tree nodes in a sorted slice of its own.
func wNodes(j *job) {
	s := stl.NewIntTreeNodeSortSlice(j.size(8))
	for k := 0; k < j.n; k++ {
		n := (&stl.IntTreeNode{}).AddChild(j.r.N(100), -1)
		n.AddChild(j.r.N(100), -1)
		switch j.r.N(9) {
		case 0, 1, 2:
			j.log("push %d", s.Push(n))
		case 3:
			s.Sort()
		case 4:
			_, ok := s.Remove(j.r.N(10))
			j.log("%v", ok)
		case 5:
			_, ok := s.Get(j.r.N(10))
			j.log("%v", ok)
		case 6:
			if s.Len() > 0 {
				v, ok := s.Pop()
				j.log("%v %v", v.All(), ok)
			}
		case 7:
			j.log("insert %d", s.Insert(n, j.r.N(12)))
		case 8:
			if n := s.Len(); n > 0 {
				a, b := j.r.N(n), j.r.N(n)
				s.Swap(a, b)
				j.log("%v %v", s.MustGet(a).All(), s.Less(a, b))
			}
		}
		for _, c := range s.Buffer() {
			j.log("%v", c.All())
		}
	}
}

func wCmp(j *job) {
	for k := 0; k < j.n; k++ {
		c := stl.CreateCmpInt(j.r.PickS("", "LESS", "GREAT", "Lesser", "Greater", "#x"))
		j.log("%s %v %v", c, c.F(j.r.N(3), j.r.N(3)), c.CreateByBool(j.r.P(0.5)).F(j.r.N(3), j.r.N(3)))
	}
}

// src is a reader without optional interfaces.
type src struct {
	b   []byte
	r   *rng.R
	max int
}

func (s *src) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, stdio.EOF
	}
	n := 1 + s.r.N(1+s.max)
	if n > len(s.b) {
		n = len(s.b)
	}
	n = copy(b, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func wCopy(j *job) {
	for k := 0; k < j.n/2+1; k++ {
		in := &src{j.r.Bytes(j.size(200)), j.r, j.r.Pick(1, 40, 40, 3000)}
		var a, b bytes.Buffer
		var n int64
		var e error
		if j.r.P(0.5) {
			n, e = io.Copys(in, &a, &b)
		} else {
			n, e = io.CopysBuffer(in, make([]byte, 1+j.size(30)), &a, &b)
		}
		j.log("%d %v %x %x", n, e, a.Bytes(), b.Bytes())
	}
}

func wPaths(j *job) {
	for k := 0; k < j.n; k++ {
		s := strings.Repeat(j.r.PickS("a", "/b", "\\c", "./", "../", "d.x"), j.r.N(3)) + j.r.PickS("e", "/f.go", "\\g", "/")
		p := fs.FilePath(s)
		d, f := p.Split()
		m, e := p.Match("*" + s)
		j.log("%q %q %q %q %q %q %v", p.String(), d, f, p.Ext(), p.Base(), p.Dir(), p.SplitAll())
		j.log("%q %q %v %v %v", p.Join("x/y"), fs.Joins(s, "z", s), m, e, p.HasPrefix("a"))
		a, b := fs.Split(s)
		j.log("%q %q %q %q", a, b, fs.FileName(s), fs.FormatPath(s))
	}
}

func put(p string, b []byte) {
	if f, e := simos.Create(p); e == nil {
		f.Write(b)
		f.Close()
	}
}

// makeDir builds a small tree at dir and returns its directories.
func makeDir(r *rng.R, dir string) []string {
	simos.RemoveAll(dir)
	simos.Mkdir(dir, 0777)
	dirs := []string{dir}
	for k := r.Range(1, 7); k > 0; k-- {
		p := fmt.Sprintf("%s/%s%d", dirs[r.N(len(dirs))], r.PickS("a", "b", "c"), k)
		if r.P(0.35) {
			simos.Mkdir(p, 0777)
			dirs = append(dirs, p)
		} else {
			put(p, r.Bytes(r.N(60)))
		}
	}
	return dirs
}

func readDir(j *job, d string) {
	var s []string
	var e error
	switch j.r.N(6) {
	case 0:
		s, e = fs.GetLeafDirs(d)
	case 1:
		s, e = fs.GetSubDirs(d)
	case 2:
		s, e = fs.GetSubFiles(d)
	case 3:
		s, e = fs.GetSubs(d)
	case 4:
		s, e = fs.GetDeepFiles(d)
	case 5:
		a, b, n, i := fs.FilePath(d).Statistic()
		j.log("%d %d %d %s", a, b, n, i)
	}
	sort.Strings(s)
	j.log("%v %v", s, e)
}

func wDir(j *job) {
	dirs := makeDir(j.r, j.dir)
	for k := 0; k < j.n/3+1; k++ {
		readDir(j, dirs[j.r.N(len(dirs))])
	}
	simos.RemoveAll(j.dir)
}

func readHash(j *job, d string) {
	var n *fs.FileHashTreeNode
	var e error
	if j.r.P(0.5) {
		n, e = fs.FilePath(d).Fingerprint()
	} else {
		n, e = fs.FilePath(d).Hash(hashes[j.r.N(len(hashes))], j.r.PickS("", "salt"))
	}
	j.log("%v", e)
	if e == nil && n != nil {
		for _, h := range n.All() {
			j.log("%v", h)
		}
	}
}

func wDirHash(j *job) {
	dirs := makeDir(j.r, j.dir)
	readHash(j, dirs[j.r.N(len(dirs))])
	readHash(j, j.dir)
	simos.RemoveAll(j.dir)
}

type point struct{ X, Y int }

func wReflect(j *job) {
	for k := 0; k < j.n; k++ {
		var v any = j.r.N(100)
		switch j.r.N(4) {
		case 0:
			v = "text"
		case 1:
			v = point{1, 2}
		case 2:
			v = []int{1}
		}
		j.log("%T %v %v %v", reflect.New(v), reflect.IsSameType(v, j.r.N(3)), reflect.Kind(v), reflect.IsCmpableInnterType(v))
		if p, ok := reflect.New(v).(*point); ok {
			p.X, p.Y = j.r.N(100), k
			q := reflect.New(v).(*point)
			j.log("%v %v", *p, *q)
		}
	}
}

func wViews(j *job) {
	for k := 0; k < j.n; k++ {
		s := string(j.r.Bytes(1 + j.size(40)))
		b := j.r.Bytes(1 + j.size(40))
		j.log("%x %x", unsafe.StringBytes(s), unsafe.BytesString(b))
	}
}

// reader reads a common object.
type reader func(j *job)

var shared = []struct {
	name string
	fn   func(j *job) reader
}{
	{"tree", func(j *job) reader {
		n := makeTree(j.r, j.r.Range(0, 12))
		return func(j *job) { readTree(j, n) }
	}},
	{"list", func(j *job) reader {
		l := stl.NewIntList()
		for k := j.r.N(8); k > 0; k-- {
			l.PushBack(j.r.N(100))
		}
		return func(j *job) {
			showList(j, l)
			if f, b := l.Front(), l.Back(); f != nil {
				j.log("%d %d %v", f.Get(), b.Get(), l.Empty())
			}
			var b []int
			for v := l.Visitor(); v.Prev(); {
				b = append(b, v.Get().Get())
			}
			j.log("%v", b)
		}
	}},
	{"slist", func(j *job) reader {
		l := stl.NewIntSList()
		for k := j.r.N(8); k > 0; k-- {
			l.PushFront(j.r.N(100))
		}
		return func(j *job) {
			showSList(j, l)
			j.log("%v %v", l.HasCycle(l.Front()), l.IsValidNode(l.Front()))
		}
	}},
	{"sortslice", func(j *job) reader {
		s := stl.NewIntSortSlice(4)
		for k := j.r.N(8); k > 0; k-- {
			s.Push(j.r.N(100))
		}
		return func(j *job) {
			v, ok := s.Get(j.r.N(8))
			j.log("%v %d %d %v", s.Buffer(), s.Len(), v, ok)
			if s.Len() > 1 {
				j.log("%v", s.Less(0, 1))
			}
		}
	}},
	{"heap", func(j *job) reader {
		h := stl.NewIntHeap(4, 0, j.r.P(0.5))
		for k := j.r.N(8); k > 0; k-- {
			h.Push(j.r.N(100))
		}
		return func(j *job) {
			v, ok := h.Top()
			j.log("%d %v %d %v %v", v, ok, h.Size(), h.Empty(), h.CheckHeap(h.Buffer()))
			useHeap(j, h) // sorts a slice of the reader's own
		}
	}},
	{"deque", func(j *job) reader {
		q := stl.NewGOGPDequeNamePrefixDeque(4)
		s := stl.NewGOGPStackNamePrefixStack(4)
		for k := j.r.N(8); k > 0; k-- {
			q.PushBack(j.r.N(100))
			q.PushFront(j.r.N(100))
			s.Push(j.r.N(100))
		}
		return func(j *job) {
			v, ok := q.Front()
			j.log("%d %v", v, ok)
			v, ok = q.Back()
			j.log("%d %v %d %v", v, ok, q.Size(), q.Empty())
			v, ok = s.Top()
			j.log("%d %v %d %v", v, ok, s.Size(), s.Empty())
		}
	}},
	{"ini", func(j *job) reader {
		f := ini.Load(bytes.NewReader(text(j.r)))
		return func(j *job) { showIni(j, f) }
	}},
	{"range", func(j *job) reader {
		a, _ := math.NewRangeUint32(50, 10, 100)
		b, _ := math.NewRangeUInt64(50, 10, 100)
		return func(j *job) {
			v := j.r.N(150)
			x, e := a.Add(uint32(v))
			y, e2 := b.Sub(uint64(v))
			j.log("%d %v %d %v %s %s", x, e, y, e2, a.String(), b.Info())
			x, e = a.Mul(uint32(v))
			y, e2 = b.Mod(uint64(v))
			j.log("%d %v %d %v %v %v", x, e, y, e2, a.InRange(uint32(v)), b.InCurrentRange(uint64(v)))
		}
	}},
	{"rsa", func(j *job) reader {
		k := keys[j.r.N(len(keys))]
		s, e1 := rsa.NewServer([]byte(k.pri))
		c, e2 := rsa.NewClient([]byte(k.pub))
		return func(j *job) {
			j.log("%v %v", e1, e2)
			if e1 == nil && e2 == nil {
				useRSA(j, s, c)
			}
		}
	}},
	{"dir", func(j *job) reader {
		d := makeDir(j.r, j.dir)
		return func(j *job) { readDir(j, d[j.r.N(len(d))]) }
	}},
	{"dirhash", func(j *job) reader {
		d := makeDir(j.r, j.dir)
		n, e := fs.FilePath(j.dir).Fingerprint()
		return func(j *job) {
			if j.r.P(0.5) && e == nil {
				v := n.Visitor()
				for v.Next() {
					j.log("%v", v.Get())
				}
				j.log("%v %d", n.All(), n.NumChildren())
				return
			}
			readHash(j, d[j.r.N(len(d))])
		}
	}},
	{"time", func(j *job) reader {
		d := gtime.Duration(j.r.N(1<<40)) * gtime.Duration(time.Microsecond)
		return func(j *job) { j.log("%s %.3f", d, d.Hours()) }
	}},
}
