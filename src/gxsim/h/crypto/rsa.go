package main

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simrand"
	"gxsim/simrt"

	gcrypto "github.com/vipally/gx/crypto"
	gaes "github.com/vipally/gx/crypto/aes"
	"github.com/vipally/gx/crypto/ecb"
	grsa "github.com/vipally/gx/crypto/rsa"
)

// memory: what the library is given stays as it was.
func genMem(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(2, 3); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("aesenc", "aesdec", "pkcs5", "pkcs7", "zero", "tdes", "untdes", "encode", "hash", "unpkcs5", "unpkcs7", "unzero", "hex", "rsa", "sign", "newaes"),
				A: []int64{int64(r.U64() >> 1), int64(r.N(70)), int64(r.Pick(8, 16, 16, 7, 1, 2))}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Set("share", r.N(2))
	if r.P(0.05) { // larger data
		p.Set("seg", r.Pick(600, 4300, 9000, 70000))
		for t := range p.Tasks {
			for i := range p.Tasks[t] {
				p.Tasks[t][i].A[1] = int64(r.N(p.Int("seg") - 90))
			}
		}
	}
	return p
}

func runMem(c *core.Ctx) {
	n := len(c.Plan.Tasks)
	bad := make([]string, n)
	// one arena; the tasks' slices lie next to each other in it
	seg := max(160, c.Plan.Int("seg"))
	arena := c.R.Bytes(seg*n + seg)
	orig := append([]byte(nil), arena...)
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		base := t * seg
		if c.Plan.Int("share") == 1 {
			base = 0 // all tasks read the same bytes
		}
		tasks = append(tasks, func() {
			bad[t] = guard(func() string {
				for i := range ops {
					o := &ops[i]
					l := int(o.Arg(1))
					if o.K == "aesdec" || o.K == "untdes" {
						l = l / 16 * 16
					}
					b := arena[base : base+l] // capacity reaches over the others' bytes
					if s := mem(o, b); s != "" {
						return fmt.Sprintf("op %d %s: %s", i, o.K, s)
					}
				}
				return ""
			})
		})
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		return
	}
	for _, b := range bad {
		if b != "" {
			c.Fail("mem/result", "%s", b)
		}
	}
	if !bytes.Equal(arena, orig) {
		for i := range arena {
			if arena[i] != orig[i] {
				c.Fail("mem/write", "the caller's memory changed at offset %d of the arena (segments of %d bytes)", i, seg)
				break
			}
		}
	}
}

var memKey = []byte("0123456789abcdef01234567")

func mem(o *core.Op, b []byte) string {
	bs := int(o.Arg(2))
	// the key has spare capacity, and may be short
	kl := len(memKey)
	if o.K == "tdes" && o.Arg(0)%3 == 0 {
		kl = int(o.Arg(0) / 3 % 25)
	}
	room := bytes.Repeat([]byte{0x5a}, len(memKey)+100)
	copy(room, memKey[:kl])
	was := append([]byte(nil), room...)
	key := room[:kl]
	keep := append([]byte(nil), b...)
	var out []byte
	switch o.K {
	case "newaes":
		for _, l := range []int{16, 24, 32} {
			if len(b) >= l {
				e, err := gaes.NewAESEncrypter(b[:l])
				d, err2 := gaes.NewAESDecrypter(b[:l])
				if err != nil || err2 != nil {
					return "key refused"
				}
				if x := d.Decrypt(e.Encrypt(keep)); !bytes.Equal(x, keep) {
					return "wrong round trip"
				}
			}
		}
	case "aesenc":
		e, _ := gaes.NewAESEncrypter(key)
		out = e.Encrypt(b)
		d, _ := gaes.NewAESDecrypter(key)
		if !bytes.Equal(d.Decrypt(out), keep) {
			return "wrong round trip"
		}
	case "aesdec":
		d, _ := gaes.NewAESDecrypter(key)
		out = d.Decrypt(b)
	case "pkcs5":
		out = gcrypto.PKCS5Padding(b, bs)
		if !bytes.Equal(gcrypto.PKCS5UnPadding(append([]byte(nil), out...)), keep) {
			return "wrong round trip"
		}
	case "pkcs7":
		out = gaes.PKCS7Padding(b, bs)
		if !bytes.Equal(gaes.PKCS7Unpadding(append([]byte(nil), out...)), keep) {
			return "wrong round trip"
		}
	case "zero":
		out = gcrypto.ZeroPadding(b, bs)
		if !bytes.Equal(out[:len(keep)], keep) {
			return "wrong data"
		}
	case "unpkcs5":
		gcrypto.PKCS5UnPadding(b)
	case "unpkcs7":
		gaes.PKCS7Unpadding(b)
	case "unzero":
		gcrypto.ZeroUnPadding(b)
	case "tdes":
		x, err := ecb.TripleDesEncrypt(b, key)
		if err != nil {
			return err.Error()
		}
		y, err := ecb.TripleDesDecrypt(x, key)
		if err != nil || !bytes.Equal(y, bytes.TrimRight(keep, "\x00")) {
			return "wrong round trip"
		}
		out = x
	case "untdes":
		out, _ = ecb.TripleDesDecrypt(b, key)
	case "encode":
		if !bytes.Equal(grsa.Decode(grsa.Encode(b)), bytes.TrimRight(keep, "\x00")) {
			return "wrong round trip"
		}
	case "hash":
		out = grsa.Hash(b)
	case "hex":
		if !bytes.Equal(grsa.HexStringToBytes(grsa.BytesToHexString(b)), keep) {
			return "wrong round trip"
		}
	case "rsa":
		s, _ := party(0)
		if s != nil {
			ct, err := s.cl.Encrypt(b)
			if err == nil {
				room := append(ct, bytes.Repeat([]byte{0x5a}, 600)...)
				was := append([]byte(nil), room...)
				if x, e := s.sv.Decrypt(room[:len(ct)]); e == nil && !bytes.Equal(x, keep) {
					return "wrong round trip"
				}
				if !bytes.Equal(room, was) {
					return "the ciphertext or what lies behind it was changed"
				}
			}
		}
	case "sign":
		s, _ := party(0)
		if s != nil {
			sg, err := s.sv.SignDefault(b)
			if err == nil {
				room := append(sg, bytes.Repeat([]byte{0x5a}, 600)...)
				was := append([]byte(nil), room...)
				if e := s.cl.VerifyDefault(b, room[:len(sg)]); e != nil {
					return "own signature refused: " + e.Error()
				}
				if !bytes.Equal(room, was) {
					return "the signature or what lies behind it was changed"
				}
			}
		}
	}
	if !bytes.Equal(room, was) {
		return "the key or what lies behind it was changed"
	}
	for i := range out {
		out[i] = 0x77 // the result belongs to the caller
	}
	return ""
}

// rsa
type pair struct {
	cl   *grsa.RsaClient
	sv   *grsa.RsaServer
	bits int
}

func party(i int) (*pair, error) {
	k := keys[i%len(keys)]
	cl, err := grsa.NewClient([]byte(k.pub))
	if err != nil {
		return nil, err
	}
	sv, err := grsa.NewServer([]byte(k.pri))
	if err != nil {
		return nil, err
	}
	return &pair{cl, sv, k.bits}, nil
}

// openKey tries what may be a key: it is refused, or it can be used.
func openKey(b []byte) string {
	cl, e1 := grsa.NewClient(b)
	if (cl != nil) != (e1 == nil) {
		return fmt.Sprintf("damaged key: NewClient gave %v, %v", cl != nil, e1)
	}
	sv, e2 := grsa.NewServer(b)
	if (sv != nil) != (e2 == nil) {
		return fmt.Sprintf("damaged key: NewServer gave %v, %v", sv != nil, e2)
	}
	return ""
}

var hashes = []crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.SHA1, crypto.MD5, crypto.SHA384}

func genRSA(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("key", r.Pick(0, 0, 0, 1, 1, 2, 3))
	for t, n := 0, r.Range(1, 3); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 3); k > 0; k-- {
			x := int64(r.U64() >> 1)
			switch r.N(10) {
			case 0, 1, 2:
				l := r.N(60)
				if r.P(0.3) {
					l = 60 + r.N(250)
				}
				ops = append(ops, core.Op{K: "enc", A: []int64{x, int64(l), int64(r.N(4)), int64(r.N(12))}})
			case 3, 4, 5, 6:
				l := r.N(300)
				if r.P(0.05) {
					l = r.Pick(1024, 1025, 4096, 5000, 33000, 70000)
					if r.P(0.1) {
						l = r.Pick(1<<20, 1<<20+1, 3<<20)
					}
				}
				ops = append(ops, core.Op{K: "sign", A: []int64{x, int64(l), int64(r.N(6)), int64(r.N(12))}})
			case 7:
				ops = append(ops, core.Op{K: "cross", A: []int64{x, int64(r.N(40))}})
			case 8:
				ops = append(ops, core.Op{K: "badkey", A: []int64{x, int64(r.N(18)), int64(r.N(3))}})
			case 9:
				if r.P(0.3) {
					ops = append(ops, core.Op{K: "gen", A: []int64{x, int64(r.Pick(512, 520, 768)), int64(r.N(4))}})
				} else {
					ops = append(ops, core.Op{K: "junk", A: []int64{x, int64(r.N(300))}})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

// denied marks the tasks whose reads of the random source fail.
type denied [64]simrt.Cell

func runRSA(c *core.Ctx) {
	simrand.Src = &simrand.Source{R: rng.New(c.Plan.Seed)}
	// the source of randomness fails for the tasks that say so
	deny := new(denied)
	simrand.Src.Fail = func(int) error {
		if deny[simrt.Self()&63].Get() != 0 {
			return simrand.ErrEntropy
		}
		return nil
	}
	ki := c.Plan.Int("key")
	pr, err := party(ki)
	if err != nil {
		c.Fail("rsa/key", "a valid key is refused: %v", err)
		return
	}
	other, _ := party(ki + 1)
	bad := make([]string, len(c.Plan.Tasks))
	class := make([]string, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			for i := range ops {
				class[t] = "rsa/round"
				bad[t] = guard(func() string {
					return rsaOp(c, pr, other, &ops[i], &class[t], deny)
				})
				if bad[t] != "" {
					bad[t] = fmt.Sprintf("op %d %s: %s", i, ops[i].K, bad[t])
					return
				}
			}
		})
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("rsa/round", "did not end: %s", o.End)
		}
		return
	}
	for t := range bad {
		if bad[t] != "" {
			c.Fail(class[t], "task %d: %s", t, bad[t])
		}
	}
}

func rsaOp(c *core.Ctx, pr, other *pair, o *core.Op, class *string, deny *denied) string {
	r := rng.New(uint64(o.Arg(0)))
	m := r.Bytes(int(o.Arg(1)))
	keep := append([]byte(nil), m...)
	switch o.K {
	case "enc":
		max := (pr.bits+7)/8 - 11
		if o.Arg(3) == 0 {
			deny[simrt.Self()&63].Set(1)
			ct, err := pr.cl.Encrypt(m)
			deny[simrt.Self()&63].Set(0)
			c.Fire("entropy-failure")
			if err == nil {
				// legal only if the random source was not needed
				got, err := pr.sv.Decrypt(ct)
				if err != nil || !bytes.Equal(got, keep) {
					return "Encrypt reported success without randomness and its result does not decrypt"
				}
			}
			return ""
		}
		ct, err := pr.cl.Encrypt(m)
		if len(m) > max {
			if err == nil {
				return fmt.Sprintf("%d bytes, more than the key takes, were encrypted without an error", len(m))
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("Encrypt of %d bytes: %v", len(m), err)
		}
		for i := range m {
			m[i] = 0 // the buffer is reused
		}
		if o.Arg(2) == 1 || o.Arg(2) == 2 {
			// A damaged message passes for a message with a chance of about
			// one in 2^16; two of three in a row do not.
			acc := 0
			for k := 0; k < 3; k++ {
				d := append([]byte(nil), ct...)
				if o.Arg(2) == 1 {
					d[r.N(len(d))] ^= byte(1 + r.N(255))
					c.Fire("msg-flip")
				} else {
					d = d[:r.N(len(d))]
					if k == 0 && r.P(0.3) {
						d = d[:0]
					}
					c.Fire("msg-cut")
				}
				got, err := pr.sv.Decrypt(d)
				if err == nil && bytes.Equal(got, keep) && len(keep) > 0 {
					return "a damaged message was decrypted as if it were intact"
				}
				if err == nil && len(d) == 0 {
					return "nothing at all was decrypted"
				}
				if err == nil {
					acc++
				}
			}
			if acc >= 2 {
				return "damaged messages were accepted"
			}
			return ""
		}
		if o.Arg(2) == 3 && r.P(0.5) {
			c.Fire("msg-extend")
			if _, err := pr.sv.Decrypt(append(append([]byte(nil), ct...), r.Bytes(1+r.N(20))...)); err == nil {
				return "a message with bytes added to it was accepted"
			}
		}
		in := append([]byte(nil), ct...)
		got, err := pr.sv.Decrypt(in)
		if !bytes.Equal(in, ct) {
			return "Decrypt changed the ciphertext"
		}
		if err != nil || !bytes.Equal(got, keep) {
			return fmt.Sprintf("%d bytes came back as %d, error %v", len(keep), len(got), err)
		}
		if len(keep) >= 8 && bytes.Contains(ct, keep) {
			return "the plaintext shows in the ciphertext"
		}
	case "sign":
		*class = "rsa/sign"
		hi := int(o.Arg(2))
		def := hi == 5
		if def {
			hi = 0
		}
		h := hashes[hi]
		if (pr.bits+7)/8 < h.Size()+30 {
			h = crypto.SHA256
			if def {
				return ""
			}
		}
		var sg []byte
		var err error
		if def {
			sg, err = pr.sv.SignDefault(m)
		} else {
			sg, err = pr.sv.Sign(m, h)
		}
		if err != nil {
			return fmt.Sprintf("Sign of %d bytes with %v: %v", len(m), h, err)
		}
		if !bytes.Equal(m, keep) {
			return "Sign changed the data"
		}
		ver := func(cl *grsa.RsaClient, a, b []byte, x crypto.Hash) error {
			if x == crypto.SHA512 && def {
				return cl.VerifyDefault(a, b)
			}
			return cl.Verify(a, b, x)
		}
		if err := ver(pr.cl, m, sg, h); err != nil {
			return fmt.Sprintf("the signature of %d bytes is refused: %v", len(m), err)
		}
		if def {
			if err := pr.cl.Verify(m, sg, crypto.SHA512); err != nil {
				return fmt.Sprintf("the default signature is not SHA512: %v", err)
			}
		}
		var e error
		what := ""
		switch o.Arg(3) {
		case 0, 1:
			if len(m) == 0 {
				return ""
			}
			d := append([]byte(nil), m...)
			d[r.N(len(d))] ^= byte(1 + r.N(255))
			what, e = "changed data", ver(pr.cl, d, sg, h)
		case 2, 3:
			d := append([]byte(nil), sg...)
			d[r.N(len(d))] ^= byte(1 + r.N(255))
			what, e = "a changed signature", ver(pr.cl, m, d, h)
		case 4:
			what, e = "extended data", ver(pr.cl, append(append([]byte(nil), m...), byte(r.N(256))), sg, h)
		case 5:
			if len(m) == 0 {
				return ""
			}
			what, e = "shortened data", ver(pr.cl, m[:r.N(len(m))], sg, h)
		case 6:
			what, e = "a shortened signature", ver(pr.cl, m, sg[:r.N(len(sg))], h)
		case 9:
			what, e = "an extended signature", ver(pr.cl, m, append(append([]byte(nil), sg...), r.Bytes(1+r.N(3))...), h)
		case 10:
			what, e = "a signature after other bytes", ver(pr.cl, m, append(make([]byte, 1+r.N(3)), sg...), h)
		case 11:
			what, e = "no signature", ver(pr.cl, m, nil, h)
		case 7:
			what, e = "another key", ver(other.cl, m, sg, h)
		case 8:
			x := hashes[r.N(len(hashes))]
			for x == h {
				x = hashes[r.N(len(hashes))]
			}
			what, e = "another hash", pr.cl.Verify(m, sg, x)
			if r.P(0.4) { // none that is linked in: an error or a panic
				x = []crypto.Hash{0, crypto.MD4, crypto.RIPEMD160, crypto.BLAKE2b_512, 77}[r.N(5)]
				if x.Available() {
					return ""
				}
				what, e = "a hash there is not", errors.New("panic")
				core.Try(func() { e = pr.cl.Verify(m, sg, x) })
				break
			}
			if x == crypto.SHA512 || h != crypto.SHA512 && r.P(0.3) {
				what, e = "the default hash, which is another one", pr.cl.VerifyDefault(m, sg)
			}
		}
		c.Fire("sign-damage")
		if e == nil {
			return fmt.Sprintf("the signature is accepted with %s", what)
		}
	case "cross":
		acc := 0
		for k := 0; k < 3; k++ {
			ct, err := pr.cl.Encrypt(m)
			if err != nil {
				return err.Error()
			}
			got, err := other.sv.Decrypt(ct)
			if err == nil && bytes.Equal(got, keep) && len(keep) > 0 {
				return "another private key opened the message"
			}
			if err == nil {
				acc++
			}
		}
		if acc >= 2 {
			return "another private key accepted the message"
		}
	case "junk":
		pr.sv.Decrypt(m)
		if pr.cl.VerifyDefault(m, m) == nil {
			return "junk was accepted as a signature"
		}
	case "badkey":
		*class = "rsa/key"
		var b []byte
		switch o.Arg(1) {
		case 0:
			b = nil
		case 1:
			b = m
		case 2:
			b = []byte(ecPub)
		case 3:
			b = []byte(keys[0].pri)
		case 4:
			b = []byte(keys[0].pub)
		case 5:
			b = []byte(keys[0].pub)[:r.N(len(keys[0].pub)-30)]
		case 6:
			b = pem.EncodeToMemory(&pem.Block{Type: "public key", Bytes: r.Bytes(r.N(200))})
		case 7:
			b = []byte(keys[0].pri)[:r.N(len(keys[0].pri)-30)]
		case 8, 9, 10, 11, 12, 13, 14:
			b = []byte(foreign[o.Arg(1)-8])
		case 15, 16, 17: // one byte of the DER is other
			bl, _ := pem.Decode([]byte([]string{keys[0].pub, keys[0].pri}[o.Arg(1)%2]))
			if o.Arg(1) == 17 {
				bl, _ = pem.Decode([]byte(foreign[r.N(len(foreign))]))
			}
			bl.Bytes[r.N(len(bl.Bytes))] ^= byte(1 + r.N(255))
			b = pem.EncodeToMemory(bl)
			return openKey(b)
		}
		cl, e1 := grsa.NewClient(b)
		sv, e2 := grsa.NewServer(b)
		if wantC := o.Arg(1) == 4; ((e1 == nil) != wantC || (cl != nil) != wantC) && !(o.Arg(1) == 13 && e1 == nil && cl != nil) {
			return fmt.Sprintf("key material %d: NewClient gave %v, %v", o.Arg(1), cl != nil, e1)
		}
		if wantS := o.Arg(1) == 3; ((e2 == nil) != wantS || (sv != nil) != wantS) && !(o.Arg(1) == 12 && e2 == nil && sv != nil) {
			return fmt.Sprintf("key material %d: NewServer gave %v, %v", o.Arg(1), sv != nil, e2)
		}
		p1 := core.Try(func() { grsa.MustNewClient(b) })
		p2 := core.Try(func() { grsa.MustNewServer(b) })
		if (p1 == "") != (e1 == nil) || (p2 == "") != (e2 == nil) {
			return "MustNewClient or MustNewServer disagrees with its plain form"
		}
	case "gen":
		*class = "rsa/key"
		if o.Arg(2) == 0 {
			deny[simrt.Self()&63].Set(1)
			pri, pub, err := grsa.GenRsaKeys(int(o.Arg(1)))
			deny[simrt.Self()&63].Set(0)
			c.Fire("entropy-failure")
			if err != nil && (len(pri) > 0 || len(pub) > 0) {
				return "key generation failed and gave keys"
			}
			if err == nil && (len(pri) == 0 || len(pub) == 0) {
				return "key generation reported success without keys"
			}
			return ""
		}
		pri, pub, err := grsa.GenRsaKeys(int(o.Arg(1)))
		if err != nil {
			return err.Error()
		}
		cl, err := grsa.NewClient(pub)
		if err != nil {
			return fmt.Sprintf("the generated public key is refused: %v", err)
		}
		sv, err := grsa.NewServer(pri)
		if err != nil {
			return fmt.Sprintf("the generated private key is refused: %v", err)
		}
		ct, err := cl.Encrypt([]byte("hello"))
		if err != nil {
			return err.Error()
		}
		if x, err := sv.Decrypt(ct); err != nil || string(x) != "hello" {
			return fmt.Sprintf("the generated keys do not fit: %q %v", x, err)
		}
	}
	return ""
}

// codec: the 3DES and text codecs and the keyed hash of crypto/rsa, crypto/ecb.
func genCodec(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	for t, n := 0, r.Range(1, 3); t < n; t++ {
		var ops []core.Op
		for k := r.Range(1, 6); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("encode", "encode", "estr", "cross", "damage", "hash", "tdes", "tdes", "tdeskey", "tdesbad", "hex", "badhex"),
				A: []int64{int64(r.U64() >> 1), int64(r.Pick(0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 64, 100, 101, 300, 300, 513, 1025, 4097, 40000)), int64(r.Pick(0, 1, 7, 8, 9, 16, 23, 24, 25, 40)), int64(r.N(8))}})
			if r.P(0.0008) {
				ops[len(ops)-1].A[1] = 1<<20 + 3
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func runCodec(c *core.Ctx) {
	bad := make([]string, len(c.Plan.Tasks))
	var tasks []func()
	total := 0
	for t := range c.Plan.Tasks {
		ops := c.Plan.Tasks[t]
		total += len(ops)
		tasks = append(tasks, func() {
			bad[t] = guard(func() string {
				for i := range ops {
					if s := codec(c, &ops[i]); s != "" {
						return fmt.Sprintf("op %d %s: %s", i, ops[i].K, s)
					}
				}
				return ""
			})
		})
	}
	if total == 0 {
		c.Trivial()
		return
	}
	o := c.Sim(tasks)
	c.Log("%v", bad)
	if o.End != "done" {
		if o.End != "reccap" {
			c.Fail("codec", "did not end: %s", o.End)
		}
		return
	}
	for _, b := range bad {
		if b != "" {
			c.Fail("codec", "%s", b)
		}
	}
}

func codec(c *core.Ctx, o *core.Op) string {
	r := rng.New(uint64(o.Arg(0)))
	m := content(o.Arg(0), int(o.Arg(1)))
	if len(m) > 0 && m[len(m)-1] == 0 {
		m[len(m)-1] = 0x80 // zero padding does not keep trailing zeros
	}
	if o.Arg(3) == 1 && len(m) > 4 {
		m[len(m)-2], m[len(m)-3] = 0, 0
	}
	keep := append([]byte(nil), m...)
	switch o.K {
	case "encode":
		s := grsa.Encode(m)
		if s == "" {
			return fmt.Sprintf("%d bytes were not encoded", len(m))
		}
		if got := grsa.Decode(s); !bytes.Equal(got, keep) {
			return fmt.Sprintf("%d bytes came back as %d", len(keep), len(got))
		}
	case "estr":
		s := grsa.EncodeString(string(m))
		if got := grsa.DecodeString(s); got != string(keep) || s == "" {
			return fmt.Sprintf("%d bytes came back as %d", len(keep), len(got))
		}
	case "cross":
		if grsa.EncodeString(string(m)) != grsa.Encode(m) {
			return "Encode and EncodeString differ"
		}
		if grsa.DecodeString(grsa.Encode(m)) != string(keep) {
			return "DecodeString does not undo Encode"
		}
	case "damage":
		s := []byte(grsa.Encode(m))
		switch o.Arg(3) {
		case 0, 1, 2:
			if len(s) > 0 {
				s[r.N(len(s))] = byte(r.N(256))
			}
		case 3, 4:
			s = s[:r.N(len(s)+1)]
		case 5:
			s = append(s, r.Bytes(r.N(9))...)
		case 6:
			s = []byte(base64.StdEncoding.EncodeToString(r.Bytes(r.N(40))))
		case 7:
			s = nil
		}
		c.Fire("msg-damage")
		d := grsa.Decode(string(s))
		if len(d) > len(s) {
			return "decoded more than there was"
		}
		if x := grsa.DecodeString(string(s)); x != string(d) {
			return "Decode and DecodeString differ"
		}
	case "hash":
		h := grsa.Hash(m)
		if len(h) != 64 || !bytes.Equal(h, grsa.Hash(append([]byte(nil), m...))) {
			return "the hash is not stable"
		}
		if grsa.HashString(string(m)) != grsa.BytesToHexString(h) {
			return "Hash and HashString differ"
		}
		d := append([]byte(nil), m...)
		if len(d) > 0 {
			k := r.N(len(d))
			d[k] ^= byte(1 + r.N(255))
			if bytes.Equal(grsa.Hash(d), h) {
				return fmt.Sprintf("the hash does not depend on byte %d of %d", k, len(d))
			}
			if bytes.Equal(grsa.Hash(m[:len(m)-1]), h) {
				return "the hash does not depend on the last byte"
			}
		}
	case "tdes", "tdeskey", "tdesbad":
		key := spare(r.Bytes(int(o.Arg(2))), o.Arg(0))
		k2 := spare(key, o.Arg(0)+1)
		ct, err := ecb.TripleDesEncrypt(m, key)
		if err != nil {
			return fmt.Sprintf("%d bytes, key of %d: %v", len(m), len(key), err)
		}
		if len(ct)%8 != 0 || len(ct) < len(m) || len(ct) > len(m)+8 {
			return fmt.Sprintf("%d bytes became %d", len(m), len(ct))
		}
		if !bytes.Equal(key, k2) || !bytes.Equal(m, keep) {
			return "the caller's key or data was changed"
		}
		if o.K == "tdeskey" {
			if len(key) == 0 || len(m) < 16 {
				return ""
			}
			i := r.N(min(len(key), 24))
			k2[i] ^= 1 << uint(1+r.N(7))
			x, err := ecb.TripleDesDecrypt(ct, k2)
			if err == nil && bytes.Equal(x, keep) {
				return fmt.Sprintf("a key that differs in byte %d of %d opens the data", i, len(key))
			}
			return ""
		}
		if o.K == "tdesbad" {
			cut := r.N(len(ct) + 1)
			x, err := ecb.TripleDesDecrypt(ct[:cut], k2)
			if (cut%8 != 0 || cut == 0) && err == nil {
				return fmt.Sprintf("%d bytes, not whole blocks, were accepted", cut)
			}
			if cut%8 == 0 && cut > 0 && (err != nil || !bytes.HasPrefix(keep, x)) {
				return fmt.Sprintf("the first %d blocks did not decrypt to a prefix: %v", cut/8, err)
			}
			c.Fire("msg-cut")
			return ""
		}
		x, err := ecb.TripleDesDecrypt(ct, k2)
		if err != nil || !bytes.Equal(x, keep) {
			return fmt.Sprintf("%d bytes, key of %d, came back as %d bytes, error %v", len(keep), len(key), len(x), err)
		}
	case "hex":
		if !bytes.Equal(grsa.HexStringToBytes(grsa.BytesToHexString(m)), keep) {
			return "hex does not round-trip"
		}
	case "badhex":
		s := []byte(grsa.BytesToHexString(m))
		if len(s) > 0 {
			s[r.N(len(s))] = 'x'
			if grsa.HexStringToBytes(string(s)) != nil {
				return "bad hex was accepted"
			}
		}
	}
	return ""
}
