From 3cb81ea85ff5cb0c21ee18acf269d884b6eee9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:01 +0000
Subject: [PATCH 01/36] fix: RWSpinLock let writers and readers in together and
 lost track of its holders

Lock did not wait for readers that were already inside, RLock added itself
after testing the state in a separate step and kept the writer lock for the
last reader, whose RUnlock never released it, and releasing a lock nobody held
changed the state before panicking.
---
 sync/spinrwlock.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..fc55e16 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -17,10 +17,19 @@ type RWSpinLock struct {
 func (this *RWSpinLock) Lock() {
 	this.w.Lock()                                             //get writer lock first
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+
+	//wait for active readers
+	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ {
+		if i > spinLockMaxLoop {
+			atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders)
+			this.w.Unlock()
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
-	if r := atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders); r >= rwSpinLockMaxReaders {
+	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
 		panic("[sync] Unlock on unlocked RWSpinLock")
 	}
 	this.w.Unlock()
@@ -33,21 +42,20 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
 func (this *RWSpinLock) RUnlock() {
-	if r := atomic.AddInt32(&this.readerCount, -1); r < 0 {
-		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
+	for {
+		r := atomic.LoadInt32(&this.readerCount)
+		if r == 0 || r == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
+		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
+			break
 		}
 	}
 }
-- 
2.43.0


From 21db10605deebbbb3178931b6c51adee251dc406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:31 +0000
Subject: [PATCH 02/36] fix: io.Copys gave only its first dst the data of a
 WriterTo and missed short writes

A source that implements io.WriterTo was drained into the first destination
and the others got nothing, without an error. A short write was only noticed
on the last destination. An empty buffer made the copy spin forever.
---
 io/io.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..9c89acd 100644
--- a/io/io.go
+++ b/io/io.go
@@ -12,36 +12,33 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
-	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+	//a WriterTo delivers its data once, so it can serve one dst only
+	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 {
+		return wt.WriteTo(dsts[0])
 	}
 
-	if buf == nil {
+	if len(buf) == 0 {
 		buf = make([]byte, 32*1024)
 	}
 ReadAll:
 	for {
 		nr, er := src.Read(buf)
 		if nr > 0 {
-			nw, ew := int(0), error(nil)
-			for _, dst := range dsts {
-				if nw, ew = dst.Write(buf[0:nr]); ew != nil {
+			for i, dst := range dsts {
+				nw, ew := dst.Write(buf[0:nr])
+				if ew != nil {
 					err = ew
 					break ReadAll
 				}
+				if nr != nw {
+					if i == len(dsts)-1 && nw > 0 {
+						written += int64(nw) //every dst got that much
+					}
+					err = io.ErrShortWrite
+					break ReadAll
+				}
 			}
-			if nw > 0 {
-				written += int64(nw)
-			}
-			if nr != nw {
-				err = io.ErrShortWrite
-				break
-			}
+			written += int64(nr)
 		}
 
 		if er != nil {
-- 
2.43.0


From 225ad99748215da841707cdc0328ac99783c580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:14 +0000
Subject: [PATCH 03/36] fix: ini.New reported success when reading the file
 failed

A read error was taken for the end of the file: New returned what had been
parsed so far, including a line cut off in the middle, and no error.
---
 encoding/ini/ini.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding/ini/ini.go b/encoding/ini/ini.go
index 3129f01..8f09136 100644
--- a/encoding/ini/ini.go
+++ b/encoding/ini/ini.go
@@ -41,11 +41,19 @@ func New(path string) (*IniFile, error) {
 	defer func() {
 		f.Close()
 	}()
-	r := Load(f)
+	r, err := load(f)
+	if err != nil {
+		return nil, err
+	}
 	return r, nil
 }
 
 func Load(f io.Reader) *IniFile {
+	r, _ := load(f)
+	return r
+}
+
+func load(f io.Reader) (*IniFile, error) {
 	m := make(map[string]section)
 	r := bufio.NewReader(f)
 	sec := ""
@@ -53,6 +61,9 @@ func Load(f io.Reader) *IniFile {
 	var err error
 	for err == nil {
 		line, err = r.ReadString('\n')
+		if err != nil && err != io.EOF { //the last line is cut off, ignore it
+			return &IniFile{m}, err
+		}
 		line = strings.TrimSpace(line)
 		if line == "" || line[0] == ';' {
 			continue
@@ -83,7 +94,7 @@ func Load(f io.Reader) *IniFile {
 		}
 		m[sec][key] = val
 	}
-	return &IniFile{m}
+	return &IniFile{m}, nil
 }
 
 func (p *IniFile) Sections() []string {
-- 
2.43.0


From a13985ad2d69db1c86cb9899f743f4d0ce4eb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:32 +0000
Subject: [PATCH 04/36] fix: Fingerprint did not honour the hash.Hash contract

Reset kept the size of what was written before, so the next digest was wrong;
Sum dropped the bytes it was to append to; Size reported the bytes written
instead of the digest's length.
---
 hash/finger_print.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..61f3990 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -48,7 +48,7 @@ func (this *Fingerprint) Write(p []byte) (n int, err error) {
 }
 
 func (this *Fingerprint) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b)
 	size := uint64(this.size & 0xFFFFFFFFFFFF)
 	for i := uint(6); i > 0; i-- {
 		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
@@ -63,10 +63,11 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
-- 
2.43.0


From 67b8f03325e5f9894fe859255dd67264ebf7f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:32 +0000
Subject: [PATCH 05/36] fix: none hash handed out one id twice and did not
 honour hash.Hash

The id counter was incremented without synchronisation, Write reported that
nothing was written, and Sum dropped the bytes it was to append to.
---
 hash/none_hash.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..c495b84 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
@@ -24,11 +24,11 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b)
 	id := this.id
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
@@ -40,7 +40,7 @@ func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From 3e7cf1e53c5a5ace6d64d3b7827fd9c2c6ae3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:29 +0000
Subject: [PATCH 06/36] fix: package time did not compile, autoUpdate was
 declared twice

---
 time/time_sys.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..1aecffb 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -31,10 +31,6 @@ func (this *timeSys) init() {
 
 }
 
-func (this *timeSys) autoUpdate() {
-
-}
-
 func (this *timeSys) Start() {
 
 }
-- 
2.43.0


From d0366483023bdd0459da5e00a856b040b7dcd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:29 +0000
Subject: [PATCH 07/36] fix: math/rand divided by zero when asked for the full
 range of values

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..810f322 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..7dc6988 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..3d77fb2 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //full range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From 46075e4a10e719d27d2d2a4563c54b118a1f4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 08/36] fix: crypto padding wrote into the caller's buffer
 beyond the data it was given

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From 918c0e4dec245b40573d10ce5bf8cd19ebe7aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 09/36] fix: AES decryption and unpadding panicked on truncated
 or damaged input

---
 crypto/aes/aes.go | 10 ++++++++++
 crypto/padding.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/crypto/aes/aes.go b/crypto/aes/aes.go
index 990ccdc..d3cc56f 100644
--- a/crypto/aes/aes.go
+++ b/crypto/aes/aes.go
@@ -26,7 +26,13 @@ func PKCS7PaddingString(str string, blockSize int) []byte {
 }
 
 func PKCS7Unpadding(b []byte) []byte {
+	if len(b) == 0 {
+		return nil
+	}
 	size := int(b[len(b)-1])
+	if size > len(b) {
+		return nil
+	}
 	return b[:len(b)-size]
 }
 
@@ -82,7 +88,11 @@ func NewAESDecrypter(key []byte) (*AESDecrypter, error) {
 	}, nil
 }
 
+// Decrypt returns nil when b is not a message of an AESEncrypter.
 func (this *AESDecrypter) Decrypt(b []byte) []byte {
+	if len(b)%this.blockSize != 0 {
+		return nil
+	}
 	decrypted := make([]byte, len(b))
 	this.blockMode.CryptBlocks(decrypted, b)
 	return PKCS7Unpadding(decrypted)
diff --git a/crypto/padding.go b/crypto/padding.go
index bfa1090..2cc3234 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -22,7 +22,13 @@ func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(origData []byte) []byte {
 	length := len(origData)
+	if length == 0 {
+		return nil
+	}
 	// 去掉最后一个字节 unpadding 次
 	unpadding := int(origData[length-1])
+	if unpadding > length {
+		return nil
+	}
 	return origData[:(length - unpadding)]
 }
-- 
2.43.0


From 3546fd608a8d88dcbbeeda00824d592b86e2c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 10/36] fix: crypto/ecb and crypto/rsa did not compile

---
 crypto/ecb/ecb.go  | 2 +-
 crypto/rsa/code.go | 2 +-
 crypto/rsa/rsa.go  | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From 333f94645a54fa8aa8ba6e556f8afe29e44b21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 11/36] fix: rsa.NewClient panicked on a public key that is not
 an RSA key

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From 888868af2f7140de06f60caf852430319980e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 12/36] fix: package errors did not compile, Reg was declared
 twice

---
 errors/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..b9699ed 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -16,7 +16,7 @@ type ErrorObj struct {
 }
 
 //regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
+func RegError(moduleId uint16, name, content string, handle Handler) ErrorId {
 	return 0
 }
 
-- 
2.43.0


From 03497d364d13eb5668d5527ea0e85cda10ac790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 13/36] fix: the standard error shared its id with the unknown
 error and lost its name

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..7eaed44 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error")
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = ERRID_UNKNOWN
 )
 
 const (
-- 
2.43.0


From afffe95559c65100d0845234736d7c44b73b969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 14/36] fix: errors.ShowAll read the registry without its lock

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 7eaed44..5598e13 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -94,10 +94,13 @@ func Reg(_err_name string) (id errId, err error) {
 }
 
 func ShowAll() string {
+	g_id2err_lock.RLock()
+	cur_max := g_id_cur_max
+	g_id2err_lock.RUnlock()
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	s := fmt.Sprintf("[errors] Count:%d", cur_max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= cur_max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From c6bff46f6a9e03673d37befc9738ea726a8fdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 15/36] fix: errors.StdErr took the text of the error for a
 format

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 5598e13..2531744 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -135,5 +135,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 7c79a78b0cecf0df69330f78d0985de402f33ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:50 +0000
Subject: [PATCH 16/36] fix: RangeUint32 never refused a value outside its
 range

---
 math/range_uint32.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..126c00f 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 1d984d44e36d52e4f22a22b4794f6bf4f73c6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:12 +0000
Subject: [PATCH 17/36] fix: package regable did not compile, imports did not
 match their uses

---
 regable/reg.go     | 20 ++++++++++----------
 regable/reg.gp     | 20 ++++++++++----------
 regable/regable.go | 10 +++++-----
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..7d27986 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -34,9 +34,9 @@ const (
 )
 
 var (
-	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
-	errid_u32_id, _  = aerr.Reg("Uint32Id error")
-	errid_u32_obj, _ = aerr.Reg("Uint32 object error")
+	g_u32_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	errid_u32_id, _  = errors.Reg("Uint32Id error")
+	errid_u32_obj, _ = errors.Reg("Uint32 object error")
 )
 
 var (
@@ -95,7 +95,7 @@ func ShowAllUint32Regers() string {
 type Uint32Reger struct {
 	reger_id uint8
 	name     string
-	id_gen   amath.RangeUint32
+	id_gen   xmath.RangeUint32
 	reg_list []*_uint32Record
 }
 
@@ -190,11 +190,11 @@ func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
-		err = aerr.New(errid_u32_id)
+		err = errors.New(errid_u32_id)
 	}
 	rg = g_u32_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
-		err = aerr.New(errid_u32_id)
+		err = errors.New(errid_u32_id)
 	}
 	r = rg.reg_list[idx]
 	return
@@ -290,7 +290,7 @@ func (me *_uint32Record) Name() (r string, err error) {
 		defer me.lock.RUnlock()
 		r = me.name
 	} else {
-		err = aerr.New(errid_u32_obj)
+		err = errors.New(errid_u32_obj)
 	}
 	return
 }
@@ -302,7 +302,7 @@ func (me *_uint32Record) Get() (r uint32, err error) {
 		defer me.lock.RUnlock()
 		r = me.val
 	} else {
-		err = aerr.New(errid_u32_obj)
+		err = errors.New(errid_u32_obj)
 	}
 	return
 }
@@ -325,7 +325,7 @@ func (me *_uint32Record) Set(val uint32) (r uint32, err error) {
 		me.val = val
 		r = val
 	} else {
-		err = aerr.New(errid_u32_obj)
+		err = errors.New(errid_u32_obj)
 	}
 	return
 }
@@ -338,7 +338,7 @@ func (me *_uint32Record) Set(val uint32) (r uint32, err error) {
 //		me.val = !me.val
 //		r = me.val
 //	} else {
-//		err = aerr.New(errid_u32_obj)
+//		err = errors.New(errid_u32_obj)
 //	}
 //	return
 //}
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..abb88d7 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -14,9 +14,9 @@ const (
 )
 
 var (
-	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
-	errid_<TYPENAME_L_SHORT>_id, _  = aerr.Reg("<TYPENAME_U>Id error")
-	errid_<TYPENAME_L_SHORT>_obj, _ = aerr.Reg("<TYPENAME_U> object error")
+	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	errid_<TYPENAME_L_SHORT>_id, _  = errors.Reg("<TYPENAME_U>Id error")
+	errid_<TYPENAME_L_SHORT>_obj, _ = errors.Reg("<TYPENAME_U> object error")
 )
 
 var (
@@ -75,7 +75,7 @@ func ShowAll<TYPENAME_U>Regers() string {
 type <TYPENAME_U>Reger struct {
 	reger_id uint8
 	name     string
-	id_gen   amath.RangeUint32
+	id_gen   xmath.RangeUint32
 	reg_list []*_<TYPENAME_L>Record
 }
 
@@ -170,11 +170,11 @@ func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, e
 	idrgr, id := regedId(cp).ids()
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
-		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		err = errors.New(errid_<TYPENAME_L_SHORT>_id)
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
-		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		err = errors.New(errid_<TYPENAME_L_SHORT>_id)
 	}
 	r = rg.reg_list[idx]
 	return
@@ -271,7 +271,7 @@ func (me *_<TYPENAME_L>Record) Name() (r string, err error) {
 <LOCK_COMMENT>		defer me.lock.RUnlock()
 		r = me.name
 	} else {
-		err = aerr.New(errid_<TYPENAME_L_SHORT>_obj)
+		err = errors.New(errid_<TYPENAME_L_SHORT>_obj)
 	}
 	return
 }
@@ -284,7 +284,7 @@ func (me *_<TYPENAME_L>Record) Get() (r <VALUE_TYPE>, err error) {
 <LOCK_COMMENT>		defer me.lock.RUnlock()
 		r = me.val
 	} else {
-		err = aerr.New(errid_<TYPENAME_L_SHORT>_obj)
+		err = errors.New(errid_<TYPENAME_L_SHORT>_obj)
 	}
 	return
 }
@@ -307,7 +307,7 @@ func (me *_<TYPENAME_L>Record) GetNoErr() (r <VALUE_TYPE>) {
 <LOCK_COMMENT>		me.val = val
 <LOCK_COMMENT>		r = val
 <LOCK_COMMENT>	} else {
-<LOCK_COMMENT>		err = aerr.New(errid_<TYPENAME_L_SHORT>_obj)
+<LOCK_COMMENT>		err = errors.New(errid_<TYPENAME_L_SHORT>_obj)
 <LOCK_COMMENT>	}
 <LOCK_COMMENT>	return
 <LOCK_COMMENT>}
@@ -320,7 +320,7 @@ func (me *_<TYPENAME_L>Record) GetNoErr() (r <VALUE_TYPE>) {
 <REVERSE_COMMENT>		me.val = !me.val
 <REVERSE_COMMENT>		r = me.val
 <REVERSE_COMMENT>	} else {
-<REVERSE_COMMENT>		err = aerr.New(errid_<TYPENAME_L_SHORT>_obj)
+<REVERSE_COMMENT>		err = errors.New(errid_<TYPENAME_L_SHORT>_obj)
 <REVERSE_COMMENT>	}
 <REVERSE_COMMENT>	return
 <REVERSE_COMMENT>}
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..b12d5b7 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	"github.com/vipally/gx/consts"
+	"github.com/vipally/gx/errors"
 )
 
 const (
@@ -24,7 +24,7 @@ const (
 
 var (
 	g_reg_locked              = false
-	errid_max_reg_overflow, _ = aerr.Reg("max_regs overflow")
+	errid_max_reg_overflow, _ = errors.Reg("max_regs overflow")
 )
 
 type showRegFunc func() string
@@ -35,7 +35,7 @@ var (
 
 func verify_max_regs(max_regs uint32) (err error) {
 	if max_regs < 1 || max_regs > g_max_real_id {
-		err = aerr.New(errid_max_reg_overflow)
+		err = errors.New(errid_max_reg_overflow)
 	}
 	return
 }
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(consts.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From a71515b3c1176505b9d03eb648ad0ae3ffd5db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 18/36] fix: regable looked up ids that were never given out
 and refused the last one

---
 regable/reg.go | 14 ++++++++------
 regable/reg.gp | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 7d27986..9949485 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -34,7 +34,7 @@ const (
 )
 
 var (
-	g_u32_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_u32_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_u32_id, _  = errors.Reg("Uint32Id error")
 	errid_u32_obj, _ = errors.Reg("Uint32 object error")
 )
@@ -57,10 +57,10 @@ func NewUint32Reger(name string) (r *Uint32Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_u32_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_u32_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_u32_rgr_id_gen.Val()
 	p := new(Uint32Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -101,7 +101,7 @@ type Uint32Reger struct {
 
 func (me *Uint32Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_u32_reg_cnt); err != nil {
 		return
 	}
@@ -130,13 +130,13 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
@@ -191,10 +191,12 @@ func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
 		err = errors.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = errors.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index abb88d7..452dc79 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -14,7 +14,7 @@ const (
 )
 
 var (
-	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = xmath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_<TYPENAME_L_SHORT>_id, _  = errors.Reg("<TYPENAME_U>Id error")
 	errid_<TYPENAME_L_SHORT>_obj, _ = errors.Reg("<TYPENAME_U> object error")
 )
@@ -37,10 +37,10 @@ func New<TYPENAME_U>Reger(name string) (r *<TYPENAME_U>Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_<TYPENAME_L_SHORT>_rgr_id_gen.Val()
 	p := new(<TYPENAME_U>Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -81,7 +81,7 @@ type <TYPENAME_U>Reger struct {
 
 func (me *<TYPENAME_U>Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_<TYPENAME_L_SHORT>_reg_cnt); err != nil {
 		return
 	}
@@ -110,13 +110,13 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
@@ -171,10 +171,12 @@ func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, e
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
 		err = errors.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = errors.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From 978427f58f2ab177d8b1a7210389bfe3cfaf7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 19/36] fix: a registered object forgot its registrar in its id
 and string

---
 regable/reg.go | 4 ++--
 regable/reg.gp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 9949485..60332eb 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -138,9 +138,9 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
-	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
+	r = Uint32Id(p.id)
 	return
 }
 
diff --git a/regable/reg.gp b/regable/reg.gp
index 452dc79..74503ed 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -118,9 +118,9 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
-	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
+	r = <TYPENAME_U>Id(p.id)
 	return
 }
 
-- 
2.43.0


From 586af118877f63798ff5a9536b046adb7c8f52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:07 +0000
Subject: [PATCH 20/36] fix: package fs did not compile, tree node values were
 used as fields of the node

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From ca3659864aa9f509916e85182ff10f1493050a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:07 +0000
Subject: [PATCH 21/36] fix: Fingerprint and Hash of a file ignored read errors

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..1bf5dd6 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -423,7 +423,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -472,7 +474,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 372b2f2e9d7c5a75e58d0f9978feb442f3425aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:07 +0000
Subject: [PATCH 22/36] fix: CollectSubs reported success when a directory
 could not be listed

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 4643a08dc0190b648dde0a16b8b402f1fa0468e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:07 +0000
Subject: [PATCH 23/36] fix: an absolute destination was taken relative to the
 directory of the path

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 1bf5dd6..fa54493 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -339,7 +339,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if n.VolumeName() == "" && !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From 69e97c8b1aceceb31ff55cfe235e95a32648c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:07 +0000
Subject: [PATCH 24/36] fix: Move of a relative path resolved a relative
 destination twice

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index fa54493..f40f298 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -497,7 +497,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 75abebf8e2e72d5d9451d27a1b76cbfe4cee5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:12 +0000
Subject: [PATCH 25/36] fix: filelock.Mutex does not keep Unlock out while a
 Lock waits

---
 sync/filelock/mutex.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/sync/filelock/mutex.go b/sync/filelock/mutex.go
index 32d2cb5..4880d57 100644
--- a/sync/filelock/mutex.go
+++ b/sync/filelock/mutex.go
@@ -23,18 +23,9 @@ func (this *Mutex) Init(path string) (ok bool) {
 }
 
 func (this *Mutex) Lock() (err error) {
-	this.w.Lock()
-	defer this.w.Unlock()
 	for {
-		h, e := syscall.CreateFile(syscall.StringToUTF16Ptr(this.path),
-			syscall.GENERIC_READ|syscall.GENERIC_WRITE,
-			0,
-			nil,
-			syscall.OPEN_EXISTING,
-			syscall.FILE_ATTRIBUTE_NORMAL|syscall.FILE_FLAG_OVERLAPPED,
-			0)
+		e := this.tryLock()
 		if e == nil {
-			this.h = h
 			return
 		} else if e != syscall.EACCES {
 			return e
@@ -44,6 +35,23 @@ func (this *Mutex) Lock() (err error) {
 
 }
 
+//w is only held for a single attempt, so that Unlock can get in while others wait
+func (this *Mutex) tryLock() (err error) {
+	this.w.Lock()
+	defer this.w.Unlock()
+	h, err := syscall.CreateFile(syscall.StringToUTF16Ptr(this.path),
+		syscall.GENERIC_READ|syscall.GENERIC_WRITE,
+		0,
+		nil,
+		syscall.OPEN_EXISTING,
+		syscall.FILE_ATTRIBUTE_NORMAL|syscall.FILE_FLAG_OVERLAPPED,
+		0)
+	if err == nil {
+		this.h = h
+	}
+	return
+}
+
 func (this *Mutex) Unlock() {
 	this.w.Lock()
 	defer this.w.Unlock()
-- 
2.43.0


From 3dd368b865e9989496d7210076c6a78eee62f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:12 +0000
Subject: [PATCH 26/36] fix: filelock.Mutex waits when the file is locked
 instead of failing

---
 sync/filelock/mutex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync/filelock/mutex.go b/sync/filelock/mutex.go
index 4880d57..504853c 100644
--- a/sync/filelock/mutex.go
+++ b/sync/filelock/mutex.go
@@ -6,6 +6,9 @@ import (
 	"time"
 )
 
+//what CreateFile reports while another handle keeps the file to itself
+const errSharingViolation = syscall.Errno(32)
+
 type Mutex struct {
 	w    sync.Mutex
 	h    syscall.Handle
@@ -27,7 +30,7 @@ func (this *Mutex) Lock() (err error) {
 		e := this.tryLock()
 		if e == nil {
 			return
-		} else if e != syscall.EACCES {
+		} else if e != errSharingViolation {
 			return e
 		}
 		time.Sleep(time.Minute) //check every minute
-- 
2.43.0


From 33cc926a118ce9ba91867498b046ca64b84a21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 27/36] fix: LFQueue.PopFront of an empty queue leaves the size
 alone

---
 stl/gp/lfqueue.gp    | 2 +-
 stl/gp/lfqueue.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index be666a6..2e1ac6d 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -96,12 +96,12 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 			n := (*<GLOBAL_NAME_PREFIX>LFQueueNode)(t)
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
+				atomic.AddInt32(&this.size, -1)
 				v, ok = n.val, true
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index d95984d..b53ed40 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -96,12 +96,12 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 			n := (*GOGPGlobalNamePrefixLFQueueNode)(t)
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
+				atomic.AddInt32(&this.size, -1)
 				v, ok = n.val, true
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
-- 
2.43.0


From a72585405df58962faf734180e7df340c5080022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 28/36] fix: LFQueue.Clear takes what it drops off the size

---
 stl/gp/lfqueue.gp    | 5 ++++-
 stl/gp/lfqueue.gp.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index 2e1ac6d..4f7768e 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -106,7 +106,10 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>LFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for t := atomic.SwapPointer(&this.head.next, nil); t != nil; {
+		atomic.AddInt32(&this.size, -1)
+		t = (*<GLOBAL_NAME_PREFIX>LFQueueNode)(t).next
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index b53ed40..c43f85e 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -106,7 +106,10 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixLFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for t := atomic.SwapPointer(&this.head.next, nil); t != nil; {
+		atomic.AddInt32(&this.size, -1)
+		t = (*GOGPGlobalNamePrefixLFQueueNode)(t).next
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
-- 
2.43.0


From 09bb7bfb7cd780ce8fa805cb20e9272e374a198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 29/36] fix: LFDeque steps back from the first slot to the last
 one

---
 stl/gp/lfdeque.gp    | 5 +++--
 stl/gp/lfdeque.gp.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stl/gp/lfdeque.gp b/stl/gp/lfdeque.gp
index f7c5b8d..55f3e70 100644
--- a/stl/gp/lfdeque.gp
+++ b/stl/gp/lfdeque.gp
@@ -212,9 +212,10 @@ func (this *<GLOBAL_NAME_PREFIX>LFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *<GLOBAL_NAME_PREFIX>LFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
-		r = this.Cap() - 1
+	if r = idx; r == 0 {
+		r = this.Cap()
 	}
+	r--
 	return
 }
 
diff --git a/stl/gp/lfdeque.gp.go b/stl/gp/lfdeque.gp.go
index 5566815..6d63dc0 100644
--- a/stl/gp/lfdeque.gp.go
+++ b/stl/gp/lfdeque.gp.go
@@ -212,9 +212,10 @@ func (this *GOGPGlobalNamePrefixLFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *GOGPGlobalNamePrefixLFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
-		r = this.Cap() - 1
+	if r = idx; r == 0 {
+		r = this.Cap()
 	}
+	r--
 	return
 }
 
-- 
2.43.0


From 28614da4733b80b527eaa91730a067efb96fd298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 30/36] fix: RingBuffer.Init makes a buffer of the asked size

---
 stl/gp/ringbuffer.gp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index b1eec5a..a030d38 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -38,7 +38,7 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Init(bufSize int) {
 			bufSize = defaultRingBufferCap //default buffer size
 		}
 		sizeRndUp := 1
-		for sizeRndUp := 1; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
+		for ; sizeRndUp < bufSize; sizeRndUp *= 2 { //body do nothing
 		}
 		this.mask = uint64(sizeRndUp - 1)
 		this.newBuf(sizeRndUp)
-- 
2.43.0


From 78073f4883119fcd1c8910ba518df33d86297093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 31/36] fix: RingBuffer.Push and Pop give up when the buffer is
 full or empty

---
 stl/gp/ringbuffer.gp.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index a030d38..67c725f 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -86,20 +86,41 @@ func (this *GOGPGlobalNamePrefixRingBuffer) MustPop() (val GOGPValueType, ok boo
 
 //push to back of deque, will return false when full
 func (this *GOGPGlobalNamePrefixRingBuffer) Push(v GOGPValueType) (ok bool) {
-	tail_r := atomic.AddUint64(&this.tail_r, 1)
-	idx := tail_r & this.mask
-	this.d[idx] = v
-	for old := tail_r - 1; !atomic.CompareAndSwapUint64(&this.tail, old, tail_r); { //body do nothing
+	var old uint64
+	for {
+		old = atomic.LoadUint64(&this.tail_r)
+		if old >= atomic.LoadUint64(&this.head)+this.mask+1 { //full
+			atomic.AddUint64(&this.busy, 1)
+			return
+		}
+		if atomic.CompareAndSwapUint64(&this.tail_r, old, old+1) {
+			break
+		}
+	}
+
+	idx := old & this.mask
+	this.d[idx], ok = v, true
+	for !atomic.CompareAndSwapUint64(&this.tail, old, old+1) { //body do nothing
 	}
 	return
 }
 
 //pop front of deque, will return false when empty
 func (this *GOGPGlobalNamePrefixRingBuffer) Pop() (val GOGPValueType, ok bool) {
-	head_r := atomic.AddUint64(&this.head_r, 1)
-	idx := head_r & this.mask
+	var old uint64
+	for {
+		old = atomic.LoadUint64(&this.head_r)
+		if old >= atomic.LoadUint64(&this.tail) { //empty
+			return
+		}
+		if atomic.CompareAndSwapUint64(&this.head_r, old, old+1) {
+			break
+		}
+	}
+
+	idx := old & this.mask
 	val, ok = this.d[idx], true
-	for old := head_r - 1; !atomic.CompareAndSwapUint64(&this.head, old, head_r); { //body do nothing
+	for !atomic.CompareAndSwapUint64(&this.head, old, old+1) { //body do nothing
 	}
 	return
 }
-- 
2.43.0


From b3051490946b9dc1382a64bc270b30b9bfb91f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 32/36] fix: RingBuffer.Size never mixes two moments

---
 stl/gp/ringbuffer.gp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stl/gp/ringbuffer.gp.go b/stl/gp/ringbuffer.gp.go
index 67c725f..0d8b944 100644
--- a/stl/gp/ringbuffer.gp.go
+++ b/stl/gp/ringbuffer.gp.go
@@ -132,7 +132,13 @@ func (this *GOGPGlobalNamePrefixRingBuffer) Cap() uint32 {
 
 //size of queue
 func (this *GOGPGlobalNamePrefixRingBuffer) Size() (size int) {
-	return int(atomic.LoadUint64(&this.tail) - atomic.LoadUint64(&this.head))
+	for {
+		head := atomic.LoadUint64(&this.head)
+		size = int(atomic.LoadUint64(&this.tail) - head)
+		if head == atomic.LoadUint64(&this.head) { //both are of the same moment
+			return
+		}
+	}
 }
 
 //Busy returns how many times Push when busy
-- 
2.43.0


From f53a79ba613b8f377547f2ca2d871125c370b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:20 +0000
Subject: [PATCH 33/36] fix: debug.Bts and CallStackList name the calling
 frames, not what follows the calls

---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..317f33d 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for i, _more := 0, n > 0; _more; i++ {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for _more := n > 0; _more; {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From 35c7de0b61297545164a6067ceba2db241796d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 34/36] fix: unsafe.StringBytes keeps the string alive while it
 makes the view

---
 unsafe/string.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..1888abe 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -46,11 +46,11 @@ func (me String) Pointer() Pointer {
 }
 
 //return GoString's buffer slice(enable modify string)
-func StringBytes(s string) Bytes {
-	var bh reflect.SliceHeader
+func StringBytes(s string) (b Bytes) {
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
 	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
 	bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len
-	return *(*Bytes)(unsafe.Pointer(&bh))
+	return
 }
 
 // convert b to string without copy
-- 
2.43.0


From c59093063ac6e80bff27b7fc945ac918e29f7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:32 +0000
Subject: [PATCH 35/36] fix: fs.Chdir and WorkPath agree on the working
 directory when they run concurrently

---
 fs/file_line.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..3ace90c 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 const (
@@ -15,6 +16,8 @@ const (
 var (
 	gGoPath   = goPath()
 	gWorkPath = workPath()
+
+	gWorkPathLock sync.RWMutex //Chdir may run with other calls
 )
 
 //the caller's file/line info
@@ -67,6 +70,8 @@ func workPath() (p string) {
 
 //working path
 func WorkPath() (dir string) {
+	gWorkPathLock.RLock()
+	defer gWorkPathLock.RUnlock()
 	return gWorkPath
 }
 
@@ -91,8 +96,13 @@ func TempDir() string {
 }
 
 func Chdir(filePath string) (err error) {
+	gWorkPathLock.Lock()
+	defer gWorkPathLock.Unlock()
 	if err = os.Chdir(FormatPath(filePath)); err == nil {
-		gWorkPath = workPath() //refresh this lib
+		var dir string
+		if dir, err = os.Getwd(); err == nil {
+			gWorkPath = dir //refresh this lib
+		}
 	}
 	return
 }
-- 
2.43.0


From 77c6e167e70c35c0e1df45a07b4978f648595cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:42 +0000
Subject: [PATCH 36/36] fix: an Unlock too many no longer releases an
 RWSpinLock under a Lock that is about to get in

---
 sync/spinrwlock.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index fc55e16..5ec37f8 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -6,6 +6,7 @@ import (
 
 const (
 	rwSpinLockMaxReaders = 1 << 30
+	rwSpinLockLocked     = -1 << 31 //readerCount while the writer holds the lock
 )
 
 type RWSpinLock struct {
@@ -19,7 +20,7 @@ func (this *RWSpinLock) Lock() {
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
 
 	//wait for active readers
-	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ {
+	for i := 0; !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, rwSpinLockLocked); i++ {
 		if i > spinLockMaxLoop {
 			atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders)
 			this.w.Unlock()
@@ -29,7 +30,7 @@ func (this *RWSpinLock) Lock() {
 }
 
 func (this *RWSpinLock) Unlock() {
-	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
+	if !atomic.CompareAndSwapInt32(&this.readerCount, rwSpinLockLocked, 0) {
 		panic("[sync] Unlock on unlocked RWSpinLock")
 	}
 	this.w.Unlock()
@@ -51,7 +52,7 @@ func (this *RWSpinLock) RLock() {
 func (this *RWSpinLock) RUnlock() {
 	for {
 		r := atomic.LoadInt32(&this.readerCount)
-		if r == 0 || r == -rwSpinLockMaxReaders {
+		if r == 0 || r == -rwSpinLockMaxReaders || r == rwSpinLockLocked {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
 		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
-- 
2.43.0

