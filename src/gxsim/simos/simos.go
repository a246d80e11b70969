// Package simos is an in-memory file system with injectable faults. The
// instrumenter redirects the library's uses of os, path/filepath (Fp...) and
// io/ioutil (Iu...) to the functions of the same name here, so nothing the
// library does can reach the real file system.
package simos

import (
	"io"
	iofs "io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"gxsim/rng"
	"gxsim/simrt"
)

type node struct {
	ino    int
	mode   os.FileMode // with type bits
	data   []byte
	sparse int64
	kids   []entry // sorted by name
	target string
	mtime  int64
	atime  int64
	uid    int
	gid    int
	nlink  int
}

type entry struct {
	name string
	n    *node
}

// Inject is what the fault hook asks for. The zero value changes nothing.
type Inject struct {
	Err   error // the operation fails with this error (wrapped as os does)
	Limit int   // read, readdir: deliver at most this many (0: no limit)
	After bool  // with Err: the (limited) effect happens first, then the error is reported with it
}

// FS is one simulated file system.
type FS struct {
	root  *node
	cwd   string
	inos  int
	now   int64
	hand  []*File
	nOpen int
	// Hook is asked before every operation.
	Hook func(op, name string, n int) Inject
	// Shuffle permutes directory listings.
	Shuffle *rng.R
	// Umask is taken from the permissions of new files and directories.
	Umask os.FileMode
	// NoSizes makes files say that they are empty, as those of /proc do.
	NoSizes bool
	// Env is what Getenv shows.
	Env map[string]string
	// Log, if set, is called for every operation.
	Log func(op, name string)
}

// Cur is the file system the library sees.
var Cur = New()

// New returns a file system with /, /work (the working directory) and /tmp.
func New() *FS {
	f := &FS{cwd: "/work", Umask: 0o022, Env: map[string]string{"GOPATH": "/go", "HOME": "/root", "TMPDIR": ""}, now: 1500000000 * 1e9}
	f.root = f.newNode(os.ModeDir | 0o755)
	for _, d := range []string{"work", "tmp"} {
		f.root.link(d, f.newNode(os.ModeDir|0o755))
	}
	return f
}

// Reset installs a fresh file system.
func Reset() *FS { Cur = New(); return Cur }

var hb [8]byte

func enter(op, name string, n int) Inject {
	simrt.YS()
	simrt.RaceAcquire(unsafe.Pointer(&hb))
	Cur.now += 1000
	if Cur.Log != nil {
		Cur.Log(op, name)
	}
	if Cur.Hook != nil {
		return Cur.Hook(op, name, n)
	}
	return Inject{}
}

func leave() { simrt.RaceRelease(unsafe.Pointer(&hb)) }

func (f *FS) newNode(m os.FileMode) *node {
	f.inos++
	return &node{ino: f.inos, mode: m, mtime: f.now, atime: f.now, nlink: 1}
}

func (n *node) find(name string) *node {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		return n.kids[i].n
	}
	return nil
}

func (n *node) link(name string, c *node) {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		n.kids[i].n = c
		return
	}
	n.kids = append(n.kids, entry{})
	copy(n.kids[i+1:], n.kids[i:])
	n.kids[i] = entry{name, c}
}

func (n *node) unlink(name string) {
	for i, e := range n.kids {
		if e.name == name {
			n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
			return
		}
	}
}

func (n *node) isDir() bool  { return n.mode&os.ModeDir != 0 }
func (n *node) isLink() bool { return n.mode&os.ModeSymlink != 0 }

func (n *node) size() int64 {
	switch {
	case n.isDir():
		return 4096
	case n.isLink():
		return int64(len(n.target))
	}
	if Cur.NoSizes {
		return 0
	}
	if n.sparse > 0 {
		return n.sparse
	}
	return int64(len(n.data))
}

// walk resolves name. With parent it returns the directory that holds the last
// component and that component; otherwise the node itself.
func (f *FS) walk(name string, follow bool) (dir *node, base string, n *node, e error) {
	return f.walkN(name, follow, 0)
}

func (f *FS) walkN(name string, follow bool, depth int) (dir *node, base string, n *node, e error) {
	if name == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	p := name
	if p[0] != '/' {
		p = f.cwd + "/" + p
	}
	parts := strings.Split(p, "/")
	trail := strings.HasSuffix(p, "/")
	var stack []*node
	cur := f.root
	dir, base, n = f.root, ".", f.root
	var seg []string
	for _, s := range parts {
		if s != "" && s != "." {
			seg = append(seg, s)
		}
	}
	var names []string
	for i, s := range seg {
		last := i == len(seg)-1
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if s == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			dir, base, n = cur, ".", cur
			continue
		}
		c := cur.find(s)
		if c == nil {
			if last {
				return cur, s, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if c.isLink() && (!last || follow || trail) {
			t := c.target
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(seg[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			} else if trail {
				t += "/"
			}
			return f.walkN(t, follow, depth+1)
		}
		dir, base, n = cur, s, c
		stack = append(stack, cur)
		names = append(names, s)
		cur = c
	}
	if trail && n != nil && !n.isDir() && len(seg) > 0 {
		return nil, "", nil, syscall.ENOTDIR
	}
	return dir, base, n, nil
}

func perr(op, name string, e error) error {
	if e == nil {
		return nil
	}
	if e == io.EOF {
		return e
	}
	return &os.PathError{Op: op, Path: name, Err: e}
}

type info struct {
	name string
	n    *node
	mode os.FileMode
	size int64
	mt   int64
}

func mk(name string, n *node) *info {
	return &info{filepath.Base(name), n, n.mode, n.size(), n.mtime}
}
func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return time.Unix(0, i.mt) }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() any           { return nil }

type dirent struct{ i *info }

func (d dirent) Name() string                 { return d.i.name }
func (d dirent) IsDir() bool                  { return d.i.IsDir() }
func (d dirent) Type() iofs.FileMode          { return d.i.mode.Type() }
func (d dirent) Info() (iofs.FileInfo, error) { return d.i, nil }
func (d dirent) String() string               { return iofs.FormatDirEntry(d) }

// SameFile as os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

// File stands in for os.File.
type File struct {
	name   string
	n      *node
	off    int64
	flag   int
	closed bool
	order  []entry
	dpos   int
	dinit  bool
	fs     *FS
	ID     int
}

// Std streams are not part of the simulation.
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.ID) }

// Open as os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create as os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// NewFile as os.NewFile.
func NewFile(fd uintptr, name string) *File {
	return &File{name: name, fs: Cur, ID: int(fd), n: &node{}}
}

// OpenFile as os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	in := enter("open", name, 0)
	defer leave()
	if in.Err != nil {
		return nil, perr("open", name, in.Err)
	}
	f := Cur
	dir, base, n, e := f.walk(name, true)
	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 { // does not follow a last link
		if _, _, _, e2 := f.walk(name, false); e2 == nil {
			e = syscall.EEXIST
		}
	}
	if e == syscall.ENOENT && dir != nil && flag&os.O_CREATE != 0 && !strings.HasSuffix(name, "/") {
		n = f.newNode(perm.Perm() &^ f.Umask)
		dir.link(base, n)
		dir.mtime = f.now
		e = nil
	} else if e == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		e = syscall.EEXIST
	}
	if e != nil {
		return nil, perr("open", name, e)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n.isDir() && wr {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && wr {
		n.data = nil
		n.mtime = f.now
	}
	f.nOpen++
	h := &File{name: name, n: n, flag: flag, fs: f, ID: 2 + f.nOpen}
	f.hand = append(f.hand, h)
	return h, nil
}

// Leaked lists the files that are still open.
func (f *FS) Leaked() []string {
	var s []string
	for _, h := range f.hand {
		if !h.closed {
			s = append(s, h.name)
		}
	}
	return s
}

// Opened counts files opened.
func (f *FS) Opened() int { return f.nOpen }

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	in := enter("close", f.name, 0)
	defer leave()
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	return perr("close", f.name, in.Err)
}

func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	in := enter("read", f.name, len(b))
	defer leave()
	if e := f.chk("read"); e != nil {
		return 0, e
	}
	if in.Err != nil { // read(2) gives data or an error, never both
		return 0, perr("read", f.name, in.Err)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.isDir() {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	m := len(b)
	if in.Limit > 0 && in.Limit < m {
		m = in.Limit
	}
	n := copy(b[:m], f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	total := 0
	for total < len(b) {
		save := f.off
		f.off = off + int64(total)
		n, e := f.Read(b[total:])
		f.off = save
		total += n
		if e != nil {
			return total, e
		}
	}
	return total, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	in := enter("write", f.name, len(b))
	defer leave()
	if e := f.chk("write"); e != nil {
		return 0, e
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	m := len(b)
	if in.Err != nil {
		if !in.After {
			return 0, perr("write", f.name, in.Err)
		}
		if in.Limit < m {
			m = in.Limit
		}
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	if need := f.off + int64(m); need > int64(len(f.n.data)) {
		d := make([]byte, need)
		copy(d, f.n.data)
		f.n.data = d
	}
	copy(f.n.data[f.off:], b[:m])
	f.off += int64(m)
	f.n.mtime = f.fs.now
	return m, perr("write", f.name, in.Err)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(o int64, wh int) (int64, error) {
	if e := f.chk("seek"); e != nil {
		return 0, e
	}
	switch wh {
	case io.SeekCurrent:
		o += f.off
	case io.SeekEnd:
		o += int64(len(f.n.data))
	}
	if o < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = o
	if o == 0 {
		f.dpos, f.dinit = 0, false
	}
	return o, nil
}

func (f *File) Sync() error {
	in := enter("sync", f.name, 0)
	defer leave()
	return perr("sync", f.name, in.Err)
}

func (f *File) Truncate(n int64) error {
	in := enter("truncate", f.name, int(n))
	defer leave()
	if e := f.chk("truncate"); e != nil {
		return e
	}
	if in.Err != nil {
		return perr("truncate", f.name, in.Err)
	}
	return perr("truncate", f.name, f.n.trunc(n))
}

func (n *node) trunc(sz int64) error {
	if n.isDir() {
		return syscall.EISDIR
	}
	if sz < 0 {
		return syscall.EINVAL
	}
	d := make([]byte, sz)
	copy(d, n.data)
	n.data = d
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	f.n.mode = f.n.mode&os.ModeType | m&^os.ModeType
	return nil
}

func (f *File) Stat() (os.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	in := enter("fstat", f.name, 0)
	defer leave()
	if e := f.chk("stat"); e != nil {
		return nil, e
	}
	if in.Err != nil {
		return nil, perr("stat", f.name, in.Err)
	}
	return mk(f.name, f.n), nil
}

func (f *File) readdir(n int) ([]*info, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	in := enter("readdir", f.name, n)
	defer leave()
	if e := f.chk("readdir"); e != nil {
		return nil, e
	}
	if in.Err != nil && !in.After {
		return nil, perr("readdirent", f.name, in.Err)
	}
	if !f.n.isDir() {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if !f.dinit {
		f.dinit = true
		f.order = append([]entry(nil), f.n.kids...)
		if f.fs.Shuffle != nil {
			p := f.fs.Shuffle.Perm(len(f.order))
			o := make([]entry, len(p))
			for i, j := range p {
				o[i] = f.order[j]
			}
			f.order = o
		}
	}
	var out []*info
	lim := n
	if in.Limit > 0 && (lim <= 0 || in.Limit < lim) && (n > 0 || in.Err != nil) {
		lim = in.Limit
	}
	if in.Err != nil && in.Limit == 0 {
		lim = 0
		return nil, perr("readdirent", f.name, in.Err)
	}
	for f.dpos < len(f.order) && (lim <= 0 || len(out) < lim) {
		e := f.order[f.dpos]
		f.dpos++
		out = append(out, mk(e.name, e.n))
	}
	if in.Err != nil {
		return out, perr("readdirent", f.name, in.Err)
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	is, e := f.readdir(n)
	r := make([]os.FileInfo, 0, len(is))
	for _, i := range is {
		r = append(r, i)
	}
	return r, e
}

func (f *File) Readdirnames(n int) ([]string, error) {
	is, e := f.readdir(n)
	r := make([]string, 0, len(is))
	for _, i := range is {
		r = append(r, i.name)
	}
	return r, e
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	is, e := f.readdir(n)
	r := make([]os.DirEntry, 0, len(is))
	for _, i := range is {
		r = append(r, dirent{i})
	}
	return r, e
}

// ---- functions on names

func simple(op, name string, fn func(f *FS) error) error {
	in := enter(op, name, 0)
	defer leave()
	if in.Err != nil {
		return perr(op, name, in.Err)
	}
	return perr(op, name, fn(Cur))
}

func Stat(name string) (fi os.FileInfo, err error) {
	err = simple("stat", name, func(f *FS) error {
		_, _, n, e := f.walk(name, true)
		if e == nil {
			fi = mk(name, n)
		}
		return e
	})
	return
}

func Lstat(name string) (fi os.FileInfo, err error) {
	err = simple("lstat", name, func(f *FS) error {
		_, _, n, e := f.walk(name, false)
		if e == nil {
			fi = mk(name, n)
		}
		return e
	})
	return
}

func Chmod(name string, m os.FileMode) error {
	return simple("chmod", name, func(f *FS) error {
		_, _, n, e := f.walk(name, true)
		if e == nil {
			const keep = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
			n.mode = n.mode&^keep | m&keep
		}
		return e
	})
}

func own(op, name string, follow bool, uid, gid int) error {
	return simple(op, name, func(f *FS) error {
		_, _, n, e := f.walk(name, follow)
		if e == nil {
			if uid != -1 {
				n.uid = uid
			}
			if gid != -1 {
				n.gid = gid
			}
		}
		return e
	})
}

func Chown(name string, uid, gid int) error  { return own("chown", name, true, uid, gid) }
func Lchown(name string, uid, gid int) error { return own("lchown", name, false, uid, gid) }

func Chtimes(name string, at, mt time.Time) error {
	return simple("chtimes", name, func(f *FS) error {
		_, _, n, e := f.walk(name, true)
		if e == nil {
			n.atime, n.mtime = at.UnixNano(), mt.UnixNano()
		}
		return e
	})
}

func Mkdir(name string, perm os.FileMode) error {
	return simple("mkdir", name, func(f *FS) error {
		dir, base, n, e := f.walk(strings.TrimRight(name, "/")+"", false)
		if e == nil && n != nil {
			return syscall.EEXIST
		}
		if e != syscall.ENOENT || dir == nil {
			return e
		}
		dir.link(base, f.newNode(os.ModeDir|perm&(os.ModePerm|os.ModeSticky)&^f.Umask))
		dir.mtime = f.now
		return nil
	})
}

func MkdirAll(name string, perm os.FileMode) error {
	if fi, e := Stat(name); e == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	d := path.Dir(strings.TrimRight(name, "/"))
	if d != name && d != "." && d != "/" && d != "" {
		if e := MkdirAll(d, perm); e != nil {
			return e
		}
	}
	e := Mkdir(name, perm)
	if e != nil {
		if fi, e1 := Lstat(name); e1 == nil && fi.IsDir() {
			return nil
		}
	}
	return e
}

func Readlink(name string) (t string, err error) {
	err = simple("readlink", name, func(f *FS) error {
		_, _, n, e := f.walk(name, false)
		if e != nil {
			return e
		}
		if !n.isLink() {
			return syscall.EINVAL
		}
		t = n.target
		return nil
	})
	return
}

func (f *FS) remove(name string) error {
	dir, base, n, e := f.walk(name, false)
	if e != nil {
		return e
	}
	if n == f.root || base == "." {
		return syscall.EBUSY
	}
	if n.isDir() && len(n.kids) > 0 {
		return syscall.ENOTEMPTY
	}
	dir.unlink(base)
	dir.mtime = f.now
	n.nlink--
	return nil
}

func Remove(name string) error {
	return simple("remove", name, func(f *FS) error { return f.remove(name) })
}

func RemoveAll(name string) error {
	if name == "" {
		return nil
	}
	if strings.HasSuffix(name, ".") && (name == "." || strings.HasSuffix(name, "/.")) {
		return &os.PathError{Op: "RemoveAll", Path: name, Err: syscall.EINVAL}
	}
	e := Remove(name)
	if e == nil || os.IsNotExist(e) {
		return nil
	}
	fi, e2 := Lstat(name)
	if e2 != nil {
		if os.IsNotExist(e2) {
			return nil
		}
		return e2
	}
	if !fi.IsDir() {
		return e
	}
	h, e3 := Open(name)
	if e3 != nil {
		return e3
	}
	names, e3 := h.Readdirnames(-1)
	h.Close()
	var first error
	for _, s := range names {
		if ex := RemoveAll(name + "/" + s); ex != nil && first == nil {
			first = ex
		}
	}
	if first != nil {
		return first
	}
	if e3 != nil {
		return e3
	}
	if e = Remove(name); e == nil || os.IsNotExist(e) {
		return nil
	}
	return e
}

func lerr(op, a, b string, e error) error {
	if e == nil {
		return nil
	}
	return &os.LinkError{Op: op, Old: a, New: b, Err: e}
}

func Link(oldname, newname string) error {
	in := enter("link", newname, 0)
	defer leave()
	if in.Err != nil {
		return lerr("link", oldname, newname, in.Err)
	}
	f := Cur
	_, _, n, e := f.walk(oldname, false)
	if e != nil {
		return lerr("link", oldname, newname, e)
	}
	if n.isDir() {
		return lerr("link", oldname, newname, syscall.EPERM)
	}
	dir, base, x, e := f.walk(newname, false)
	if x != nil {
		return lerr("link", oldname, newname, syscall.EEXIST)
	}
	if e != syscall.ENOENT || dir == nil {
		return lerr("link", oldname, newname, e)
	}
	dir.link(base, n)
	n.nlink++
	return nil
}

func Symlink(oldname, newname string) error {
	in := enter("symlink", newname, 0)
	defer leave()
	if in.Err != nil {
		return lerr("symlink", oldname, newname, in.Err)
	}
	f := Cur
	dir, base, x, e := f.walk(newname, false)
	if x != nil {
		return lerr("symlink", oldname, newname, syscall.EEXIST)
	}
	if e != syscall.ENOENT || dir == nil {
		return lerr("symlink", oldname, newname, e)
	}
	n := f.newNode(os.ModeSymlink | 0o777)
	n.target = oldname
	dir.link(base, n)
	return nil
}

func Rename(oldname, newname string) error {
	in := enter("rename", oldname, 0)
	defer leave()
	if in.Err != nil {
		return lerr("rename", oldname, newname, in.Err)
	}
	f := Cur
	e := func() error {
		od, ob, on, e := f.walk(oldname, false)
		if e != nil {
			return e
		}
		nd, nb, nn, e := f.walk(newname, false)
		if nn == nil && (e != syscall.ENOENT || nd == nil) {
			return e
		}
		if on == f.root || nn == f.root || ob == "." || nb == "." {
			return syscall.EBUSY
		}
		if nn == on && !(on.isDir() && oldname == newname) {
			return nil
		}
		if nn != nil && nn.isDir() { // os.Rename refuses this
			return syscall.EEXIST
		}
		if on.isDir() {
			if nn != nil {
				return syscall.ENOTDIR
			}
			var within func(a *node) bool
			within = func(a *node) bool {
				if a == nd {
					return true
				}
				for _, k := range a.kids {
					if k.n.isDir() && within(k.n) {
						return true
					}
				}
				return false
			}
			if within(on) {
				return syscall.EINVAL
			}
		}
		od.unlink(ob)
		nd.link(nb, on)
		od.mtime, nd.mtime = f.now, f.now
		return nil
	}()
	return lerr("rename", oldname, newname, e)
}

func Truncate(name string, size int64) error {
	return simple("truncate", name, func(f *FS) error {
		_, _, n, e := f.walk(name, true)
		if e != nil {
			return e
		}
		return n.trunc(size)
	})
}

func Getwd() (string, error) {
	in := enter("getwd", "", 0)
	defer leave()
	if in.Err != nil {
		return "", in.Err
	}
	return Cur.cwd, nil
}

func Chdir(name string) error {
	return simple("chdir", name, func(f *FS) error {
		_, _, n, e := f.walk(name, true)
		if e != nil {
			return e
		}
		if !n.isDir() {
			return syscall.ENOTDIR
		}
		if name[0] == '/' {
			f.cwd = path.Clean(name)
		} else {
			f.cwd = path.Clean(f.cwd + "/" + name)
		}
		return nil
	})
}

// Cwd shows the working directory.
func (f *FS) Cwd() string { return f.cwd }

func TempDir() string {
	if d := Cur.Env["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}

func Getenv(k string) string            { return Cur.Env[k] }
func LookupEnv(k string) (string, bool) { v, ok := Cur.Env[k]; return v, ok }

func ReadFile(name string) ([]byte, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer f.Close()
	b, e := io.ReadAll(f)
	return b, e
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, e := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = f.Write(data)
	if e1 := f.Close(); e1 != nil && e == nil {
		e = e1
	}
	return e
}

func ReadDir(name string) ([]os.DirEntry, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer f.Close()
	ds, e := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, e
}

// ---- path/filepath

// FpAbs as filepath.Abs.
func FpAbs(p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return filepath.Clean(p), nil
	}
	w, e := Getwd()
	if e != nil {
		return "", e
	}
	return filepath.Join(w, p), nil
}

// FpEvalSymlinks as filepath.EvalSymlinks.
func FpEvalSymlinks(p string) (string, error) {
	depth := 0
	var eval func(p string) (string, error)
	eval = func(p string) (string, error) {
		abs := strings.HasPrefix(p, "/")
		out := ""
		if abs {
			out = "/"
		}
		segs := strings.Split(p, "/")
		for i, s := range segs {
			if s == "" || s == "." {
				continue
			}
			if s == ".." {
				if out == "" || out == ".." || strings.HasSuffix(out, "/..") {
					out = path.Join(out, "..")
					if out == "" {
						out = ".."
					}
				} else {
					out = path.Dir(out)
					if out == "." {
						out = ""
					}
				}
				continue
			}
			next := s
			if out != "" {
				next = path.Join(out, s)
			}
			fi, e := Lstat(next)
			if e != nil {
				return "", e
			}
			if fi.Mode()&os.ModeSymlink != 0 {
				depth++
				if depth > 255 {
					return "", os.ErrInvalid
				}
				t, e := Readlink(next)
				if e != nil {
					return "", e
				}
				if !strings.HasPrefix(t, "/") {
					t = path.Join(out, t)
					if out == "" {
						t = path.Clean(t)
					}
				}
				return eval(path.Join(t, strings.Join(segs[i+1:], "/")))
			} else if !fi.IsDir() && i < len(segs)-1 {
				return "", syscall.ENOTDIR
			}
			out = next
		}
		if out == "" {
			out = "."
		}
		return filepath.Clean(out), nil
	}
	if p == "" {
		return "", nil
	}
	return eval(p)
}

func walkDir(p string, fi os.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	names, err := dirNames(p)
	err1 := fn(p, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		q := filepath.Join(p, n)
		fi, e := Lstat(q)
		if e != nil {
			if e = fn(q, fi, e); e != nil && e != filepath.SkipDir {
				return e
			}
		} else if e = walkDir(q, fi, fn); e != nil {
			if !fi.IsDir() || e != filepath.SkipDir {
				return e
			}
		}
	}
	return nil
}

func dirNames(p string) ([]string, error) {
	f, e := Open(p)
	if e != nil {
		return nil, e
	}
	ns, e := f.Readdirnames(-1)
	f.Close()
	if e != nil {
		return nil, e
	}
	sort.Strings(ns)
	return ns, nil
}

// FpWalk as filepath.Walk.
func FpWalk(root string, fn filepath.WalkFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

// FpWalkDir as filepath.WalkDir.
func FpWalkDir(root string, fn iofs.WalkDirFunc) error {
	var walk func(p string, d iofs.DirEntry) error
	walk = func(p string, d iofs.DirEntry) error {
		if err := fn(p, d, nil); err != nil || !d.IsDir() {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
		ds, err := ReadDir(p)
		if err != nil {
			if err = fn(p, d, err); err != nil {
				if err == filepath.SkipDir && d.IsDir() {
					err = nil
				}
				return err
			}
		}
		for _, x := range ds {
			if err := walk(filepath.Join(p, x.Name()), x); err != nil {
				if err == filepath.SkipDir {
					break
				}
				return err
			}
		}
		return nil
	}
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, iofs.FileInfoToDirEntry(fi))
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

// ---- io/ioutil

func IuReadFile(name string) ([]byte, error) { return ReadFile(name) }
func IuWriteFile(name string, d []byte, p os.FileMode) error {
	return WriteFile(name, d, p)
}
func IuReadDir(name string) ([]os.FileInfo, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	l, e := f.Readdir(-1)
	f.Close()
	if e != nil {
		return nil, e
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

// ---- for the harness (no yields, no faults)

// Put makes a file with its parent directories.
func (f *FS) Put(name string, data []byte) {
	d := f.root
	segs := strings.Split(strings.Trim(path.Clean(name), "/"), "/")
	for _, s := range segs[:len(segs)-1] {
		c := d.find(s)
		if c == nil {
			c = f.newNode(os.ModeDir | 0o755)
			d.link(s, c)
		}
		d = c
	}
	n := f.newNode(0o644)
	n.data = append([]byte(nil), data...)
	d.link(segs[len(segs)-1], n)
}

// PutDir makes a directory with its parents.
func (f *FS) PutDir(name string) {
	f.Put(name+"/x", nil)
	_, _, n, _ := f.walk(name, true)
	n.unlink("x")
}

// PutSize makes a file that says it has size bytes, for calls that do not
// read it.
func (f *FS) PutSize(name string, size int64) {
	f.Put(name, nil)
	_, _, n, _ := f.walk(name, false)
	n.sparse = size
}

// PutLink makes a symbolic link.
func (f *FS) PutLink(name, target string) {
	f.Put(name, nil)
	_, _, n, _ := f.walk(name, false)
	n.mode = os.ModeSymlink | 0o777
	n.target = target
}

// Dump lists the whole tree in a canonical form.
func (f *FS) Dump() []string {
	simrt.RaceAcquire(unsafe.Pointer(&hb))
	defer leave()
	var out []string
	ids := map[*node]int{}
	var rec func(p string, n *node)
	rec = func(p string, n *node) {
		id, ok := ids[n]
		if !ok {
			id = len(ids)
			ids[n] = id
		}
		s := p + " " + n.mode.String() + " "
		switch {
		case n.isDir():
		case n.isLink():
			s += "-> " + n.target
		default:
			s += "#" + itoa(int64(id)) + " " + strconv.Quote(string(n.data))
		}
		s += " own=" + itoa(int64(n.uid)) + ":" + itoa(int64(n.gid))
		out = append(out, s)
		for _, k := range n.kids {
			rec(p+"/"+k.name, k.n)
		}
	}
	rec("", f.root)
	out = append(out, "cwd "+f.cwd)
	return out
}

// Times lists modification and access times set by Chtimes for one path.
func (f *FS) Times(name string) (at, mt int64) {
	simrt.RaceAcquire(unsafe.Pointer(&hb))
	defer leave()
	_, _, n, e := f.walk(name, true)
	if e != nil {
		return 0, 0
	}
	return n.atime, n.mtime
}

func itoa(v int64) string {
	if v < 0 {
		return "-" + itoa(-v)
	}
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + string(rune('0'+v%10))
}

// Clone makes an independent copy (open files excluded).
func (f *FS) Clone() *FS {
	g := &FS{cwd: f.cwd, Umask: f.Umask, inos: f.inos, now: f.now, Env: f.Env}
	m := map[*node]*node{}
	var cp func(n *node) *node
	cp = func(n *node) *node {
		if c := m[n]; c != nil {
			return c
		}
		c := *n
		c.data = append([]byte(nil), n.data...)
		c.kids = nil
		m[n] = &c
		for _, k := range n.kids {
			c.kids = append(c.kids, entry{k.name, cp(k.n)})
		}
		return &c
	}
	g.root = cp(f.root)
	return g
}

// ---- less common ways to the same effects ----

type onlyReader struct{ io.Reader }
type onlyWriter struct{ io.Writer }

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	return io.Copy(w, onlyReader{f})
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	return io.Copy(onlyWriter{f}, r)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	save := f.off
	f.off = off
	n, e := f.Write(b)
	f.off = save
	return n, e
}

func (f *File) Chdir() error {
	if e := f.chk("chdir"); e != nil {
		return e
	}
	return Chdir(f.name)
}

func (f *File) Chown(uid, gid int) error {
	if e := f.chk("chown"); e != nil {
		return e
	}
	return Chown(f.name, uid, gid)
}

func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

func tempName(dir, pattern string, k int) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return dir + "/" + pre + strconv.Itoa(100000+k) + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	for k := 0; ; k++ {
		f, e := OpenFile(tempName(dir, pattern, k), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if !os.IsExist(e) || k > 10000 {
			return f, e
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	for k := 0; ; k++ {
		n := tempName(dir, pattern, k)
		e := Mkdir(n, 0o700)
		if e == nil {
			return n, nil
		}
		if !os.IsExist(e) || k > 10000 {
			return "", e
		}
	}
}

type dirFS string

// DirFS is os.DirFS.
func DirFS(dir string) iofs.FS { return dirFS(dir) }

func (d dirFS) full(op, name string) (string, error) {
	if !iofs.ValidPath(name) {
		return "", perr(op, name, os.ErrInvalid)
	}
	return string(d) + "/" + name, nil
}

func (d dirFS) Open(name string) (iofs.File, error) {
	p, e := d.full("open", name)
	if e != nil {
		return nil, e
	}
	f, e := Open(p)
	if e != nil {
		return nil, e
	}
	return f, nil
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, e := d.full("readfile", name)
	if e != nil {
		return nil, e
	}
	return ReadFile(p)
}

func (d dirFS) ReadDir(name string) ([]os.DirEntry, error) {
	p, e := d.full("readdir", name)
	if e != nil {
		return nil, e
	}
	return ReadDir(p)
}

func (d dirFS) Stat(name string) (os.FileInfo, error) {
	p, e := d.full("stat", name)
	if e != nil {
		return nil, e
	}
	return Stat(p)
}

func IuTempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }
func IuTempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }
