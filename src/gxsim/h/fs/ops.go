package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simos"
	"gxsim/simrt"

	"github.com/vipally/gx/fs"
)

var opNames = []string{"mkdir", "mkdirall", "create", "open", "openfile", "remove", "removeall", "rename", "rename", "rename", "move", "move", "link", "link", "symlink", "symlink",
	"truncate", "chmod", "chown", "lchown", "chtimes", "stat", "lstat", "readlink", "walk", "eval", "abs", "chdir"}

func somePath(r *rng.R) string {
	n := func() string {
		if r.P(0.06) {
			return r.PickS("A", "x y", " a", "a ", " ", "~", "a\\b", "$HOME", "%41", "c:", "c:d", "..a", "...", ".a", "é", "e\u0301", "a\xffb", "*", "a\nb", "a;b", "a:b", "-a", strings.Repeat("n", r.Pick(100, 255)))
		}
		return r.PickS("a", "b", "c", "d", "e")
	}
	p := n()
	for k := r.Pick(0, 0, 1, 1, 2); k > 0; k-- {
		p += "/" + n()
	}
	switch r.N(14) {
	case 0:
		p = r.PickS("./", ".//", "././") + p
	case 1:
		p = p + "/../" + n()
	case 2:
		p += "/"
	case 3:
		p = "."
	}
	return p
}

func genOps(r *rng.R, tier string) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	p.Set("tree", r.N(1<<20))
	p.Set("umask", r.Pick(0o022, 0, 0, 0o002, 0o077, 0o777))
	nt := r.Pick(1, 1, 2, 3)
	for t := 0; t < nt; t++ {
		var l []core.Op
		for k := r.Range(1, 14); k > 0; k-- {
			o := core.Op{K: opNames[r.N(len(opNames))], S: somePath(r) + "\x00" + somePath(r)}
			// which form the paths have: bit 0 absolute object, bit 1 absolute
			// destination, bit 2 destination goes up first
			o.A = []int64{int64(r.N(8)), int64(r.N(1 << 20)), 0, 0}
			if r.P(0.15) {
				o.A[2] = 1
				o.A[3] = int64(r.N(1 << 10))
			}
			l = append(l, o)
		}
		p.Tasks = append(p.Tasks, l)
	}
	if r.P(0.3) {
		core.GenStalls(p, r, 3, 60, 300)
	}
	return p
}

// out is what one operation was seen to do.
type out struct {
	dump  string
	err   error
	val   string
	place string // the path returned, "" if none
	p     string
}

// fault of one operation: the first call of one kind fails
type fault struct {
	on  bool
	e   error
	ops string
	hit string
}

func (f *fault) ask(op string) error {
	if f == nil || !f.on || f.hit != "" {
		return nil
	}
	if !strings.Contains(" "+f.ops+" ", " "+op+" ") {
		return nil
	}
	f.hit = op
	return f.e
}

// faultFor chooses which system call of the operation fails.
func faultFor(o *core.Op) *fault {
	if o.Arg(2) == 0 {
		return nil
	}
	e := []error{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EXDEV, syscall.EPERM, syscall.EBUSY, syscall.ENOENT, syscall.EEXIST, syscall.ENOTEMPTY, syscall.ENOTDIR}[int(o.Arg(3))%11]
	ops := map[string]string{"mkdir": "mkdir", "create": "open", "open": "open", "openfile": "open", "remove": "remove", "rename": "rename", "move": "rename",
		"link": "link", "symlink": "symlink", "truncate": "truncate", "chmod": "chmod", "chown": "chown", "lchown": "lchown", "chtimes": "chtimes",
		"stat": "stat", "lstat": "lstat", "readlink": "readlink", "chdir": "chdir"}[o.K]
	if ops == "" {
		return nil
	}
	return &fault{on: true, e: e, ops: ops}
}

type step struct {
	o      *core.Op
	me     string // as given to FilePath
	dest   string
	want   string // the destination as it has to be resolved
	f1, f2 *fault
	a, b   out
}

func errText(e error) string {
	if e == nil {
		return "ok"
	}
	var pe *os.PathError
	var le *os.LinkError
	switch {
	case errors.As(e, &pe):
		return fmt.Sprintf("%v at %s", pe.Err, path.Clean(pe.Path))
	case errors.As(e, &le):
		return fmt.Sprintf("%v at %s, %s", le.Err, path.Clean(le.Old), path.Clean(le.New))
	}
	return e.Error()
}

// file does some I/O on an opened file and closes it.
func file(f *simos.File, seed int64, wr bool) string {
	var b strings.Builder
	if wr {
		n, err := f.Write(content(int(seed%50), seed))
		fmt.Fprintf(&b, "w %d %s ", n, errText(err))
		f.Seek(0, io.SeekStart)
	}
	d, err := io.ReadAll(f)
	fmt.Fprintf(&b, "r %q %s ", d, errText(err))
	fmt.Fprintf(&b, "c %s", errText(f.Close()))
	return b.String()
}

func infoText(fi os.FileInfo, err error) string {
	if err != nil {
		return ""
	}
	return fmt.Sprintf("%s %d %v %v", fi.Name(), fi.Size(), fi.Mode(), fi.IsDir())
}

var flagSets = []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_WRONLY, os.O_WRONLY | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_TRUNC}

// perm makes permissions, for chmod also with the special bits.
func perm(a int64, special bool) os.FileMode {
	m := os.FileMode(a % 0o1000)
	if special {
		if a>>10&3 == 0 {
			m |= os.ModeSetuid
		}
		if a>>12&3 == 0 {
			m |= os.ModeSetgid
		}
		if a>>14&3 == 0 {
			m |= os.ModeSticky
		}
	}
	return m
}

// lib does the operation through the library.
func lib(s *step, x *out) {
	me := fs.FilePath(s.me)
	a := s.o.Arg(1)
	var np fs.FilePathObject
	switch s.o.K {
	case "mkdir":
		x.err = me.Mkdir(fs.FileMode(perm(a, false)))
	case "mkdirall":
		x.err = me.MkdirAll(fs.FileMode(perm(a, false)))
	case "create":
		f, err := me.Create()
		if x.err = err; err == nil {
			x.val = file(f, a, true)
		}
	case "open":
		f, err := me.Open()
		if x.err = err; err == nil {
			x.val = file(f, a, false)
		}
	case "openfile":
		fl := flagSets[int(a)%len(flagSets)]
		f, err := me.OpenFile(fl, fs.FileMode(perm(a, false)))
		if x.err = err; err == nil {
			x.val = file(f, a, fl != os.O_RDONLY)
		}
	case "remove":
		x.err = me.Remove()
	case "removeall":
		x.err = me.RemoveAll()
	case "rename":
		np, x.err = me.Rename(s.dest)
	case "move":
		np, x.err = me.Move(s.dest)
	case "link":
		np, x.err = me.Link(s.dest)
	case "symlink":
		np, x.err = me.Symlink(s.dest)
	case "truncate":
		x.err = me.Truncate(a%40 - 2)
	case "chmod":
		x.err = me.Chmod(fs.FileMode(perm(a, true)))
	case "chown":
		x.err = me.Chown(int(a%7)-1, int(a%5)-1)
	case "lchown":
		x.err = me.Lchown(int(a%7)-1, int(a%5)-1)
	case "chtimes":
		x.err = me.Chtimes(time.Unix(a, 0), time.Unix(a*2, 0))
		if x.err == nil {
			at, mt := simos.Cur.Times(string(me))
			x.val = fmt.Sprint(at, mt)
		}
	case "stat":
		fi, err := me.Stat()
		x.err, x.val = err, infoText(fi, err)
	case "lstat":
		fi, err := me.Lstat()
		x.err, x.val = err, infoText(fi, err)
	case "readlink":
		x.val, x.err = me.Readlink()
	case "walk":
		x.err = me.Walk(func(p string, fi fs.FileInfo, err error) error {
			x.val += p + " " + errText(err)
			if fi != nil {
				x.val += fmt.Sprintf(" %s %d %v;", fi.Name(), fi.Size(), fi.Mode())
			}
			return nil
		})
	case "eval":
		x.val, x.err = me.EvalSymlinks()
	case "abs":
		x.val, x.err = me.Abs()
	case "chdir":
		x.err = fs.Chdir(s.me)
		x.val = fs.WorkPath()
	}
	if np != "" && x.err == nil {
		x.place = np.String()
	}
	x.dump = strings.Join(simos.Cur.Dump(), "\n")
}

// direct does the same with the system calls themselves.
func direct(s *step, x *out) {
	me := filepath.Clean(s.me)
	a := s.o.Arg(1)
	switch s.o.K {
	case "mkdir":
		x.err = simos.Mkdir(me, perm(a, false))
	case "mkdirall":
		x.err = simos.MkdirAll(me, perm(a, false))
	case "create":
		f, err := simos.Create(me)
		if x.err = err; err == nil {
			x.val = file(f, a, true)
		}
	case "open":
		f, err := simos.Open(me)
		if x.err = err; err == nil {
			x.val = file(f, a, false)
		}
	case "openfile":
		fl := flagSets[int(a)%len(flagSets)]
		f, err := simos.OpenFile(me, fl, perm(a, false))
		if x.err = err; err == nil {
			x.val = file(f, a, fl != os.O_RDONLY)
		}
	case "remove":
		x.err = simos.Remove(me)
	case "removeall":
		x.err = simos.RemoveAll(me)
	case "rename", "move":
		x.err = simos.Rename(me, s.want)
	case "link":
		x.err = simos.Link(me, s.want)
	case "symlink":
		x.err = simos.Symlink(me, s.want)
	case "truncate":
		x.err = simos.Truncate(me, a%40-2)
	case "chmod":
		x.err = simos.Chmod(me, perm(a, true))
	case "chown":
		x.err = simos.Chown(me, int(a%7)-1, int(a%5)-1)
	case "lchown":
		x.err = simos.Lchown(me, int(a%7)-1, int(a%5)-1)
	case "chtimes":
		x.err = simos.Chtimes(me, time.Unix(a, 0), time.Unix(a*2, 0))
		if x.err == nil {
			at, mt := simos.Cur.Times(me)
			x.val = fmt.Sprint(at, mt)
		}
	case "stat":
		fi, err := simos.Stat(me)
		x.err, x.val = err, infoText(fi, err)
	case "lstat":
		fi, err := simos.Lstat(me)
		x.err, x.val = err, infoText(fi, err)
	case "readlink":
		x.val, x.err = simos.Readlink(me)
	case "walk":
		x.err = simos.FpWalk(me, func(p string, fi os.FileInfo, err error) error {
			x.val += p + " " + errText(err)
			if fi != nil {
				x.val += fmt.Sprintf(" %s %d %v;", fi.Name(), fi.Size(), fi.Mode())
			}
			return nil
		})
	case "eval":
		x.val, x.err = simos.FpEvalSymlinks(me)
	case "abs":
		x.val, x.err = simos.FpAbs(me)
	case "chdir":
		x.err = simos.Chdir(me)
		x.val = simos.Cur.Cwd()
	}
	switch s.o.K {
	case "rename", "move", "link", "symlink":
		if x.err == nil {
			x.place = s.want
		}
	}
	x.dump = strings.Join(simos.Cur.Dump(), "\n")
}

// part keeps the lines of a dump below a directory.
func part(dump, dir string, cwd bool) string {
	var b []string
	for _, l := range strings.Split(dump, "\n") {
		if strings.HasPrefix(l, dir+" ") || strings.HasPrefix(l, dir+"/") || cwd && strings.HasPrefix(l, "cwd ") {
			// the number of a node depends on the rest of the tree
			b = append(b, l)
		}
	}
	return strings.Join(b, "\n")
}

func runOps(c *core.Ctx) {
	n := len(c.Plan.Tasks)
	if n == 0 {
		c.Trivial()
		return
	}
	fsys := simos.Reset()
	fsys.Umask = os.FileMode(c.Plan.Int("umask"))
	c.Solo(func() { fs.Chdir("/work") }) // the library remembers it from run to run
	r := rng.New(uint64(c.Plan.Int("tree")))
	for t := 0; t < n; t++ {
		root := fmt.Sprintf("/work/t%d", t)
		fsys.PutDir(root)
		for k := r.Range(0, 8); k > 0; k-- {
			p := root + "/" + somePath(r)
			p = path.Clean(p)
			if !strings.HasPrefix(p, root+"/") {
				continue
			}
			bad := false // below a file
			for q := path.Dir(p); len(q) > len(root); q = path.Dir(q) {
				if fi, err := simos.Lstat(q); err == nil && !fi.IsDir() {
					bad = true
				}
			}
			if _, err := simos.Lstat(p); err == nil || bad {
				continue
			}
			switch r.N(5) {
			case 0, 1:
				fsys.PutDir(p)
			case 2:
				to := r.PickS("a", "b/c", "nowhere", "..", root+"/a")
				if to == ".." && n > 1 {
					to = root // every task keeps to its own tree
				}
				fsys.PutLink(p, to)
			default:
				fsys.Put(p, content(r.N(30), int64(r.N(9))))
			}
		}
	}
	twin := fsys.Clone()
	start := fsys.Cwd()
	steps := make([][]*step, n)
	for t := 0; t < n; t++ {
		root := fmt.Sprintf("/work/t%d", t)
		up := fmt.Sprintf("t%d", t)
		cwd := start
		for i := range c.Plan.Tasks[t] {
			o := &c.Plan.Tasks[t][i]
			p, d, _ := strings.Cut(o.S, "\x00")
			if o.K == "chdir" && n > 1 {
				continue // the working directory belongs to all of them
			}
			s := &step{o: o, f1: faultFor(o), f2: faultFor(o)}
			form := o.Arg(0)
			if form&1 != 0 || cwd != "/work" {
				s.me = root + "/" + p
			} else {
				s.me = up + "/" + p
			}
			if !strings.HasPrefix(filepath.Clean(s.me)+"/", up+"/") && !strings.HasPrefix(filepath.Clean(s.me)+"/", root+"/") {
				s.me = root
			}
			switch {
			case form&2 != 0:
				s.dest = root + "/" + d
				s.want = filepath.Clean(s.dest)
			case form&4 != 0:
				s.dest = "../" + d
				s.want = filepath.Join(filepath.Dir(filepath.Clean(s.me)), s.dest)
			default:
				s.dest = d
				s.want = filepath.Join(filepath.Dir(filepath.Clean(s.me)), d)
			}
			// stay inside this task's tree
			w := s.want
			if !filepath.IsAbs(w) {
				w = "/work/" + w
			}
			if !strings.HasPrefix(filepath.Clean(w), root+"/") {
				s.dest = root + "/a"
				s.want = s.dest
			}
			m := filepath.Clean(s.me)
			if m == root || m == up {
				switch o.K {
				case "remove", "removeall", "rename", "move": // its own root
					continue
				}
			}
			if o.K == "chdir" {
				cwd = "?" // from here on only absolute objects
			}
			steps[t] = append(steps[t], s)
		}
	}
	now := make([]*step, n+1)
	fsys.Hook = func(op, name string, k int) (in simos.Inject) {
		if p := simrt.Proc(); p > 0 && now[p] != nil {
			in.Err = now[p].f1.ask(op)
		}
		return
	}
	var tasks []func()
	for t := 0; t < n; t++ {
		tasks = append(tasks, func() {
			simrt.SetProc(t + 1)
			for _, s := range steps[t] {
				now[t+1] = s
				s.a.p = core.Try(func() { lib(s, &s.a) })
				now[t+1] = nil
			}
		})
	}
	o := c.Sim(tasks)
	fsys.Hook = nil
	if o.End == "reccap" {
		return
	}
	if o.End != "done" {
		c.Fail("ops/hang", "did not end: %s %v %v", o.End, o.Stuck, o.Panics)
		return
	}
	if l := fsys.Leaked(); len(l) > 0 {
		c.Fail("ops/leak", "still open: %v", l)
	}
	// the same on the twin, each task's operations in its own tree
	for t := 0; t < n; t++ {
		root := fmt.Sprintf("/work/t%d", t)
		tw := twin.Clone()
		keep := simos.Cur
		simos.Cur = tw
		var st *step
		tw.Hook = func(op, name string, k int) (in simos.Inject) {
			if st != nil {
				in.Err = st.f2.ask(op)
			}
			return
		}
		c.Solo(func() {
			for _, s := range steps[t] {
				st = s
				direct(s, &s.b)
			}
		})
		simos.Cur = keep
		for i, s := range steps[t] {
			id := fmt.Sprintf("task %d step %d %s(%s", t, i, s.o.K, s.me)
			switch s.o.K {
			case "rename", "move", "link", "symlink":
				id += ", " + s.dest
			}
			id += ")"
			c.Log("%s: %s %s", id, errText(s.a.err), s.a.val)
			if s.f2 != nil && s.f2.hit != "" {
				c.Fire("fs-" + s.f2.hit + "-error")
			}
			if s.b.err == nil {
				c.Probe("ok-" + s.o.K)
			}
			if s.a.p != "" {
				c.Fail("ops/panic", "%s panicked: %s", id, s.a.p)
				return
			}
			if x, y := errText(s.a.err), errText(s.b.err); x != y {
				c.Fail("ops/result", "%s gives %q, the system call %q", id, x, y)
				return
			}
			if s.a.val != s.b.val {
				c.Fail("ops/result", "%s gives %q, the system call %q", id, s.a.val, s.b.val)
				return
			}
			if s.a.place != s.b.place {
				c.Fail("ops/place", "%s returned the path %q, want %q", id, s.a.place, s.b.place)
				return
			}
			if x, y := part(s.a.dump, root, n == 1), part(s.b.dump, root, n == 1); norm(x) != norm(y) {
				c.Fail("ops/effect", "%s: the tree afterwards is\n%s\nwith the system call it is\n%s", id, x, y)
				return
			}
		}
	}
	// nothing outside
	for _, d := range []string{"/tmp", "/etc"} {
		if x, y := part(strings.Join(fsys.Dump(), "\n"), d, false), part(strings.Join(twin.Dump(), "\n"), d, false); x != y {
			c.Fail("ops/effect", "%s changed from\n%s\nto\n%s", d, y, x)
		}
	}
}

// norm renumbers the nodes of a dump in order of appearance.
func norm(d string) string {
	ids := map[string]string{}
	var b []string
	for _, l := range strings.Split(d, "\n") {
		if k := strings.Index(l, " #"); k >= 0 {
			e := strings.IndexByte(l[k+2:], ' ')
			id := l[k+2 : k+2+e]
			if ids[id] == "" {
				ids[id] = fmt.Sprint(len(ids) + 1)
			}
			l = l[:k+2] + ids[id] + l[k+2+e:]
		}
		b = append(b, l)
	}
	return strings.Join(b, "\n")
}
