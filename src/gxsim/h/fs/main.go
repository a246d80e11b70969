// Harness for fingerprints, listings and path operations (C20, C21, C22).
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"path"
	"sort"
	"strings"
	"syscall"

	"gxsim/core"
	"gxsim/rng"
	"gxsim/simos"
	"gxsim/simrt"

	"github.com/vipally/gx/fs"
	xhash "github.com/vipally/gx/hash"
)

func main() {
	core.Register("tree-hash", genHash, runTree)
	core.Register("tree-list", genList, runTree)
	core.Register("path-ops", genOps, runOps)
	core.Register("cwd", genCwd, runCwd)
	core.Main()
}

var errnos = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ESTALE, syscall.ENOMEM, syscall.ENOENT, syscall.ELOOP}

// ent is one entry of a generated tree.
type ent struct {
	path string // below the root of the tree, "" for the root
	kind byte   // f, d, l
	data []byte
	size int64 // of a file that is not read, else 0
	to   string
	kids []*ent
}

func (e *ent) walk(fn func(*ent)) {
	fn(e)
	for _, k := range e.kids {
		k.walk(fn)
	}
}

// content makes the bytes of a file. Some sizes span several reads.
func content(size int, seed int64) []byte {
	return rng.New(uint64(seed)).Bytes(size)
}

func genTree(r *rng.R, links bool) []core.Op {
	var ops []core.Op
	dirs := []string{""}
	var files []string
	name := func() string {
		return r.PickS("a", "b", "c", "d", "e.txt", "x y", ".h", "日本", "...", "A", "z9", " lead", "trail ", "a\\b", "c:d", "..x", "%41", "a\nb", "*", "b~", "~", "~x", " ", "$HOME", "CVS", ".git", "b.tmp", "é", "a\xffb", "\t", "con", "#x#", "lost+found", strings.Repeat("n", r.Pick(100, 200, 255)))
	}
	used := map[string]bool{}
	if r.P(0.04) { // one wide directory
		d := r.PickS("", "w")
		if d != "" {
			dirs = append(dirs, d)
			ops = append(ops, core.Op{K: "d", S: d})
			used[d] = true
		}
		n := r.Pick(11, 17, 33, 65, 101)
		if r.P(0.1) {
			n = r.Pick(257, 513, 1025, 5000)
		}
		for i := 0; i < n; i++ {
			p := path.Join(d, fmt.Sprintf("w%d", i))
			if r.P(0.2) {
				ops = append(ops, core.Op{K: "d", S: p})
			} else {
				ops = append(ops, core.Op{K: "f", S: p, A: []int64{int64(r.N(4)), int64(r.N(1 << 30))}})
			}
		}
	}
	if r.P(0.03) { // one deep branch
		d := "v"
		for i, n := 0, r.Pick(9, 20, 40); i < n; i++ {
			ops = append(ops, core.Op{K: "d", S: d})
			if i == n-1 || r.P(0.2) {
				ops = append(ops, core.Op{K: "f", S: d + "/f", A: []int64{int64(r.N(4)), int64(r.N(1 << 30))}})
			}
			d += "/v"
		}
	}
	for k := r.N(14); k > 0; k-- {
		d := dirs[r.N(len(dirs))]
		p := path.Join(d, name())
		if used[p] {
			continue
		}
		used[p] = true
		switch r.N(8) {
		case 0, 1, 2:
			dirs = append(dirs, p)
			ops = append(ops, core.Op{K: "d", S: p})
		case 3:
			if links {
				to := ""
				switch r.N(4) {
				case 0:
					to = "nowhere"
				case 1:
					to = "." // a loop
					if d == "" {
						to = r.PickS(".", "/T") // the root of the tree
					}
				default:
					if len(files) > 0 {
						to = "/T/" + files[r.N(len(files))]
					} else {
						to = "/work"
					}
				}
				ops = append(ops, core.Op{K: "l", S: p, A: []int64{0, 0}})
				ops[len(ops)-1].S = p + "\x00" + to
				continue
			}
			fallthrough
		default:
			size := r.Pick(0, 0, 1, 2, 7, 100, 511, 512, 513, 5000)
			if r.P(0.04) {
				size = r.Pick(32768, 32769, 40000, 70000)
			}
			if r.P(0.003) {
				size = r.Pick(1<<18+1, 1<<20+1, 2<<20, 5<<20)
				if r.P(0.15) {
					size = 17<<20 + 1
				}
			}
			seed := int64(r.N(1 << 30))
			if r.P(0.3) { // the same content again
				seed = 5
				size = r.Pick(0, 9, 600)
			}
			files = append(files, p)
			ops = append(ops, core.Op{K: "f", S: p, A: []int64{int64(size), seed}})
		}
	}
	return ops
}

// build makes the reference tree of the entries that still have a parent.
func build(ops []core.Op) *ent {
	root := &ent{kind: 'd'}
	at := map[string]*ent{"": root}
	for _, o := range ops {
		p, to, _ := strings.Cut(o.S, "\x00")
		d := path.Dir(p)
		if d == "." {
			d = ""
		}
		up := at[d]
		if up == nil || up.kind != 'd' || at[p] != nil || p == "" {
			continue
		}
		e := &ent{path: p, kind: o.K[0], to: to}
		if e.kind == 'f' {
			if o.Arg(0) > 1<<30 {
				e.size = o.Arg(0)
			} else {
				e.data = content(int(o.Arg(0)), o.Arg(1))
			}
		}
		at[p] = e
		up.kids = append(up.kids, e)
	}
	return root
}

// put installs the tree at root, entries in an order drawn from r.
func put(f *simos.FS, root string, t *ent, r *rng.R) {
	f.PutDir(root)
	var all []*ent
	t.walk(func(e *ent) { all = append(all, e) })
	if r != nil {
		p := r.Perm(len(all))
		b := make([]*ent, len(all))
		for i, k := range p {
			b[i] = all[k]
		}
		all = b
		sort.SliceStable(all, func(i, j int) bool { // parents first
			return strings.Count(all[i].path, "/") < strings.Count(all[j].path, "/")
		})
	}
	for _, e := range all {
		if e.path == "" {
			continue
		}
		p := root + "/" + e.path
		switch e.kind {
		case 'd':
			f.PutDir(p)
		case 'f':
			if e.size > 0 {
				f.PutSize(p, e.size)
			} else {
				f.Put(p, e.data)
			}
		case 'l':
			f.PutLink(p, strings.Replace(e.to, "/T", root, 1))
		}
	}
}

type kinds struct {
	ops  []string
	read bool
}

func genReaders(r *rng.R, ops kinds, fault bool) *core.Plan {
	p := &core.Plan{Sched: core.GenSched(r), Cap: 20000000}
	links := r.P(0.25)
	p.Tasks = append(p.Tasks, genTree(r, links))
	p.Set("links", 0)
	if links {
		p.Cap = 30000000 // loops of links multiply
		p.Set("links", 1)
	}
	p.Set("order", r.N(1<<20))
	p.Set("short", r.N(2))
	if len(p.Tasks[0]) > 2500 && ops.read {
		p.Tasks[0] = p.Tasks[0][:1500]
	}
	if len(p.Tasks[0]) > 400 {
		p.Sparse(r)
	}
	if ops.read && r.P(0.05) {
		p.Set("nosize", 1)
	}
	if !ops.read && r.P(0.1) { // huge files, for calls that only look at sizes
		for i := range p.Tasks[0] {
			if o := &p.Tasks[0][i]; o.K == "f" && r.P(0.5) {
				o.A[0] = int64(r.Pick(1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<33+5, 1<<45+1))
			}
		}
	}
	for t, n := 0, r.Pick(1, 1, 2, 3); t < n; t++ {
		var l []core.Op
		for k := r.Range(1, 3); k > 0; k-- {
			o := core.Op{K: ops.ops[r.N(len(ops.ops))], A: []int64{int64(r.N(1 << 20)), int64(r.N(1 << 20)), 0, 0}}
			if fault && r.P(0.6) {
				o.S = r.PickS("open", "open", "read", "read", "readdir", "readdir", "fstat", "lstat", "stat", "close", "any")
				o.A[2] = int64(1 + r.N(r.Pick(1, 3, 10, 25))) // the nth such call
				o.A[3] = int64(r.N(1 << 10))
			}
			l = append(l, o)
		}
		p.Tasks = append(p.Tasks, l)
	}
	if r.P(0.3) {
		for i := r.N(3); i > 0; i-- {
			p.AddFault("stall", r.N(len(p.Tasks)-1), int64(r.N(100)), int64(1+r.N(400)))
		}
	}
	return p
}

func genHash(r *rng.R, tier string) *core.Plan {
	return genReaders(r, kinds{[]string{"finger", "finger", "hash", "twin", "change", "change", "htwin", "hchange"}, true}, r.P(0.6))
}

func genList(r *rng.R, tier string) *core.Plan {
	return genReaders(r, kinds{[]string{"subs", "files", "dirs", "leaf", "deep", "stat", "stat", "any"}, false}, r.P(0.6))
}

// res is the outcome of one library call.
type res struct {
	op     *core.Op
	root   string
	tree   *ent
	all    []fs.FileHash
	all2   []fs.FileHash
	err    error
	err2   error
	list   []string
	nd, nf int
	size   uint64
	info   string
	p      string
	what   string
	method xhash.HashMethod
	salt   string
	opt    fs.FsOption
	files  map[string]bool
	gone   bool // the path does not exist
	notDir bool // the path is that of a file
	// the injected faults: the first one, and the paths of all
	fired bool
	path  string
	kind  string
	bad   []string
	calls int
}

// renamed returns a copy of t at path with other names below it.
func renamed(t *ent, at string, r *rng.R) *ent {
	c := *t
	c.path = at
	c.kids = nil
	p := r.Perm(len(t.kids))
	for i, k := range t.kids {
		c.kids = append(c.kids, renamed(k, path.Join(at, fmt.Sprintf("n%d", p[i])), r))
	}
	return &c
}

// mutate returns a copy of t with one change, "" if there is none to make.
func mutate(t *ent, r *rng.R) (*ent, string) {
	var cp func(e *ent) *ent
	cp = func(e *ent) *ent {
		c := *e
		c.data = append([]byte(nil), e.data...)
		c.kids = nil
		for _, k := range e.kids {
			c.kids = append(c.kids, cp(k))
		}
		return &c
	}
	n := cp(t)
	var files, dirs []*ent
	parent := map[*ent]*ent{}
	n.walk(func(e *ent) {
		if e.kind == 'f' {
			files = append(files, e)
		} else if e.kind == 'd' {
			dirs = append(dirs, e)
		}
		for _, k := range e.kids {
			parent[k] = e
		}
	})
	sort.SliceStable(files, func(i, j int) bool { return len(files[i].data) > len(files[j].data) })
	if len(files) > 0 && len(files[0].data) > 30000 && r.P(0.6) { // the changes go to the largest one
		f := files[0]
		k := r.Pick(len(f.data)-1, r.N(len(f.data)), r.N(len(f.data)))
		f.data[k] ^= 1 << uint(r.N(8))
		return n, fmt.Sprintf("a bit of byte %d of %q flipped", k, f.path)
	}
	for try := 0; try < 20; try++ {
		switch r.N(6) {
		case 0: // flip one bit
			if len(files) > 0 {
				f := files[r.N(len(files))]
				if len(f.data) > 0 {
					k := r.Pick(0, len(f.data)-1, r.N(len(f.data)))
					f.data[k] ^= 1 << uint(r.N(8))
					return n, fmt.Sprintf("a bit of byte %d of %q flipped", k, f.path)
				}
			}
		case 1:
			if len(files) > 0 {
				f := files[r.N(len(files))]
				f.data = append(f.data, byte(r.N(3)))
				return n, fmt.Sprintf("a byte added to %q", f.path)
			}
		case 2:
			if len(files) > 0 {
				f := files[r.N(len(files))]
				if len(f.data) > 0 {
					f.data = f.data[:len(f.data)-1]
					return n, fmt.Sprintf("the last byte of %q cut", f.path)
				}
			}
		case 3:
			if len(files) > 0 {
				f := files[r.N(len(files))]
				up := parent[f]
				for i, k := range up.kids {
					if k == f {
						up.kids = append(up.kids[:i:i], up.kids[i+1:]...)
					}
				}
				return n, fmt.Sprintf("%q (%d bytes) removed", f.path, len(f.data))
			}
		case 4:
			d := dirs[r.N(len(dirs))]
			f := &ent{path: path.Join(d.path, "new-file"), kind: 'f', data: content(r.Pick(0, 1, 600), 9)}
			if r.N(2) == 0 && len(files) > 0 {
				f.data = files[r.N(len(files))].data
			}
			d.kids = append(d.kids, f)
			return n, fmt.Sprintf("%q (%d bytes) added", f.path, len(f.data))
		case 5:
			d := dirs[r.N(len(dirs))]
			f := &ent{path: path.Join(d.path, "new-dir"), kind: 'd'}
			d.kids = append(d.kids, f)
			return n, fmt.Sprintf("directory %q added", f.path)
		}
	}
	return nil, ""
}

var methods = []xhash.HashMethod{xhash.MD5, xhash.SHA1, xhash.SHA256, xhash.SHA512, xhash.FINGERPRINT, xhash.CRC32, xhash.CRC64, xhash.NONE}

func std(m xhash.HashMethod) hash.Hash {
	switch m {
	case xhash.MD5:
		return md5.New()
	case xhash.SHA1:
		return sha1.New()
	case xhash.SHA256:
		return sha256.New()
	case xhash.SHA512:
		return sha512.New()
	}
	return nil
}

func runTree(c *core.Ctx) {
	if len(c.Plan.Tasks) < 2 {
		c.Trivial()
		return
	}
	base := build(c.Plan.Tasks[0])
	links := false
	files := map[string]bool{}
	base.walk(func(e *ent) {
		links = links || e.kind == 'l'
		if e.kind == 'f' {
			files[e.path] = true
		}
	})
	fsys := simos.Reset()
	or := rng.New(uint64(c.Plan.Int("order")))
	fsys.Shuffle = rng.New(or.U64())
	fsys.NoSizes = c.Plan.Int("nosize") == 1
	put(fsys, "/data/T", base, or)
	work := c.Plan.Tasks[1:]
	recs := make([][]*res, len(work))
	cur := make([]*res, len(work)+1) // by process: the call under way
	short := c.Plan.Int("short") == 1
	hr := rng.New(or.U64())
	for t := range work {
		for i := range work[t] {
			o := &work[t][i]
			x := &res{op: o, root: "/data/T", tree: base, files: files}
			recs[t] = append(recs[t], x)
			rr := rng.New(uint64(o.Arg(1))*1000003 + uint64(o.Arg(0)))
			var dirs, any []*ent
			base.walk(func(e *ent) {
				any = append(any, e)
				if e.kind == 'd' {
					dirs = append(dirs, e)
				}
			})
			switch o.K {
			case "finger", "hash":
				x.tree = any[rr.N(len(any))]
				if rr.P(0.6) {
					x.tree = base
				}
				if x.tree.path != "" {
					x.root += "/" + x.tree.path
				}
				if x.tree.kind == 'l' {
					x.tree, x.root = base, "/data/T"
				}
			case "twin", "htwin":
				twin := base
				if !links && rr.P(0.5) {
					twin = renamed(base, "", rr)
				}
				put(fsys, fmt.Sprintf("/data/twin%d-%d", t, i), twin, rr)
			case "change", "hchange":
				m, what := mutate(base, rr)
				if m != nil {
					put(fsys, fmt.Sprintf("/data/twin%d-%d", t, i), m, rr)
				}
				x.what = what
			default:
				x.tree = dirs[rr.N(len(dirs))]
				if rr.P(0.5) {
					x.tree = base
				}
				if x.tree.path != "" {
					x.root += "/" + x.tree.path
				}
			}
			if o.K == "finger" || o.K == "hash" || !strings.Contains(o.K, "twin") && !strings.Contains(o.K, "change") {
				switch rr.N(20) {
				case 0:
					x.root += rr.PickS("/none", "/none/below", "x")
					x.gone = true
				case 1:
					for _, e := range any {
						if e.kind == 'f' && rr.P(0.5) {
							x.tree, x.root = e, "/data/T/"+e.path
							x.notDir = o.K != "finger" && o.K != "hash" && o.K != "stat"
							break
						}
					}
				}
			}
			switch rr.N(4) { // the same place written differently
			case 0:
				x.root = "/data/../data/T" + strings.TrimPrefix(x.root, "/data/T")
			case 1:
				x.root += "/"
			}
			x.method = methods[rr.N(len(methods))]
			if rr.P(0.4) {
				x.salt = rr.PickS("s", "salt and more", "\x00")
			}
			x.opt = fs.FsOption(rr.N(32))
		}
	}
	fsys.Hook = func(op, name string, n int) (in simos.Inject) {
		if short && (op == "read" || op == "readdir") && n > 1 && op == "read" && hr.P(0.3) {
			c.Fire("short-read")
			in.Limit = 1 + hr.N(n)
		}
		pr := simrt.Proc()
		if pr == 0 || cur[pr] == nil {
			return
		}
		x := cur[pr]
		again := x.op.Arg(3)&16 != 0
		if x.op.S == "" || x.op.Arg(2) == 0 || x.fired && !again {
			return
		}
		if x.op.S == op || x.op.S == "any" && op != "close" {
			x.calls++
			if int64(x.calls)%x.op.Arg(2) == 0 {
				if !x.fired {
					x.fired, x.path, x.kind = true, name, op
				}
				x.bad = append(x.bad, path.Clean(name))
				in.Err = errnos[int(x.op.Arg(3))%len(errnos)]
				if (op == "read" || op == "readdir") && x.op.Arg(3)&8 != 0 {
					in.After = true
					in.Limit = 1
				}
				c.Fire("fs-" + op + "-error")
			}
		}
		return
	}
	var tasks []func()
	for t := range recs {
		tasks = append(tasks, func() {
			simrt.SetProc(t + 1)
			for i, x := range recs[t] {
				cur[t+1] = x
				second := fmt.Sprintf("/data/twin%d-%d", t, i)
				x.p = core.Try(func() {
					switch x.op.K {
					case "finger", "twin", "change":
						n, err := fs.FilePath(x.root).Fingerprint()
						x.err = err
						if err == nil {
							x.all = n.All()
						}
						if x.op.K != "finger" && (x.op.K == "twin" || x.what != "") {
							n, err := fs.FilePath(second).Fingerprint()
							x.err2 = err
							if err == nil {
								x.all2 = n.All()
							}
						}
					case "hash", "htwin", "hchange":
						n, err := fs.FilePath(x.root).Hash(x.method, x.salt)
						x.err = err
						if err == nil {
							x.all = n.All()
						}
						if x.op.K != "hash" && (x.op.K == "htwin" || x.what != "") {
							n, err := fs.FilePath(second).Hash(x.method, x.salt)
							x.err2 = err
							if err == nil {
								x.all2 = n.All()
							}
						}
					case "subs":
						x.list, x.err = fs.GetSubs(x.root)
					case "files":
						x.list, x.err = fs.GetSubFiles(x.root)
					case "dirs":
						x.list, x.err = fs.GetSubDirs(x.root)
					case "leaf":
						x.list, x.err = fs.GetLeafDirs(x.root)
					case "deep":
						x.list, x.err = fs.GetDeepFiles(x.root)
					case "any":
						x.list, x.err = fs.CollectSubs(x.root, x.opt)
					case "stat":
						x.nd, x.nf, x.size, x.info = fs.FilePath(x.root).Statistic()
					}
				})
				cur[t+1] = nil
			}
		})
	}
	o := c.Sim(tasks)
	fsys.Hook = nil
	if o.End == "reccap" || o.End == "stepcap" && links {
		c.Unknown()
		return
	}
	if o.End != "done" {
		c.Fail("tree/hang", "did not end: %s %v %v", o.End, o.Stuck, o.Panics)
		return
	}
	if l := fsys.Leaked(); len(l) > 0 {
		c.Fail("tree/leak", "still open after all calls returned: %v", l)
	}
	for t := range recs {
		for i, x := range recs[t] {
			id := fmt.Sprintf("task %d op %d %s(%s)", t, i, x.op.K, x.root)
			c.Log("%s fired %v %s %s err %v %v n %d %d list %d stat %d %d %d", id, x.fired, x.kind, x.path, x.err, x.err2, len(x.all), len(x.all2), len(x.list), x.nd, x.nf, x.size)
			if x.p != "" {
				c.Fail("tree/panic", "%s panicked: %s", id, x.p)
				continue
			}
			if x.gone || x.notDir {
				if x.op.K == "stat" {
					if x.nd+x.nf != 0 || x.size != 0 || !strings.Contains(x.info, path.Clean(x.root)) {
						c.Fail("list/silent", "%s of a path that does not exist gives %d directories, %d files, %d bytes, %q", id, x.nd, x.nf, x.size, x.info)
					}
				} else if x.err == nil {
					what := "does not exist"
					if x.notDir {
						what = "is a file"
					}
					if strings.HasPrefix(x.op.K, "f") && x.op.K != "files" || x.op.K == "hash" {
						c.Fail("hash/silent", "%s reported no error although the path %s", id, what)
					} else {
						c.Fail("list/silent", "%s reported no error although the path %s", id, what)
					}
				}
				continue
			}
			switch x.op.K {
			case "finger", "hash", "twin", "change", "htwin", "hchange":
				judgeHash(c, id, x)
			case "stat":
				judgeStat(c, id, x)
			default:
				judgeList(c, id, x)
			}
		}
	}
}

// below gives the path of e as seen from a call on root for tree t.
func below(t, e *ent, root string) string {
	return path.Join(root, strings.TrimPrefix(strings.TrimPrefix(e.path, t.path), "/"))
}

// hasLinks tells whether a tree has links, and links that make opening fail.
func hasLinks(t *ent, files map[string]bool) (any, broken bool) {
	t.walk(func(e *ent) {
		if e.kind == 'l' {
			any = true
			if e.to != "/work" && !files[strings.TrimPrefix(e.to, "/T/")] {
				broken = true
			}
		}
	})
	return
}

func judgeHash(c *core.Ctx, id string, x *res) {
	any, broken := hasLinks(x.tree, x.files)
	reported := x.err != nil || x.err2 != nil
	if x.fired && x.kind != "close" {
		c.Probe("hash-fault")
		if !reported {
			c.Fail("hash/silent", "%s reported no error although %s of %s failed", id, x.kind, x.path)
		}
		return
	}
	if broken {
		c.Probe("hash-broken-link")
		if !reported {
			c.Fail("hash/silent", "%s reported no error although the tree has a link that leads nowhere or into itself", id)
		}
		return
	}
	if any {
		c.Probe("hash-link")
		return // what a link stands for is left open
	}
	if reported && !(x.fired && x.kind == "close") {
		c.Fail("hash/error", "%s failed although nothing went wrong: %v %v", id, x.err, x.err2)
		return
	}
	if reported {
		return
	}
	// every entry is described
	want := map[string]*ent{}
	total := map[*ent]uint64{}
	var sum func(e *ent) uint64
	sum = func(e *ent) uint64 {
		n := uint64(len(e.data))
		for _, k := range e.kids {
			n += sum(k)
		}
		total[e] = n
		return n
	}
	sum(x.tree)
	x.tree.walk(func(e *ent) { want[below(x.tree, e, x.root)] = e })
	if len(x.all) != len(want) {
		c.Fail("hash/complete", "%s describes %d entries of %d", id, len(x.all), len(want))
		return
	}
	same := map[string]string{}
	rev := map[string]string{}
	for k, h := range x.all {
		e := want[h.Path]
		if e == nil {
			c.Fail("hash/complete", "%s describes %q, which is not there (or twice)", id, h.Path)
			return
		}
		delete(want, h.Path)
		if k == 0 && e != x.tree {
			c.Fail("hash/complete", "%s: the first entry is %q", id, h.Path)
		}
		if h.IsDir != (e.kind == 'd') || uint64(h.Size) != total[e] && !simos.Cur.NoSizes {
			c.Fail("hash/complete", "%s: %q has size %d and is a directory: %v; want %d, %v", id, h.Path, uint64(h.Size), h.IsDir, total[e], e.kind == 'd')
			return
		}
		if e.kind == 'f' && !none(x) {
			s := string(e.data)
			if w, ok := same[s]; ok && w != h.Hash {
				c.Fail("hash/equal", "%s: two files with the same %d bytes have the hashes %s and %s", id, len(s), w, h.Hash)
			}
			same[s] = h.Hash
			if w, ok := rev[h.Hash]; ok && w != s && !weak(x) {
				c.Fail("hash/differ", "%s: two different files have the hash %s", id, h.Hash)
			}
			rev[h.Hash] = s
			if m := std(x.method); m != nil && isHash(x) {
				m.Write([]byte(x.salt))
				m.Write(e.data)
				if w := fmt.Sprintf("%x", m.Sum(nil)); w != h.Hash {
					c.Fail("hash/value", "%s: the hash of %q (%d bytes, salt %q) is %s, want %s", id, h.Path, len(e.data), x.salt, h.Hash, w)
				}
			}
		}
	}
	if len(x.all2) == 0 || none(x) {
		return
	}
	a, b := x.all[0], x.all2[0]
	switch x.op.K {
	case "twin", "htwin":
		c.Probe("twin")
		if a.Hash != b.Hash || a.Size != b.Size {
			c.Fail("hash/equal", "%s: two equal trees give %s and %s", id, a.Hash, b.Hash)
		}
	case "change", "hchange":
		c.Probe("change")
		if a.Hash == b.Hash {
			c.Fail("hash/differ", "%s: the result %s is the same with %s", id, a.Hash, x.what)
		}
	}
}

func isHash(x *res) bool { return strings.HasPrefix(x.op.K, "h") }
func none(x *res) bool   { return isHash(x) && x.method == xhash.NONE }
func weak(x *res) bool {
	return isHash(x) && (x.method == xhash.CRC32 || x.method == xhash.CRC64)
}

func judgeStat(c *core.Ctx, id string, x *res) {
	nd, nf, size := 0, 0, uint64(0)
	lnd, lnf, lsize := 0, 0, uint64(0) // at least, if x.path failed
	x.tree.walk(func(e *ent) {
		p := below(x.tree, e, x.root)
		lost := false
		for _, b := range x.bad {
			lost = lost || p == b || strings.HasPrefix(p, b+"/")
		}
		s := uint64(len(e.data)) + uint64(e.size)
		if e.kind == 'l' {
			s = uint64(len(strings.Replace(e.to, "/T", "/data/T", 1)))
		}
		if e.kind == 'd' {
			nd++
			if !lost {
				lnd++
			}
		} else {
			nf++
			size += s
			if !lost {
				lnf++
				lsize += s
			}
		}
	})
	if !x.fired || x.kind == "close" {
		if x.nd != nd || x.nf != nf || x.size != size || x.info != "" {
			c.Fail("list/stat", "%s gives %d directories, %d files, %d bytes, %q; want %d, %d, %d", id, x.nd, x.nf, x.size, x.info, nd, nf, size)
		}
		return
	}
	c.Probe("stat-fault")
	for _, b := range x.bad {
		if !strings.Contains(x.info, b) {
			c.Fail("list/silent", "%s does not name %s, whose %s failed: %q", id, b, x.kind, x.info)
		}
	}
	if x.nd < lnd || x.nd > nd || x.nf < lnf || x.nf > nf || x.size < lsize || x.size > size {
		c.Fail("list/stat", "%s gives %d directories, %d files, %d bytes; with %s failing at least %d, %d, %d and at most %d, %d, %d", id, x.nd, x.nf, x.size, x.bad, lnd, lnf, lsize, nd, nf, size)
	}
}

func judgeList(c *core.Ctx, id string, x *res) {
	if x.fired && x.kind != "close" {
		c.Probe("list-fault")
		if x.err == nil {
			c.Fail("list/silent", "%s reported no error although %s of %s failed", id, x.kind, x.path)
		}
		return
	}
	if x.err != nil {
		if !x.fired {
			c.Fail("list/error", "%s failed although nothing went wrong: %v", id, x.err)
		}
		return
	}
	var opt fs.FsOption
	switch x.op.K {
	case "subs":
		opt = fs.FsDir | fs.FsFile
	case "files":
		opt = fs.FsFile
	case "dirs":
		opt = fs.FsDir
	case "leaf":
		opt = fs.FsDir | fs.FsLeaf | fs.FsFullPath
	case "deep":
		opt = fs.FsFile | fs.FsDeep
	case "any":
		opt = x.opt
		if opt&fs.FsLeaf != 0 && opt&^fs.FsFullPath != fs.FsLeaf|fs.FsDir {
			return // leaf items together with others: not documented
		}
	}
	var want []string
	name := func(e *ent) string {
		if opt&fs.FsFullPath != 0 {
			return below(x.tree, e, x.root)
		}
		return path.Base(e.path)
	}
	var rec func(e *ent)
	rec = func(e *ent) {
		sub := false
		for _, k := range e.kids {
			if k.kind == 'd' {
				sub = true
				if opt&fs.FsDir != 0 && opt&fs.FsLeaf == 0 {
					want = append(want, name(k))
				}
				if opt&(fs.FsDeep|fs.FsLeaf) != 0 {
					rec(k)
				}
			} else if opt&fs.FsFile != 0 {
				want = append(want, name(k))
			}
		}
		if !sub && opt&(fs.FsLeaf|fs.FsDir) == fs.FsLeaf|fs.FsDir {
			if e == x.tree {
				want = append(want, "\x00")
			} else {
				want = append(want, name(e))
			}
		}
	}
	rec(x.tree)
	got := append([]string(nil), x.list...)
	for i, g := range got { // the listed directory itself, as it was written
		if len(want) == 1 && want[0] == "\x00" && (path.Clean(g) == path.Clean(x.root) || opt&fs.FsFullPath == 0) {
			got[i] = "\x00"
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
		c.Fail("list/wrong", "%s (options %d) gives %q, want %q", id, opt, got, want)
	}
}
