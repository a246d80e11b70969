// simosconf compares the simulated file system with the real one: random
// sequences of calls in a scratch directory, results and trees compared after
// every call. A development tool; no check runs it.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"gxsim/rng"
	"gxsim/simos"
)

var root string

func errText(e error) string {
	if e == nil {
		return "ok"
	}
	var pe *os.PathError
	var le *os.LinkError
	switch {
	case errors.As(e, &pe):
		return fmt.Sprintf("%s %v at %s", pe.Op, pe.Err, pe.Path)
	case errors.As(e, &le):
		return fmt.Sprintf("%s %v at %s, %s", le.Op, le.Err, le.Old, le.New)
	}
	return e.Error()
}

func realDump() string {
	var out []string
	ids := map[uint64]int{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		st := fi.Sys().(*syscall.Stat_t)
		s := p + " " + fi.Mode().String() + " "
		switch {
		case fi.IsDir():
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += "-> " + t
		default:
			if _, ok := ids[st.Ino]; !ok {
				ids[st.Ino] = len(ids)
			}
			d, _ := os.ReadFile(p)
			s += "#" + strconv.Itoa(ids[st.Ino]) + " " + strconv.Quote(string(d))
		}
		out = append(out, s+fmt.Sprintf(" own=%d:%d", st.Uid, st.Gid))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func simDump() string {
	var out []string
	ids := map[string]string{}
	for _, l := range simos.Cur.Dump() {
		if !strings.HasPrefix(l, root) {
			continue
		}
		if k := strings.Index(l, " #"); k >= 0 {
			e := strings.IndexByte(l[k+2:], ' ')
			id := l[k+2 : k+2+e]
			if ids[id] == "" {
				ids[id] = strconv.Itoa(len(ids))
			}
			l = l[:k+2] + ids[id] + l[k+2+e:]
		}
		out = append(out, l)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type rw interface {
	io.ReadWriteSeeker
	io.Closer
	Truncate(int64) error
	Readdirnames(int) ([]string, error)
	WriteString(string) (int, error)
	ReadAt([]byte, int64) (int, error)
}

func use(f rw, k int) string {
	var b strings.Builder
	n, e := f.WriteString(strings.Repeat("xyz", k%7))
	fmt.Fprintln(&b, n, errText(e))
	if ns, e := f.Readdirnames(k%2 - 1); e == nil { // a directory
		sort.Strings(ns)
		fmt.Fprintln(&b, ns, errText(f.Close()))
		return b.String()
	}
	o, e := f.Seek(int64(k%5), k%3)
	fmt.Fprintln(&b, o, errText(e))
	buf := make([]byte, 4)
	n, e = f.Read(buf)
	fmt.Fprintln(&b, n, buf[:max(n, 0)], errText(e))
	n, e = f.ReadAt(buf, 2)
	fmt.Fprintln(&b, n, buf[:max(n, 0)], errText(e))
	if k%4 == 0 {
		fmt.Fprintln(&b, errText(f.Truncate(int64(k%9))))
	}
	ns, e := f.Readdirnames(k%2 - 1)
	sort.Strings(ns)
	fmt.Fprintln(&b, ns, errText(e))
	fmt.Fprintln(&b, errText(f.Close()), errText(f.Close()))
	_, e = f.Read(buf)
	fmt.Fprintln(&b, errText(e))
	return b.String()
}

func fiText(fi os.FileInfo, e error) string {
	if e != nil {
		return errText(e)
	}
	if fi.IsDir() {
		return fmt.Sprint(fi.Name(), fi.Mode())
	}
	return fmt.Sprint(fi.Name(), fi.Size(), fi.Mode())
}

func pair[T rw](f T, e error, k int) string {
	if e != nil {
		return errText(e)
	}
	return use(f, k)
}

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	d, err := os.MkdirTemp("", "simosconf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	syscall.Umask(0o22)
	bad := 0
	for i := 0; i < n && bad < 10; i++ {
		root = filepath.Join(d, "r"+strconv.Itoa(i))
		os.MkdirAll(root, 0o755)
		simos.Reset()
		simos.Cur.PutDir(root)
		os.Chdir(root)
		simos.Chdir(root)
		r := rng.New(uint64(i))
		nm := func() string {
			p := r.PickS("a", "b", "c")
			for k := r.Pick(0, 0, 1, 1, 2); k > 0; k-- {
				p += "/" + r.PickS("a", "b", "c", "c", "..", ".")
			}
			if r.P(0.1) {
				p += "/"
			}
			if r.P(0.3) {
				p = root + "/" + p
			}
			return p
		}
		var hist []string
		for k := 0; k < 25; k++ {
			p, q := nm(), nm()
			if strings.Count(filepath.Clean(p)+filepath.Clean(q), "..") > 0 {
				continue
			}
			p, q = filepath.Clean(p), filepath.Clean(q) // the library cleans its paths
			a := r.N(1000)
			var x, y string
			op := r.N(18)
			switch op {
			case 0:
				x, y = errText(os.Mkdir(p, 0o755)), errText(simos.Mkdir(p, 0o755))
			case 1:
				x, y = errText(os.MkdirAll(p, 0o755)), errText(simos.MkdirAll(p, 0o755))
			case 2, 3:
				fl := []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE}[r.N(9)]
				f, e := os.OpenFile(p, fl, 0o644)
				x = pair(f, e, a)
				g, e := simos.OpenFile(p, fl, 0o644)
				y = pair(g, e, a)
				p += fmt.Sprint(" flags ", fl)
			case 4:
				x, y = errText(os.Remove(p)), errText(simos.Remove(p))
			case 5:
				if r.P(0.3) {
					x, y = errText(os.RemoveAll(p)), errText(simos.RemoveAll(p))
				}
			case 6, 7:
				x, y = errText(os.Rename(p, q)), errText(simos.Rename(p, q))
			case 8:
				x, y = errText(os.Link(p, q)), errText(simos.Link(p, q))
			case 9, 10:
				t := r.PickS("a", "b", "../a", ".", "nowhere", root+"/a", "a/b", "c/")
				x, y = errText(os.Symlink(t, p)), errText(simos.Symlink(t, p))
				q = t
			case 11:
				x, y = errText(os.Truncate(p, int64(a%20))), errText(simos.Truncate(p, int64(a%20)))
			case 12:
				m := os.FileMode([]int{0o755, 0o644, 0o700, 0o777}[a%4])
				x, y = errText(os.Chmod(p, m)), errText(simos.Chmod(p, m))
			case 13:
				f, e := os.Stat(p)
				g, e2 := simos.Stat(p)
				x, y = fiText(f, e), fiText(g, e2)
			case 14:
				f, e := os.Lstat(p)
				g, e2 := simos.Lstat(p)
				x, y = fiText(f, e), fiText(g, e2)
			case 15:
				f, e := os.Readlink(p)
				g, e2 := simos.Readlink(p)
				x, y = f+errText(e), g+errText(e2)
			case 16:
				f, e := filepath.EvalSymlinks(p)
				g, e2 := simos.FpEvalSymlinks(p)
				x, y = f+errText(e), g+errText(e2)
			case 17:
				filepath.Walk(p, func(p string, fi os.FileInfo, err error) error {
					x += p + fiText(fi, err) + ";"
					return nil
				})
				simos.FpWalk(p, func(p string, fi os.FileInfo, err error) error {
					y += p + fiText(fi, err) + ";"
					return nil
				})
			}
			hist = append(hist, fmt.Sprintf("%d %s %s -> %s", op, p, q, strings.ReplaceAll(x, "\n", "|")))
			if a, b := realDump(), simDump(); (x == "ok") != (y == "ok") || !strings.Contains(x, " at ") && x != y || a != b {
				bad++
				fmt.Printf("seed %d step %d\nreal: %s\nsim:  %s\n", i, k, x, y)
				if a != b {
					fmt.Printf("REAL\n%s\nSIM\n%s\n", a, b)
				}
				fmt.Println(strings.Join(hist, "\n"))
				break
			}
		}
		os.Chdir("/")
		os.RemoveAll(root)
	}
	fmt.Println("differences:", bad, "of", n)
}
