// Package inst makes the instrumented copy of the library: it reads packages
// from /repo's working tree and writes them into a scratch GOPATH with
//
//   - a yield point before every statement and in every loop body,
//   - read-modify-write statements on shared variables split into a read and a
//     write with a yield point between them,
//   - sync, sync/atomic, the clock, goroutines and channels, and (where the
//     group asks for it) the file system, the Windows API and the system's
//     random source redirected to the simulator.
//
// All edits are made inside the lines they belong to, so line numbers stay.
package inst

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Module is the import path of the library.
const Module = "github.com/vipally/gx"

// Options for one copy.
type Options struct {
	Repo    string   // root of the library's working tree
	Out     string   // GOPATH/src to write to
	SimRoot string   // directory of gxsim (to learn what the stubs export)
	Pkgs    []string // packages wanted, relative to the module; imports follow
	OS      bool     // redirect os, path/filepath, io/ioutil to simos
	Windows []string // packages built for Windows, syscall redirected to simwin
	Plain   bool     // copy without any instrumentation
	Extra   []Extra  // generated packages
}

// Extra is a package generated by the driver (instantiated templates).
type Extra struct {
	Path  string // import path below the module
	Files map[string]string
}

// Site is one yield point.
type Site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

type edit struct {
	off  int
	end  int // == off: insertion
	text string
	seq  int
}

type inst struct {
	o       Options
	sites   []Site
	exports map[string]map[string]bool // stub package -> exported names
	done    map[string]bool
	generic map[string]bool // package-level generic functions
	files   int
}

// Result of a copy.
type Result struct {
	Sites []Site
	Pkgs  []string
	Files int
}

// Run makes the copy.
func Run(o Options) (*Result, error) {
	in := &inst{o: o, exports: map[string]map[string]bool{}, done: map[string]bool{}, generic: map[string]bool{}}
	for _, p := range []string{"simtime", "simos", "simwin", "simrand"} {
		m, err := exported(filepath.Join(o.SimRoot, p))
		if err != nil {
			return nil, err
		}
		in.exports[p] = m
	}
	for _, e := range o.Extra {
		if err := in.extra(e); err != nil {
			return nil, err
		}
	}
	for _, p := range o.Pkgs {
		if err := in.pkg(p); err != nil {
			return nil, err
		}
	}
	r := &Result{Sites: in.sites, Files: in.files}
	for p := range in.done {
		r.Pkgs = append(r.Pkgs, p)
	}
	sort.Strings(r.Pkgs)
	return r, nil
}

func exported(dir string) (map[string]bool, error) {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							m[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m, nil
}

func (in *inst) pkg(rel string) error {
	if in.done[rel] {
		return nil
	}
	in.done[rel] = true
	dir := filepath.Join(in.o.Repo, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return fmt.Errorf("package %s: %v", rel, err)
	}
	win := false
	for _, w := range in.o.Windows {
		if w == rel {
			win = true
		}
	}
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", true
	if win {
		ctx.GOOS = "windows"
	}
	srcs := map[string]string{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			continue
		}
		switch filepath.Ext(n) {
		case ".go":
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			ok, err := ctx.MatchFile(dir, n)
			if err != nil {
				return err
			}
			if !ok {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				return err
			}
			srcs[n] = string(b)
		case ".s", ".c", ".h":
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				return err
			}
			if err := in.write(rel, n, b); err != nil {
				return err
			}
		}
	}
	if len(srcs) == 0 {
		return fmt.Errorf("package %s: no Go files", rel)
	}
	return in.sources(rel, srcs, win)
}

func (in *inst) extra(e Extra) error {
	in.done[e.Path] = true
	return in.sources(e.Path, e.Files, false)
}

func (in *inst) write(rel, name string, b []byte) error {
	d := filepath.Join(in.o.Out, Module, rel)
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	// a "#" in a file name is legal here but not for every tool
	return os.WriteFile(filepath.Join(d, strings.ReplaceAll(name, "#", "_")), b, 0o644)
}

type file struct {
	name  string
	src   string
	ast   *ast.File
	edits []edit
	imp   map[string]string // local name -> import path
	used  map[string]bool   // stub imports needed
	keep  map[string]string // keep-alive declarations
}

func (in *inst) sources(rel string, srcs map[string]string, win bool) error {
	fset := token.NewFileSet()
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	var files []*file
	globals := map[string]bool{}
	var deps []string
	chans := false
	for _, n := range names {
		a, err := parser.ParseFile(fset, filepath.Join(in.o.Repo, rel, n), srcs[n], parser.ParseComments)
		if err != nil {
			return err
		}
		f := &file{name: n, src: srcs[n], ast: a, imp: map[string]string{}, used: map[string]bool{}, keep: map[string]string{}}
		files = append(files, f)
		for _, im := range a.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if strings.HasPrefix(p, Module+"/") {
				deps = append(deps, strings.TrimPrefix(p, Module+"/"))
			}
			ln := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				ln = im.Name.Name
			}
			f.imp[ln] = p
		}
		for _, d := range a.Decls {
			if g, ok := d.(*ast.FuncDecl); ok && g.Recv == nil && g.Type.TypeParams != nil {
				in.generic[rel+"."+g.Name.Name] = true
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, nm := range s.(*ast.ValueSpec).Names {
						globals[nm.Name] = true
					}
				}
			}
		}
		if strings.Contains(srcs[n], "chan ") || strings.Contains(srcs[n], "<-") {
			chans = true
		}
	}
	if in.o.Plain {
		for _, f := range files {
			in.files++
			if err := in.write(rel, f.name, []byte(f.src)); err != nil {
				return err
			}
		}
	} else {
		var info *types.Info
		if chans {
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
			var as []*ast.File
			for _, f := range files {
				as = append(as, f.ast)
			}
			conf := types.Config{Error: func(error) {}, FakeImportC: true, Importer: importer.ForCompiler(fset, "source", nil)}
			conf.Check(rel, fset, as, info)
		}
		for _, f := range files {
			in.files++
			w := &walker{in: in, f: f, fset: fset, rel: rel, globals: globals, win: win, info: info}
			w.file()
			if err := in.write(rel, f.name, w.apply()); err != nil {
				return err
			}
		}
	}
	for _, d := range deps {
		if err := in.pkg(d); err != nil {
			return err
		}
	}
	return nil
}

type walker struct {
	in      *inst
	f       *file
	fset    *token.FileSet
	rel     string
	globals map[string]bool
	win     bool
	info    *types.Info
	fn      string
	tmp     int
}

func (w *walker) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *walker) text(n ast.Node) string { return w.f.src[w.off(n.Pos()):w.off(n.End())] }

func (w *walker) ins(p token.Pos, t string) {
	o := w.off(p)
	w.f.edits = append(w.f.edits, edit{o, o, t, len(w.f.edits)})
}

func (w *walker) rep(from, to token.Pos, t string) {
	w.f.edits = append(w.f.edits, edit{w.off(from), w.off(to), t, len(w.f.edits)})
}

func (w *walker) site(p token.Pos) int {
	id := len(w.in.sites) + 1
	pos := w.fset.Position(p)
	w.in.sites = append(w.in.sites, Site{id, w.rel + "/" + filepath.Base(pos.Filename) + ":" + strconv.Itoa(pos.Line), w.fn})
	return id
}

const rt = "simrt__"

func (w *walker) y(p token.Pos) string { return fmt.Sprintf("%s.Y(%d); ", rt, w.site(p)) }

func (w *walker) file() {
	f := w.f
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np, dn := "", ""
		switch p {
		case "sync":
			np, dn = "gxsim/simsync", "sync"
		case "sync/atomic":
			np, dn = "gxsim/simatomic", "atomic"
		}
		if np == "" {
			continue
		}
		if im.Name != nil {
			w.rep(im.Path.Pos(), im.Path.End(), strconv.Quote(np))
		} else {
			w.rep(im.Path.Pos(), im.Path.End(), dn+" "+strconv.Quote(np))
		}
	}
	for _, d := range f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				w.fn = w.text(fd.Recv.List[0].Type) + "." + w.fn
			}
		} else {
			w.fn = "init"
		}
		ast.Inspect(d, w.visit)
	}
}

func (w *walker) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		w.list(n.List)
	case *ast.CaseClause:
		w.list(n.Body)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			w.ins(n.Body.Lbrace+1, w.y(n.Body.Pos()))
		}
	case *ast.RangeStmt:
		if w.isChan(n.X) {
			w.rangeChan(n)
		} else if len(n.Body.List) == 0 {
			w.ins(n.Body.Lbrace+1, w.y(n.Body.Pos()))
		}
	case *ast.SelectStmt:
		w.selectStmt(n)
		return false
	case *ast.GoStmt:
		w.goStmt(n)
	case *ast.SendStmt:
		w.ins(n.Pos(), rt+".SendTo(")
		w.rep(n.Arrow, n.Arrow+2, ")(")
		w.ins(n.End(), ")")
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.rep(u.OpPos, u.OpPos+2, rt+".Recv2(")
				w.ins(u.End(), ")")
				for _, l := range n.Lhs {
					ast.Inspect(l, w.visit)
				}
				ast.Inspect(u.X, w.visit)
				return false
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			w.rep(n.OpPos, n.OpPos+2, rt+".Recv1(")
			w.ins(n.End(), ")")
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(n.Args) == 1 {
			w.rep(id.Pos(), id.End(), rt+".Close")
		}
	case *ast.SelectorExpr:
		w.selector(n)
	}
	return true
}

// list puts a yield point before every statement and splits
// read-modify-writes.
func (w *walker) list(ss []ast.Stmt) {
	for _, s := range ss {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		w.ins(s.Pos(), w.y(s.Pos()))
		w.split(s)
	}
}

func (w *walker) shared(e ast.Expr) bool {
	ok := false
	switch x := e.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		ok = true
	case *ast.Ident:
		if x.Name != "_" && w.globals[x.Name] {
			if x.Obj == nil {
				ok = true
			} else if vs, is := x.Obj.Decl.(*ast.ValueSpec); is {
				// declared at file level?
				for _, d := range w.f.ast.Decls {
					if g, is := d.(*ast.GenDecl); is {
						for _, s := range g.Specs {
							if s == vs {
								ok = true
							}
						}
					}
				}
			}
		}
	}
	if !ok {
		return false
	}
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			pure = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				pure = false
			}
		}
		return true
	})
	return pure
}

func (w *walker) split(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !w.shared(s.X) {
			return
		}
		l := w.text(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		w.ins(s.Pos(), fmt.Sprintf("{ gx__t := %s; %s", l, w.y(s.Pos())))
		w.rep(s.TokPos, s.TokPos+2, fmt.Sprintf(" = gx__t %s 1 }", op))
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !w.shared(s.Lhs[0]) {
			return
		}
		l := w.text(s.Lhs[0])
		switch s.Tok {
		case token.ASSIGN:
			if !strings.Contains(w.text(s.Rhs[0]), l) {
				return
			}
			if b, ok := s.Rhs[0].(*ast.BinaryExpr); ok {
				switch b.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR:
					return
				}
			}
			if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && (u.Op == token.NOT || u.Op == token.ARROW) {
				return
			}
			if !w.mentions(s.Rhs[0], l) {
				return
			}
			w.ins(s.Rhs[0].Pos(), fmt.Sprintf("%s.YV(%d, ", rt, w.site(s.Pos())))
			w.ins(s.Rhs[0].End(), ")")
		case token.DEFINE:
		default:
			op := strings.TrimSuffix(s.Tok.String(), "=")
			w.ins(s.Pos(), fmt.Sprintf("{ gx__t := %s; %s", l, w.y(s.Pos())))
			w.rep(s.TokPos, s.TokPos+token.Pos(len(s.Tok.String())), fmt.Sprintf(" = gx__t %s (", op))
			w.ins(s.Rhs[0].End(), ") }")
		}
	}
}

func (w *walker) mentions(e ast.Expr, l string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && w.text(x) == l {
			found = true
		}
		return !found
	})
	return found
}

func (w *walker) isChan(e ast.Expr) bool {
	if w.info == nil {
		return false
	}
	if tv, ok := w.info.Types[e]; ok && tv.Type != nil {
		_, is := tv.Type.Underlying().(*types.Chan)
		return is
	}
	return false
}

func (w *walker) rangeChan(n *ast.RangeStmt) {
	w.tmp++
	c := fmt.Sprintf("gx__c%d", w.tmp)
	head := fmt.Sprintf("for %s := %s.RC(%s); %s.Select(false, %s) == 0 && %s.OK; ", c, rt, w.text(n.X), rt, c, c)
	body := w.y(n.Body.Pos())
	if n.Key != nil {
		body += fmt.Sprintf("%s %s %s.V; ", w.text(n.Key), n.Tok.String(), c)
	}
	w.rep(n.For, n.Body.Lbrace, head)
	w.ins(n.Body.Lbrace+1, body)
}

func (w *walker) selectStmt(n *ast.SelectStmt) {
	var names, inits []string
	hasDef := "false"
	type clause struct {
		cc   *ast.CommClause
		head string
	}
	var cs []clause
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			cs = append(cs, clause{cc, "default:"})
			continue
		}
		w.tmp++
		v := fmt.Sprintf("gx__s%d", w.tmp)
		idx := len(names)
		names = append(names, v)
		head := fmt.Sprintf("case %d:", idx)
		recv := func(e ast.Expr) string {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			return w.text(e.(*ast.UnaryExpr).X)
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, fmt.Sprintf("%s.SC(%s)(%s)", rt, w.text(c.Chan), w.text(c.Value)))
		case *ast.ExprStmt:
			inits = append(inits, fmt.Sprintf("%s.RC(%s)", rt, recv(c.X)))
		case *ast.AssignStmt:
			inits = append(inits, fmt.Sprintf("%s.RC(%s)", rt, recv(c.Rhs[0])))
			var ls []string
			for _, l := range c.Lhs {
				ls = append(ls, w.text(l))
			}
			rs := v + ".V"
			if len(ls) == 2 {
				rs += ", " + v + ".OK"
			}
			head += fmt.Sprintf(" %s %s %s;", strings.Join(ls, ", "), c.Tok.String(), rs)
		}
		cs = append(cs, clause{cc, head})
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	args := append([]string{hasDef}, names...)
	head += fmt.Sprintf("%s.Select(%s) ", rt, strings.Join(args, ", "))
	// selectors inside the channel expressions are not redirected here; the
	// clock is, by text
	w.rep(n.Select, n.Body.Lbrace, w.redirectText(head))
	for _, c := range cs {
		end := c.cc.Colon + 1
		w.rep(c.cc.Case, end, c.head)
		w.list(c.cc.Body)
		for _, s := range c.cc.Body {
			ast.Inspect(s, w.visit)
		}
	}
}

func (w *walker) redirectText(s string) string {
	if w.f.imp["time"] == "time" {
		for _, n := range []string{"After", "Tick", "NewTimer", "NewTicker"} {
			if strings.Contains(s, "time."+n+"(") {
				w.use("simtime")
				w.f.keep["time"] = "var _ time.Duration"
				s = strings.ReplaceAll(s, "time."+n+"(", "simtime__."+n+"(")
			}
		}
	}
	return s
}

func (w *walker) goStmt(n *ast.GoStmt) {
	c := n.Call
	fun := ast.Unparen(c.Fun)
	if id, ok := fun.(*ast.Ident); ok && (builtins[id.Name] && id.Obj == nil || w.in.generic[w.rel+"."+id.Name]) {
		w.rep(n.Go, c.Fun.Pos(), rt+".Go(func() { ")
		w.ins(c.End(), " })")
		return
	}
	if lit, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		w.rep(n.Go, c.Fun.Pos(), rt+".G0(")
		w.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	if len(c.Args) == 0 {
		w.rep(n.Go, c.Fun.Pos(), rt+".GoCall(false, ")
		w.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	w.rep(n.Go, c.Fun.Pos(), fmt.Sprintf("%s.GoCall(%v, ", rt, c.Ellipsis.IsValid()))
	w.rep(c.Lparen, c.Lparen+1, ", ")
	if c.Ellipsis.IsValid() {
		w.rep(c.Ellipsis, c.Ellipsis+3, "")
	}
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "clear": true, "recover": true}

func (w *walker) use(stub string) { w.f.used[stub] = true }

func (w *walker) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok || id.Obj != nil {
		return
	}
	path, ok := w.f.imp[id.Name]
	if !ok {
		return
	}
	to := func(stub, name, keep string) {
		w.use(stub)
		if keep != "" {
			w.f.keep[id.Name] = strings.ReplaceAll(keep, "$", id.Name)
		}
		w.rep(n.Pos(), n.End(), stub+"__."+name)
	}
	name := n.Sel.Name
	switch path {
	case "time":
		if w.in.exports["simtime"][name] {
			to("simtime", name, "var _ $.Duration")
		}
	case "runtime":
		if name == "Gosched" {
			to("simrt", "Gosched", "var _ = $.GOOS")
		}
	case "C":
		if name == "rdtsc" || name == "clock" {
			to("simrt", "RDTSC", "")
		}
	case "os":
		if w.in.o.OS && w.in.exports["simos"][name] {
			to("simos", name, "var _ = $.PathSeparator")
		}
	case "path/filepath":
		if w.in.o.OS && w.in.exports["simos"]["Fp"+name] {
			to("simos", "Fp"+name, "var _ = $.Separator")
		}
	case "io/ioutil":
		if w.in.o.OS && w.in.exports["simos"]["Iu"+name] {
			to("simos", "Iu"+name, "var _ = $.Discard")
		}
	case "crypto/rand":
		if w.in.exports["simrand"][name] {
			to("simrand", name, "var _ = $.Reader")
		}
	case "syscall":
		if w.win && w.in.exports["simwin"][name] {
			to("simwin", name, "var _ $.Errno")
		}
	}
}

func (w *walker) apply() []byte {
	f := w.f
	// stable order: by offset; insertions before replacements at one offset;
	// then by the order made
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if (a.end == a.off) != (b.end == b.off) {
			return a.end == a.off
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pkgEnd := w.off(f.ast.Name.End())
	imports := fmt.Sprintf("; import %s \"gxsim/simrt\"", rt)
	var used []string
	for u := range f.used {
		if u != "simrt" {
			used = append(used, u)
		}
	}
	sort.Strings(used)
	for _, u := range used {
		imports += fmt.Sprintf("; import %s__ \"gxsim/%s\"", u, u)
	}
	pos := 0
	put := func(to int) {
		if to > pos {
			if pos <= pkgEnd && to > pkgEnd {
				out.WriteString(f.src[pos:pkgEnd])
				out.WriteString(imports)
				out.WriteString(f.src[pkgEnd:to])
			} else {
				out.WriteString(f.src[pos:to])
			}
			pos = to
		}
	}
	for _, e := range f.edits {
		if e.off < pos { // inside a replaced region
			continue
		}
		put(e.off)
		out.WriteString(e.text)
		if e.end > pos {
			// keep the line structure of what is replaced
			out.WriteString(strings.Repeat("\n", strings.Count(f.src[e.off:e.end], "\n")-strings.Count(e.text, "\n")*0))
			pos = e.end
		}
	}
	put(len(f.src))
	if pos <= pkgEnd { // file without anything after the package clause
		out.WriteString(imports)
	}
	out.WriteString(fmt.Sprintf("\nvar _ = %s.Y\n", rt))
	var keep []string
	for _, k := range f.keep {
		keep = append(keep, k)
	}
	sort.Strings(keep)
	for _, k := range keep {
		out.WriteString(k + "\n")
	}
	return out.Bytes()
}

// CopyTree is a helper for drivers: it copies a directory tree.
func CopyTree(from, to string) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, r), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, r), b, 0o644)
	})
}
