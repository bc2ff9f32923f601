// Package weave writes build overlays in which the code under test has a
// scheduling point before every statement, uses csync and csyncx for
// synchronization, ranges over maps in a fixed order, and can set its
// package-level variables back to their initial state.
package weave

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const self = "verif.local/mc/"

type edit struct {
	off, end int // replaced range
	text     string
	seq      int
}

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	CgoFiles                []string
}

// Stats describes what was woven.
type Stats struct {
	Packages, Files, Points, MapRanges, Vars, Inits int
	Notes                                           []string
}

func (s Stats) String() string {
	n := fmt.Sprintf("woven: %d packages, %d files, %d points, %d ranges over maps, %d package variables reset", s.Packages, s.Files, s.Points, s.MapRanges, s.Vars)
	if len(s.Notes) > 0 {
		n += "; " + strings.Join(s.Notes, "; ")
	}
	return n
}

// Overlay weaves the packages of module path mod that the packages pats
// import (including themselves) and writes the overlay file into dir. modDir
// is the directory in which the go command is run.
func Overlay(dir, modDir, mod string, pats []string, env []string, noMaps bool) (file string, st Stats, err error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = modDir
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return "", st, fmt.Errorf("go list: %v %s", err, errb.String())
	}
	exports := map[string]string{}
	var ps []pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", st, err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			ps = append(ps, p)
		}
	}
	replace := map[string]string{}
	for _, p := range ps {
		if err := weavePkg(dir, p, exports, replace, &st, noMaps); err != nil {
			return "", st, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		st.Packages++
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	file = filepath.Join(dir, "overlay.json")
	return file, st, os.WriteFile(file, b, 0o644)
}

func weavePkg(dir string, p pkg, exports map[string]string, replace map[string]string, st *Stats, noMaps bool) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		x, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files, srcs = append(files, x), append(srcs, b)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	_, terr := conf.Check(p.ImportPath, fset, files, info)
	typed := terr == nil
	if !typed {
		st.Notes = append(st.Notes, fmt.Sprintf("no type information for %s (%v): ranges over maps keep the runtime's order", p.ImportPath, terr))
	}
	w := &weaver{fset: fset, info: info, typed: typed, st: st, noMaps: noMaps}
	pdir := filepath.Join(dir, strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(pdir, 0o755); err != nil {
		return err
	}
	for i, f := range files {
		out, err := w.file(f, srcs[i])
		if err != nil {
			return err
		}
		name := filepath.Join(pdir, p.GoFiles[i])
		if err := os.WriteFile(name, out, 0o644); err != nil {
			return err
		}
		replace[filepath.Join(p.Dir, p.GoFiles[i])] = name
		st.Files++
	}
	// reset
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport sched_ %q\n\nfunc init() { sched_.RegisterReset(verifReset_) }\n\nfunc verifReset_() {\n", files[0].Name.Name, self+"sched")
	for _, z := range w.zero {
		fmt.Fprintf(&b, "\tverifZero_(&%s)\n", z)
		st.Vars++
	}
	if typed {
		pos := map[string]int{}
		for i, in := range info.InitOrder {
			for _, v := range in.Lhs {
				pos[v.Name()] = i
			}
		}
		sort.SliceStable(w.inits, func(i, j int) bool { return pos[w.inits[i].name] < pos[w.inits[j].name] })
	}
	for _, in := range w.inits {
		v := in.fn
		fmt.Fprintf(&b, "\t%s()\n", v)
		st.Vars++
	}
	for i := 0; i < w.ninit; i++ {
		fmt.Fprintf(&b, "\tverifInit_%d()\n", i)
	}
	b.WriteString("}\n\nfunc verifZero_[T any](p *T) { var z T; *p = z }\n")
	name := filepath.Join(pdir, "verif_reset_.go")
	if err := os.WriteFile(name, []byte(b.String()), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(p.Dir, "verif_reset_.go")] = name
	return nil
}

type initFn struct{ name, fn string }

type weaver struct {
	fset  *token.FileSet
	info  *types.Info
	typed bool
	st    *Stats
	zero  []string // variables without an initializer
	inits []initFn // functions that evaluate initializers again
	ninit int
	nres  int

	src                   []byte
	base                  int
	edits                 []edit
	used                  bool
	mapRange, constrained bool
	noMaps                bool
}

func (w *weaver) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *weaver) ins(off int, s string) {
	w.edits = append(w.edits, edit{off, off, s, len(w.edits)})
}

func (w *weaver) text(n ast.Node) string { return string(w.src[w.off(n.Pos()):w.off(n.End())]) }

func noinstr(d *ast.FuncDecl) bool {
	if d.Body == nil {
		return true
	}
	if d.Doc != nil {
		for _, c := range d.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") || strings.HasPrefix(c.Text, "//go:systemstack") || strings.HasPrefix(c.Text, "//go:nowritebarrier") {
				return true
			}
		}
	}
	return false
}

func (w *weaver) file(f *ast.File, src []byte) ([]byte, error) {
	w.src, w.edits, w.used, w.mapRange = src, nil, false, false
	w.constrained = bytes.Contains(src, []byte("//go:build"))
	var extra strings.Builder
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{"sync": self + "csync", "github.com/RomiChan/syncx": self + "csyncx"}[path]
		if to == "" {
			continue
		}
		t := strconv.Quote(to)
		if im.Name == nil {
			t = filepath.Base(path) + " " + t
		}
		w.edits = append(w.edits, edit{w.off(im.Path.Pos()), w.off(im.Path.End()), t, len(w.edits)})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				n := fmt.Sprintf("verifInit_%d", w.ninit)
				w.ninit++
				w.st.Inits++
				w.edits = append(w.edits, edit{w.off(d.Name.Pos()), w.off(d.Name.End()), n, len(w.edits)})
				fmt.Fprintf(&extra, "\nfunc init() { %s() }\n", n)
			}
			if !noinstr(d) {
				w.block(d.Body.List)
				w.exprs(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			w.exprs(d)
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							w.zero = append(w.zero, n.Name)
						}
					}
					continue
				}
				if len(vs.Values) != len(vs.Names) {
					if allBlank(vs.Names) {
						continue
					}
					fn := fmt.Sprintf("verifSet_%d", w.nres)
					w.nres++
					fmt.Fprintf(&extra, "\nfunc %s() { %s = %s }\n", fn, names(vs.Names), w.text(vs.Values[0]))
					w.inits = append(w.inits, initFn{vs.Names[0].Name, fn})
					continue
				}
				for i, n := range vs.Names {
					if n.Name == "_" || constant(vs.Values[i]) {
						continue
					}
					fn := fmt.Sprintf("verifSet_%d", w.nres)
					w.nres++
					v := w.text(vs.Values[i])
					fmt.Fprintf(&extra, "\nfunc %s() { %s = %s }\n", fn, n.Name, v)
					w.inits = append(w.inits, initFn{n.Name, fn})
				}
			}
		}
	}
	if w.mapRange {
		// Go 1.18 does not let interface types be comparable
		w.edits = append(w.edits, edit{0, 0, "//go:build go1.21\n\n", -1})
	}
	if w.used {
		w.ins(w.off(f.Name.End()), fmt.Sprintf("; import sched_ %q", self+"sched"))
	}
	sort.SliceStable(w.edits, func(i, j int) bool {
		if w.edits[i].off != w.edits[j].off {
			return w.edits[i].off < w.edits[j].off
		}
		return w.edits[i].seq < w.edits[j].seq
	})
	var b bytes.Buffer
	at := 0
	for _, e := range w.edits {
		if e.off < at {
			return nil, fmt.Errorf("overlapping edits")
		}
		b.Write(src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	b.WriteString(extra.String())
	return b.Bytes(), nil
}

func allBlank(ns []*ast.Ident) bool {
	for _, n := range ns {
		if n.Name != "_" {
			return false
		}
	}
	return true
}

func names(ns []*ast.Ident) string {
	var s []string
	for _, n := range ns {
		s = append(s, n.Name)
	}
	return strings.Join(s, ", ")
}

// constant reports whether evaluating the initializer again is pointless (and
// would give error values another identity).
func constant(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.CallExpr:
		if s, ok := e.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				switch x.Name + "." + s.Sel.Name {
				case "errors.New", "fmt.Errorf", "reflect.TypeOf", "reflect.ValueOf":
					return true
				}
			}
		}
		if s, ok := e.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Elem" {
			return constant(s.X)
		}
	}
	return false
}

var syncNames = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Load Store LoadOrStore LoadAndDelete Swap CompareAndSwap CompareAndDelete Delete Range Get Put Lock Unlock RLock RUnlock TryLock Do Wait Add Done Or And") {
		syncNames[n] = true
	}
}

// syncish: the statement contains an operation of sync/atomic or of a channel.
// Operations of sync announce themselves. Without type information, names
// decide.
func (w *weaver) syncish(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if o := w.info.Uses[x.Sel]; w.typed && o != nil {
				if _, ok := o.(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" {
					found = true
				}
			} else if id, ok := x.X.(*ast.Ident); ok && id.Name == "atomic" || syncNames[x.Sel.Name] {
				found = true
			}
		case *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (w *weaver) block(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		p := "sched_.Point(); "
		if w.syncish(s) {
			p = "sched_.SyncPoint(); "
		}
		w.ins(w.off(s.Pos()), p)
		w.st.Points++
		w.used = true
		w.stmt(s)
	}
}

// stmt descends into nested statement lists.
func (w *weaver) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		w.block(s.List)
	case *ast.IfStmt:
		w.block(s.Body.List)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			w.block(e.List)
		case *ast.IfStmt:
			w.stmt(e)
		}
	case *ast.ForStmt:
		w.block(s.Body.List)
	case *ast.RangeStmt:
		w.rangeStmt(s)
		w.block(s.Body.List)
	case *ast.SwitchStmt:
		w.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		w.clauses(s.Body)
	case *ast.SelectStmt:
		w.clauses(s.Body)
	case *ast.LabeledStmt:
		w.stmt(s.Stmt)
	}
}

func (w *weaver) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			w.block(c.Body)
		case *ast.CommClause:
			w.block(c.Body)
		}
	}
}

// rangeStmt rewrites "for k, v := range m" over a map into a loop over its
// keys in the order chosen by the scheduler.
func (w *weaver) rangeStmt(s *ast.RangeStmt) {
	if !w.typed || s.Key == nil || w.constrained || w.noMaps {
		return
	}
	tv, ok := w.info.Types[s.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	head, ok := mapLoop(w.info, s, w.text, "sched_.MapRange")
	if !ok {
		w.st.Notes = append(w.st.Notes, "a range over a map with other types keeps the runtime's order")
		return
	}
	// from the key to the body
	w.edits = append(w.edits, edit{w.off(s.Key.Pos()), w.off(s.X.End()), head, len(w.edits)})
	w.st.MapRanges++
	w.mapRange = true
	w.used = true
}

// mapLoop gives the header of a loop that visits the entries of a map in the
// order of fn, with variables scoped and shared as those of the range clause.
func mapLoop(info *types.Info, s *ast.RangeStmt, text func(ast.Node) string, fn string) (string, bool) {
	m := info.Types[s.X].Type.Underlying().(*types.Map)
	lhs, args := [2]string{"_", "_"}, [2]string{"nil", "nil"}
	for i, e := range []ast.Expr{s.Key, s.Value} {
		if e == nil || text(e) == "_" {
			continue
		}
		t := []types.Type{m.Key(), m.Elem()}[i]
		if s.Tok != token.DEFINE {
			if _, ok := unparen(e).(*ast.IndexExpr); ok || info.Types[e].Type == nil || !types.Identical(info.Types[e].Type, t) {
				return "", false
			}
		}
		lhs[i], args[i] = text(e), "&"+text(e)
	}
	if s.Tok != token.DEFINE {
		lhs = [2]string{"_", "_"}
	}
	return fmt.Sprintf("verifIt_, %s, %s := %s(%s); verifIt_.Next(%s, %s); ", lhs[0], lhs[1], fn, text(s.X), args[0], args[1]), true
}

// exprs handles function literals and calls of the runtime inside a
// declaration.
func (w *weaver) exprs(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			w.block(x.Body.List)
		case *ast.GoStmt:
			w.st.Notes = append(w.st.Notes, "a go statement in the code under test: its goroutine is not under control")
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					to := map[string]string{"runtime.Gosched": "sched_.Yield", "time.Sleep": "sched_.Sleep"}[id.Name+"."+s.Sel.Name]
					if to != "" {
						w.st.Notes = append(w.st.Notes, id.Name+"."+s.Sel.Name+" waits in the scheduler")
						// keep the import used
						w.edits = append(w.edits, edit{w.off(s.Pos()), w.off(s.End()), "func() " + map[string]string{"runtime.Gosched": "func()", "time.Sleep": "func(time.Duration)"}[id.Name+"."+s.Sel.Name] + " { _ = " + id.Name + "." + s.Sel.Name + "; return " + to + " }()", len(w.edits)})
						w.used = true
					}
				}
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
