package weave

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// MapOrder writes a build overlay in which every range over a map in the
// packages of module mod that pats import visits the keys in the order named
// by the environment variable VERIF_MAPORDER (asc or desc).
func MapOrder(dir, modDir, mod string, pats []string) (file string, ranges int, err error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = modDir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return "", 0, fmt.Errorf("go list: %v %s", err, errb.String())
	}
	exports := map[string]string{}
	var ps []pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", 0, err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			ps = append(ps, p)
		}
	}
	replace := map[string]string{}
	for _, p := range ps {
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(path)
			if err != nil {
				return "", 0, err
			}
			x, err := parser.ParseFile(fset, path, b, parser.ParseComments)
			if err != nil {
				return "", 0, err
			}
			files, srcs = append(files, x), append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			}),
			Error: func(error) {},
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return "", 0, err
		}
		pdir := filepath.Join(dir, "mo_"+strings.ReplaceAll(p.ImportPath, "/", "_"))
		if err := os.MkdirAll(pdir, 0o755); err != nil {
			return "", 0, err
		}
		any := false
		for i, f := range files {
			if bytes.Contains(srcs[i], []byte("//go:build")) {
				continue
			}
			src := srcs[i]
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var edits []edit
			ast.Inspect(f, func(n ast.Node) bool {
				s, ok := n.(*ast.RangeStmt)
				if !ok || s.Key == nil {
					return true
				}
				tv, ok := info.Types[s.X]
				if !ok {
					return true
				}
				if _, ok := tv.Type.Underlying().(*types.Map); !ok {
					return true
				}
				head, ok := mapLoop(info, s, text, "verifMapRange_")
				if !ok {
					return true
				}
				edits = append(edits, edit{off(s.Key.Pos()), off(s.X.End()), head, 0})
				ranges++
				return true
			})
			if len(edits) == 0 {
				continue
			}
			any = true
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b bytes.Buffer
			b.WriteString("//go:build go1.21\n\n")
			at := 0
			for _, e := range edits {
				if e.off < at {
					return "", 0, fmt.Errorf("nested ranges over maps in one header")
				}
				b.Write(src[at:e.off])
				b.WriteString(e.text)
				at = e.end
			}
			b.Write(src[at:])
			name := filepath.Join(pdir, p.GoFiles[i])
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				return "", 0, err
			}
			replace[filepath.Join(p.Dir, p.GoFiles[i])] = name
		}
		if !any {
			continue
		}
		name := filepath.Join(pdir, "verif_maporder_.go")
		if err := os.WriteFile(name, []byte(strings.Replace(mapOrderHelper, "PKG", files[0].Name.Name, 1)), 0o644); err != nil {
			return "", 0, err
		}
		replace[filepath.Join(p.Dir, "verif_maporder_.go")] = name
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	file = filepath.Join(dir, "maporder.json")
	return file, ranges, os.WriteFile(file, b, 0o644)
}

const mapOrderHelper = `//go:build go1.21

package PKG

import (
	verifFmt_ "fmt"
	verifOs_ "os"
	verifReflect_ "reflect"
	verifSort_ "sort"
)

func verifKeys_[M ~map[K]V, K comparable, V any](m M) []K {
	var ks []K
	var ss []string
	for k := range m {
		ks = append(ks, k)
		v := verifReflect_.ValueOf(&k).Elem()
		for v.Kind() == verifReflect_.Interface && !v.IsNil() {
			v = v.Elem()
		}
		switch v.Kind() {
		case verifReflect_.Ptr, verifReflect_.Chan, verifReflect_.UnsafePointer:
			ss = append(ss, verifFmt_.Sprintf("%020d", v.Pointer()))
		case verifReflect_.Int, verifReflect_.Int32, verifReflect_.Int64:
			ss = append(ss, verifFmt_.Sprintf("%020d", uint64(v.Int())+1<<63))
		default:
			ss = append(ss, verifFmt_.Sprint(k))
		}
	}
	desc := verifOs_.Getenv("VERIF_MAPORDER") == "desc"
	verifSort_.Sort(&verifSorter_[K]{ks, ss, desc})
	return ks
}

type verifMapIt_[K comparable, V any] struct {
	m map[K]V
	k []K
}

func verifMapRange_[M ~map[K]V, K comparable, V any](m M) (it *verifMapIt_[K, V], k K, v V) {
	return &verifMapIt_[K, V]{m, verifKeys_(m)}, k, v
}

func (it *verifMapIt_[K, V]) Next(k *K, v *V) bool {
	for len(it.k) > 0 {
		x := it.k[0]
		it.k = it.k[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

type verifSorter_[K any] struct {
	k    []K
	s    []string
	desc bool
}

func (s *verifSorter_[K]) Len() int           { return len(s.k) }
func (s *verifSorter_[K]) Less(i, j int) bool { return (s.s[i] < s.s[j]) != s.desc && s.s[i] != s.s[j] }
func (s *verifSorter_[K]) Swap(i, j int) {
	s.k[i], s.k[j] = s.k[j], s.k[i]
	s.s[i], s.s[j] = s.s[j], s.s[i]
}
`
