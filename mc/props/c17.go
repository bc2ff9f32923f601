package props

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif.local/mc/h"
	"verif.local/mc/pgen"
	"verif.local/mc/weave"
)

// preparePlugin builds the plugin, and the plugin with controlled order of
// ranges over maps.
func preparePlugin(dir, tier string) (string, string) {
	if err := pgen.Build(repoOf(), filepath.Join(dir, "plugin")); err != nil {
		_ = os.WriteFile(filepath.Join(dir, "plugin.err"), []byte(err.Error()), 0o644)
		return "", "the plugin does not build"
	}
	ov, n, err := weave.MapOrder(dir, repoOf(), "github.com/RomiChan/protobuf", []string{"./cmd/protoc-gen-golite"})
	if err != nil {
		return "", "no control over the order of ranges over maps in the generator: " + err.Error()
	}
	if n == 0 {
		return "", "the generator has no range over a map"
	}
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", filepath.Join(dir, "plugin-maporder"), "./cmd/protoc-gen-golite")
	cmd.Dir = repoOf()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Sprintf("no control over the order of ranges over maps in the generator: %v %s", err, firstLines(string(out), 500))
	}
	return "", fmt.Sprintf("%d ranges over maps in the generator are run in ascending and descending order", n)
}

// topo enumerates the orders of files in which dependencies come first (at
// most max).
func topo(files []*dpb.FileDescriptorProto, max int) [][]*dpb.FileDescriptorProto {
	var r [][]*dpb.FileDescriptorProto
	var cur []*dpb.FileDescriptorProto
	used := map[string]bool{}
	var rec func()
	rec = func() {
		if len(r) >= max {
			return
		}
		if len(cur) == len(files) {
			r = append(r, append([]*dpb.FileDescriptorProto{}, cur...))
			return
		}
	next:
		for _, f := range files {
			if used[f.GetName()] {
				continue
			}
			for _, d := range f.Dependency {
				if !used[d] {
					continue next
				}
			}
			used[f.GetName()] = true
			cur = append(cur, f)
			rec()
			cur = cur[:len(cur)-1]
			used[f.GetName()] = false
		}
	}
	rec()
	return r
}

// subsets enumerates the nonempty subsets of up to 6 names; of more names every
// single one, all but each one, every prefix of a power of two, and all.
func subsets(names []string) [][]string {
	var r [][]string
	n := len(names)
	if n <= 6 {
		for sub := 1; sub < 1<<n; sub++ {
			var g []string
			for i, a := range names {
				if sub>>i&1 != 0 {
					g = append(g, a)
				}
			}
			r = append(r, g)
		}
		return r
	}
	for i := range names {
		r = append(r, names[i:i+1])
		r = append(r, append(append([]string{}, names[:i]...), names[i+1:]...))
	}
	for k := 2; k < n; k *= 2 {
		r = append(r, names[:k])
	}
	return append(r, names)
}

// orders enumerates the orders of names: all for up to 3 (thorough: 4), else
// as they are, reversed and (up to 6) the rotations.
func orders(names []string, all int) [][]string {
	if len(names) <= 1 {
		return [][]string{names}
	}
	var r [][]string
	if len(names) <= all {
		var rec func(cur, rest []string)
		rec = func(cur, rest []string) {
			if len(rest) == 0 {
				r = append(r, append([]string{}, cur...))
				return
			}
			for i := range rest {
				nr := append(append([]string{}, rest[:i]...), rest[i+1:]...)
				rec(append(append([]string{}, cur...), rest[i]), nr)
			}
		}
		rec(nil, names)
		return r
	}
	for i := range names {
		if len(names) > 6 && i > 0 {
			break
		}
		r = append(r, append(append([]string{}, names[i:]...), names[:i]...))
	}
	rev := make([]string, len(names))
	for i, n := range names {
		rev[len(names)-1-i] = n
	}
	return append(r, rev)
}

// C17: determinism, independence and completeness of the generator.
func c17(c *h.Ctx) {
	plugin := filepath.Join(c.Dir, "plugin")
	ordered := filepath.Join(c.Dir, "plugin-maporder")
	_, oerr := os.Stat(ordered)
	buildErr, _ := os.ReadFile(filepath.Join(c.Dir, "plugin.err"))
	sets := pgen.Sets(false)
	if c.Thorough() {
		sets = pgen.Sets(true)
	}
	outName := map[string]map[string]string{} // set, proto file -> output file
	expectNames := func(files []*dpb.FileDescriptorProto, all []string, param string) map[string]string {
		plug, err := protogen.Options{}.New(pgen.Request(files, all, param))
		if err != nil {
			return nil
		}
		r := map[string]string{}
		for _, f := range plug.Files {
			r[f.Desc.Path()] = f.GeneratedFilenamePrefix + ".pb.go"
		}
		return r
	}
	// elsewhere is the plugin under another name in another directory.
	elsewhere := filepath.Join(c.Dir, "else where", fmt.Sprintf("protoc-gen-%d", os.Getpid()))
	_ = os.MkdirAll(filepath.Dir(elsewhere), 0o755)
	_ = os.Symlink(plugin, elsewhere)
	var compiler *pluginpb.Version // in the requests
	// check runs a request; base may be nil.
	check := func(bin string, env []string, files []*dpb.FileDescriptorProto, generate []string, param string, names, base map[string]string) map[string]string {
		c.Trans(1)
		req := pgen.Request(files, generate, param)
		req.CompilerVersion = compiler
		resp, err := runPlugin(bin, env, req)
		if err != nil {
			c.Fail("%v", err)
			return nil
		}
		if resp.Error != nil {
			c.Fail("the plugin reports: %.3000s", resp.GetError())
			return nil
		}
		got := map[string]string{}
		for _, f := range resp.File {
			if _, dup := got[f.GetName()]; dup {
				c.Fail("file %s is written twice", f.GetName())
			}
			if f.InsertionPoint != nil {
				c.Fail("file %s has an insertion point", f.GetName())
			}
			got[f.GetName()] = f.GetContent()
		}
		want := map[string]bool{}
		for _, g := range generate {
			want[names[g]] = true
			if _, ok := got[names[g]]; !ok {
				c.Fail("no file %s is written for %s; written: %v", names[g], g, keysOf(got))
			}
		}
		for n := range got {
			if !want[n] {
				c.Fail("file %s is written, but was not asked for", n)
			}
		}
		for n, t := range got {
			if base != nil && want[n] && t != base[n] {
				c.Fail("the text of %s differs from that of the request for all files of the set:\n%s", n, diffText(base[n], t))
			}
		}
		c.Trace(1)
		return got
	}
	if c.Family("plugin") {
		if c.Unit(func() string { return "go build ./cmd/protoc-gen-golite" }) && c.Case(nil) {
			if len(buildErr) > 0 {
				c.Fail("%s", buildErr)
			}
		}
	}
	if len(buildErr) > 0 {
		return
	}
	baseline := func(set *pgen.Set) (map[string]string, map[string]string) {
		names := expectNames(set.Files, set.All(), "")
		outName[set.Name] = names
		c.Trans(1)
		resp, err := pgen.Run(plugin, pgen.Request(set.Files, set.All(), ""))
		if err != nil || resp.Error != nil {
			c.Case(nil)
			c.Fail("%v %v", err, resp.GetError())
			return names, nil
		}
		base := map[string]string{}
		for _, f := range resp.File {
			base[f.GetName()] = f.GetContent()
		}
		return names, base
	}
	if c.Family("requests") {
		for si, set := range sets {
			if !c.Unit(func() string { return "schema set " + set.Name }) {
				continue
			}
			names, base := baseline(set)
			if base == nil {
				continue
			}
			do := func(what string, f func()) {
				if c.Case(func() string { return what }) {
					c.State(set.Name, what)
					f()
				}
			}
			n := len(set.Files)
			all := set.All()
			maxTopo := 24
			if c.Thorough() {
				maxTopo = 720
			}
			if n > 6 {
				maxTopo = 4
			}
			for ti, files := range topo(set.Files, maxTopo) {
				for sub, g := range subsets(all) {
					full := 3
					if c.Thorough() {
						full = 4
					}
					for _, o := range orders(g, full) {
						if ti > 0 && n > 4 && (ti+sub)%5 != 0 && (!c.Thorough() || n > 6) {
							continue
						}
						do(fmt.Sprintf("files %v, generate %v", fileNames(files), o), func() {
							check(plugin, nil, files, o, "", names, base)
						})
					}
				}
			}
			// only what is needed is in the request
			for _, f := range set.Files {
				need := closure(set.Files, f)
				do(fmt.Sprintf("only %s with its imports", f.GetName()), func() {
					check(plugin, nil, need, []string{f.GetName()}, "", names, base)
				})
			}
			// together with another set
			partners := []int{1, 7}
			if c.Thorough() {
				partners = []int{1, 2, 3, 5, 7, 11, 20, 40, 80, 100, 150}
			}
			for _, d := range partners {
				other := sets[(si+d)%len(sets)]
				if other == set {
					continue
				}
				on := expectNames(other.Files, other.All(), "")
				both := map[string]string{}
				for k, v := range names {
					both[k] = v
				}
				for k, v := range on {
					both[k] = v
				}
				_, ob := baseline(other)
				if ob == nil {
					continue
				}
				bb := map[string]string{}
				for k, v := range base {
					bb[k] = v
				}
				for k, v := range ob {
					bb[k] = v
				}
				for _, first := range []bool{true, false} {
					files := append(append([]*dpb.FileDescriptorProto{}, set.Files...), other.Files...)
					g := append(append([]string{}, all...), other.All()...)
					if !first {
						files = append(append([]*dpb.FileDescriptorProto{}, other.Files...), set.Files...)
						g = append(append([]string{}, other.All()...), all...)
					}
					do(fmt.Sprintf("with set %s, first %v", other.Name, first), func() {
						check(plugin, nil, files, g, "", both, bb)
						check(plugin, nil, files, all, "", both, bb)
					})
				}
			}
			// orders of ranges over maps, environment
			for _, e := range [][]string{{"VERIF_MAPORDER=asc"}, {"VERIF_MAPORDER=desc"}} {
				if oerr == nil {
					do("ranges over maps: "+e[0], func() { check(ordered, e, set.Files, all, "", names, base) })
				}
			}
			for _, e := range [][]string{{"GOMAXPROCS=1"}, {"TZ=Asia/Tokyo", "HOME=/", "LANG=tr_TR.UTF-8", "PWD=/"}, {"GODEBUG=madvdontneed=1", "GOGC=1"}} {
				do("environment "+strings.Join(e, " "), func() { check(plugin, e, set.Files, all, "", names, base) })
			}
			do("another name and directory of the plugin", func() { check(elsewhere, nil, set.Files, all, "", names, base) })
			for _, v := range []*pluginpb.Version{{Major: proto.Int32(3), Minor: proto.Int32(21), Patch: proto.Int32(12)}, {Major: proto.Int32(5), Minor: proto.Int32(29), Patch: proto.Int32(0), Suffix: proto.String("rc1")}} {
				do(fmt.Sprintf("protoc version %v", v), func() {
					compiler = v
					defer func() { compiler = nil }()
					check(plugin, nil, set.Files, all, "", names, base)
				})
			}
			params := []string{"paths=source_relative", "module=" + pgen.Base}
			for i := range all {
				// another import path for a file; one Go package has one name
				params = append(params, fmt.Sprintf("M%s=%s/moved/p%d;moved%d", all[i], pgen.Base, i, i))
			}
			if len(all) > 1 {
				params = append(params, fmt.Sprintf("M%s=%s/moved/p;moved,M%s=%s/moved/p;moved", all[0], pgen.Base, all[len(all)-1], pgen.Base))
			}
			for _, param := range params {
				do("parameter "+param, func() {
					pn := expectNames(set.Files, all, param)
					if strings.HasPrefix(param, "module=") {
						for k, v := range pn {
							pn[k] = strings.TrimPrefix(v, pgen.Base+"/")
						}
					}
					pb := check(plugin, nil, set.Files, all, param, pn, nil)
					for i := range all {
						check(plugin, nil, set.Files, all[i:i+1], param, pn, pb)
					}
				})
			}
		}
	}
	if c.Family("contents") {
		for _, set := range sets {
			if !c.Unit(func() string { return "schema set " + set.Name }) {
				continue
			}
			_, base := baseline(set)
			if base == nil {
				continue
			}
			contents(c, set, base)
		}
	}
}

func runPlugin(bin string, env []string, req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error) {
	return pgen.RunEnv(bin, env, req)
}

func fileNames(fs []*dpb.FileDescriptorProto) []string {
	var r []string
	for _, f := range fs {
		r = append(r, f.GetName())
	}
	return r
}

func keysOf(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// closure is f and what it imports, in the order of files.
func closure(files []*dpb.FileDescriptorProto, f *dpb.FileDescriptorProto) []*dpb.FileDescriptorProto {
	need := map[string]bool{}
	by := map[string]*dpb.FileDescriptorProto{}
	for _, x := range files {
		by[x.GetName()] = x
	}
	var add func(n string)
	add = func(n string) {
		need[n] = true
		for _, d := range by[n].Dependency {
			add(d)
		}
	}
	add(f.GetName())
	var r []*dpb.FileDescriptorProto
	for _, x := range files {
		if need[x.GetName()] {
			r = append(r, x)
		}
	}
	return r
}

func diffText(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "<end>", "<end>"
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q, was %q", i+1, y, x)
		}
	}
	return ""
}

const protoStub = `package proto

type Option[T any] struct { v T; ok bool }
`

// typeImporter type-checks the generated packages of a set.
type typeImporter struct {
	fset  *token.FileSet
	pkgs  map[string]*types.Package
	files map[string][]*ast.File // by import path
	errs  []error
}

func (ti *typeImporter) Import(path string) (*types.Package, error) {
	if p, ok := ti.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle")
		}
		return p, nil
	}
	fs, ok := ti.files[path]
	if !ok {
		return nil, fmt.Errorf("unknown package %s", path)
	}
	ti.pkgs[path] = nil
	conf := types.Config{Importer: ti, Error: func(e error) { ti.errs = append(ti.errs, e) }}
	p, _ := conf.Check(path, ti.fset, fs, nil)
	ti.pkgs[path] = p
	return p, nil
}

// typeCheck parses and type-checks the generated files of a set.
func typeCheck(c *h.Ctx, set *pgen.Set, base map[string]string) (*protogen.Plugin, *typeImporter) {
	if set.DupForward || set.Directive {
		c.Outcome("not compilable (listed finding of C15)")
		return nil, nil
	}
	plug, err := pgen.Plugin(pgen.Request(set.Files, set.All(), ""))
	if err != nil {
		c.Case(nil)
		c.Fail("harness: %v", err)
		return nil, nil
	}
	ti := &typeImporter{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}}
	stub, _ := parser.ParseFile(ti.fset, "stub.go", protoStub, 0)
	ti.files["github.com/RomiChan/protobuf/proto"] = []*ast.File{stub}
	for _, f := range plug.Files {
		name := f.GeneratedFilenamePrefix + ".pb.go"
		x, err := parser.ParseFile(ti.fset, name, base[name], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			c.Case(nil)
			c.Fail("%s does not parse: %v", name, err)
			return nil, nil
		}
		if x.Name.Name != string(f.GoPackageName) {
			c.Case(nil)
			c.Fail("%s is in package %s, want %s", name, x.Name.Name, f.GoPackageName)
			return nil, nil
		}
		ti.files[string(f.GoImportPath)] = append(ti.files[string(f.GoImportPath)], x)
	}
	for _, f := range plug.Files {
		if _, err := ti.Import(string(f.GoImportPath)); err != nil {
			c.Case(nil)
			c.Fail("type check: %v", err)
			return nil, nil
		}
	}
	return plug, ti
}

// contents checks what the generated files of a set declare.
func contents(c *h.Ctx, set *pgen.Set, base map[string]string) {
	plug, ti := typeCheck(c, set, base)
	if ti == nil {
		return
	}
	// whether it compiles is the business of C15; here the declarations count
	for _, f := range plug.Files {
		p := ti.pkgs[string(f.GoImportPath)]
		name := f.GeneratedFilenamePrefix + ".pb.go"
		lookup := func(id string) types.Object {
			o := p.Scope().Lookup(id)
			if o == nil {
				c.Fail("%s does not declare %s", name, id)
				return nil
			}
			if at := filepath.ToSlash(ti.fset.File(o.Pos()).Name()); at != name {
				c.Fail("%s is declared in %s, not in %s", id, at, name)
			}
			return o
		}
		own := map[string]bool{}
		for _, e := range enumsOf(f) {
			own[e.GoIdent.GoName] = true
			for _, v := range e.Values {
				own[v.GoIdent.GoName] = true
			}
			if !c.Case(func() string { return "enum " + string(e.Desc.FullName()) }) {
				continue
			}
			c.State("enum", string(e.Desc.FullName()))
			c.Trans(1)
			tn, ok := lookup(e.GoIdent.GoName).(*types.TypeName)
			if !ok {
				c.Fail("%s is not a type", e.GoIdent.GoName)
				continue
			}
			if b, ok := tn.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
				c.Fail("enum type %s is %v", e.GoIdent.GoName, tn.Type())
			}
			for _, v := range e.Values {
				k, ok := lookup(v.GoIdent.GoName).(*types.Const)
				if !ok {
					c.Fail("%s is not a constant", v.GoIdent.GoName)
					continue
				}
				n, exact := constant.Int64Val(constant.ToInt(k.Val()))
				if !exact || n != int64(v.Desc.Number()) {
					c.Fail("%s is %v, the schema says %d", v.GoIdent.GoName, k.Val(), v.Desc.Number())
				}
				if !types.Identical(k.Type(), tn.Type()) {
					c.Fail("%s has type %v, want %v", v.GoIdent.GoName, k.Type(), tn.Type())
				}
			}
		}
		for _, m := range messagesOf(f) {
			own[m.GoIdent.GoName] = true
			for _, o := range m.Oneofs {
				if !o.Desc.IsSynthetic() {
					for _, of := range o.Fields {
						own[of.GoIdent.GoName] = true
					}
				}
			}
			if !c.Case(func() string { return "message " + string(m.Desc.FullName()) }) {
				continue
			}
			c.State("message", string(m.Desc.FullName()))
			c.Trans(1)
			st, tags := structOf(lookup(m.GoIdent.GoName))
			if st == nil {
				c.Fail("%s is not a struct type", m.GoIdent.GoName)
				continue
			}
			seen := 0
			for _, pf := range m.Fields {
				if pf.Oneof != nil && !pf.Oneof.Desc.IsSynthetic() {
					ws, wtags := structOf(lookup(pf.GoIdent.GoName))
					if ws == nil {
						c.Fail("%s is not a struct type", pf.GoIdent.GoName)
					} else if n := tagNumber(wtags[pf.GoName]); n != int(pf.Desc.Number()) {
						c.Fail("oneof field %s.%s: number %d in the tag %q, the schema says %d", pf.GoIdent.GoName, pf.GoName, n, wtags[pf.GoName], pf.Desc.Number())
					}
					if _, ok := st[pf.Oneof.GoName]; !ok {
						c.Fail("%s has no field %s for the oneof", m.GoIdent.GoName, pf.Oneof.GoName)
					}
					continue
				}
				if _, ok := st[pf.GoName]; !ok {
					c.Fail("%s has no field %s", m.GoIdent.GoName, pf.GoName)
					continue
				}
				seen++
				if n := tagNumber(tags[pf.GoName]); n != int(pf.Desc.Number()) {
					c.Fail("field %s.%s: number %d in the tag %q, the schema says %d", m.GoIdent.GoName, pf.GoName, n, tags[pf.GoName], pf.Desc.Number())
				}
			}
			tagged := 0
			for _, t := range tags {
				if tagNumber(t) >= 0 {
					tagged++
				}
			}
			if tagged != seen {
				c.Fail("%s has %d fields with a protobuf tag, the schema has %d", m.GoIdent.GoName, tagged, seen)
			}
			c.Trace(1)
		}
		// public imports
		for i := 0; i < f.Desc.Imports().Len(); i++ {
			im := f.Desc.Imports().Get(i)
			if !im.IsPublic {
				continue
			}
			inf := plug.FilesByPath[im.Path()]
			if inf == nil || inf.GoImportPath == f.GoImportPath {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("%s publicly imports %s", f.Desc.Path(), im.Path()) }) {
				continue
			}
			c.State("public import", f.Desc.Path(), im.Path())
			c.Trans(1)
			ip := ti.pkgs[string(inf.GoImportPath)]
			if ip == nil {
				c.Fail("package %s is not type checked", inf.GoImportPath)
				continue
			}
			for _, id := range ownIdents(inf) {
				if r := rune(id[0]); !unicode.IsUpper(r) {
					continue
				}
				io := ip.Scope().Lookup(id)
				o := lookup(id)
				if io == nil || o == nil {
					continue
				}
				switch x := io.(type) {
				case *types.TypeName:
					y, ok := o.(*types.TypeName)
					if !ok || !types.Identical(x.Type(), y.Type()) {
						c.Fail("%s is %v, want the type of the imported package", id, o)
					}
				case *types.Const:
					y, ok := o.(*types.Const)
					if !ok || !constant.Compare(x.Val(), token.EQL, y.Val()) || !types.Identical(x.Type(), y.Type()) {
						c.Fail("%s is %v, want the constant of the imported package", id, o)
					}
				}
			}
			c.Trace(1)
		}
	}
}

// ownIdents lists the Go identifiers a file declares for its schema.
func ownIdents(f *protogen.File) []string {
	var r []string
	for _, e := range enumsOf(f) {
		r = append(r, e.GoIdent.GoName)
		for _, v := range e.Values {
			r = append(r, v.GoIdent.GoName)
		}
	}
	for _, m := range messagesOf(f) {
		r = append(r, m.GoIdent.GoName)
		for _, o := range m.Oneofs {
			if !o.Desc.IsSynthetic() {
				for _, of := range o.Fields {
					r = append(r, of.GoIdent.GoName)
				}
			}
		}
	}
	return r
}

func enumsOf(f *protogen.File) []*protogen.Enum {
	r := append([]*protogen.Enum{}, f.Enums...)
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			r = append(r, m.Enums...)
			walk(m.Messages)
		}
	}
	walk(f.Messages)
	return r
}

// structOf returns the fields and tags of a struct type by field name.
func structOf(o types.Object) (map[string]types.Type, map[string]string) {
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil, nil
	}
	s, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	f, t := map[string]types.Type{}, map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		f[s.Field(i).Name()] = s.Field(i).Type()
		t[s.Field(i).Name()] = s.Tag(i)
	}
	return f, t
}

// tagNumber is the field number in a struct tag, -1 without one.
func tagNumber(tag string) int {
	i := strings.Index(tag, `protobuf:"`)
	if i < 0 {
		return -1
	}
	s := strings.Split(tag[i+len(`protobuf:"`):], `"`)[0]
	p := strings.Split(s, ",")
	if len(p) < 2 {
		return -1
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		return -1
	}
	return n
}
