package props

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	dpb "google.golang.org/protobuf/types/descriptorpb"

	"verif.local/mc/h"
	"verif.local/mc/pgen"
)

// C21: the form of the generated declarations.
func c21(c *h.Ctx) {
	plugin := filepath.Join(c.Dir, "plugin")
	buildErr, _ := os.ReadFile(filepath.Join(c.Dir, "plugin.err"))
	if c.Family("plugin") {
		if c.Unit(func() string { return "go build ./cmd/protoc-gen-golite" }) && c.Case(nil) {
			if len(buildErr) > 0 {
				c.Fail("%s", buildErr)
			}
		}
	}
	if len(buildErr) > 0 {
		return
	}
	run := func(set *pgen.Set) {
		if !c.Unit(func() string { return "schema set " + set.Name }) {
			return
		}
		c.Trans(1)
		resp, err := pgen.Run(plugin, pgen.Request(set.Files, set.All(), ""))
		if err != nil || resp.Error != nil {
			c.Case(nil)
			c.Fail("%v %v", err, resp.GetError())
			return
		}
		base := map[string]string{}
		for _, f := range resp.File {
			base[f.GetName()] = f.GetContent()
		}
		plug, ti := typeCheck(c, set, base)
		if ti == nil {
			return
		}
		for _, f := range plug.Files {
			declarations(c, plug, ti, f)
		}
	}
	if c.Family("schemas") {
		for _, set := range pgen.Sets(c.Thorough()) {
			run(set)
		}
	}
	if c.Family("comments") {
		for _, set := range pgen.Decls() {
			run(set)
		}
	}
}

// decl is what the source says about one declaration.
type decl struct{ doc, side *ast.CommentGroup }

// declsOf finds the declarations of a file by name: "T" for types and
// constants, "T.F" for fields, "T.M()" for methods.
func declsOf(x *ast.File) map[string]decl {
	r := map[string]decl{}
	for _, d := range x.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					r[id.Name+"."+d.Name.Name+"()"] = decl{d.Doc, nil}
				}
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				pick := func(doc *ast.CommentGroup) *ast.CommentGroup {
					if doc == nil && !d.Lparen.IsValid() {
						return d.Doc
					}
					return doc
				}
				switch s := s.(type) {
				case *ast.TypeSpec:
					r[s.Name.Name] = decl{pick(s.Doc), s.Comment}
					if st, ok := s.Type.(*ast.StructType); ok {
						for _, f := range st.Fields.List {
							for _, n := range f.Names {
								r[s.Name.Name+"."+n.Name] = decl{f.Doc, f.Comment}
							}
						}
					}
				case *ast.ValueSpec:
					for _, n := range s.Names {
						r[n.Name] = decl{pick(s.Doc), s.Comment}
					}
				}
			}
		}
	}
	return r
}

// letters are the letters and digits of a text: what formatting keeps.
func letters(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, s)
}

func rawText(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var b strings.Builder
	for _, x := range g.List {
		b.WriteString(strings.TrimPrefix(x.Text, "//"))
		b.WriteByte('\n')
	}
	return b.String()
}

var markRe = regexp.MustCompile(`x[LT][0-9]+x`)

// deprecated reports whether a comment has the paragraph by which Go tools
// know deprecated declarations.
func deprecated(g *ast.CommentGroup) bool {
	if g == nil {
		return false
	}
	for _, p := range strings.Split(g.Text(), "\n\n") {
		if strings.HasPrefix(p, "Deprecated: ") {
			return true
		}
	}
	return false
}

func declarations(c *h.Ctx, plug *protogen.Plugin, ti *typeImporter, f *protogen.File) {
	name := f.GeneratedFilenamePrefix + ".pb.go"
	pkg := ti.pkgs[string(f.GoImportPath)]
	var x *ast.File
	for _, y := range ti.files[string(f.GoImportPath)] {
		if ti.fset.File(y.Pos()).Name() == name {
			x = y
		}
	}
	ds := declsOf(x)
	if c.Case(func() string { return name }) {
		c.State("file", name)
		c.Trans(1)
		if !ast.IsGenerated(x) {
			c.Fail("%s has no line that says it is generated", name)
		}
		// what else is exported
		own := map[string]bool{}
		for _, id := range ownIdents(f) {
			own[id] = true
		}
		for i := 0; i < f.Desc.Imports().Len(); i++ {
			if im := f.Desc.Imports().Get(i); im.IsPublic {
				if inf := plug.FilesByPath[im.Path()]; inf != nil {
					for _, id := range ownIdents(inf) {
						own[id] = true
					}
				}
			}
		}
		var extra []string
		for _, id := range pkg.Scope().Names() {
			o := pkg.Scope().Lookup(id)
			if o.Exported() && !own[id] && filepath.ToSlash(ti.fset.File(o.Pos()).Name()) == name {
				extra = append(extra, id)
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			c.Fail("%s declares %v, which the schema does not name", name, extra)
		}
		c.Trace(1)
	}
	// comment of a declaration
	says := func(id string, cs protogen.CommentSet, side, dep bool) {
		d, ok := ds[id]
		if !ok {
			c.Fail("%s does not declare %s", name, id)
			return
		}
		doc := rawText(d.doc)
		if !strings.Contains(letters(doc), letters(string(cs.Leading))) {
			c.Fail("the comment of %s is %q, the schema says %q", id, doc, cs.Leading)
		}
		for _, m := range markRe.FindAllString(doc, -1) {
			if !strings.Contains(string(cs.Leading), m) {
				c.Fail("%s has the comment of another declaration: %q", id, doc)
			}
		}
		if side {
			beside := rawText(d.side)
			t := strings.TrimSuffix(string(cs.Trailing), "\n")
			if !strings.Contains(t, "\n") && !strings.Contains(letters(beside), letters(t)) {
				c.Fail("beside %s is %q, the schema says %q", id, beside, cs.Trailing)
			}
			for _, m := range markRe.FindAllString(beside, -1) {
				if !strings.Contains(t, m) {
					c.Fail("beside %s is the comment of another declaration: %q", id, beside)
				}
			}
		}
		if deprecated(d.doc) != dep {
			c.Fail("the schema says deprecated = %v of %s, its comment is %q", dep, id, doc)
		}
	}
	for _, e := range enumsOf(f) {
		if !c.Case(func() string { return "enum " + string(e.Desc.FullName()) }) {
			continue
		}
		c.State("enum", string(e.Desc.FullName()))
		c.Trans(1)
		says(e.GoIdent.GoName, e.Comments, false, e.Desc.Options().(*dpb.EnumOptions).GetDeprecated())
		for _, v := range e.Values {
			says(v.GoIdent.GoName, v.Comments, true, v.Desc.Options().(*dpb.EnumValueOptions).GetDeprecated())
		}
		c.Trace(1)
	}
	for _, m := range messagesOf(f) {
		if !c.Case(func() string { return "message " + string(m.Desc.FullName()) }) {
			continue
		}
		c.State("message", string(m.Desc.FullName()))
		c.Trans(1)
		message(c, ti, pkg, m, says)
		c.Trace(1)
	}
}

func message(c *h.Ctx, ti *typeImporter, pkg *types.Package, m *protogen.Message, says func(string, protogen.CommentSet, bool, bool)) {
	n := m.GoIdent.GoName
	says(n, m.Comments, false, m.Desc.Options().(*dpb.MessageOptions).GetDeprecated())
	o := pkg.Scope().Lookup(n)
	if o == nil {
		return
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		c.Fail("%s is not a struct type", n)
		return
	}
	if types.Comparable(o.Type()) {
		c.Fail("messages of type %s can be compared with ==", n)
	}
	var got, want []string
	typ := map[string]types.Type{}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Exported() {
			got = append(got, f.Name())
			typ[f.Name()] = f.Type()
		}
	}
	for _, f := range m.Fields {
		dep := f.Desc.Options().(*dpb.FieldOptions).GetDeprecated()
		if oo := f.Oneof; oo != nil && !oo.Desc.IsSynthetic() {
			w := f.GoIdent.GoName
			says(w+"."+f.GoName, f.Comments, true, dep)
			says(n+".Get"+f.GoName+"()", protogen.CommentSet{}, false, dep)
			if wo := pkg.Scope().Lookup(w); wo != nil {
				ws, ok := wo.Type().Underlying().(*types.Struct)
				if !ok || ws.NumFields() != 1 || ws.Field(0).Name() != f.GoName {
					c.Fail("%s is not a struct with the field %s alone", w, f.GoName)
				} else if t := ti.goType(c, f, false); t != nil && !types.Identical(t, ws.Field(0).Type()) {
					c.Fail("%s.%s is of type %v, want %v", w, f.GoName, ws.Field(0).Type(), t)
				}
			}
			if oo.Fields[0] != f {
				continue
			}
			want = append(want, oo.GoName)
			says(n+"."+oo.GoName, protogen.CommentSet{Leading: oo.Comments.Leading}, false, false)
			if t := typ[oo.GoName]; t != nil && !types.IsInterface(t) {
				c.Fail("%s.%s is of type %v, want an interface", n, oo.GoName, t)
			}
			continue
		}
		want = append(want, f.GoName)
		says(n+"."+f.GoName, f.Comments, true, dep)
		if t := ti.goType(c, f, true); t != nil && typ[f.GoName] != nil && !types.Identical(t, typ[f.GoName]) {
			c.Fail("%s.%s is of type %v, want %v", n, f.GoName, typ[f.GoName], t)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("%s has the fields %v, the schema %v", n, got, want)
	}
}

var kindTypes = map[protoreflect.Kind]types.Type{
	protoreflect.BoolKind: types.Typ[types.Bool], protoreflect.EnumKind: types.Typ[types.Int32],
	protoreflect.Int32Kind: types.Typ[types.Int32], protoreflect.Sint32Kind: types.Typ[types.Int32], protoreflect.Sfixed32Kind: types.Typ[types.Int32],
	protoreflect.Uint32Kind: types.Typ[types.Uint32], protoreflect.Fixed32Kind: types.Typ[types.Uint32],
	protoreflect.Int64Kind: types.Typ[types.Int64], protoreflect.Sint64Kind: types.Typ[types.Int64], protoreflect.Sfixed64Kind: types.Typ[types.Int64],
	protoreflect.Uint64Kind: types.Typ[types.Uint64], protoreflect.Fixed64Kind: types.Typ[types.Uint64],
	protoreflect.FloatKind: types.Typ[types.Float32], protoreflect.DoubleKind: types.Typ[types.Float64],
	protoreflect.StringKind: types.Typ[types.String], protoreflect.BytesKind: types.NewSlice(types.Universe.Lookup("byte").Type()),
}

// goType is the Go type a field must have; presence: scalars with presence are
// wrapped.
func (ti *typeImporter) goType(c *h.Ctx, f *protogen.Field, presence bool) types.Type {
	if f.Desc.IsMap() {
		k, v := ti.goType(c, f.Message.Fields[0], false), ti.goType(c, f.Message.Fields[1], false)
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	}
	t := kindTypes[f.Desc.Kind()]
	if t == nil {
		p := ti.pkgs[string(f.Message.GoIdent.GoImportPath)]
		if p == nil {
			return nil
		}
		o := p.Scope().Lookup(f.Message.GoIdent.GoName)
		if o == nil {
			return nil
		}
		t = types.NewPointer(o.Type())
	} else if presence && f.Desc.HasPresence() && f.Desc.Kind() != protoreflect.BytesKind && !f.Desc.IsList() {
		p := ti.pkgs["github.com/RomiChan/protobuf/proto"]
		if p == nil {
			c.Fail("the package proto is not imported")
			return nil
		}
		w, err := types.Instantiate(nil, p.Scope().Lookup("Option").Type(), []types.Type{t}, false)
		if err != nil {
			return nil
		}
		return w
	}
	if f.Desc.IsList() {
		return types.NewSlice(t)
	}
	return t
}
