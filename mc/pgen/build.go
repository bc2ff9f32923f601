// Package pgen enumerates protobuf schemas (as file descriptors), runs the
// plugin under test on them and compiles what it writes.
package pgen

import (
	"fmt"

	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"

	"verif.local/mc/gen"
)

// Base is the import path prefix of the generated packages.
const Base = "verif.gen"

// Set is a group of schema files that is generated and compiled together.
type Set struct {
	Name  string
	Group string // family
	Files []*dpb.FileDescriptorProto
	// DupForward: two files of one Go package publicly import the same file of
	// another one (a listed finding).
	DupForward bool
	// Directive: a comment reads as a directive to the Go tools (a listed
	// finding).
	Directive bool
	// Level of the value alphabet (gen.Level), 0: pairs of small values.
	Rich bool
}

type typ = dpb.FieldDescriptorProto_Type

const (
	tEnum  = dpb.FieldDescriptorProto_TYPE_ENUM
	tMsg   = dpb.FieldDescriptorProto_TYPE_MESSAGE
	tGroup = dpb.FieldDescriptorProto_TYPE_GROUP
)

// scalarTypes are the 15 scalar types.
var scalarTypes = []typ{
	dpb.FieldDescriptorProto_TYPE_BOOL, dpb.FieldDescriptorProto_TYPE_INT32, dpb.FieldDescriptorProto_TYPE_INT64,
	dpb.FieldDescriptorProto_TYPE_UINT32, dpb.FieldDescriptorProto_TYPE_UINT64, dpb.FieldDescriptorProto_TYPE_SINT32,
	dpb.FieldDescriptorProto_TYPE_SINT64, dpb.FieldDescriptorProto_TYPE_FIXED32, dpb.FieldDescriptorProto_TYPE_FIXED64,
	dpb.FieldDescriptorProto_TYPE_SFIXED32, dpb.FieldDescriptorProto_TYPE_SFIXED64, dpb.FieldDescriptorProto_TYPE_FLOAT,
	dpb.FieldDescriptorProto_TYPE_DOUBLE, dpb.FieldDescriptorProto_TYPE_STRING, dpb.FieldDescriptorProto_TYPE_BYTES,
}

var keyTypes = []typ{
	dpb.FieldDescriptorProto_TYPE_BOOL, dpb.FieldDescriptorProto_TYPE_INT32, dpb.FieldDescriptorProto_TYPE_INT64,
	dpb.FieldDescriptorProto_TYPE_UINT32, dpb.FieldDescriptorProto_TYPE_UINT64, dpb.FieldDescriptorProto_TYPE_SINT32,
	dpb.FieldDescriptorProto_TYPE_SINT64, dpb.FieldDescriptorProto_TYPE_FIXED32, dpb.FieldDescriptorProto_TYPE_FIXED64,
	dpb.FieldDescriptorProto_TYPE_SFIXED32, dpb.FieldDescriptorProto_TYPE_SFIXED64, dpb.FieldDescriptorProto_TYPE_STRING,
}

const (
	tBool    = dpb.FieldDescriptorProto_TYPE_BOOL
	tInt32   = dpb.FieldDescriptorProto_TYPE_INT32
	tInt64   = dpb.FieldDescriptorProto_TYPE_INT64
	tSint32  = dpb.FieldDescriptorProto_TYPE_SINT32
	tSint64  = dpb.FieldDescriptorProto_TYPE_SINT64
	tFixed32 = dpb.FieldDescriptorProto_TYPE_FIXED32
	tFixed64 = dpb.FieldDescriptorProto_TYPE_FIXED64
	tSfix32  = dpb.FieldDescriptorProto_TYPE_SFIXED32
	tUint32  = dpb.FieldDescriptorProto_TYPE_UINT32
	tDouble  = dpb.FieldDescriptorProto_TYPE_DOUBLE
	tString  = dpb.FieldDescriptorProto_TYPE_STRING
	tBytes   = dpb.FieldDescriptorProto_TYPE_BYTES
)

func packable(t typ) bool {
	return t != tString && t != tBytes && t != tMsg && t != tGroup
}

// label of a field.
type label int

const (
	lOpt      label = iota // proto2 optional, proto3 optional
	lImplicit              // proto3 without a label
	lReq                   // proto2
	lRep                   // repeated, default packedness
	lRepFlip               // repeated, the other packedness
	lMap
)

var labelNames = [...]string{"opt", "impl", "req", "rep", "repflip", "map"}

// shape is a field of a schema without name and number.
type shape struct {
	l   label
	t   typ
	key typ
	ref string // type name for enums and messages, fully qualified
}

func (s shape) String() string {
	n := labelNames[s.l] + "_" + s.t.String()[5:]
	if s.l == lMap {
		n = "map_" + s.key.String()[5:] + "_" + s.t.String()[5:]
	}
	return n
}

// File builds a file.
func newFile(syntax int, path, pkg, gopkg string) *dpb.FileDescriptorProto {
	f := &dpb.FileDescriptorProto{Name: &path, Options: &dpb.FileOptions{GoPackage: proto.String(gopkg)}}
	if pkg != "" {
		f.Package = &pkg
	}
	if syntax == 3 {
		f.Syntax = proto.String("proto3")
	}
	return f
}

func imp(f *dpb.FileDescriptorProto, g *dpb.FileDescriptorProto, public bool) {
	f.Dependency = append(f.Dependency, g.GetName())
	if public {
		f.PublicDependency = append(f.PublicDependency, int32(len(f.Dependency)-1))
	}
}

func newMsg(name string) *dpb.DescriptorProto { return &dpb.DescriptorProto{Name: &name} }

func newEnum(name string, vals ...interface{}) *dpb.EnumDescriptorProto {
	e := &dpb.EnumDescriptorProto{Name: &name}
	seen := map[int]bool{}
	for i := 0; i+1 < len(vals); i += 2 {
		n := vals[i+1].(int)
		if seen[n] {
			e.Options = &dpb.EnumOptions{AllowAlias: proto.Bool(true)}
		}
		seen[n] = true
		e.Value = append(e.Value, &dpb.EnumValueDescriptorProto{Name: proto.String(vals[i].(string)), Number: proto.Int32(int32(n))})
	}
	return e
}

// addField appends a field of a shape; full is the full name of m.
func addField(syntax int, m *dpb.DescriptorProto, full, name string, num int, s shape) *dpb.FieldDescriptorProto {
	fd := &dpb.FieldDescriptorProto{Name: &name, Number: proto.Int32(int32(num))}
	lab := dpb.FieldDescriptorProto_LABEL_OPTIONAL
	t := s.t
	switch s.l {
	case lReq:
		lab = dpb.FieldDescriptorProto_LABEL_REQUIRED
	case lRep, lRepFlip, lMap:
		lab = dpb.FieldDescriptorProto_LABEL_REPEATED
	}
	fd.Label = &lab
	if s.l == lRepFlip && packable(s.t) {
		fd.Options = &dpb.FieldOptions{Packed: proto.Bool(syntax == 2)}
	}
	if s.l == lMap {
		en := camel(name) + "Entry"
		e := newMsg(en)
		e.Options = &dpb.MessageOptions{MapEntry: proto.Bool(true)}
		addField(2, e, full+"."+en, "key", 1, shape{l: lOpt, t: s.key})
		addField(2, e, full+"."+en, "value", 2, shape{l: lOpt, t: s.t, ref: s.ref})
		m.NestedType = append(m.NestedType, e)
		t = tMsg
		fd.TypeName = proto.String("." + full + "." + en)
	} else if s.ref != "" {
		fd.TypeName = proto.String("." + s.ref)
	}
	fd.Type = &t
	m.Field = append(m.Field, fd)
	if syntax == 3 && s.l == lOpt {
		fd.Proto3Optional = proto.Bool(true)
		m.OneofDecl = append(m.OneofDecl, &dpb.OneofDescriptorProto{Name: proto.String("_" + name)})
		fd.OneofIndex = proto.Int32(int32(len(m.OneofDecl) - 1))
	}
	return fd
}

// camel is the name of a map entry type for a field name.
func camel(s string) string {
	up := true
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		r = append(r, c)
	}
	return string(r)
}

var nums = func() []int {
	var r []int
	for _, n := range gen.Nums {
		r = append(r, n)
	}
	return r
}()

// depFile has one enum and one message, each also nested.
func depFile(syntax int, path, pkg, gopkg string) *dpb.FileDescriptorProto {
	f := newFile(syntax, path, pkg, gopkg)
	first := 0
	if syntax == 2 {
		first = 7
	}
	pre := camel(pkg)
	f.EnumType = append(f.EnumType, newEnum(pre+"E", pre+"_E_A", first, pre+"_E_B", 1, pre+"_E_NEG", -1, pre+"_E_MIN", -2147483648, pre+"_E_MAX", 2147483647, pre+"_E_ALIAS", 1))
	m := newMsg(pre + "M")
	full := pkg + "." + pre + "M"
	m.EnumType = append(m.EnumType, newEnum("Kind", "NONE", 0, "SOME", 5))
	in := newMsg("Inner")
	addField(syntax, in, full+".Inner", "v", 1, shape{l: lOpt, t: tSint32})
	addField(syntax, in, full+".Inner", "s", 2, shape{l: lRep, t: tString})
	m.NestedType = append(m.NestedType, in)
	addField(syntax, m, full, "id", 1, shape{l: lOpt, t: tFixed32})
	addField(syntax, m, full, "kind", 2, shape{l: lOpt, t: tEnum, ref: full + ".Kind"})
	addField(syntax, m, full, "inner", 3, shape{l: lRep, t: tMsg, ref: full + ".Inner"})
	f.MessageType = append(f.MessageType, m)
	return f
}

// labels of a syntax.
func labels(syntax int) []label {
	if syntax == 2 {
		return []label{lOpt, lReq, lRep, lRepFlip}
	}
	return []label{lOpt, lImplicit, lRep, lRepFlip}
}

// refs of a file that imports dep files: name of enum / message type.
type ref struct{ where, enum, msg string }

func gp(set, pkg string) string { return Base + "/" + set + "/" + pkg + ";" + pkg }

// singles: one message for every single field shape.
func singles(syntax int) *Set {
	name := fmt.Sprintf("single%d", syntax)
	same := depFile(syntax, name+"/same.proto", name+"same", gp(name, "pmain"))
	other := depFile(syntax, name+"/other.proto", name+"other", gp(name, "other"))
	f := newFile(syntax, name+"/main.proto", name, gp(name, "pmain"))
	imp(f, same, false)
	imp(f, other, false)
	f.EnumType = append(f.EnumType, newEnum("Color", "RED", 0, "GREEN", 1, "BLUE", -3))
	lm := newMsg("Leaf")
	addField(syntax, lm, name+".Leaf", "a", 1, shape{l: lOpt, t: tInt32})
	addField(syntax, lm, name+".Leaf", "b", 2, shape{l: lOpt, t: tBytes})
	f.MessageType = append(f.MessageType, lm)
	pre := func(p string) string { return p + "." + camel(p) }
	refs := []ref{
		{"local", name + ".Color", name + ".Leaf"},
		{"same", pre(name+"same") + "E", pre(name+"same") + "M"},
		{"samenest", pre(name+"same") + "M.Kind", pre(name+"same") + "M.Inner"},
		{"other", pre(name+"other") + "E", pre(name+"other") + "M"},
		{"othernest", pre(name+"other") + "M.Kind", pre(name+"other") + "M.Inner"},
		{"nested", "", ""},
		{"self", "", ""},
	}
	n := 0
	add := func(s shape, where string) {
		mn := fmt.Sprintf("M%d_%s_%s", n, s, where)
		full := name + "." + mn
		m := newMsg(mn)
		switch where {
		case "nested":
			if s.t == tEnum {
				m.EnumType = append(m.EnumType, newEnum("In", "ZERO", 0, "ONE", 1))
			} else {
				in := newMsg("In")
				addField(syntax, in, full+".In", "x", 1, shape{l: lOpt, t: tString})
				m.NestedType = append(m.NestedType, in)
			}
			s.ref = full + ".In"
		case "self":
			s.ref = full
		}
		addField(syntax, m, full, "f", nums[n%len(nums)], s)
		f.MessageType = append(f.MessageType, m)
		n++
	}
	for _, l := range append(labels(syntax), lMap) {
		keys := []typ{0}
		if l == lMap {
			keys = keyTypes
		}
		for ki, key := range keys {
			for _, t := range scalarTypes {
				if l == lRepFlip && !packable(t) {
					continue
				}
				add(shape{l: l, t: t, key: key}, "x")
			}
			for ri, r := range refs {
				if l == lMap && ki > 0 && ri != (ki%4) && ri != 6 {
					continue
				}
				if r.where != "self" && !(l == lMap && syntax == 2 && (r.where == "same" || r.where == "other")) {
					// (a map enum must begin with zero)
					add(shape{l: l, t: tEnum, key: key, ref: r.enum}, r.where)
				}
				if l == lReq && r.where == "self" {
					continue // no value
				}
				if l != lRepFlip {
					add(shape{l: l, t: tMsg, key: key, ref: r.msg}, r.where)
				}
			}
		}
	}
	return &Set{Name: name, Group: "single fields", Files: []*dpb.FileDescriptorProto{same, other, f}, Rich: true}
}

// coreShapes of a syntax for combinations.
func coreShapes(syntax int, enum, msg string) []shape {
	r := []shape{
		{l: lOpt, t: tBool}, {l: lOpt, t: tInt32}, {l: lOpt, t: tSint64}, {l: lOpt, t: tFixed32}, {l: lOpt, t: tDouble}, {l: lOpt, t: tString}, {l: lOpt, t: tBytes},
		{l: lOpt, t: tEnum, ref: enum}, {l: lOpt, t: tMsg, ref: msg},
		{l: lRep, t: tSint32}, {l: lRepFlip, t: tFixed64}, {l: lRep, t: tString}, {l: lRep, t: tBytes}, {l: lRep, t: tMsg, ref: msg}, {l: lRepFlip, t: tEnum, ref: enum},
		{l: lMap, key: tString, t: tInt32}, {l: lMap, key: tSint32, t: tMsg, ref: msg}, {l: lMap, key: tBool, t: tEnum, ref: enum},
	}
	if syntax == 2 {
		r = append(r, shape{l: lReq, t: tSfix32}, shape{l: lReq, t: tString}, shape{l: lReq, t: tMsg, ref: msg})
	} else {
		r = append(r, shape{l: lImplicit, t: tBool}, shape{l: lImplicit, t: tUint32}, shape{l: lImplicit, t: tString}, shape{l: lImplicit, t: tBytes}, shape{l: lImplicit, t: tDouble}, shape{l: lImplicit, t: tEnum, ref: enum})
	}
	return r
}

// pairs: one message for every ordered pair of core shapes, with numbers in
// both orders.
func pairs(syntax int) *Set {
	name := fmt.Sprintf("pair%d", syntax)
	f := newFile(syntax, name+"/pair.proto", name, gp(name, "pmain"))
	f.EnumType = append(f.EnumType, newEnum("Color", "RED", 0, "GREEN", 1, "BLUE", -3))
	lm := newMsg("Leaf")
	addField(syntax, lm, name+".Leaf", "a", 1, shape{l: lOpt, t: tInt32})
	f.MessageType = append(f.MessageType, lm)
	core := coreShapes(syntax, name+".Color", name+".Leaf")
	n := 0
	for _, a := range core {
		for _, b := range core {
			mn := fmt.Sprintf("P%d", n)
			m := newMsg(mn)
			na, nb := nums[n%7], nums[(n+1+n/7%6)%7]
			if na == nb {
				nb = 20
			}
			addField(syntax, m, name+"."+mn, "aa", na, a)
			addField(syntax, m, name+"."+mn, "bb", nb, b)
			f.MessageType = append(f.MessageType, m)
			n++
		}
	}
	return &Set{Name: name, Group: "pairs of fields", Files: []*dpb.FileDescriptorProto{f}}
}
