package pgen

import (
	"fmt"

	dpb "google.golang.org/protobuf/types/descriptorpb"
)

// prefixes and suffixes have, or might be thought to have, a meaning.
var prefixes = []string{"", "_", "__", "is_", "Is", "get_", "Get", "File_", "file_", "New", "X", "XXX_", "default_", "Default_", "no_", "Test", "un", "map_", "oneof_", "option_", "weak_", "E_", "m_", "_1"}
var suffixes = []string{"", "_", "Entry", "_entry", "_proto", "_name", "_value", "Value", "_type", "Kind", "_1", "9", "_test", "Wrapper", "Option", "Oneof", "_enum", "_Default", "_desc", "Request", "s", "_x", "_X", "_pb", "_UNSPECIFIED", "2_3"}

// goName is the rule by which Go names are made of the names of a schema.
func goName(s string) string {
	low := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && low(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if low(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && low(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// affixes: every pair of a prefix and a suffix as the name of a message, a
// nested message, an enum, its values, a field, a oneof and its members, in a
// file that is publicly imported by a file of another package.
func affixes(syntax int) *Set {
	name := fmt.Sprintf("affix%d", syntax)
	f := newFile(syntax, name+"/main.proto", name, gp(name, "pmain"))
	u := newFile(2, name+"/user.proto", name+".user", gp(name, "user"))
	imp(u, f, true)
	types := map[string]bool{}
	values := map[string]bool{}
	n := 0
	for _, p := range prefixes {
		for _, s := range suffixes {
			w := func(stem string) string { return p + stem + s }
			m, e, o := w("foo"), w("bar"), w("uni")
			if types[goName(m)] || types[goName(e)] || types[goName(o)] || types[camel(m)+"Entry"] {
				continue
			}
			v1, v2 := w("one"), w("two")
			if values[v1] || values[v2] {
				continue
			}
			types[goName(m)], types[goName(e)], types[goName(o)] = true, true, true
			values[v1], values[v2] = true, true
			n++
			full := name + "." + m
			f.EnumType = append(f.EnumType, newEnum(e, v1, 0, v2, n))
			// a message of the form of a map entry, which is none
			md := newMsg(m)
			addField(syntax, md, full, "key", 1, shape{l: lOpt, t: tInt32})
			addField(syntax, md, full, "value", 2, shape{l: lOpt, t: tEnum, ref: name + "." + e})
			in := newMsg(w("sub"))
			addField(syntax, in, full+"."+w("sub"), "key", 1, shape{l: lOpt, t: tString})
			addField(syntax, in, full+"."+w("sub"), "value", 2, shape{l: lRep, t: tString})
			md.NestedType = append(md.NestedType, in)
			f.MessageType = append(f.MessageType, md)
			// fields and a oneof
			om := newMsg(o)
			full = name + "." + o
			addField(syntax, om, full, w("foo"), 1, shape{l: lRep, t: tMsg, ref: name + "." + m})
			addField(syntax, om, full, w("field"), 2, shape{l: lOpt, t: tSint32})
			if p != "_1" { // its entry would have no valid name
				addField(syntax, om, full, w("amap"), 3, shape{l: lMap, key: tInt32, t: tMsg, ref: name + "." + m})
			}
			addField(syntax, om, full, w("subs"), 4, shape{l: lRep, t: tMsg, ref: name + "." + m + "." + w("sub")})
			var fs []*dpb.FieldDescriptorProto
			fs = append(fs, addField(syntax, om, full, w("mem"), 5, shape{l: lReq, t: tString}))
			if n%2 == 0 {
				fs = append(fs, addField(syntax, om, full, w("emem"), 6, shape{l: lReq, t: tEnum, ref: name + "." + e}))
			}
			oneof(om, w("choice"), fs...)
			f.MessageType = append(f.MessageType, om)
			if n%4 == 0 {
				um := newMsg(w("user"))
				full = name + ".user." + w("user")
				addField(2, um, full, w("foo"), 1, shape{l: lRep, t: tMsg, ref: name + "." + m})
				addField(2, um, full, w("bar"), 2, shape{l: lOpt, t: tEnum, ref: name + "." + e})
				u.MessageType = append(u.MessageType, um)
			}
		}
	}
	return &Set{Name: name, Group: "names", Files: []*dpb.FileDescriptorProto{f, u}}
}

// parentNames begin the Go names of what is inside them.
var parentNames = []string{"File", "Get", "Is", "X", "XXX", "E", "M", "Default", "Enum", "Option", "Some", "None", "Default_Foo", "Init", "Main", "Proto", "Type", "Name", "Value", "Test", "Benchmark", "Example", "T", "Weak", "Export", "Map", "Oneof", "Unmarshal", "String", "ProtoReflect", "Extension", "Msg", "Int32", "Error"}

// parents: messages and enums with names that might be taken for a prefix,
// with declarations inside, in a file that is publicly imported.
func parents(syntax int) *Set {
	name := fmt.Sprintf("parent%d", syntax)
	s := &Set{Name: name, Group: "names"}
	u := newFile(2, name+"/user.proto", name+".user", gp(name, "user"))
	for v := 0; v < 2; v++ {
		pk := fmt.Sprintf("%s.v%d", name, v)
		f := newFile(syntax, fmt.Sprintf("%s/v%d.proto", name, v), pk, gp(name, fmt.Sprintf("v%d", v)))
		for i, w := range parentNames {
			if i%2 == v {
				f.EnumType = append(f.EnumType, newEnum(w, fmt.Sprintf("ZERO%d", i), 0, fmt.Sprintf("one_%d", i), 1, fmt.Sprintf("m_v%d_proto", i), -1))
				continue
			}
			m := newMsg(w)
			full := pk + "." + w
			m.EnumType = append(m.EnumType, newEnum("Kind", "A", 0, "B", 1), newEnum("v_proto", "C", 0))
			in := newMsg("Sub")
			addField(syntax, in, full+".Sub", "v", 1, shape{l: lOpt, t: tEnum, ref: full + ".Kind"})
			m.NestedType = append(m.NestedType, in, newMsg("x_v_proto"))
			addField(syntax, m, full, "sub", 1, shape{l: lRep, t: tMsg, ref: full + ".Sub"})
			addField(syntax, m, full, "k", 2, shape{l: lMap, key: tString, t: tEnum, ref: full + ".v_proto"})
			oneof(m, "o", addField(syntax, m, full, "os", 3, shape{l: lReq, t: tMsg, ref: full + ".Sub"}), addField(syntax, m, full, "ok", 4, shape{l: lReq, t: tEnum, ref: full + ".Kind"}))
			f.MessageType = append(f.MessageType, m)
		}
		s.Files = append(s.Files, f)
		if v == 0 {
			imp(u, f, true)
			um := newMsg("User")
			addField(2, um, name+".user.User", "m", 1, shape{l: lOpt, t: tMsg, ref: pk + ".Get.Sub"})
			u.MessageType = append(u.MessageType, um)
		} else {
			u2 := newFile(2, name+"/user2.proto", name+".user2", gp(name, "user2"))
			imp(u2, f, true)
			s.Files = append(s.Files, u2)
		}
	}
	s.Files = append(s.Files, u)
	return s
}
