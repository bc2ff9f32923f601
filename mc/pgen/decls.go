package pgen

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"
)

// Decls enumerates files in which every kind of declaration, deprecated and
// not, has the comments (leading, trailing, detached) of one combination of
// comment texts.
func Decls() []*Set {
	texts := append([]string{" * list\n * of two\n", " # Title\n", "     indented\n", " a\n\n\n\n b\n", " Deprecation is not meant here: no.\n", " long " + string(rep('x', 300)) + "\n"}, commentTexts...)
	var r []*Set
	for _, syntax := range []int{2, 3} {
		for li, lead := range texts {
			for ti, trail := range texts {
				s, _ := declFile(fmt.Sprintf("decl%d_%d_%d", syntax, li, ti), syntax, func(i int) (string, string, string) {
					return lead, trail, texts[(li+ti+i)%len(texts)]
				})
				r = append(r, s)
			}
		}
		// which of the declarations have a comment: none, one of them, all but
		// one, every second and third
		_, n := declFile("x", syntax, func(int) (string, string, string) { return "", "", "" })
		pattern := func(name string, has func(i int) bool) {
			s, _ := declFile(fmt.Sprintf("part%d_%s", syntax, name), syntax, func(i int) (string, string, string) {
				if has(i) {
					return " about this\n", " and that\n", " detached\n"
				}
				return "", "", ""
			})
			r = append(r, s)
		}
		pattern("none", func(int) bool { return false })
		for k := 0; k < n; k++ {
			pattern(fmt.Sprintf("only%d", k), func(i int) bool { return i == k })
			pattern(fmt.Sprintf("but%d", k), func(i int) bool { return i != k })
			pattern(fmt.Sprintf("from%d", k), func(i int) bool { return i >= k })
		}
		for m := 2; m <= 5; m++ {
			for k := 0; k < m; k++ {
				pattern(fmt.Sprintf("mod%d_%d", m, k), func(i int) bool { return i%m == k })
			}
		}
	}
	return r
}

// declFile is a file with every kind of declaration; texts gives the leading,
// trailing and detached comment of each of its n declarations.
func declFile(name string, syntax int, texts func(i int) (string, string, string)) (s *Set, n int) {
	f := newFile(syntax, name+"/d.proto", name, gp(name, "pmain"))
	pkg := f.GetPackage()
	si := &dpb.SourceCodeInfo{}
	comment := func(p ...int32) {
		lead, trail, detached := texts(len(si.Location))
		lead, trail = mark(lead, "L", len(si.Location)), mark(trail, "T", len(si.Location))
		loc := &dpb.SourceCodeInfo_Location{Path: append([]int32{}, p...), Span: []int32{int32(len(si.Location)), 0, 1}}
		if lead != "" {
			loc.LeadingComments = proto.String(lead)
		}
		if trail != "" {
			loc.TrailingComments = proto.String(trail)
		}
		if detached != "" {
			loc.LeadingDetachedComments = []string{detached}
		}
		si.Location = append(si.Location, loc)
	}
	comment(12)
	comment(2)
	for d := 0; d < 2; d++ {
		dep := proto.Bool(d == 1)
		e := newEnum(fmt.Sprintf("E%d", d), fmt.Sprintf("E%d_A", d), 0, fmt.Sprintf("E%d_B", d), 1, fmt.Sprintf("E%d_ALIAS", d), 1, fmt.Sprintf("E%d_C", d), -2)
		e.Options = &dpb.EnumOptions{Deprecated: dep, AllowAlias: proto.Bool(true)}
		e.Value[1].Options = &dpb.EnumValueOptions{Deprecated: proto.Bool(d == 0)}
		comment(5, int32(d))
		comment(5, int32(d), 2, 0)
		comment(5, int32(d), 2, 1)
		comment(5, int32(d), 2, 2)
		comment(5, int32(d), 2, 3)
		f.EnumType = append(f.EnumType, e)

		m := newMsg(fmt.Sprintf("M%d", d))
		full := pkg + "." + m.GetName()
		m.Options = &dpb.MessageOptions{Deprecated: dep}
		path := []int32{4, int32(d)}
		comment(path...)
		for i, sh := range coreShapes(syntax, pkg+".E0", pkg+".M0") {
			if sh.l == lReq && sh.t == tMsg {
				continue
			}
			fd := addField(syntax, m, full, fmt.Sprintf("f%d", i), i+1, sh)
			if fd.Options == nil {
				fd.Options = &dpb.FieldOptions{}
			}
			fd.Options.Deprecated = proto.Bool((i+d)%2 == 1)
		}
		a := addField(syntax, m, full, "oa", 101, shape{l: lReq, t: tInt32})
		b := addField(syntax, m, full, "ob", 102, shape{l: lReq, t: tEnum, ref: pkg + ".E0"})
		x := addField(syntax, m, full, "od", 103, shape{l: lReq, t: tMsg, ref: full})
		b.Options = &dpb.FieldOptions{Deprecated: proto.Bool(true)}
		oneof(m, "o", a, b, x)
		for i := range m.Field {
			comment(append(path, 2, int32(i))...)
		}
		comment(append(path, 8, 0)...)
		n := newMsg("N")
		n.Options = &dpb.MessageOptions{Deprecated: proto.Bool(d == 0)}
		addField(syntax, n, full+".N", "q", 1, shape{l: lRep, t: tString})
		ne := newEnum("NE", fmt.Sprintf("NE%d_A", d), 0)
		ne.Value[0].Options = &dpb.EnumValueOptions{Deprecated: dep}
		n.EnumType = append(n.EnumType, ne)
		m.NestedType = append(m.NestedType, n)
		k := int32(len(m.NestedType) - 1)
		comment(append(path, 3, k)...)
		comment(append(path, 3, k, 2, 0)...)
		comment(append(path, 3, k, 4, 0)...)
		comment(append(path, 3, k, 4, 0, 2, 0)...)
		f.MessageType = append(f.MessageType, m)
	}
	f.SourceCodeInfo = si
	return &Set{Name: name, Group: "comments", Files: []*dpb.FileDescriptorProto{f}}, len(si.Location)
}

// mark adds a word to a comment that no other declaration has.
func mark(s, kind string, i int) string {
	if strings.TrimSpace(s) == "" {
		return s
	}
	return fmt.Sprintf("%s x%s%dx\n", strings.TrimSuffix(s, "\n"), kind, i)
}

func rep(c byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}
