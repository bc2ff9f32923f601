package pgen

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"
)

// recursion: every graph of references among three messages, the messages
// placed in four ways.
func recursion(syntax int, thin int) *Set {
	name := fmt.Sprintf("rec%d", syntax)
	f := newFile(syntax, name+"/rec.proto", name, gp(name, "pmain"))
	edges := []shape{{l: lOpt, t: tMsg}, {l: lRep, t: tMsg}, {l: lMap, key: tString, t: tMsg}, {l: lMap, key: tSint64, t: tMsg}}
	for g := 0; g < 512; g++ {
		if thin > 1 && g%thin != syntax%thin && g != 511 {
			continue
		}
		placements := []int{g % 4}
		if thin == 1 {
			placements = []int{0, 1, 2, 3}
		}
		for _, pl := range placements {
			pre := fmt.Sprintf("G%dp%d", g, pl)
			a, b, c := newMsg(pre+"A"), newMsg("B"), newMsg("C")
			full := [3]string{name + "." + pre + "A"}
			switch pl {
			case 0: // all at top level
				b.Name, c.Name = proto.String(pre+"B"), proto.String(pre+"C")
				full[1], full[2] = name+"."+pre+"B", name+"."+pre+"C"
			case 1: // B in A
				c.Name = proto.String(pre + "C")
				full[1], full[2] = full[0]+".B", name+"."+pre+"C"
			case 2: // C in B in A
				full[1] = full[0] + ".B"
				full[2] = full[1] + ".C"
			case 3: // B and C in A
				full[1], full[2] = full[0]+".B", full[0]+".C"
			}
			ms := []*dpb.DescriptorProto{a, b, c}
			for i, m := range ms {
				addField(syntax, m, full[i], "v", 1, shape{l: lOpt, t: tInt32})
				for j := range ms {
					if g>>(3*i+j)&1 != 0 {
						s := edges[(i+2*j+g/7+pl)%4]
						s.ref = full[j]
						addField(syntax, m, full[i], fmt.Sprintf("to_%d", j), 2+j, s)
					}
				}
			}
			f.MessageType = append(f.MessageType, a)
			switch pl {
			case 0:
				f.MessageType = append(f.MessageType, b, c)
			case 1:
				a.NestedType = append(a.NestedType, b)
				f.MessageType = append(f.MessageType, c)
			case 2:
				b.NestedType = append(b.NestedType, c)
				a.NestedType = append(a.NestedType, b)
			case 3:
				a.NestedType = append(a.NestedType, b, c)
			}
		}
	}
	return &Set{Name: name, Group: "recursion", Files: []*dpb.FileDescriptorProto{f}}
}

// imports: every import graph of three files (none, import, public import)
// and every placement of the files in Go packages without an import cycle.
// Each file has a message with fields of all types it can see.
func imports() []*Set {
	var r []*Set
	parts := [][3]string{{"pa", "pa", "pa"}, {"pa", "pa", "pb"}, {"pa", "pb", "pb"}, {"pa", "pb", "pc"}, {"pa", "pb", "pa"}}
	for e := 0; e < 27; e++ {
		kind := [3]int{e % 3, e / 3 % 3, e / 9} // 1->0, 2->0, 2->1
		for pi, part := range parts {
			if part[0] == part[2] && part[0] != part[1] && kind[0] != 0 && kind[2] != 0 {
				continue // Go import cycle
			}
			syn := 2 + (e+pi)%2
			name := fmt.Sprintf("imp%d_%d", e, pi)
			s := &Set{Name: name, Group: "imports"}
			for i := 0; i < 3; i++ {
				f := newFile(syn, fmt.Sprintf("%s/f%d.proto", name, i), fmt.Sprintf("%s.p%d", name, i), gp(name, part[i]))
				if (e+i)%4 == 3 { // same proto package for two files
					f.Package = proto.String(name + ".shared")
				}
				pk := f.GetPackage()
				visible := map[int]bool{i: true}
				dep := func(j, k int) {
					if k == 0 {
						return
					}
					imp(f, s.Files[j], k == 2)
					visible[j] = true
					if j == 1 && kind[0] == 2 {
						visible[0] = true // through 1's public import
					}
				}
				switch i {
				case 1:
					dep(0, kind[0])
				case 2:
					dep(0, kind[1])
					dep(1, kind[2])
				}
				f.EnumType = append(f.EnumType, newEnum(fmt.Sprintf("Enum%d", i), fmt.Sprintf("E%d_ZERO", i), 0, fmt.Sprintf("E%d_ONE", i), 1, fmt.Sprintf("E%d_NEG", i), -5))
				leaf := newMsg(fmt.Sprintf("Leaf%d", i))
				addField(syn, leaf, pk+"."+leaf.GetName(), "v", 1, shape{l: lOpt, t: tString})
				leaf.EnumType = append(leaf.EnumType, newEnum("Kind", fmt.Sprintf("K%d", i), 0))
				in := newMsg("Sub")
				addField(syn, in, pk+"."+leaf.GetName()+".Sub", "w", 1, shape{l: lOpt, t: tSint32})
				leaf.NestedType = append(leaf.NestedType, in)
				f.MessageType = append(f.MessageType, leaf)
				m := newMsg(fmt.Sprintf("Main%d", i))
				full := pk + "." + m.GetName()
				n := 1
				for j := 0; j < 3; j++ {
					if !visible[j] {
						continue
					}
					pj := pk
					if j != i {
						pj = s.Files[j].GetPackage()
					}
					lf := fmt.Sprintf("%s.Leaf%d", pj, j)
					addField(syn, m, full, fmt.Sprintf("m%d", j), n, shape{l: lOpt, t: tMsg, ref: lf})
					addField(syn, m, full, fmt.Sprintf("e%d", j), n+1, shape{l: lOpt, t: tEnum, ref: fmt.Sprintf("%s.Enum%d", pj, j)})
					addField(syn, m, full, fmt.Sprintf("s%d", j), n+2, shape{l: lRep, t: tMsg, ref: lf + ".Sub"})
					addField(syn, m, full, fmt.Sprintf("k%d", j), n+3, shape{l: lMap, key: tInt32, t: tEnum, ref: lf + ".Kind"})
					n += 4
				}
				f.MessageType = append(f.MessageType, m)
				s.Files = append(s.Files, f)
			}
			// 1 and 2 in one Go package, both forward 0
			if part[1] == part[2] && part[0] != part[1] && kind[0] == 2 && kind[1] == 2 {
				s.DupForward = true
			}
			r = append(r, s)
		}
	}
	return r
}

// sameNames: files whose names, Go package names, or symbols differ only in
// the folder: every way in which two files import (publicly or not) two
// dependencies that look alike.
func sameNames() []*Set {
	var r []*Set
	bases := [][2]string{{"x/common.proto", "y/common.proto"}, {"x/common.proto", "y/other.proto"}, {"common.proto", "y/common.proto"}, {"x/a.b.proto", "y/a_b.proto"}}
	for bi, base := range bases {
		for e := 0; e < 81; e++ {
			kind := [4]int{e % 3, e / 3 % 3, e / 9 % 3, e / 27} // 0->x, 0->y, 1->x, 1->y: none, import, public
			if bi > 0 && e%3 == 1 {
				continue
			}
			for joined := 0; joined < 2; joined++ {
				if joined == 1 && (kind[0] == 2 && kind[2] == 2 || kind[1] == 2 && kind[3] == 2) {
					continue // the double forward
				}
				if (e+joined+bi)%2 == 0 && e != 56 && e != 20 && e != 60 && e != 80 {
					continue
				}
				syn := 2 + e%2
				name := fmt.Sprintf("same%d_%d_%d", bi, e, joined)
				s := &Set{Name: name, Group: "files of the same name"}
				for i := 0; i < 2; i++ {
					path := name + "/" + base[i]
					pkg := name + string("xy"[i])
					dir := Base + "/" + name + "/" + string("xy"[i])
					f := newFile(syn, path, pkg, dir+";common")
					m := newMsg(fmt.Sprintf("Thing%d", i))
					addField(syn, m, pkg+"."+m.GetName(), "v", 1, shape{l: lOpt, t: [...]dpb.FieldDescriptorProto_Type{tString, tSint32}[i]})
					in := newMsg("Sub")
					addField(syn, in, pkg+"."+m.GetName()+".Sub", "w", 1, shape{l: lRep, t: tBool})
					m.NestedType = append(m.NestedType, in)
					f.MessageType = append(f.MessageType, m)
					f.EnumType = append(f.EnumType, newEnum(fmt.Sprintf("Kind%d", i), fmt.Sprintf("KIND%d_ZERO", i), 0, fmt.Sprintf("KIND%d_ONE", i), 1))
					s.Files = append(s.Files, f)
				}
				for i := 0; i < 2; i++ {
					part := "m" + string("ab"[i*(1-joined)])
					pkg := fmt.Sprintf("%s.u%d", name, i)
					gopkg := gp(name, part)
					if e/3%2 == 1 { // of the same name as what it imports
						gopkg = Base + "/" + name + "/" + part + ";common"
					}
					f := newFile(syn, fmt.Sprintf("%s/m%d/user.proto", name, i), pkg, gopkg)
					if joined == 1 {
						// two files of one name in one package would be the same Go file
						*f.Name = fmt.Sprintf("%s/m%d/user%d.proto", name, i, i)
					}
					m := newMsg(fmt.Sprintf("User%d", i))
					for j := 0; j < 2; j++ {
						k := kind[2*i+j]
						if k == 0 {
							continue
						}
						imp(f, s.Files[j], k == 2)
						dp := s.Files[j].GetPackage()
						addField(syn, m, pkg+"."+m.GetName(), fmt.Sprintf("t%d", j), 1+3*j, shape{l: lOpt, t: tMsg, ref: fmt.Sprintf("%s.Thing%d", dp, j)})
						addField(syn, m, pkg+"."+m.GetName(), fmt.Sprintf("s%d", j), 2+3*j, shape{l: lMap, key: tInt32, t: tMsg, ref: fmt.Sprintf("%s.Thing%d.Sub", dp, j)})
						addField(syn, m, pkg+"."+m.GetName(), fmt.Sprintf("k%d", j), 3+3*j, shape{l: lOpt, t: tEnum, ref: fmt.Sprintf("%s.Kind%d", dp, j)})
					}
					f.MessageType = append(f.MessageType, m)
					s.Files = append(s.Files, f)
				}
				r = append(r, s)
			}
		}
	}
	return r
}

// words are names which might collide with something.
var words = []string{
	"foo", "Foo", "foo_bar", "fooBar", "foo_Bar", "_foo", "foo_", "foo__bar", "f", "F", "x", "m", "ok", "p", "b",
	"int32", "string", "bool", "error", "nil", "true", "iota", "len", "append", "any", "uint8", "byte", "float64",
	"type", "func", "map", "range", "package", "import", "var", "const", "interface", "struct", "select", "return", "go",
	"proto", "Option", "option", "Some", "None", "Unmarshal", "Marshal", "Size", "reset", "string_", "proto_message", "descriptor", "get_foo", "GetFoo", "get_x", "x1", "x_1", "x_1a", "A9z", "XXX_unrecognized", "state", "size_cache", "unknown_fields", "extension_range_array", "is_foo", "isFoo", "init", "main",
}

// names: messages, enums and fields with all words.
func names(syntax int) []*Set {
	var r []*Set
	// one message with a field of every word (distinct lower-case JSON names not required)
	{
		name := fmt.Sprintf("nam%d", syntax)
		f := newFile(syntax, name+"/n.proto", name, gp(name, "pmain"))
		for i, w := range words {
			mn := fmt.Sprintf("F%d", i)
			m := newMsg(mn)
			addField(syntax, m, name+"."+mn, w, 1, shape{l: lOpt, t: tSint32})
			w2 := words[(i*7+3)%len(words)]
			if w2 != w {
				addField(syntax, m, name+"."+mn, w2, 2, shape{l: lRep, t: tString})
			}
			f.MessageType = append(f.MessageType, m)
		}
		r = append(r, &Set{Name: name, Group: "names", Files: []*dpb.FileDescriptorProto{f}})
	}
	// message names; nested enum and message with the same words
	{
		name := fmt.Sprintf("mnam%d", syntax)
		f := newFile(syntax, name+"/n.proto", name, gp(name, "pmain"))
		seen := map[string]bool{}
		for i, w := range words {
			if seen[goCamel(w)] {
				continue
			}
			seen[goCamel(w)] = true
			m := newMsg(w)
			w2 := words[(i*11+5)%len(words)]
			addField(syntax, m, name+"."+w, w2, 1, shape{l: lOpt, t: tMsg, ref: name + "." + w})
			addField(syntax, m, name+"."+w, "en", 2, shape{l: lOpt, t: tEnum, ref: name + "." + w + ".E"})
			m.EnumType = append(m.EnumType, newEnum("E", "V0", 0, strings.ToUpper(w)+"_V", 1))
			in := newMsg("N_" + w)
			addField(syntax, in, name+"."+w+".N_"+w, "q", 1, shape{l: lOpt, t: tBool})
			m.NestedType = append(m.NestedType, in)
			addField(syntax, m, name+"."+w, "nested", 3, shape{l: lRep, t: tMsg, ref: name + "." + w + ".N_" + w})
			f.MessageType = append(f.MessageType, m)
		}
		r = append(r, &Set{Name: name, Group: "names", Files: []*dpb.FileDescriptorProto{f}})
	}
	// Go package names: a main file which uses types of packages with such names
	for i, w := range []string{"x", "m", "ok", "proto", "fmt", "int32", "string", "nil", "false", "main", "option", "error", "unsafe"} {
		if w == "main" {
			continue // cannot be imported by Go
		}
		name := fmt.Sprintf("pnam%d_%d", syntax, i)
		dep := depFile(syntax, name+"/dep.proto", name+"dep", fmt.Sprintf("%s/%s/%s;%s", Base, name, w, w))
		dep2 := depFile(syntax, name+"/dep2.proto", name+"depz", fmt.Sprintf("%s/%s/z/%s;%s", Base, name, w, w))
		f := newFile(syntax, name+"/n.proto", name, gp(name, "user"))
		imp(f, dep, i%2 == 0)
		imp(f, dep2, false)
		m := newMsg("User")
		d := camel(name + "dep")
		full := name + ".User"
		addField(syntax, m, full, "a", 1, shape{l: lOpt, t: tMsg, ref: name + "dep." + d + "M"})
		addField(syntax, m, full, "b", 2, shape{l: lOpt, t: tEnum, ref: name + "dep." + d + "E"})
		addField(syntax, m, full, "c", 3, shape{l: lMap, key: tString, t: tEnum, ref: name + "dep." + d + "M.Kind"})
		addField(syntax, m, full, "d", 4, shape{l: lRep, t: tMsg, ref: name + "depz." + d + "zM"})
		addField(syntax, m, full, "e", 5, shape{l: lOpt, t: tInt32})
		oneof(m, "u", addField(syntax, m, full, "oe", 6, shape{l: lReq, t: tEnum, ref: name + "dep." + d + "E"}), addField(syntax, m, full, "om", 7, shape{l: lReq, t: tMsg, ref: name + "dep." + d + "M"}), addField(syntax, m, full, "os", 8, shape{l: lReq, t: tBool}))
		f.MessageType = append(f.MessageType, m)
		r = append(r, &Set{Name: name, Group: "names", Files: []*dpb.FileDescriptorProto{dep, dep2, f}})
	}
	return r
}

// goCamel is only used to avoid schemas whose Go names collide.
func goCamel(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// oneof makes a real oneof of fields (which must precede synthetic ones).
func oneof(m *dpb.DescriptorProto, name string, fs ...*dpb.FieldDescriptorProto) {
	// real oneofs come first
	n := 0
	for _, o := range m.OneofDecl {
		if !strings.HasPrefix(o.GetName(), "_") {
			n++
		}
	}
	od := append([]*dpb.OneofDescriptorProto{}, m.OneofDecl[:n]...)
	od = append(od, &dpb.OneofDescriptorProto{Name: &name})
	m.OneofDecl = append(od, m.OneofDecl[n:]...)
	for _, f := range m.Field {
		if f.OneofIndex != nil && int(*f.OneofIndex) >= n {
			f.OneofIndex = proto.Int32(*f.OneofIndex + 1)
		}
	}
	l := dpb.FieldDescriptorProto_LABEL_OPTIONAL
	for _, f := range fs {
		f.Label = &l
		f.OneofIndex = proto.Int32(int32(n))
	}
}

// oneofs: members of every type, alone and in combination.
func oneofs(syntax int) *Set {
	name := fmt.Sprintf("oneof%d", syntax)
	other := depFile(syntax, name+"/other.proto", name+"other", gp(name, "other"))
	f := newFile(syntax, name+"/main.proto", name, gp(name, "pmain"))
	imp(f, other, false)
	f.EnumType = append(f.EnumType, newEnum("Color", "RED", 3, "GREEN", 1))
	if syntax == 3 {
		f.EnumType[0].Value[0].Number = proto.Int32(0)
	}
	lm := newMsg("Leaf")
	addField(syntax, lm, name+".Leaf", "a", 1, shape{l: lOpt, t: tInt32})
	f.MessageType = append(f.MessageType, lm)
	o := name + "other." + camel(name+"other")
	var members []shape
	for _, t := range scalarTypes {
		members = append(members, shape{t: t})
	}
	members = append(members, shape{t: tEnum, ref: name + ".Color"}, shape{t: tEnum, ref: o + "E"}, shape{t: tEnum, ref: o + "M.Kind"}, shape{t: tMsg, ref: name + ".Leaf"}, shape{t: tMsg, ref: o + "M"}, shape{t: tMsg, ref: o + "M.Inner"})
	for i, a := range members {
		mn := fmt.Sprintf("O%d", i)
		m := newMsg(mn)
		full := name + "." + mn
		b := members[(i*5+2)%len(members)]
		a.l, b.l = lReq, lReq // label is set by oneof
		addField(syntax, m, full, "before", 1, shape{l: lOpt, t: tString})
		fa := addField(syntax, m, full, "a", 2, a)
		if i%2 == 1 {
			addField(syntax, m, full, "between", 3, shape{l: lRep, t: tSint64})
		}
		fb := addField(syntax, m, full, "b", 4, b)
		addField(syntax, m, full, "after", 5, shape{l: lOpt, t: tFixed64})
		if i%2 == 0 {
			oneof(m, "u", fa, fb)
		} else {
			oneof(m, "u", fa)
			oneof(m, "foo_bar", fb)
		}
		f.MessageType = append(f.MessageType, m)
	}
	// several oneofs, and one with everything
	{
		m := newMsg("Several")
		full := name + ".Several"
		for k, n := range []string{"first", "second_one", "Third"} {
			var fs []*dpb.FieldDescriptorProto
			for i := 0; i < 3; i++ {
				a := members[(k*21+i*8+1)%len(members)]
				a.l = lReq
				fs = append(fs, addField(syntax, m, full, fmt.Sprintf("m%d_%d", k, i), 20-2*k-6*i, a))
			}
			oneof(m, n, fs...)
			if k < 2 {
				addField(syntax, m, full, fmt.Sprintf("x%d", k), 30+k, shape{l: lOpt, t: tInt64})
			}
		}
		f.MessageType = append(f.MessageType, m)
		m = newMsg("Every")
		full = name + ".Every"
		var all []*dpb.FieldDescriptorProto
		for i, a := range members {
			a.l = lReq
			all = append(all, addField(syntax, m, full, fmt.Sprintf("m_%d", i), 1000-40*i, a))
		}
		oneof(m, "every", all...)
		f.MessageType = append(f.MessageType, m)
	}
	return &Set{Name: name, Group: "oneofs", Files: []*dpb.FileDescriptorProto{other, f}}
}

// enumNumbers are the numbers of the enums of enums.
var enumNumbers = []int{0, 1, -1, 2147483647, -2147483648}

// enums: all enums of up to three values with the numbers of enumNumbers, two
// or more values of one number included, as members of oneofs, plain,
// repeated and map fields, in the package of the enum and in another one; and
// all choices of deprecated values.
func enums(syntax int) []*Set {
	var seqs [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			seqs = append(seqs, append([]int{}, cur...))
		}
		if len(cur) == 3 {
			return
		}
		for _, n := range enumNumbers {
			if len(cur) == 0 && syntax == 3 && n != 0 {
				continue
			}
			if len(cur) == 2 && n < -1 { // four numbers are enough here
				continue
			}
			rec(append(cur, n))
		}
	}
	rec(nil)
	mk := func(name string, seq []int) *dpb.EnumDescriptorProto {
		var v []interface{}
		for i, n := range seq {
			v = append(v, fmt.Sprintf("%s_V%d", name, i), n)
		}
		return newEnum(name, v...)
	}
	name := fmt.Sprintf("enums%d", syntax)
	def := newFile(syntax, name+"/def.proto", name, gp(name, "pdef"))
	use := newFile(syntax, name+"/use.proto", name+"use", gp(name, "puse"))
	imp(use, def, false)
	fwd := newFile(syntax, name+"/fwd.proto", name+"fwd", gp(name, "pfwd"))
	imp(fwd, def, true)
	in := newMsg("In") // every other enum is nested
	for k, seq := range seqs {
		en := fmt.Sprintf("E%d", k)
		ref := name + "." + en
		if k%2 == 0 {
			def.EnumType = append(def.EnumType, mk(en, seq))
		} else {
			in.EnumType = append(in.EnumType, mk(en, seq))
			ref = name + ".In." + en
		}
		for _, f := range []*dpb.FileDescriptorProto{def, use} {
			if len(seq) == 3 && (k/2%2 == 0) != (f == def) {
				continue // in one of the packages
			}
			m := newMsg(fmt.Sprintf("M%d", k))
			full := f.GetPackage() + "." + m.GetName()
			addField(syntax, m, full, "opt", 1, shape{l: lOpt, t: tEnum, ref: ref})
			addField(syntax, m, full, "rep", 2, shape{l: lRep, t: tEnum, ref: ref})
			if syntax == 3 {
				addField(syntax, m, full, "impl", 3, shape{l: lImplicit, t: tEnum, ref: ref})
			} else {
				addField(syntax, m, full, "req", 3, shape{l: lReq, t: tEnum, ref: ref})
			}
			if seq[0] == 0 {
				addField(syntax, m, full, "mp", 4, shape{l: lMap, key: tBool, t: tEnum, ref: ref})
			}
			a := addField(syntax, m, full, "a", 5, shape{l: lReq, t: tEnum, ref: ref})
			b := addField(syntax, m, full, "b", 6, shape{l: lReq, t: tEnum, ref: ref})
			if k%3 == 0 && len(seq) > 1 {
				a.DefaultValue = proto.String(fmt.Sprintf("%s_V%d", en, 1))
				if syntax == 3 {
					a.DefaultValue = nil
				}
			}
			oneof(m, "o", a, b)
			f.MessageType = append(f.MessageType, m)
		}
	}
	def.MessageType = append(def.MessageType, in)
	sets := []*Set{{Name: name, Group: "enums", Files: []*dpb.FileDescriptorProto{def, use, fwd}}}

	name = fmt.Sprintf("enumdep%d", syntax)
	dep := newFile(syntax, name+"/dep.proto", name, gp(name, "pdep"))
	id := 0
	for _, seq := range seqs {
		for mask := 0; mask < 2<<len(seq); mask++ {
			if mask == 0 {
				continue // as above
			}
			if len(seq) == 3 && mask>>len(seq) != 0 && mask != 2<<len(seq)-1 {
				continue // deprecated enums: all values or none
			}
			e := mk(fmt.Sprintf("D%d", id), seq)
			id++
			for i, v := range e.Value {
				if mask>>i&1 != 0 {
					v.Options = &dpb.EnumValueOptions{Deprecated: proto.Bool(true)}
				}
			}
			if mask>>len(seq) != 0 {
				if e.Options == nil {
					e.Options = &dpb.EnumOptions{}
				}
				e.Options.Deprecated = proto.Bool(true)
			}
			dep.EnumType = append(dep.EnumType, e)
		}
	}
	return append(sets, &Set{Name: name, Group: "enums", Files: []*dpb.FileDescriptorProto{dep}})
}

// options: every option of files, messages, fields, oneof members, enums and
// values, alone, with the declaration commented or not. None of them changes
// what is declared.
func options(syntax int) []*Set {
	var r []*Set
	fileOpts := []*dpb.FileOptions{
		{}, {Deprecated: proto.Bool(true)}, {Deprecated: proto.Bool(false)},
		{OptimizeFor: dpb.FileOptions_LITE_RUNTIME.Enum()}, {OptimizeFor: dpb.FileOptions_CODE_SIZE.Enum()},
		{JavaPackage: proto.String("j.p"), JavaOuterClassname: proto.String("Out"), JavaMultipleFiles: proto.Bool(true), JavaStringCheckUtf8: proto.Bool(true)},
		{CcGenericServices: proto.Bool(true), JavaGenericServices: proto.Bool(true), PyGenericServices: proto.Bool(true), CcEnableArenas: proto.Bool(true)},
		{ObjcClassPrefix: proto.String("OBJ"), CsharpNamespace: proto.String("Cs"), SwiftPrefix: proto.String("Sw"), PhpClassPrefix: proto.String("Php"), PhpNamespace: proto.String("N"), RubyPackage: proto.String("R")},
	}
	fieldOpts := []*dpb.FieldOptions{
		nil, {}, {Deprecated: proto.Bool(true)}, {Deprecated: proto.Bool(false)}, {Lazy: proto.Bool(true)},
		{Ctype: dpb.FieldOptions_CORD.Enum()}, {Ctype: dpb.FieldOptions_STRING_PIECE.Enum()},
		{Jstype: dpb.FieldOptions_JS_STRING.Enum()}, {Jstype: dpb.FieldOptions_JS_NUMBER.Enum()},
	}
	unknown := func() []byte {
		raw := protowire.AppendTag(nil, 50001, protowire.BytesType)
		return protowire.AppendBytes(raw, []byte("custom"))
	}
	for oi, o := range fileOpts {
		name := fmt.Sprintf("opts%d_%d", syntax, oi)
		f := newFile(syntax, name+"/o.proto", name, gp(name, "pmain"))
		o.GoPackage = f.Options.GoPackage
		f.Options = o
		pkg := f.GetPackage()
		if oi%2 == 1 {
			o.ProtoReflect().SetUnknown(unknown())
		}
		si := &dpb.SourceCodeInfo{}
		comment := func(p ...int32) {
			si.Location = append(si.Location, &dpb.SourceCodeInfo_Location{Path: p, Span: []int32{int32(len(si.Location)), 0, 1},
				LeadingComments: proto.String(" leading\n"), TrailingComments: proto.String(" trailing\n"), LeadingDetachedComments: []string{" detached\n"}})
		}
		en := newEnum("E", "E_A", 0, "E_B", 1, "E_C", 1)
		en.Value[0].Options = &dpb.EnumValueOptions{}
		en.Value[1].Options = &dpb.EnumValueOptions{Deprecated: proto.Bool(oi%2 == 0)}
		en.Value[1].Options.ProtoReflect().SetUnknown(unknown())
		en.Options.ProtoReflect().SetUnknown(unknown())
		f.EnumType = append(f.EnumType, en)
		for mi := 0; mi < 2*len(fieldOpts); mi++ {
			fo := fieldOpts[mi/2]
			m := newMsg(fmt.Sprintf("M%d", mi))
			full := pkg + "." + m.GetName()
			switch mi % 4 {
			case 1:
				m.Options = &dpb.MessageOptions{Deprecated: proto.Bool(true)}
			case 2:
				m.Options = &dpb.MessageOptions{NoStandardDescriptorAccessor: proto.Bool(true)}
			case 3:
				m.Options = &dpb.MessageOptions{Deprecated: proto.Bool(false)}
				m.Options.ProtoReflect().SetUnknown(unknown())
			}
			with := func(fd *dpb.FieldDescriptorProto) *dpb.FieldDescriptorProto {
				if fo != nil {
					x := proto.Clone(fo).(*dpb.FieldOptions)
					if fd.Options != nil {
						x.Packed = fd.Options.Packed
					}
					if mi%2 == 1 {
						x.ProtoReflect().SetUnknown(unknown())
					}
					fd.Options = x
				}
				fd.JsonName = proto.String([]string{"j" + fd.GetName(), fd.GetName()}[mi%2])
				return fd
			}
			for i, sh := range coreShapes(syntax, pkg+".E", pkg+".M0") {
				if sh.l == lReq && sh.t == tMsg {
					continue
				}
				with(addField(syntax, m, full, fmt.Sprintf("f%d", i), i+1, sh))
			}
			a := with(addField(syntax, m, full, "oa", 101, shape{l: lReq, t: tInt32}))
			b := with(addField(syntax, m, full, "ob", 102, shape{l: lReq, t: tEnum, ref: pkg + ".E"}))
			d := with(addField(syntax, m, full, "od", 103, shape{l: lReq, t: tBytes}))
			oneof(m, "o", a, b, d)
			m.OneofDecl[0].Options = &dpb.OneofOptions{}
			if mi%2 == 1 {
				comment(4, int32(mi))
				comment(4, int32(mi), 8, 0)
				for i := range m.Field {
					comment(4, int32(mi), 2, int32(i))
				}
			}
			f.MessageType = append(f.MessageType, m)
		}
		if oi%2 == 1 {
			comment(12)
			comment(5, 0)
			for i := range en.Value {
				comment(5, 0, 2, int32(i))
			}
		}
		f.SourceCodeInfo = si
		r = append(r, &Set{Name: name, Group: "files and options", Files: []*dpb.FileDescriptorProto{f}})
	}
	return r
}

// groups (proto2).
func groups() *Set {
	name := "group2"
	f := newFile(2, name+"/main.proto", name, gp(name, "pmain"))
	for i, l := range []label{lOpt, lReq, lRep} {
		mn := fmt.Sprintf("G%d", i)
		m := newMsg(mn)
		full := name + "." + mn
		gr := newMsg("Inside")
		addField(2, gr, full+".Inside", "v", 1, shape{l: lOpt, t: tInt32})
		m.NestedType = append(m.NestedType, gr)
		addField(2, m, full, "other", 1, shape{l: lOpt, t: tInt32})
		addField(2, m, full, "inside", 2, shape{l: l, t: tGroup, ref: full + ".Inside"})
		f.MessageType = append(f.MessageType, m)
	}
	return &Set{Name: name, Group: "groups", Files: []*dpb.FileDescriptorProto{f}}
}

// misc: files with little in them, options, comments, extensions.
func misc() []*Set {
	var r []*Set
	add := func(s *Set) {
		s.Group = "files and options"
		r = append(r, s)
	}
	for _, syn := range []int{2, 3} {
		// files with only one kind of thing, in one Go package with a user
		name := fmt.Sprintf("empty%d", syn)
		e0 := newFile(syn, name+"/nothing.proto", name, gp(name, "pmain"))
		e1 := newFile(syn, name+"/onlyenum.proto", "", gp(name, "pmain"))
		e1.EnumType = append(e1.EnumType, newEnum(camel(name)+"E", camel(name)+"E0", 0))
		e2 := newFile(syn, name+"/onlymsg.proto", "", gp(name, "pmain"))
		e2.MessageType = append(e2.MessageType, newMsg(camel(name)+"Empty"))
		e2.Options.Deprecated = proto.Bool(true)
		e3 := newFile(syn, name+"/imports.proto", name, gp(name, "alone"))
		imp(e3, e0, true)
		imp(e3, e1, false)
		imp(e3, e2, true)
		e4 := newFile(syn, name+"/dir.with-odd/name.1.proto", name+".odd", Base+"/"+name+"/odd")
		imp(e4, e2, false)
		m := newMsg("Uses")
		addField(syn, m, name+".odd.Uses", "e", 1, shape{l: lRep, t: tMsg, ref: camel(name) + "Empty"})
		e4.MessageType = append(e4.MessageType, m)
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{e0, e1, e2, e3, e4}})

		// deprecated things
		name = fmt.Sprintf("dep%d", syn)
		f := newFile(syn, name+"/d.proto", name, gp(name, "pmain"))
		f.Options.Deprecated = proto.Bool(true)
		en := newEnum("E", "E_A", 0, "E_B", 1)
		en.Options = &dpb.EnumOptions{Deprecated: proto.Bool(true)}
		en.Value[1].Options = &dpb.EnumValueOptions{Deprecated: proto.Bool(true)}
		f.EnumType = append(f.EnumType, en)
		m = newMsg("M")
		m.Options = &dpb.MessageOptions{Deprecated: proto.Bool(true)}
		for i, s := range coreShapes(syn, name+".E", name+".M") {
			if s.l == lReq && s.t == tMsg {
				continue // no value
			}
			fd := addField(syn, m, name+".M", fmt.Sprintf("f%d", i), i+1, s)
			if fd.Options == nil {
				fd.Options = &dpb.FieldOptions{}
			}
			fd.Options.Deprecated = proto.Bool(i%3 != 2)
		}
		a := addField(syn, m, name+".M", "oa", 100, shape{l: lReq, t: tBool})
		a.Options = &dpb.FieldOptions{Deprecated: proto.Bool(true)}
		oneof(m, "o", a, addField(syn, m, name+".M", "ob", 101, shape{l: lReq, t: tString}))
		f.MessageType = append(f.MessageType, m)
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{f}})

		// field tracking option
		name = fmt.Sprintf("track%d", syn)
		f = newFile(syn, name+"/t.proto", name, gp(name, "pmain"))
		for v := 0; v < 6; v++ {
			mn := fmt.Sprintf("T%d", v)
			m := newMsg(mn)
			m.Options = &dpb.MessageOptions{}
			var raw []byte
			if v&1 != 0 {
				raw = protowire.AppendTag(raw, 50001, protowire.BytesType)
				raw = protowire.AppendBytes(raw, []byte("other option"))
			}
			if v < 4 {
				raw = protowire.AppendTag(raw, 37383685, protowire.VarintType)
				raw = protowire.AppendVarint(raw, uint64(v/2))
			}
			m.Options.ProtoReflect().SetUnknown(raw)
			addField(syn, m, name+"."+mn, "a", 1, shape{l: lOpt, t: tInt32})
			addField(syn, m, name+"."+mn, "b", 2, shape{l: lRep, t: tString})
			addField(syn, m, name+"."+mn, "c", 3, shape{l: lMap, key: tInt32, t: tBytes})
			if v%2 == 0 {
				oneof(m, "o", addField(syn, m, name+"."+mn, "oa", 4, shape{l: lReq, t: tBool}))
			}
			f.MessageType = append(f.MessageType, m)
		}
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{f}})

		// many fields, wide and deep
		name = fmt.Sprintf("big%d", syn)
		f = newFile(syn, name+"/b.proto", name, gp(name, "pmain"))
		m = newMsg("Wide")
		for i := 0; i < 300; i++ {
			cs := coreShapes(syn, name+".Wide.E", name+".Deep0")
			s := cs[i%len(cs)]
			if s.l == lReq && s.t == tMsg {
				s.l = lOpt
			}
			n := i + 1
			if i%5 == 4 {
				n = 100000 - i
			}
			addField(syn, m, name+".Wide", fmt.Sprintf("f%d", i), n, s)
		}
		m.EnumType = append(m.EnumType, newEnum("E", "Z", 0, "O", 1))
		f.MessageType = append(f.MessageType, m)
		var deep *dpb.DescriptorProto
		full := name + ".Deep0"
		top := newMsg("Deep0")
		deep = top
		for d := 1; d < 12; d++ {
			in := newMsg(fmt.Sprintf("Deep%d", d))
			addField(syn, deep, full, "v", 1, shape{l: lOpt, t: tInt32})
			full += "." + in.GetName()
			addField(syn, deep, full[:strings.LastIndex(full, ".")], "next", 2, shape{l: lOpt, t: tMsg, ref: full})
			deep.NestedType = append(deep.NestedType, in)
			deep.EnumType = append(deep.EnumType, newEnum("K", fmt.Sprintf("K_A%d", d), 0, fmt.Sprintf("K_B%d", d), d))
			deep = in
		}
		addField(syn, deep, full, "v", 1, shape{l: lOpt, t: tString})
		f.MessageType = append(f.MessageType, top)
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{f}})
	}
	// mixed syntaxes
	{
		name := "mixed"
		a := depFile(3, name+"/a.proto", name+"a", gp(name, "pa"))
		b := depFile(2, name+"/b.proto", name+"b", gp(name, "pb"))
		c := newFile(2, name+"/c.proto", name+"c", gp(name, "pc"))
		imp(c, a, false)
		imp(c, b, false)
		d := newFile(3, name+"/d.proto", name+"d", gp(name, "pc"))
		imp(d, a, true)
		imp(d, b, true)
		for i, f := range []*dpb.FileDescriptorProto{c, d} {
			syn := 2 + i
			m := newMsg(fmt.Sprintf("M%d", i))
			full := f.GetPackage() + "." + m.GetName()
			addField(syn, m, full, "a", 1, shape{l: lOpt, t: tMsg, ref: name + "a.MixedaM"})
			addField(syn, m, full, "b", 2, shape{l: lRep, t: tMsg, ref: name + "b.MixedbM"})
			addField(syn, m, full, "c", 3, shape{l: lMap, key: tString, t: tMsg, ref: name + "b.MixedbM.Inner"})
			addField(syn, m, full, "d", 4, shape{l: lOpt, t: tEnum, ref: name + "a.MixedaE"})
			f.MessageType = append(f.MessageType, m)
		}
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{a, b, c, d}})
	}
	// extensions
	{
		name := "ext2"
		f := newFile(2, name+"/x.proto", name, gp(name, "pmain"))
		m := newMsg("Extended")
		addField(2, m, name+".Extended", "a", 1, shape{l: lOpt, t: tInt32})
		m.ExtensionRange = append(m.ExtensionRange, &dpb.DescriptorProto_ExtensionRange{Start: proto.Int32(100), End: proto.Int32(536870912)})
		m.ReservedRange = append(m.ReservedRange, &dpb.DescriptorProto_ReservedRange{Start: proto.Int32(50), End: proto.Int32(60)})
		m.ReservedName = append(m.ReservedName, "old")
		f.MessageType = append(f.MessageType, m)
		h := newMsg("Holder")
		x := newMsg("tmp")
		addField(2, x, "", "ext_a", 100, shape{l: lOpt, t: tString})
		addField(2, x, "", "ext_b", 101, shape{l: lRep, t: tMsg, ref: name + ".Extended"})
		for _, e := range x.Field {
			e.Extendee = proto.String("." + name + ".Extended")
		}
		f.Extension = append(f.Extension, x.Field[0])
		h.Extension = append(h.Extension, x.Field[1])
		addField(2, h, name+".Holder", "b", 1, shape{l: lOpt, t: tMsg, ref: name + ".Extended"})
		f.MessageType = append(f.MessageType, h)
		// services are ignored by the plugin
		f.Service = append(f.Service, &dpb.ServiceDescriptorProto{Name: proto.String("Svc"), Method: []*dpb.MethodDescriptorProto{{Name: proto.String("Call"), InputType: proto.String("." + name + ".Holder"), OutputType: proto.String("." + name + ".Extended")}}})
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{f}})
	}
	// default values
	{
		name := "defaults2"
		f := newFile(2, name+"/x.proto", name, gp(name, "pmain"))
		f.EnumType = append(f.EnumType, newEnum("E", "E_A", 4, "E_B", 1))
		m := newMsg("D")
		full := name + ".D"
		var fo []*dpb.FieldDescriptorProto
		for i, t := range append(append([]typ{}, scalarTypes...), tEnum) {
			def := "1"
			ref := ""
			switch t {
			case tBool:
				def = "true"
			case tString, tBytes:
				def = "a`b\"c"
			case tEnum:
				def, ref = "E_B", name+".E"
			case tDouble:
				def = "nan"
			}
			fd := addField(2, m, full, fmt.Sprintf("f%d", i), i+1, shape{l: []label{lOpt, lReq}[i%2], t: t, ref: ref})
			fd.DefaultValue = &def
			x := newMsg("")
			fe := addField(2, x, full, fmt.Sprintf("o%d", i), i+101, shape{l: lOpt, t: t, ref: ref})
			fe.DefaultValue = &def
			fo = append(fo, fe)
		}
		m.Field = append(m.Field, fo...)
		oneof(m, "all", fo...)
		f.MessageType = append(f.MessageType, m)
		add(&Set{Name: name, Files: []*dpb.FileDescriptorProto{f}})
	}
	r = append(r, comments()...)
	return r
}

// commentTexts are leading and trailing comments.
var commentTexts = []string{"", " one line\n", " two\n lines\n", "no space\n", " blank\n\n in the middle\n", "\n", " */ /* `tick` \"quote\" \\n\n", "\ttab\r\n", " ünï\n"}

// directiveTexts read as directives to the Go tools (a listed finding).
var directiveTexts = []string{"go:embed x\n", "go:build ignore\n", "line x.go:7\n", "+build ignore\n"}

// comments: every comment text at every kind of declaration.
func comments() []*Set {
	r := commentSets("cmt", commentTexts)
	for i, t := range directiveTexts {
		s := commentSets(fmt.Sprintf("dir%d", i), []string{t})
		s[0].Directive = true
		r = append(r, s...)
	}
	return r
}

func commentSets(prefix string, commentTexts []string) []*Set {
	var r []*Set
	for ci := range commentTexts {
		name := fmt.Sprintf("%s_%d", prefix, ci)
		f := newFile(3, name+"/c.proto", name, gp(name, "pmain"))
		f.EnumType = append(f.EnumType, newEnum("E", "E_A", 0, "E_B", 1))
		m := newMsg("M")
		addField(3, m, name+".M", "a", 1, shape{l: lOpt, t: tInt32})
		addField(3, m, name+".M", "b", 2, shape{l: lRep, t: tString})
		oneof(m, "o", addField(3, m, name+".M", "c", 3, shape{l: lReq, t: tBool}), addField(3, m, name+".M", "d", 4, shape{l: lReq, t: tString}))
		n := newMsg("N")
		addField(3, n, name+".M.N", "q", 1, shape{l: lImplicit, t: tString})
		n.EnumType = append(n.EnumType, newEnum("NE", "NE_A", 0))
		m.NestedType = append(m.NestedType, n)
		f.MessageType = append(f.MessageType, m)
		si := &dpb.SourceCodeInfo{}
		for k, p := range [][]int32{{}, {12}, {2}, {5, 0}, {5, 0, 2, 0}, {5, 0, 2, 1}, {4, 0}, {4, 0, 2, 0}, {4, 0, 2, 1}, {4, 0, 8, 0}, {4, 0, 2, 2}, {4, 0, 2, 3}, {4, 0, 3, 0}, {4, 0, 3, 0, 2, 0}, {4, 0, 3, 0, 4, 0}, {4, 0, 3, 0, 4, 0, 2, 0}} {
			si.Location = append(si.Location, &dpb.SourceCodeInfo_Location{Path: p, Span: []int32{int32(k), 0, 1},
				LeadingComments:         proto.String(commentTexts[ci]),
				TrailingComments:        proto.String(commentTexts[(ci+k)%len(commentTexts)]),
				LeadingDetachedComments: []string{commentTexts[(ci+2*k+1)%len(commentTexts)]}})
		}
		f.SourceCodeInfo = si
		r = append(r, &Set{Name: name, Group: "files and options", Files: []*dpb.FileDescriptorProto{f}})
	}
	return r
}

// Sets enumerates the schema sets of a tier.
func Sets(thorough bool) []*Set {
	var r []*Set
	thin := 8
	if thorough {
		thin = 1
	}
	for _, syn := range []int{2, 3} {
		r = append(r, singles(syn), pairs(syn), recursion(syn, thin), numbers(syn), large(syn), affixes(syn), parents(syn))
		r = append(r, names(syn)...)
		r = append(r, oneofs(syn))
		r = append(r, enums(syn)...)
		r = append(r, options(syn)...)
	}
	r = append(r, groups())
	r = append(r, misc()...)
	r = append(r, imports()...)
	r = append(r, sameNames()...)
	r = append(r, nesting(thorough))
	return r
}

// nesting enumerates the trees of nested messages with up to 4 (thorough: 5)
// messages, where every message has no fields, a field, or a field and an enum.
func nesting(thorough bool) *Set {
	name := "nesting"
	f := newFile(3, name+"/n.proto", name, gp(name, "pmain"))
	max := 4
	if thorough {
		max = 5
	}
	// shapes of trees: the numbers of descendants in preorder
	type tree []tree
	var forests func(n int) [][]tree
	forests = func(n int) [][]tree {
		if n == 0 {
			return [][]tree{nil}
		}
		var r [][]tree
		for k := 1; k <= n; k++ { // nodes in the first tree
			for _, kids := range forests(k - 1) {
				for _, rest := range forests(n - k) {
					r = append(r, append([]tree{tree(kids)}, rest...))
				}
			}
		}
		return r
	}
	top := 0
	for n := 1; n <= max; n++ {
		kinds := 3
		if n == max {
			kinds = 2
		}
		for _, kids := range forests(n - 1) {
			total := 1
			for i := 0; i < n; i++ {
				total *= kinds
			}
			for v := 0; v < total; v++ {
				x := v
				id := 0
				var build func(t tree, full string) *dpb.DescriptorProto
				build = func(t tree, full string) *dpb.DescriptorProto {
					m := newMsg(full[strings.LastIndex(full, ".")+1:])
					k := x % kinds
					x /= kinds
					if k > 0 {
						addField(3, m, full, "v", 1, shape{l: lImplicit, t: tInt32})
					}
					if k > 1 {
						m.EnumType = append(m.EnumType, newEnum("K", "K_A", 0))
					}
					for _, s := range t {
						id++
						m.NestedType = append(m.NestedType, build(s, fmt.Sprintf("%s.N%d", full, id)))
					}
					return m
				}
				f.MessageType = append(f.MessageType, build(tree(kids), fmt.Sprintf("%s.T%d", name, top)))
				top++
			}
		}
	}
	return &Set{Name: name, Group: "recursion", Files: []*dpb.FileDescriptorProto{f}}
}
