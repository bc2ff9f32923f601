package pgen

import (
	"fmt"

	"google.golang.org/protobuf/proto"
	dpb "google.golang.org/protobuf/types/descriptorpb"
)

// aroundPowers are the field numbers next to every power of two.
func aroundPowers() []int {
	var r []int
	seen := map[int]bool{}
	for k := 0; k <= 29; k++ {
		for _, d := range []int{-1, 0, 1} {
			n := 1<<k + d
			if n < 1 || n > 1<<29-1 || (n >= 19000 && n <= 19999) || seen[n] {
				continue
			}
			seen[n] = true
			r = append(r, n)
		}
	}
	return append(r, 18999, 20000)
}

// numbers: fields of every label with the numbers around every power of two,
// alone and together in one message, members of oneofs with these numbers, and
// enums whose values are the numbers around every power of two and their
// negatives.
func numbers(syntax int) *Set {
	name := fmt.Sprintf("number%d", syntax)
	f := newFile(syntax, name+"/main.proto", name, gp(name, "pmain"))
	e := newEnum("Powers", "P_ZERO", 0)
	add := func(n int64) {
		l := fmt.Sprintf("P_%d", n)
		if n < 0 {
			l = fmt.Sprintf("N_%d", -n)
		}
		e.Value = append(e.Value, &dpb.EnumValueDescriptorProto{Name: &l, Number: proto.Int32(int32(n))})
	}
	done := map[int64]bool{0: true}
	for k := 0; k <= 31; k++ {
		for _, d := range []int64{-1, 0, 1} {
			for _, s := range []int64{1, -1} {
				n := s * (int64(1)<<k + d)
				if n < -1<<31 || n > 1<<31-1 || done[n] {
					continue
				}
				done[n] = true
				add(n)
			}
		}
	}
	f.EnumType = append(f.EnumType, e)
	leaf := newMsg("Leaf")
	addField(syntax, leaf, name+".Leaf", "a", 1, shape{l: lOpt, t: tInt32})
	f.MessageType = append(f.MessageType, leaf)
	enum, msg := name+".Powers", name+".Leaf"
	shapes := []shape{
		{l: lOpt, t: tInt32}, {l: lRep, t: tSint64}, {l: lMap, key: tInt32, t: tString}, {l: lOpt, t: tMsg, ref: msg},
		{l: lOpt, t: tString}, {l: lRepFlip, t: tFixed32}, {l: lOpt, t: tEnum, ref: enum}, {l: lRep, t: tMsg, ref: msg},
		{l: lOpt, t: tBool}, {l: lMap, key: tString, t: tMsg, ref: msg}, {l: lRep, t: tString}, {l: lOpt, t: tDouble}, {l: lRep, t: tEnum, ref: enum},
	}
	if syntax == 2 {
		shapes = append(shapes, shape{l: lReq, t: tSfix32})
	} else {
		shapes = append(shapes, shape{l: lImplicit, t: tSfix32}, shape{l: lImplicit, t: tBytes})
	}
	all := aroundPowers()
	for i, n := range all {
		mn := fmt.Sprintf("F%d", n)
		m := newMsg(mn)
		for j := 0; j < 3; j++ { // the shapes meet every number in some message
			k := all[(i+j*31)%len(all)]
			addField(syntax, m, name+"."+mn, fmt.Sprintf("f_%d", k), k, shapes[(i+j*5)%len(shapes)])
		}
		f.MessageType = append(f.MessageType, m)
	}
	m, o := newMsg("Every"), newMsg("EveryOneof")
	var members []*dpb.FieldDescriptorProto
	for i, n := range all {
		addField(syntax, m, name+".Every", fmt.Sprintf("f_%d", n), n, shapes[i*3%len(shapes)])
		s := shapes[[]int{0, 3, 4, 6, 8, 11}[i%6]]
		s.l = lReq
		members = append(members, addField(syntax, o, name+".EveryOneof", fmt.Sprintf("f_%d", n), n, s))
	}
	oneof(o, "u", members...)
	f.MessageType = append(f.MessageType, m, o)
	return &Set{Name: name, Group: "field numbers", Files: []*dpb.FileDescriptorProto{f}}
}

// large: what is counted in schemas, well beyond the sizes that are usual.
func large(syntax int) *Set {
	name := fmt.Sprintf("large%d", syntax)
	f := newFile(syntax, name+"/main.proto", name, gp(name, "pmain"))
	s := &Set{Name: name, Group: "large schemas"}
	// 300 values, listed with neither first nor last being the extremes
	e := newEnum("Big")
	for i := 0; i < 300; i++ {
		v := (i * 7) % 300
		e.Value = append(e.Value, &dpb.EnumValueDescriptorProto{Name: proto.String(fmt.Sprintf("BIG_%d", v)), Number: proto.Int32(int32(v))})
	}
	f.EnumType = append(f.EnumType, e)
	for i := 0; i < 70; i++ {
		f.EnumType = append(f.EnumType, newEnum(fmt.Sprintf("E%d", i), fmt.Sprintf("E%d_ZERO", i), 0, fmt.Sprintf("E%d_ONE", i), i+1))
	}
	// 140 messages, each referring to ones far away; some in 40 other files
	ref := func(i int) string { return fmt.Sprintf("%s.M%d", name, i%140) }
	for i := 0; i < 140; i++ {
		mn := fmt.Sprintf("M%d", i)
		m := newMsg(mn)
		addField(syntax, m, name+"."+mn, "v", 1, shape{l: lOpt, t: scalarTypes[i%15]})
		addField(syntax, m, name+"."+mn, "far", 2, shape{l: lOpt, t: tMsg, ref: ref(i + 71)})
		addField(syntax, m, name+"."+mn, "e", 3, shape{l: lRep, t: tEnum, ref: fmt.Sprintf("%s.E%d", name, (i*11)%70)})
		f.MessageType = append(f.MessageType, m)
	}
	wide := newMsg("Imports")
	for i := 0; i < 40; i++ {
		pk := fmt.Sprintf("%sdep%d", name, i)
		g := newFile(2+i%2, fmt.Sprintf("%s/dep%d.proto", name, i), pk, gp(name, fmt.Sprintf("dep%d", i)))
		l := newMsg("Leaf")
		addField(2+i%2, l, pk+".Leaf", "a", i+1, shape{l: lOpt, t: tInt32})
		g.MessageType = append(g.MessageType, l)
		if i > 0 {
			imp(g, s.Files[i-1], false)
			addField(2+i%2, l, pk+".Leaf", "before", 100, shape{l: lOpt, t: tMsg, ref: fmt.Sprintf("%sdep%d.Leaf", name, i-1)})
		}
		s.Files = append(s.Files, g)
		imp(f, g, false)
		addField(syntax, wide, name+".Imports", fmt.Sprintf("d%d", i), i+1, shape{l: lOpt, t: tMsg, ref: pk + ".Leaf"})
	}
	f.MessageType = append(f.MessageType, wide)
	// 300 fields, 80 members of a oneof, 30 oneofs, 40 maps
	m := newMsg("Fields")
	for i := 0; i < 300; i++ {
		sh := shape{l: lOpt, t: scalarTypes[i%15]}
		switch i % 7 {
		case 3:
			sh = shape{l: lRep, t: scalarTypes[(i/7)%15]}
		case 5:
			sh = shape{l: lOpt, t: tMsg, ref: ref(i)}
		case 6:
			sh = shape{l: lMap, key: keyTypes[i%12], t: scalarTypes[(i/7)%15]}
		}
		addField(syntax, m, name+".Fields", fmt.Sprintf("f%d", i), 1+(i*77)%300, sh)
	}
	f.MessageType = append(f.MessageType, m)
	m = newMsg("Members")
	var fs []*dpb.FieldDescriptorProto
	for i := 0; i < 80; i++ {
		fs = append(fs, addField(syntax, m, name+".Members", fmt.Sprintf("m%d", i), i+1, shape{l: lReq, t: scalarTypes[i%15]}))
	}
	oneof(m, "many", fs...)
	f.MessageType = append(f.MessageType, m)
	m = newMsg("Oneofs")
	for i := 0; i < 30; i++ {
		a := addField(syntax, m, name+".Oneofs", fmt.Sprintf("a%d", i), 2*i+1, shape{l: lReq, t: scalarTypes[i%15]})
		b := addField(syntax, m, name+".Oneofs", fmt.Sprintf("b%d", i), 2*i+2, shape{l: lReq, t: tMsg, ref: ref(i)})
		oneof(m, fmt.Sprintf("u%d", i), a, b)
	}
	f.MessageType = append(f.MessageType, m)
	// 30 levels of messages, each with a field, an enum and a map of its own
	top := newMsg("Deep")
	full := name + ".Deep"
	for l, cur := 0, top; l < 30; l++ {
		cur.EnumType = append(cur.EnumType, newEnum("K", fmt.Sprintf("K%d", l), 0))
		addField(syntax, cur, full, "k", 1, shape{l: lOpt, t: tEnum, ref: full + ".K"})
		addField(syntax, cur, full, "m", 2, shape{l: lMap, key: tString, t: tEnum, ref: full + ".K"})
		addField(syntax, cur, full, "up", 3, shape{l: lOpt, t: tMsg, ref: name + ".Deep"})
		if l < 29 {
			n := newMsg("D")
			addField(syntax, cur, full, "down", 4, shape{l: lRep, t: tMsg, ref: full + ".D"})
			cur.NestedType = append(cur.NestedType, n)
			cur, full = n, full+".D"
		}
	}
	f.MessageType = append(f.MessageType, top)
	s.Files = append(s.Files, f)
	// a file that forwards all this
	u := newFile(2, name+"/user.proto", name+".user", gp(name, "user"))
	imp(u, f, true)
	um := newMsg("User")
	addField(2, um, name+".user.User", "m", 1, shape{l: lOpt, t: tMsg, ref: name + ".Fields"})
	u.MessageType = append(u.MessageType, um)
	s.Files = append(s.Files, u)
	return s
}
