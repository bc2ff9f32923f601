package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"verif.local/mc/model"
)

// The functions of this file write a standalone Go program for a failing case
// (module github.com/RomiChan/protobuf next to it), without the explorer.

type src struct {
	names map[reflect.Type]string
	decls []string
}

func (s *src) typ(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Ptr:
		return "*" + s.typ(t.Elem())
	case reflect.Slice:
		return "[]" + s.typ(t.Elem())
	case reflect.Map:
		return "map[" + s.typ(t.Key()) + "]" + s.typ(t.Elem())
	case reflect.Struct:
		if strings.HasPrefix(t.Name(), "Option[") {
			return "proto.Option[" + s.typ(reflect.Zero(t).MethodByName("Unwrap").Type().Out(0)) + "]"
		}
		if n, ok := s.names[t]; ok {
			return n
		}
		n := fmt.Sprintf("T%d", len(s.names))
		if t.Name() != "" {
			n = t.Name()
		}
		s.names[t] = n
		var b strings.Builder
		fmt.Fprintf(&b, "type %s struct {\n", n)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fmt.Fprintf(&b, "\t%s %s", f.Name, s.typ(f.Type))
			if f.Tag != "" {
				fmt.Fprintf(&b, " `%s`", f.Tag)
			}
			b.WriteByte('\n')
		}
		b.WriteString("}\n")
		s.decls = append(s.decls, b.String())
		return n
	}
	if t.PkgPath() != "" && t.Name() != "" {
		if _, ok := s.names[t]; !ok {
			s.names[t] = t.Name()
			s.decls = append(s.decls, fmt.Sprintf("type %s %s\n", t.Name(), t.Kind()))
		}
		return t.Name()
	}
	return t.String()
}

func (s *src) lit(v reflect.Value) string {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if t.Elem().Kind() == reflect.Struct {
			return "&" + s.lit(v.Elem())
		}
		return fmt.Sprintf("func() %s { x := %s(%s); return &x }()", s.typ(t), s.typ(t.Elem()), s.lit(v.Elem()))
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("[]byte(%s)", long(string(v.Bytes())))
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, s.lit(v.Index(i)))
		}
		return s.typ(t) + "{" + strings.Join(p, ", ") + "}"
	case reflect.Map:
		var p []string
		it := v.MapRange()
		for it.Next() {
			p = append(p, s.lit(it.Key())+": "+s.lit(it.Value()))
		}
		sort.Strings(p)
		return s.typ(t) + "{" + strings.Join(p, ", ") + "}"
	case reflect.Struct:
		if strings.HasPrefix(t.Name(), "Option[") {
			if !v.MethodByName("IsSome").Call(nil)[0].Bool() {
				return s.typ(t) + "{}"
			}
			x := v.MethodByName("Unwrap").Call(nil)[0]
			return fmt.Sprintf("proto.Some(%s(%s))", s.typ(x.Type()), s.lit(x))
		}
		var p []string
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" || t.Field(i).Tag == "" || v.Field(i).IsZero() && v.Field(i).Kind() != reflect.Float32 && v.Field(i).Kind() != reflect.Float64 {
				continue
			}
			p = append(p, t.Field(i).Name+": "+s.lit(v.Field(i)))
		}
		return s.typ(t) + "{" + strings.Join(p, ", ") + "}"
	case reflect.String:
		return long(v.String())
	case reflect.Float32:
		return fmt.Sprintf("math.Float32frombits(%#x)", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return fmt.Sprintf("math.Float64frombits(%#x)", math.Float64bits(v.Float()))
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return fmt.Sprint(v.Interface())
}

func long(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("strings.Repeat(%q, %d)[:%d]", s[:26], len(s)/26+1, len(s))
	}
	return fmt.Sprintf("%q", s)
}

func program(s *src, body string) string {
	p := "package main\n\nimport (\n\t\"fmt\"\n\t\"math\"\n\t\"strings\"\n\n\t\"github.com/RomiChan/protobuf/proto\"\n)\n\nvar _ = math.Pi\nvar _ = strings.Repeat\n\n" + strings.Join(s.decls, "\n") + "\nfunc main() {\n" + body + "}\n"
	if len(p) > 20000 {
		p = p[:20000] + "\n// (cut)\n"
	}
	return p
}

func reproMarshal(sc *model.Schema, m *model.Msg) string {
	s := &src{names: map[reflect.Type]string{}}
	l := s.lit(model.ToGo(sc, m))
	want := model.Encode(sc, m)
	if len(want) > 200 {
		want = want[:200]
	}
	return program(s, fmt.Sprintf("\tm := %s\n\tfmt.Println(\"size\", proto.Size(m))\n\tb, err := proto.Marshal(m)\n\tfmt.Printf(\"%%x %%v\\n\", b, err)\n\tfmt.Println(\"want %x (maps in any order)\")\n\tx := new(%s)\n\tfmt.Println(proto.Unmarshal(b, x))\n\tfmt.Printf(\"%%+v\\n\", x)\n", l, want, s.typ(sc.Type)))
}

func reproUnmarshal(sc *model.Schema, inputs ...[]byte) string {
	s := &src{names: map[reflect.Type]string{}}
	t := s.typ(sc.Type)
	body := fmt.Sprintf("\tx := new(%s)\n", t)
	for _, in := range inputs {
		if len(in) > 2000 {
			in = in[:2000]
		}
		body += fmt.Sprintf("\tfmt.Println(proto.Unmarshal([]byte(%q), x))\n\tfmt.Printf(\"%%+v\\n\", x)\n", in)
	}
	return program(s, body)
}

// reproMerge shows a history of one message.
func reproMerge(sc *model.Schema, ops []mop, path []int) string {
	s := &src{names: map[reflect.Type]string{}}
	t := s.typ(sc.Type)
	body := fmt.Sprintf("\tx := new(%s)\n", t)
	for _, k := range path {
		if ops[k].mut != nil {
			body += "\t// change x: " + ops[k].name + "\n"
			continue
		}
		body += fmt.Sprintf("\tfmt.Println(proto.Unmarshal([]byte(%q), x))\n\tfmt.Printf(\"%%+v\\n\", x)\n", ops[k].in)
	}
	return program(s, body)
}

// reproHistory shows a history of calls on several messages.
func reproHistory(ops []hop, ix []int) string {
	s := &src{names: map[reflect.Type]string{}}
	body := ""
	for j, i := range ix {
		o := &ops[i]
		if o.in == nil {
			body += fmt.Sprintf("\tfmt.Println(proto.Marshal(%s))\n", s.lit(model.ToGo(o.s, o.m)))
			continue
		}
		body += fmt.Sprintf("\tx%d := new(%s)\n\tfmt.Println(proto.Unmarshal([]byte(%q), x%d))\n\tfmt.Printf(\"%%+v\\n\", x%d)\n", j, s.typ(o.s.Type), o.in, j, j)
	}
	return program(s, body)
}
