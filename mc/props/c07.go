package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// mop is an operation on a message.
type mop struct {
	name string
	in   []byte              // Unmarshal this, or
	mut  func(reflect.Value) // change the message (its struct)
}

// hiddenKey renders everything in a message, spare capacity included.
func hiddenKey(v reflect.Value) string {
	var b strings.Builder
	hidden(&b, v, 0)
	return b.String()
}

func hidden(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		hidden(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			hidden(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		n := v.Len()
		fmt.Fprintf(b, "%d/%d[", n, v.Cap())
		w := v.Slice(0, v.Cap())
		if v.Cap() > 4096 {
			w = v.Slice(0, 4096)
		}
		for i := 0; i < w.Len(); i++ {
			hidden(b, w.Index(i), depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			hidden(&e, it.Key(), depth+1)
			e.WriteByte(':')
			hidden(&e, it.Value(), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map" + strings.Join(es, ","))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		if v.CanAddr() && v.Kind() == reflect.Float32 {
			fmt.Fprint(b, *(*uint32)(unsafe.Pointer(v.UnsafeAddr())))
			return
		}
		if v.CanAddr() {
			fmt.Fprint(b, *(*uint64)(unsafe.Pointer(v.UnsafeAddr())))
			return
		}
		fmt.Fprint(b, v.Float())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			hidden(b, v.Index(i), depth+1)
		}
	}
}

// mutations are the changes a user can make that leave something behind.
func mutations(s *model.Schema) []mop {
	var r []mop
	for i := range s.Fields {
		i := i
		f := &s.Fields[i]
		get := func(e reflect.Value) reflect.Value { return model.GoField(s, i, e) }
		r = append(r, mop{name: fmt.Sprintf("clear #%d", i), mut: func(e reflect.Value) { x := get(e); x.Set(reflect.Zero(x.Type())) }})
		switch {
		case f.Card == model.Rep:
			r = append(r, mop{name: fmt.Sprintf("#%d = #%d[:0]", i, i), mut: func(e reflect.Value) {
				if x := get(e); !x.IsNil() {
					x.Set(x.Slice(0, 0))
				}
			}}, mop{name: fmt.Sprintf("drop last of #%d", i), mut: func(e reflect.Value) {
				if x := get(e); x.Len() > 0 {
					x.Set(x.Slice(0, x.Len()-1))
				}
			}}, mop{name: fmt.Sprintf("drop first of #%d", i), mut: func(e reflect.Value) {
				if x := get(e); x.Len() > 0 {
					x.Set(x.Slice(1, x.Len()))
				}
			}})
		case f.Card == model.Map:
			r = append(r, mop{name: fmt.Sprintf("empty map #%d", i), mut: func(e reflect.Value) {
				x := get(e)
				x.Set(reflect.MakeMap(x.Type()))
			}}, mop{name: fmt.Sprintf("delete keys of #%d", i), mut: func(e reflect.Value) {
				x := get(e)
				for _, k := range x.MapKeys() {
					x.SetMapIndex(k, reflect.Value{})
				}
			}})
		case f.Kind == model.Bytes && f.Card == model.Plain:
			r = append(r, mop{name: fmt.Sprintf("#%d = #%d[:0]", i, i), mut: func(e reflect.Value) {
				if x := get(e); !x.IsNil() {
					x.Set(x.Slice(0, 0))
				}
			}})
		case f.Kind == model.Message && f.Card == model.Plain:
			sub := f.Msg
			r = append(r, mop{name: fmt.Sprintf("reslice inside #%d", i), mut: func(e reflect.Value) {
				x := get(e)
				if x.IsNil() {
					return
				}
				for j := range sub.Fields {
					y := model.GoField(sub, j, x.Elem())
					if y.Kind() == reflect.Slice && !y.IsNil() {
						y.Set(y.Slice(0, 0))
					}
				}
			}})
		}
	}
	return r
}

// isIn reports a Rep or Map nil message, which the model excludes.
func hasNilMsg(m *model.Msg) bool {
	for i := range m.F {
		f := &m.F[i]
		if f.Set && f.V.M != nil && hasNilMsg(f.V.M) {
			return true
		}
		for _, v := range f.L {
			if v.Nil || v.M != nil && hasNilMsg(v.M) {
				return true
			}
		}
		for _, e := range f.E {
			if e.V.Nil || e.V.M != nil && hasNilMsg(e.V.M) {
				return true
			}
		}
	}
	return false
}

// C07: merging into a used message.
func c07(c *h.Ctx) {
	// apply runs an operation and compares its effect with the reference.
	apply := func(s *model.Schema, p reflect.Value, o *mop, check bool) (ok bool) {
		if o.mut != nil {
			o.mut(p.Elem())
			return true
		}
		if !check {
			_ = proto.Unmarshal(o.in, p.Interface())
			return true
		}
		before, err := model.FromGo(s, p)
		if err != nil {
			c.Fail("%v", err)
			return false
		}
		err = proto.Unmarshal(o.in, p.Interface())
		c.Trans(1)
		got, ferr := model.FromGo(s, p)
		if ferr != nil {
			c.Fail("%v", ferr)
			return false
		}
		want := before.Clone()
		r := model.Decode(s, o.in, want)
		if r.Unspec {
			return true
		}
		if (r.Class == model.OK) != (err == nil) {
			c.Fail("Unmarshal(%s) into %v returns %v, want %v", hx(o.in), before, err, r)
			return false
		}
		if err == nil {
			c.Outcome("merged")
			if d := model.Diff(want, got); d != "" {
				c.Fail("Unmarshal(%s) into %v: %s; got %v, want %v", hx(o.in), before, d, got, want)
				return false
			}
		} else {
			c.Outcome("failed")
		}
		// the same call on a message that shows the same and has no past
		if hasNilMsg(before) {
			return true
		}
		q := model.ToGo(s, before)
		err2 := proto.Unmarshal(o.in, q.Interface())
		c.Trans(1)
		got2, ferr := model.FromGo(s, q)
		if ferr != nil {
			c.Fail("%v", ferr)
			return false
		}
		if (err == nil) != (err2 == nil) || model.Diff(got2, got) != "" && model.Diff(got, got2) != "" {
			c.Fail("Unmarshal(%s) into %v gives %v, %v, but into an equal message without a past %v, %v", hx(o.in), before, got, err, got2, err2)
			return false
		}
		return true
	}
	// explore is a breadth-first search over the states of a message.
	explore := func(s *model.Schema, ops []mop, depth int) {
		type node struct{ path []int }
		seen := map[string]bool{}
		frontier := []node{{}}
		build := func(path []int) reflect.Value {
			p := model.Fresh(s)
			for _, k := range path {
				apply(s, p, &ops[k], false)
			}
			return p
		}
		show := func(path []int) string {
			var d []string
			for _, k := range path {
				d = append(d, ops[k].name)
			}
			return strings.Join(d, "; ")
		}
		seen[hiddenKey(model.Fresh(s))] = true
		c.State(s.Label(), "fresh")
		for d := 0; d < depth && len(frontier) > 0; d++ {
			var next []node
			for _, n := range frontier {
				for k := range ops {
					path := append(n.path[:len(n.path):len(n.path)], k)
					if !c.Case(func() string { return show(path) }) {
						continue
					}
					c.SetRepro(func() string { return reproMerge(s, ops, path) })
					key := ""
					ok := false
					before := len(c.R.Violations)
					c.Guard("call", func() {
						p := build(n.path)
						ok = apply(s, p, &ops[k], true)
						key = hiddenKey(p)
					})
					if len(c.R.Violations) == before {
						c.Trace(1)
					}
					if !ok || seen[key] {
						continue
					}
					seen[key] = true
					c.State(s.Label(), key)
					next = append(next, node{path})
				}
				if c.Expired() {
					return
				}
			}
			frontier = next
		}
	}
	um := func(t gen.Tok) mop { return mop{name: "decode " + t.Desc + " " + hx(t.B), in: t.B} }
	join := func(ts ...gen.Tok) gen.Tok {
		var r gen.Tok
		for _, t := range ts {
			r.B = append(r.B, t.B...)
			r.Desc += "<" + t.Desc + ">"
		}
		return r
	}
	many := func(t gen.Tok, n int) gen.Tok {
		var r gen.Tok
		for i := 0; i < n; i++ {
			r.B = append(r.B, t.B...)
		}
		r.Desc = fmt.Sprintf("%d times %s", n, t.Desc)
		return r
	}
	opsFor := func(s *model.Schema, lv gen.Level, per, bads int) []mop {
		var ops []mop
		var goods []gen.Tok
		for i := range s.Fields {
			f := &s.Fields[i]
			g := thin(gen.GoodToks(f, lv), per)
			b := thin(gen.BadToks(f, lv), bads)
			for _, t := range g {
				ops = append(ops, um(t))
			}
			goods = append(goods, g[len(g)-1])
			if f.Card == model.Rep && per > 2 {
				ops = append(ops, um(many(g[1], 9)), um(many(g[1], 11)))
			}
			for _, t := range b {
				ops = append(ops, um(t))
				if per > 2 {
					ops = append(ops, um(join(g[1], t)))
				}
			}
		}
		if len(goods) > 1 {
			ops = append(ops, um(join(goods...)))
		}
		ops = append(ops, um(gen.Tok{B: []byte{0xf8, 0x7f, 1}, Desc: "unknown"}))
		return append(ops, mutations(s)...)
	}

	if c.Family("one field") {
		for _, sh := range model.Shapes() {
			for _, num := range []int{1, 300} {
				if num != 1 && !c.Thorough() && sh.Card == model.Map {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				depth, per, bads := 4, 6, 3
				if c.Thorough() {
					depth, per, bads = 5, 8, 4
				}
				explore(s, opsFor(s, gen.Small, per, bads), depth)
			}
		}
	}
	if c.Family("two fields") {
		core := model.CoreShapes()
		for _, a := range core {
			for _, b := range core {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v", a, b) }) {
					continue
				}
				s := model.NewCanary("", a.Of(1, Leaf), b.Of(2, Leaf))
				depth := 3
				if c.Thorough() {
					depth = 4
				}
				explore(s, opsFor(s, gen.Tiny, 2, 1), depth)
			}
		}
	}
	if c.Family("nested") {
		core := model.CoreShapes()
		if c.Thorough() {
			core = model.Shapes()
		}
		for _, card := range []model.Card{model.Plain, model.Rep, model.Map} {
			for _, sh := range core {
				if !c.Unit(func() string { return fmt.Sprintf("%v of {%v}", card, sh) }) {
					continue
				}
				sub := model.New("I", sh.Of(1, Leaf), model.F(2, model.Plain, model.Int32))
				fld := model.Field{Num: 3, Card: card, Kind: model.Message, Msg: sub, Key: model.Int32}
				s := model.NewCanary("O", model.F(1, model.Opt, model.Bool), fld)
				wrap := func(t gen.Tok) gen.Tok {
					b := t.B
					if card == model.Map {
						b = append(append([]byte{8, 1, 0x12}, model.AppendVarint(nil, uint64(len(b)))...), b...)
					}
					return gen.Tok{B: append(append([]byte{0x1a}, model.AppendVarint(nil, uint64(len(b)))...), b...), Desc: "3:{" + t.Desc + "}"}
				}
				var ops []mop
				good := thin(gen.GoodToks(&sub.Fields[0], gen.Small), 5)
				for _, t := range good {
					ops = append(ops, um(wrap(t)))
				}
				other := gen.Tok{B: []byte{0x10, 5}, Desc: "2:5"}
				ops = append(ops, um(wrap(other)), um(wrap(gen.Tok{})), um(wrap(join(good[1], gen.Tok{B: []byte{0x10}, Desc: "cut"}))), um(join(wrap(good[1]), wrap(other), wrap(good[len(good)-1]))))
				for _, t := range thin(gen.BadToks(&sub.Fields[0], gen.Small), 2) {
					ops = append(ops, um(wrap(join(other, good[1], t))))
				}
				ops = append(ops, mutations(s)...)
				depth := 4
				if c.Thorough() {
					depth = 5
				}
				explore(s, ops, depth)
			}
		}
	}
	if c.Family("recursive types") {
		for _, s := range []*model.Schema{types.RecS, types.AS, types.BS, types.EnumsS, types.MixedS, types.UnorderedS} {
			for part := 0; part < 4; part++ {
				if !c.Unit(func() string { return fmt.Sprintf("%v, part %d", s, part) }) {
					continue
				}
				var ops []mop
				for i := range s.Fields {
					vs := fieldValsRec(&s.Fields[i], gen.Tiny)
					for j, fv := range vs {
						if (i+j)%4 != part && s != types.BS {
							continue
						}
						m := model.NewMsg(s)
						m.F[i] = fv
						b := model.Encode(s, m)
						if len(b) == 0 {
							continue
						}
						ops = append(ops, um(gen.Tok{B: b, Desc: m.String()}))
						if len(b) > 3 && (i+j)%3 == 0 {
							ops = append(ops, um(gen.Tok{B: b[:len(b)-1], Desc: "cut " + m.String()}))
						}
					}
				}
				ops = append(ops, mutations(s)...)
				depth := 3
				if c.Thorough() {
					depth = 4
				}
				explore(s, ops, depth)
			}
		}
	}

	// Many elements: growth of slices and maps that already hold some.
	if c.Family("large messages") {
		sizes := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1500}
		for _, sh := range model.Shapes() {
			if sh.Card != model.Rep && sh.Card != model.Map || sh.Key == model.Bool && sh.Card == model.Map {
				continue
			}
			core := sh.Card == model.Rep || sh.Key == model.Int32 || sh.Key == model.String
			for _, n := range sizes {
				if !core && n != 9 && n != 65 && n != 257 || !c.Thorough() && n > 300 && (n%2 == 1 || sh.Card == model.Map && sh.Key != model.Int32) {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v: %d elements", sh, n) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(1, Leaf))
				f := &s.Fields[0]
				list := func(from, n int) gen.Tok {
					m := model.NewMsg(s)
					if sh.Card == model.Map {
						all := gen.MapOf(f, from+n)
						m.F[0].E = all.E[min(from, len(all.E)):]
					} else {
						m.F[0].L = gen.ListOf(f, from+n).L[from:]
					}
					return gen.Tok{B: model.Encode(s, m), Desc: fmt.Sprintf("%d elements from %d", n, from)}
				}
				bad := gen.BadToks(f, gen.Small)
				ops := []mop{um(list(0, n)), um(list(3, 1)), um(list(n/2, n)), um(join(list(1, n-1), bad[len(bad)-1])), um(join(list(0, 3), bad[0]))}
				if sh.Card == model.Rep && f.Kind.Wire() != model.WBytes {
					var un []byte
					for _, v := range gen.ListOf(f, n).L {
						un = append(model.AppendTag(un, 1, f.Kind.Wire()), model.AppendValue(nil, f.Kind, f.Msg, v)...)
					}
					ops = append(ops, um(gen.Tok{B: un, Desc: fmt.Sprintf("%d records", n)}))
				}
				ops = append(ops, mutations(s)...)
				depth := 3
				if c.Thorough() && n < 300 || n == 9 {
					depth = 4
				}
				if !c.Thorough() && n > 70 {
					depth = 2
				}
				explore(s, ops, depth)
			}
		}
	}

	// decode(a); decode(b) is decode(a+b).
	if c.Family("concatenation") {
		for _, sh := range model.Shapes() {
			if !c.Unit(func() string { return fmt.Sprintf("%v", sh) }) {
				continue
			}
			s := model.NewCanary("", model.F(2, model.Plain, model.Int64), sh.Of(1, Leaf))
			n := 12
			if c.Thorough() {
				n = 40
			}
			g := thin(gen.GoodToks(&s.Fields[1], gen.Small), n)
			g = append(g, gen.Tok{B: []byte{0x10, 7}, Desc: "2:7"}, many(g[1], 10), many(g[1], 21), join(g[len(g)-1], g[1]))
			for _, a := range g {
				for _, b := range g {
					for _, d := range []gen.Tok{{}, g[1], g[len(g)-1]} {
						if !c.Case(func() string { return join(a, b, d).Desc }) {
							continue
						}
						before := len(c.R.Violations)
						c.Guard("Unmarshal", func() {
							p, q := model.Fresh(s), model.Fresh(s)
							e1 := proto.Unmarshal(a.B, p.Interface())
							e2 := proto.Unmarshal(b.B, p.Interface())
							e3 := proto.Unmarshal(d.B, p.Interface())
							e4 := proto.Unmarshal(join(a, b, d).B, q.Interface())
							c.Trans(4)
							if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
								c.Fail("errors %v %v %v %v", e1, e2, e3, e4)
								return
							}
							x, err1 := model.FromGo(s, p)
							y, err2 := model.FromGo(s, q)
							if err1 != nil || err2 != nil {
								c.Fail("%v %v", err1, err2)
								return
							}
							if dd := model.Diff(x, y); dd != "" && model.Diff(y, x) != "" {
								c.Fail("one after the other: %v, at once: %v: %s", x, y, dd)
							}
						})
						c.State(s.Label(), "cat", string(a.B), string(b.B), string(d.B))
						if len(c.R.Violations) == before {
							c.Trace(1)
						}
					}
				}
			}
		}
	}
}
