package props

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// hop is a call of a history.
type hop struct {
	s    *model.Schema
	in   []byte     // Unmarshal into a fresh message, or
	m    *model.Msg // Marshal and Size
	desc string
}

// C18: no cross-talk.
func c18(c *h.Ctx) {
	// run executes a history; every call is compared with the reference, and
	// at the end all messages still are what they were.
	run := func(ops []hop, ix []int) {
		var ps []reflect.Value
		var keys []string
		var ss []*model.Schema
		var outs, outWas [][]byte
		for _, i := range ix {
			o := &ops[i]
			if o.in == nil {
				p := model.ToGo(o.s, o.m)
				b, err := proto.Marshal(p.Interface())
				n := proto.Size(p.Interface())
				c.Trans(2)
				if err != nil || n != len(b) {
					c.Fail("Marshal(%v) after that: %v, size %d, %d bytes", o.m, err, n, len(b))
					return
				}
				got := model.NewMsg(o.s)
				if r := model.Decode(o.s, b, got); r.Class != model.OK {
					c.Fail("Marshal(%v) after that: not an encoding: %v: %s", o.m, r, hx(b))
					return
				}
				if d := model.Diff(o.m, got); d != "" {
					c.Fail("Marshal(%v) after that: %s: %s", o.m, d, hx(b))
					return
				}
				outs, outWas = append(outs, b), append(outWas, clip(b))
				if b2 := model.Encode(o.s, o.m); len(b2) != len(b) {
					c.Fail("Marshal(%v) after that: %s, want %s", o.m, hx(b), hx(b2))
				}
				ps, ss, keys = append(ps, p), append(ss, o.s), append(keys, o.m.Key())
				continue
			}
			p := model.Fresh(o.s)
			err := proto.Unmarshal(o.in, p.Interface())
			c.Trans(1)
			got, ferr := model.FromGo(o.s, p)
			if ferr != nil {
				c.Fail("%v", ferr)
				return
			}
			want := model.NewMsg(o.s)
			r := model.Decode(o.s, o.in, want)
			if (r.Class == model.OK) != (err == nil) {
				c.Fail("Unmarshal(%s) gives %v after that, want %v", hx(o.in), err, r)
				return
			}
			if err == nil {
				if d := model.Diff(want, got); d != "" {
					c.Fail("Unmarshal(%s) gives %v after that, want %v: %s", hx(o.in), got, want, d)
					return
				}
				c.Outcome("accepted")
			} else {
				c.Outcome("rejected")
			}
			ps, ss, keys = append(ps, p), append(ss, o.s), append(keys, got.Key())
		}
		for j := range outs {
			if !bytes.Equal(outs[j], outWas[j]) {
				c.Fail("the bytes Marshal returned changed from %s to %s", hx(outWas[j]), hx(outs[j]))
				return
			}
		}
		for j := range ps {
			m, err := model.FromGo(ss[j], ps[j])
			if err != nil {
				c.Fail("%v", err)
				return
			}
			if m.Key() != keys[j] {
				c.Fail("message %d changed from %s to %s", j, keys[j], m.Key())
				return
			}
		}
	}
	walk := func(ops []hop, depth int) {
		sequences(len(ops), depth, func(ix []int) {
			if !c.Case(func() string {
				d := ""
				for _, i := range ix {
					d += ops[i].desc + "; "
				}
				return d
			}) {
				return
			}
			c.SetRepro(func() string { return reproHistory(ops, ix) })
			before := len(c.R.Violations)
			c.Guard("call", func() { run(ops, ix) })
			c.StateU(uint64(len(c.R.PerFamily)), c.Pos())
			if len(c.R.Violations) == before {
				c.Trace(1)
			}
		})
	}
	um := func(s *model.Schema, t gen.Tok) hop {
		b := t.B
		if b == nil {
			b = []byte{}
		}
		return hop{s: s, in: b, desc: "decode " + t.Desc + " " + hx(t.B)}
	}
	mar := func(s *model.Schema, m *model.Msg) hop { return hop{s: s, m: m, desc: "encode " + m.String()} }

	// Map entries: complete, partial, malformed, in one and in several
	// messages, for every key and value kind.
	if c.Family("map entries") {
		for _, sh := range model.Shapes() {
			if sh.Card != model.Map {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf))
			f := &s.Fields[0]
			g := gen.GoodToks(f, gen.Tiny) // {}, k1 v1, k1 v2, k1, v1
			b := gen.BadToks(f, gen.Small)
			var ops []hop
			for _, t := range g {
				ops = append(ops, um(s, t))
			}
			for _, t := range thin(b, 5) {
				ops = append(ops, um(s, t))
			}
			// two records in one input
			for _, x := range [][2]int{{1, 0}, {2, 3}, {1, 4}, {4, 3}, {3, 1}} {
				ops = append(ops, um(s, gen.Tok{B: append(clip(g[x[0]].B), g[x[1]].B...), Desc: g[x[0]].Desc + " " + g[x[1]].Desc}))
			}
			ops = append(ops, um(s, gen.Tok{B: append(clip(g[2].B), b[0].B...), Desc: g[2].Desc + " " + b[0].Desc}))
			m := model.NewMsg(s)
			m.F[0] = gen.MapOf(f, 2)
			ops = append(ops, mar(s, m), mar(s, model.NewMsg(s)))
			depth := 3
			if c.Thorough() {
				depth = 4
			}
			walk(ops, depth)
		}
	}
	// Entries that fail half way: every cut of an entry, then a partial one.
	if c.Family("cut entries") {
		for _, sh := range model.Shapes() {
			if sh.Card != model.Map {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf))
			g := gen.GoodToks(&s.Fields[0], gen.Small)
			full := g[1].B
			var ops []hop
			// the entry ends after k bytes, its length says so
			for k := 0; k <= len(full)-2; k++ {
				b := append([]byte{0x0a, byte(k)}, full[2:2+k]...)
				ops = append(ops, um(s, gen.Tok{B: b, Desc: fmt.Sprintf("entry cut at %d", k)}))
			}
			// the input ends there
			for k := 1; k < len(full); k++ {
				ops = append(ops, um(s, gen.Tok{B: full[:k:k], Desc: fmt.Sprintf("input cut at %d", k)}))
			}
			for _, t := range g[2:] {
				ops = append(ops, um(s, t))
			}
			ops = append(ops, um(s, gen.Tok{B: append(clip(full), 0x0a, 0), Desc: "entry, empty entry"}))
			walk(ops, 2)
			if c.Thorough() {
				var few []hop
				for i := range ops {
					if i%3 == 0 || i > len(ops)-4 {
						few = append(few, ops[i])
					}
				}
				walk(few, 3)
			}
		}
	}
	// Messages of the same and of other types.
	if c.Family("all shapes") {
		for _, sh := range model.Shapes() {
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf), model.F(2, model.Plain, model.Int32))
			o := model.NewCanary("", model.F(2, model.Plain, model.String), sh.Of(1, Leaf))
			var ops []hop
			for i, x := range []*model.Schema{s, o} {
				f := &x.Fields[i]
				g := thin(gen.GoodToks(f, gen.Small), 5)
				for _, t := range g {
					ops = append(ops, um(x, t))
				}
				for _, t := range thin(gen.BadToks(f, gen.Small), 2) {
					ops = append(ops, um(x, gen.Tok{B: append(clip(g[1].B), t.B...), Desc: g[1].Desc + " " + t.Desc}))
				}
				vs := gen.FieldVals(f, gen.Tiny)
				m := model.NewMsg(x)
				m.F[i] = vs[len(vs)-1]
				ops = append(ops, mar(x, m))
			}
			depth := 3
			if c.Thorough() {
				depth = 4
			}
			walk(ops, depth)
		}
	}
	if c.Family("nested maps and recursive types") {
		for part := 0; part < 6; part++ {
			if !c.Unit(func() string { return fmt.Sprintf("part %d", part) }) {
				continue
			}
			var ops []hop
			for _, s := range []*model.Schema{types.RecS, types.AS, types.BS, types.EnumsS} {
				for n := 1; n <= 3; n++ {
					if s == types.EnumsS {
						break
					}
					ts := trees(s, n)
					for i, m := range ts {
						if i%6 != part && n > 1 {
							continue
						}
						b := model.Encode(s, m)
						ops = append(ops, um(s, gen.Tok{B: b, Desc: m.String()}))
						if len(b) > 4 {
							ops = append(ops, um(s, gen.Tok{B: b[:len(b)-1], Desc: "cut " + m.String()}))
						}
						if i%2 == 0 {
							ops = append(ops, mar(s, m))
						}
					}
				}
			}
			// entries of nested maps without key or value
			ops = append(ops, um(types.RecS, gen.Tok{B: []byte{0x22, 0}, Desc: "empty entry"}), um(types.RecS, gen.Tok{B: []byte{0x22, 2, 0x12, 0}, Desc: "value only"}),
				um(types.RecS, gen.Tok{B: []byte{0x22, 9, 0x0a, 1, 'k', 0x12, 4, 0x22, 2, 0x0a, 0}, Desc: "nested entry without value"}),
				um(types.RecS, gen.Tok{B: []byte{0x22, 8, 0x0a, 1, 'k', 0x12, 3, 0x22, 2, 0x0a}, Desc: "nested entry cut"}),
				um(types.EnumsS, gen.Tok{B: []byte{0x2a, 0}, Desc: "empty enum entry"}), um(types.EnumsS, gen.Tok{B: []byte{0x2a, 5, 0x0a, 1, 'k', 0x10, 5}, Desc: "enum entry"}), um(types.EnumsS, gen.Tok{B: []byte{0x32, 6, 8, 1, 0x12, 2, 8, 7}, Desc: "message entry"}), um(types.EnumsS, gen.Tok{B: []byte{0x32, 2, 8, 2}, Desc: "message entry without value"}))
			depth := 2
			if c.Thorough() {
				depth = 3
			}
			walk(ops, depth)
		}
	}
	// Short and long data by turns.
	if c.Family("large and small messages") {
		for _, sh := range model.Shapes() {
			multi := sh.Card == model.Rep || sh.Card == model.Map
			if !multi && sh.Kind != model.String && sh.Kind != model.Bytes {
				continue
			}
			if sh.Card == model.Map && sh.Key != model.String && sh.Key != model.Int32 && sh.Kind != model.String && sh.Kind != model.Message {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", model.F(2, model.Plain, model.Int32), sh.Of(1, Leaf))
			f := &s.Fields[1]
			sizes := []int{1, 40, 300, 1100, 5000, 70000}
			if multi {
				sizes = []int{1, 9, 40, 300, 1100}
				if c.Thorough() {
					sizes = append(sizes, 2000)
				}
			}
			var ops []hop
			for k, n := range sizes {
				m := model.NewMsg(s)
				m.F[0] = model.FieldVal{Set: true, V: model.Val{U: uint64(k + 1)}}
				switch sh.Card {
				case model.Rep:
					m.F[1] = gen.ListOf(f, n)
				case model.Map:
					m.F[1] = gen.MapOf(f, n)
				default:
					m.F[1] = model.FieldVal{Set: true, V: model.Val{S: gen.Str(n, byte(k))}}
				}
				b := model.Encode(s, m)
				d := fmt.Sprintf("size %d", n)
				ops = append(ops, hop{s: s, in: b, desc: "decode " + d}, hop{s: s, m: m, desc: "encode " + d}, hop{s: s, in: clip(b[:len(b)-1]), desc: "decode cut " + d})
			}
			depth := 2
			if c.Thorough() {
				depth = 3
			}
			walk(ops, depth)
		}
	}
	// Elements and entries that the user put into a second message as well:
	// decoding more into the first adds and replaces, it does not write to them.
	if c.Family("elements shared between messages") {
		for _, sh := range model.Shapes() {
			if sh.Card != model.Map && sh.Card != model.Rep || sh.Kind != model.Bytes && sh.Kind != model.Message && sh.Kind != model.String {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf))
			f := &s.Fields[0]
			toks := append(thin(gen.GoodToks(f, gen.Small), 12), thin(gen.BadToks(f, gen.Small), 4)...)
			depth := 3
			if c.Thorough() {
				depth = 4
			}
			sequences(len(toks), depth, func(ix []int) {
				if !c.Case(func() string {
					d := ""
					for _, i := range ix {
						d += toks[i].Desc + "; "
					}
					return "into the same message, sharing its elements with a second one after each: " + d
				}) {
					return
				}
				before := len(c.R.Violations)
				c.Guard("Unmarshal", func() {
					x := model.Fresh(s)
					var ys []reflect.Value
					var keys []string
					for _, i := range ix {
						_ = proto.Unmarshal(toks[i].B, x.Interface())
						c.Trans(1)
						for j, y := range ys {
							m, err := model.FromGo(s, y)
							if err != nil {
								c.Fail("%v", err)
								return
							}
							if m.Key() != keys[j] {
								c.Fail("%s: a message with the elements of the first one after %d inputs changed from %s to %s", toks[i].Desc, j+1, keys[j], m.Key())
								return
							}
						}
						y := model.Fresh(s)
						from, to := s.GoField(x, 0), s.GoField(y, 0)
						if sh.Card == model.Map {
							if !from.IsNil() {
								to.Set(reflect.MakeMap(to.Type()))
								it := from.MapRange()
								for it.Next() {
									to.SetMapIndex(it.Key(), it.Value())
								}
							}
						} else {
							to.Set(reflect.AppendSlice(reflect.Zero(to.Type()), from))
						}
						m, err := model.FromGo(s, y)
						if err != nil {
							c.Fail("%v", err)
							return
						}
						ys, keys = append(ys, y), append(keys, m.Key())
					}
				})
				c.StateU(uint64(len(c.R.PerFamily)), c.Pos())
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
			})
		}
	}
	// Long histories of one map type: growth and reuse.
	if c.Family("long histories") {
		for _, sh := range model.Shapes() {
			if sh.Card != model.Map && sh.Card != model.Rep {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf))
			g := gen.GoodToks(&s.Fields[0], gen.Small)
			b := gen.BadToks(&s.Fields[0], gen.Small)
			var ops []hop
			for _, t := range g {
				ops = append(ops, um(s, t))
			}
			for i, t := range b {
				ops = append(ops, um(s, gen.Tok{B: append(clip(g[1+i%(len(g)-1)].B), t.B...), Desc: "x " + t.Desc}))
			}
			for stride := 1; stride <= len(ops); stride++ {
				var ix []int
				for k := 0; k < 3*len(ops); k++ {
					ix = append(ix, k*stride%len(ops))
				}
				if !c.Case(func() string { return fmt.Sprintf("all %d operations three times with stride %d", len(ops), stride) }) {
					continue
				}
				before := len(c.R.Violations)
				c.Guard("call", func() { run(ops, ix) })
				c.StateU(uint64(len(c.R.PerFamily)), c.Pos())
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
			}
		}
	}
}
