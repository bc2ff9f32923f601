package props

import (
	"fmt"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

type dvisit func(s *model.Schema, in []byte)

// alphabets of byte-string exploration: all tags of the schema, small values,
// continuation bytes.
func byteAlphabet(s *model.Schema) []byte {
	seen := map[byte]bool{}
	var r []byte
	add := func(b byte) {
		if !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	for i := range s.Fields {
		f := &s.Fields[i]
		w := f.Kind.Wire()
		if f.Card == model.Map {
			w = model.WBytes
		}
		add(byte(f.Num<<3 | w))
	}
	for _, b := range []byte{0, 1, 2, 0x80, 0xff, 0x7f, 3, 0x08, 0x12, 0x3a, 0x0b} {
		add(b)
	}
	return r
}

// decodeSpace enumerates inputs for a schema: token sequences, nested token
// sequences and byte strings.
func decodeSpace(c *h.Ctx, v dvisit) {
	one := func(s *model.Schema, in []byte, desc func() string) {
		if desc == nil {
			desc = func() string { return hx(in) }
		}
		if !c.Case(desc) {
			return
		}
		c.SetRepro(func() string { return reproUnmarshal(s, in) })
		before := len(c.R.Violations)
		c.Guard("Unmarshal", func() { v(s, in) })
		c.State(s.Label(), string(in))
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	seq := func(s *model.Schema, ts ...gen.Tok) {
		n := 0
		for i := range ts {
			n += len(ts[i].B)
		}
		in := make([]byte, 0, n)
		for i := range ts {
			in = append(in, ts[i].B...)
		}
		one(s, in, func() string {
			d := ""
			for i := range ts {
				d += "<" + ts[i].Desc + "> "
			}
			return d + hx(in)
		})
	}
	shapes := model.Shapes()

	// D1: every shape, every token; every pair of tokens of a middle alphabet;
	// every triple of a small one.
	if c.Family("single-field tokens") {
		for _, num := range []int{1, 16, 2048, 536870911} {
			for _, sh := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				f := &s.Fields[0]
				lv := gen.Small
				if num == 1 {
					lv = gen.Full
				}
				good := gen.GoodToks(f, lv)
				bad := gen.BadToks(f, lv)
				var unk []gen.Tok
				for _, n := range gen.UnknownNums(s, gen.Small) {
					unk = append(unk, gen.UnknownToks(n, gen.Tiny)...)
				}
				unk = append(unk, gen.UnknownToks(777, gen.Full)...)
				bad = append(bad, gen.BadUnknownToks(777, lv)...)
				for _, t := range good {
					seq(s, t)
				}
				for _, t := range bad {
					seq(s, t)
				}
				for _, t := range unk {
					seq(s, t)
					seq(s, good[1], t, good[len(good)-1])
				}
				if num != 1 && num != 16 {
					continue
				}
				mid := gen.GoodToks(f, gen.Small)
				if sh.Card == model.Map && !c.Thorough() {
					mid = thin(mid, 14)
				}
				mid = append(mid, unk[0], unk[3])
				for _, a := range mid {
					for _, b := range mid {
						seq(s, a, b)
					}
				}
				for _, t := range bad {
					seq(s, mid[1], t)
					seq(s, t, mid[1])
				}
				few := thin(mid, 6)
				if c.Thorough() {
					few = thin(mid, 14)
				}
				for _, a := range few {
					for _, b := range few {
						for _, d := range few {
							seq(s, a, b, d)
						}
					}
				}
				if num == 1 {
					// many records: growth of slices and maps
					for _, n := range []int{9, 10, 11, 19, 20, 21, 40, 41, 80, 81, 300} {
						var ts []gen.Tok
						for i := 0; i < n; i++ {
							ts = append(ts, mid[i%len(mid)])
						}
						seq(s, ts...)
					}
				}
			}
		}
	}

	// D1a: numbers around every power of two with core shapes.
	if c.Family("field numbers") {
		for i, num := range gen.PowerNums {
			for j, sh := range model.CoreShapes() {
				if (i+j)%4 != 0 && !c.Thorough() {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := numbered(sh, num)
				good := thin(gen.GoodToks(&s.Fields[1], gen.Tiny), 4)
				bad := thin(gen.BadToks(&s.Fields[1], gen.Tiny), 6)
				beside := gen.GoodToks(&s.Fields[0], gen.Tiny)
				for _, t := range good {
					seq(s, t)
					seq(s, t, beside[0], good[0])
					seq(s, beside[len(beside)-1], t)
				}
				for _, t := range bad {
					seq(s, t)
					seq(s, good[0], t)
				}
				for _, n := range gen.PowerNums {
					if s.Has(n) {
						continue
					}
					for _, t := range gen.UnknownToks(n, gen.Tiny) {
						seq(s, good[0], t, beside[0])
					}
				}
			}
		}
	}

	// D2: two fields, all sequences up to length 4 of two tokens each.
	if c.Family("two-field tokens") {
		core := model.CoreShapes()
		all := core
		if c.Thorough() {
			all = shapes
		}
		for _, a := range core {
			for _, b := range all {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v", a, b) }) {
					continue
				}
				s := model.NewCanary("", a.Of(1, Leaf), b.Of(2, Leaf))
				var al []gen.Tok
				for i := range s.Fields {
					g := gen.GoodToks(&s.Fields[i], gen.Tiny)
					al = append(al, g[1%len(g)], g[len(g)-1])
				}
				al = append(al, gen.BadToks(&s.Fields[0], gen.Tiny)[0])
				depth := 3
				if c.Thorough() {
					depth = 5
				}
				sequences(len(al), depth, func(ix []int) {
					ts := make([]gen.Tok, len(ix))
					for i, k := range ix {
						ts[i] = al[k]
					}
					seq(s, ts...)
				})
			}
		}
	}

	// D3: nested: token sequences as the body of message fields.
	if c.Family("nested tokens") {
		inner := model.CoreShapes()
		if c.Thorough() {
			inner = shapes
		}
		for _, card := range []model.Card{model.Plain, model.Rep, model.Map} {
			for _, sh := range inner {
				if !c.Unit(func() string { return fmt.Sprintf("%v message {%v}", card, sh) }) {
					continue
				}
				sub := model.NewCanary("I", sh.Of(1, Leaf), model.F(3, model.Plain, model.Int32))
				var s *model.Schema
				if card == model.Map {
					s = model.NewCanary("O", model.F(1, model.Plain, model.Bool), model.FMap(2, model.String, model.Message, sub), model.F(4, model.Plain, model.Int32))
				} else {
					s = model.NewCanary("O", model.F(1, model.Plain, model.Bool), model.FM(2, card, sub), model.F(4, model.Plain, model.Int32))
				}
				good := gen.GoodToks(&sub.Fields[0], gen.Small)
				bad := append(gen.BadToks(&sub.Fields[0], gen.Small), gen.BadUnknownToks(55, gen.Tiny)...)
				other := gen.Tok{B: []byte{0x18, 0x05}, Desc: "3:5"}
				wrap := func(body ...gen.Tok) gen.Tok {
					var b []byte
					d := ""
					for _, t := range body {
						b = append(b, t.B...)
						d += t.Desc + ";"
					}
					if card == model.Map {
						e := append([]byte{0x0a, 1, 'k', 0x12}, model.AppendVarint(nil, uint64(len(b)))...)
						b = append(e, b...)
					}
					w := append([]byte{0x12}, model.AppendVarint(nil, uint64(len(b)))...)
					return gen.Tok{B: append(w, b...), Desc: "2:{" + d + "}"}
				}
				end := gen.Tok{B: []byte{0x20, 0x07}, Desc: "4:7"}
				few := thin(good, 10)
				for _, a := range good {
					seq(s, wrap(a, other), end)
				}
				for _, a := range bad {
					seq(s, wrap(a), end)
					seq(s, wrap(other, few[1], a))
				}
				for _, a := range few {
					for _, b := range few {
						seq(s, wrap(a, b), end)
						seq(s, wrap(a), end, wrap(b))
						seq(s, wrap(a), wrap(other), wrap(b))
					}
				}
			}
		}
	}

	// D4: byte strings.
	if c.Family("byte strings") {
		var ss []*model.Schema
		for _, sh := range shapes {
			if sh.Card == model.Map && !c.Thorough() && sh.Key != model.Int32 && sh.Key != model.String && sh.Key != model.Bool {
				continue
			}
			ss = append(ss, model.NewCanary("", sh.Of(1, Leaf)))
		}
		ss = append(ss, types.RecS, types.AS, types.EnumsS, types.MixedS, types.UnorderedS, types.EmptyS)
		for _, s := range ss {
			// all strings of length 0..2 (3 for some) over all bytes
			for first := 0; first < 256; first += 32 {
				if !c.Unit(func() string {
					return fmt.Sprintf("%v: strings over all bytes, first in %d..%d", s, first, first+31)
				}) {
					continue
				}
				buf := make([]byte, 3)
				for a := first; a < first+32; a++ {
					buf[0] = byte(a)
					one(s, clip(buf[:1]), nil)
					for b := 0; b < 256; b++ {
						buf[1] = byte(b)
						one(s, clip(buf[:2]), nil)
						if c.Thorough() && (a&7 <= 2 || a&7 == 5) && a>>3 <= 4 {
							for d := 0; d < 256; d++ {
								buf[2] = byte(d)
								one(s, clip(buf[:3]), nil)
							}
						}
					}
				}
			}
			// longer ones over a reduced alphabet
			al := byteAlphabet(s)
			depth := 4
			if c.Thorough() {
				depth = 5
			}
			for f := range al {
				if !c.Unit(func() string { return fmt.Sprintf("%v: strings up to %d over %x from %x", s, depth, al, al[f]) }) {
					continue
				}
				sequences(len(al), depth-1, func(ix []int) {
					if len(ix) < 2 {
						return
					}
					b := make([]byte, len(ix)+1)
					b[0] = al[f]
					for i, k := range ix {
						b[i+1] = al[k]
					}
					one(s, b, nil)
				})
			}
		}
	}

	// D5: many records, packed and not, and long payloads, known and unknown.
	if c.Family("counts and lengths") {
		for _, sh := range shapes {
			if sh.Card != model.Rep && sh.Card != model.Map {
				continue
			}
			core := sh.Card == model.Rep || sh.Key == model.Int32 || sh.Key == model.String
			for part := 0; part < 3; part++ {
				if part > 0 && !core || part == 2 && sh.Card == model.Map {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v: counts, part %d", sh, part) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(1, Leaf), model.F(2, model.Plain, model.Int32))
				f := &s.Fields[0]
				for _, n := range counts(c, core, part) {
					m := model.NewMsg(s)
					if sh.Card == model.Map {
						if sh.Key == model.Bool && n > 2 {
							break
						}
						m.F[0] = gen.MapOf(f, n)
					} else {
						m.F[0] = gen.ListOf(f, n)
					}
					enc := model.Encode(s, m)
					one(s, enc, nil)
					if sh.Card == model.Map {
						continue
					}
					// one record for each element, and half of each kind
					var un []byte
					var ps []byte
					for i, v := range m.F[0].L {
						b := model.AppendValue(nil, f.Kind, f.Msg, v)
						un = append(model.AppendTag(un, 1, f.Kind.Wire()), b...)
						if i >= n/2 {
							ps = append(ps, b...)
						}
					}
					one(s, un, nil)
					if f.Kind.Wire() != model.WBytes {
						half := un[:0:0]
						for _, v := range m.F[0].L[:n/2] {
							half = append(model.AppendTag(half, 1, f.Kind.Wire()), model.AppendValue(nil, f.Kind, f.Msg, v)...)
						}
						pk := append(model.AppendTag(nil, 1, model.WBytes), model.AppendVarint(nil, uint64(len(ps)))...)
						pk = append(pk, ps...)
						one(s, append(append([]byte(nil), half...), pk...), nil)
						one(s, append(append([]byte(nil), pk...), half...), nil)
						one(s, append(append([]byte(nil), pk...), pk...), nil)
					}
				}
			}
		}
		for _, sh := range []model.Shape{{Kind: model.Int32}, {Kind: model.Bytes}, {Kind: model.String, Card: model.Opt}, {Kind: model.Message}, {Kind: model.String, Card: model.Rep}} {
			for part := 0; part < 2; part++ {
				if !c.Unit(func() string { return fmt.Sprintf("%v: lengths, part %d", sh, part) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(1, Leaf), model.F(2, model.Plain, model.Int32))
				for _, l := range lengths(c, part) {
					body := []byte(gen.Str(l, 7))
					rec := func(num int, b []byte) []byte {
						r := append(model.AppendTag(nil, num, model.WBytes), model.AppendVarint(nil, uint64(len(b)))...)
						return append(r, b...)
					}
					end := []byte{0x10, 0x05}
					unk := rec(9, body)
					for _, in := range [][]byte{
						append(clip(unk), end...),
						append(clip(end), unk...),
						unk[:len(unk)-min(l, 1)],
						append(rec(1, body), end...),
						append(rec(1, rec(9, body)), end...),
						append(rec(1, rec(2, body)), end...),
						append(append(rec(1, rec(2, body)), rec(1, rec(2, body[:l/2]))...), end...),
						append(append(model.AppendTag(nil, 9, 3), unk...), model.AppendTag(nil, 9, 4)...),
					} {
						one(s, in, nil)
					}
				}
			}
		}
		// lengths whose prefix has four and five bytes
		for hi, hold := range hugeFields(Leaf) {
			for part, base := range []int{1 << 21, 1 << 28} {
				if part == 1 && hi%3 != 0 && !c.Thorough() {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v %v of %d bytes", hold.Card, hold.Kind, base) }) {
					continue
				}
				end := c.Exclusive()
				s := model.NewCanary("", hold, model.F(2, model.Plain, model.Int32))
				for _, l := range []int{base - 1, base} {
					body := make([]byte, l)
					for i := range body {
						body[i] = byte('a' + i%23)
					}
					rec := func(num int, b []byte) []byte {
						r := make([]byte, 0, len(b)+20)
						r = append(model.AppendTag(r, num, model.WBytes), model.AppendVarint(nil, uint64(len(b)))...)
						return append(r, b...)
					}
					known, unknown := rec(4, body), rec(9, body)
					if hold.Kind == model.Message {
						// unknown inside
						known = rec(4, rec(9, body))
						if hold.Card == model.Map {
							known = rec(4, append([]byte{8, 3}, rec(2, rec(9, body))...))
						}
					} else if hold.Card == model.Map {
						known = rec(4, append([]byte{8, 3}, rec(2, body)...))
					}
					one(s, append(known, 0x10, 0x05), nil)
					one(s, known[:len(known)-1], nil)
					if hi == 0 {
						one(s, append(unknown, 0x10, 0x05), nil)
						one(s, unknown[:len(unknown)-1], nil)
					}
				}
				end()
			}
		}
		// groups in groups, unknown records in number
		for _, s := range []*model.Schema{model.NewCanary("", model.F(2, model.Plain, model.Int32)), types.RecS} {
			if !c.Unit(func() string { return fmt.Sprintf("%v: groups", s) }) {
				continue
			}
			for _, n := range counts(c, false, 0) {
				for _, num := range []int{9, 100, 5000} {
					var a, b, d []byte
					for i := 0; i < n; i++ {
						a = model.AppendTag(a, num, 3)
						d = append(model.AppendTag(d, num, model.WVarint), byte(i&127))
					}
					b = a
					for i := 0; i < n; i++ {
						b = model.AppendTag(b, num, 4)
					}
					end := []byte{0x10, 0x05}
					one(s, append(clip(b), end...), nil)
					one(s, append(clip(b), model.AppendTag(nil, num, 4)...), nil)
					one(s, b[:len(b)-1], nil)
					one(s, a, nil)
					one(s, append(clip(d), end...), nil)
				}
			}
		}
	}
}

func clip(b []byte) []byte { return append([]byte(nil), b...) }

// sequences calls f with every index sequence of length 1..depth.
func sequences(n, depth int, f func(ix []int)) {
	ix := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if len(ix) > 0 {
			f(ix)
		}
		if len(ix) == depth {
			return
		}
		for i := 0; i < n; i++ {
			ix = append(ix, i)
			rec()
			ix = ix[:len(ix)-1]
		}
	}
	rec()
}

// thin picks n tokens, evenly spread, first and last included.
func thin(t []gen.Tok, n int) []gen.Tok {
	if len(t) <= n {
		return t
	}
	if n == 1 {
		return t[:1]
	}
	var r []gen.Tok
	for i := 0; i < n; i++ {
		r = append(r, t[i*(len(t)-1)/(n-1)])
	}
	return r
}
