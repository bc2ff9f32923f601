package props

import (
	"bytes"
	"fmt"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// bearers are messages to insert unknown fields into.
func bearers(c *h.Ctx) (r []struct {
	s *model.Schema
	m *model.Msg
}) {
	add := func(s *model.Schema, m *model.Msg) {
		r = append(r, struct {
			s *model.Schema
			m *model.Msg
		}{s, m})
	}
	for _, sh := range model.Shapes() {
		s := model.NewCanary("", model.F(2, model.Plain, model.Int32), sh.Of(5, Leaf), model.F(4, model.Opt, model.String))
		m := model.NewMsg(s)
		vs := gen.FieldVals(&s.Fields[1], gen.Tiny)
		m.F[0] = model.FieldVal{Set: true, V: model.Val{U: 9}}
		m.F[1] = vs[len(vs)-1]
		m.F[2] = model.FieldVal{Set: true, V: model.Val{S: "end"}}
		add(s, m)
		m2 := model.NewMsg(s)
		m2.F[1] = vs[0]
		add(s, m2)
	}
	for _, a := range model.CoreShapes() {
		for _, b := range model.CoreShapes() {
			s := model.New("", a.Of(1, Leaf), b.Of(16, Leaf))
			m := model.NewMsg(s)
			for i := range m.F {
				vs := gen.FieldVals(&s.Fields[i], gen.Tiny)
				m.F[i] = vs[len(vs)-1]
			}
			add(s, m)
		}
	}
	for d := 1; d <= 3; d++ {
		for code := 0; code < 1<<(2*uint(d)); code++ {
			s := chainSchema(d, code)
			add(s, chainMsg(s, d, 3))
		}
	}
	for n := 1; n <= 3; n++ {
		for _, s := range []*model.Schema{types.RecS, types.AS} {
			for _, m := range trees(s, n) {
				add(s, m)
			}
		}
	}
	for _, s := range []*model.Schema{types.EmptyS, types.HiddenS, types.InnerS, types.MixedS, types.EnumsS, types.UnorderedS} {
		m := model.NewMsg(s)
		add(s, m.Clone())
		for i := range s.Fields {
			vs := fieldValsRec(&s.Fields[i], gen.Tiny)
			m.F[i] = vs[len(vs)-1]
		}
		add(s, m)
	}
	return r
}

// C06: unknown fields.
func c06(c *h.Ctx) {
	decode := func(s *model.Schema, in []byte, want *model.Msg, what func() string) {
		if !c.Case(what) {
			return
		}
		c.SetRepro(func() string { return reproUnmarshal(s, in) })
		before := len(c.R.Violations)
		c.Guard("Unmarshal", func() {
			q := model.Fresh(s)
			err := proto.Unmarshal(in, q.Interface())
			c.Trans(1)
			if want == nil {
				if err == nil {
					c.Fail("a malformed unknown field is accepted; input %s", hx(in))
				}
				return
			}
			if err != nil {
				c.Fail("an unknown field causes: %v; input %s", err, hx(in))
				return
			}
			got, err := model.FromGo(s, q)
			if err != nil {
				c.Fail("%v; input %s", err, hx(in))
				return
			}
			if d := model.Diff(want, got); d != "" {
				c.Fail("an unknown field changes the result: %s; input %s", d, hx(in))
			}
		})
		c.State(s.Label(), string(in))
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}

	if c.Family("insertion") {
		for _, be := range bearers(c) {
			s, m := be.s, be.m
			if !c.Unit(func() string { return fmt.Sprintf("%v %v", s, m) }) {
				continue
			}
			enc := model.Encode(s, m)
			nums := gen.UnknownNums(s, gen.Full)
			if !c.Thorough() {
				// every number at the top level with one token of each wire
				// type; all tokens with a few numbers
				nums = append(gen.UnknownNums(s, gen.Small), 33, 100, 262144, 33554432)
			}
			try := func(num int, t gen.Tok, maxDepth int, good bool) {
				model.Rebuild(s, enc, func(l *model.Schema) []byte {
					if l.Has(num) {
						return nil
					}
					return t.B
				}, func(out []byte, depth, pos int) {
					if depth > maxDepth {
						return
					}
					want := m
					if !good {
						want = nil
					}
					decode(s, out, want, func() string { return fmt.Sprintf("%s at level %d position %d", t.Desc, depth, pos) })
				})
			}
			for _, n := range nums {
				for _, t := range gen.UnknownToks(n, gen.Tiny) {
					try(n, t, 9, true)
				}
			}
			for _, n := range []int{1000, 3, 536870911} {
				for _, t := range gen.UnknownToks(n, gen.Full) {
					try(n, t, 9, true)
				}
				// malformed ones, last at their level so that nothing repairs them
				for _, t := range gen.BadUnknownToks(n, gen.Full) {
					model.Rebuild(s, enc, func(l *model.Schema) []byte {
						if l.Has(n) {
							return nil
						}
						return t.B
					}, func(out []byte, depth, pos int) {
						w := model.NewMsg(s)
						r := model.Decode(s, out, w)
						if r.Unspec {
							return
						}
						if r.Class == model.OK {
							decode(s, out, w, func() string { return fmt.Sprintf("%s at level %d position %d", t.Desc, depth, pos) })
						} else {
							decode(s, out, nil, func() string { return fmt.Sprintf("%s at level %d position %d", t.Desc, depth, pos) })
						}
					})
				}
			}
			// two unknown fields at two places
			few := append(gen.UnknownToks(1000, gen.Tiny), gen.UnknownToks(1001, gen.Small)[7])
			for i, t := range few {
				model.Rebuild(s, enc, func(l *model.Schema) []byte { return t.B }, func(out []byte, depth, pos int) {
					for j, u := range few {
						if !c.Thorough() && (i+j)%2 == 1 {
							continue
						}
						model.Rebuild(s, out, func(l *model.Schema) []byte { return u.B }, func(out2 []byte, d2, p2 int) {
							decode(s, out2, m, func() string {
								return fmt.Sprintf("%s at level %d position %d, then %s at level %d position %d", t.Desc, depth, pos, u.Desc, d2, p2)
							})
						})
					}
				})
			}
		}
	}

	// Every pair of a known and an unknown number around the powers of two, and
	// every unknown number up to a bound.
	if c.Family("numbers") {
		for _, num := range gen.PowerNums {
			if !c.Unit(func() string { return fmt.Sprintf("known number %d", num) }) {
				continue
			}
			s := numbered(model.Shape{Kind: model.Sint32}, num)
			m := model.NewMsg(s)
			m.F[0], m.F[1] = presentOf(&s.Fields[0], 1), presentOf(&s.Fields[1], 2)
			enc := model.Encode(s, m)
			other := append([]int(nil), gen.PowerNums...)
			for k := 0; k < 29; k++ {
				other = append(other, num+1<<k, num^1<<k)
			}
			for n := 1; n <= 1100; n++ {
				other = append(other, n)
			}
			for _, n := range other {
				if n < 1 || n > 536870911 || s.Has(n) {
					continue
				}
				for _, t := range gen.UnknownToks(n, gen.Tiny) {
					decode(s, append(append([]byte(nil), t.B...), enc...), m, func() string { return fmt.Sprintf("%s first", t.Desc) })
					decode(s, append(append([]byte(nil), enc...), t.B...), m, func() string { return fmt.Sprintf("%s last", t.Desc) })
				}
			}
		}
	}

	// Runs of unknown records of every length around the powers of two, large
	// unknown payloads, and every number up to a bound.
	if c.Family("many and large") {
		all := bearers(c)
		var few []struct {
			s *model.Schema
			m *model.Msg
		}
		step := 67
		if c.Thorough() {
			step = 13
		}
		for i := 0; i < len(all); i += step {
			few = append(few, all[i])
		}
		insert := func(s *model.Schema, m *model.Msg, enc, t []byte, what string) {
			model.Rebuild(s, enc, func(l *model.Schema) []byte { return t }, func(out []byte, depth, pos int) {
				decode(s, out, m, func() string { return fmt.Sprintf("%s at level %d position %d", what, depth, pos) })
			})
		}
		// numbers no bearer has
		free := func(i int) int { return 100000 + i*977 }
		for bi, be := range few {
			s, m := be.s, be.m
			enc := model.Encode(s, m)
			for part := 0; part < 2; part++ {
				if !c.Unit(func() string { return fmt.Sprintf("runs in %v %v, part %d", s, m, part) }) {
					continue
				}
				toks := gen.UnknownToks(free(0), gen.Tiny)
				for k, t := range toks {
					if part == 1 && !c.Thorough() && k != bi%len(toks) {
						continue
					}
					for _, n := range counts(c, bi%4 == 0, part) {
						insert(s, m, enc, bytes.Repeat(t.B, n), fmt.Sprintf("%d times %s", n, t.Desc))
					}
				}
				// all numbers distinct, all wire types in turn
				for _, n := range counts(c, bi%4 == 0, part) {
					var b []byte
					for i := 0; i < n; i++ {
						b = append(b, gen.UnknownToks(free(i), gen.Tiny)[i%4].B...)
					}
					insert(s, m, enc, b, fmt.Sprintf("%d different unknown fields", n))
				}
				ls := lengths(c, part)
				if part == 1 {
					ls = append(ls, 1<<20, 1<<21-1, 1<<21, 1<<21+1)
				}
				for _, l := range ls {
					b := append(model.AppendVarint(model.AppendTag(nil, free(0), 2), uint64(l)), gen.Str(l, byte(l))...)
					insert(s, m, enc, b, fmt.Sprintf("unknown %d of %d bytes", free(0), l))
				}
			}
		}
		// every unknown number
		s := model.New("", model.F(1, model.Plain, model.Int32), model.F(16, model.Rep, model.String), model.F(2050, model.Opt, model.Bool), model.F(262144, model.Plain, model.Int64))
		m := model.NewMsg(s)
		for i := range s.Fields {
			vs := gen.FieldVals(&s.Fields[i], gen.Tiny)
			m.F[i] = vs[len(vs)-1]
		}
		enc := model.Encode(s, m)
		top := 1 << 16
		if c.Thorough() {
			top = 1 << 20
		}
		num := func(n int) {
			if s.Has(n) {
				return
			}
			for _, t := range gen.UnknownToks(n, gen.Tiny) {
				decode(s, append(append([]byte(nil), t.B...), enc...), m, func() string { return t.Desc + " first" })
			}
		}
		const chunk = 1 << 12
		for at := 0; at < top; at += chunk {
			if !c.Unit(func() string { return fmt.Sprintf("numbers %d to %d", at, at+chunk) }) {
				continue
			}
			for n := at + 1; n <= at+chunk; n++ {
				num(n)
			}
		}
		for k := uint(16); k <= 29; k++ {
			if !c.Unit(func() string { return fmt.Sprintf("numbers around 2^%d", k) }) {
				continue
			}
			for d := -70; d <= 70; d++ {
				if n := 1<<k + d; n <= 536870911 {
					num(n)
				}
			}
			for _, f := range s.Fields {
				if n := f.Num + 1<<k; n <= 536870911 {
					num(n)
				}
			}
		}
	}

	// Projection: written with more fields than the reader knows.
	if c.Family("projection") {
		shapes := model.Shapes()
		k := 6
		step := 3
		if c.Thorough() {
			k, step = 8, 1
		}
		for at := 0; at < len(shapes); at += step {
			if !c.Unit(func() string { return fmt.Sprintf("%d shapes from %v", k, shapes[at]) }) {
				continue
			}
			nums := []int{3, 1, 16, 2, 2050, 15, 5, 4}
			var fs []model.Field
			for i := 0; i < k; i++ {
				// spread over the list of shapes
				fs = append(fs, shapes[(at+i*41)%len(shapes)].Of(nums[i], Leaf))
			}
			s := model.New("", fs...)
			var ms []*model.Msg
			for v := 0; v < 3; v++ {
				m := model.NewMsg(s)
				for i := range s.Fields {
					vs := gen.FieldVals(&s.Fields[i], gen.Tiny)
					switch v {
					case 0:
						m.F[i] = vs[len(vs)-1]
					case 1:
						m.F[i] = vs[0]
					case 2:
						if i%2 == 0 {
							m.F[i] = vs[len(vs)/2]
						}
					}
				}
				ms = append(ms, m)
			}
			for sub := 0; sub < 1<<uint(k); sub++ {
				var of []model.Field
				var ix []int
				for i := 0; i < k; i++ {
					if sub>>uint(i)&1 == 1 {
						of = append(of, fs[i])
						ix = append(ix, i)
					}
				}
				old := model.NewCanary("", of...)
				for vi, m := range ms {
					var b []byte
					ok := true
					c.Guard("Marshal", func() {
						var err error
						b, err = proto.Marshal(model.ToGo(s, m).Interface())
						if err != nil {
							c.Fail("Marshal: %v", err)
							ok = false
						}
					})
					if !ok {
						continue
					}
					want := model.NewMsg(old)
					for j, i := range ix {
						want.F[j] = m.F[i].Clone()
					}
					decode(old, b, want, func() string { return fmt.Sprintf("value %d of %v read as %v", vi, s, old) })
				}
			}
		}
		// nested projections
		for _, cards := range []model.Card{model.Plain, model.Rep, model.Map} {
			for at := 0; at < len(shapes); at++ {
				if !c.Unit(func() string { return fmt.Sprintf("nested in %v: %v", cards, shapes[at]) }) {
					continue
				}
				in := []model.Field{model.F(1, model.Plain, model.Int32), shapes[at].Of(2, Leaf), shapes[(at*7+3)%len(shapes)].Of(3, Leaf), model.F(4, model.Opt, model.String)}
				full := model.New("I", in...)
				mk := func(sub *model.Schema) *model.Schema {
					if cards == model.Map {
						return model.New("O", model.FMap(1, model.Int32, model.Message, sub), model.F(2, model.Plain, model.Bool))
					}
					return model.New("O", model.FM(1, cards, sub), model.F(2, model.Plain, model.Bool))
				}
				build := func(o *model.Schema, x *model.Msg) *model.Msg {
					m := model.NewMsg(o)
					m.F[1] = model.FieldVal{Set: true, V: model.Val{U: 1}}
					switch cards {
					case model.Plain:
						m.F[0] = model.FieldVal{Set: true, V: model.Val{M: x}}
					case model.Rep:
						m.F[0].L = []model.Val{{M: x}, {M: x}}
					case model.Map:
						m.F[0].E = []model.Entry{{K: model.Val{U: 3}, V: model.Val{M: x}}}
					}
					return m
				}
				x := model.NewMsg(full)
				for i := range in {
					vs := gen.FieldVals(&full.Fields[i], gen.Tiny)
					x.F[i] = vs[len(vs)-1]
				}
				fo := mk(full)
				enc := model.Encode(fo, build(fo, x))
				for sub := 0; sub < 16; sub++ {
					var of []model.Field
					var ix []int
					for i := range in {
						if sub>>uint(i)&1 == 1 {
							of = append(of, in[i])
							ix = append(ix, i)
						}
					}
					os := model.New("I", of...)
					px := model.NewMsg(os)
					for j, i := range ix {
						px.F[j] = x.F[i].Clone()
					}
					oo := mk(os)
					decode(oo, enc, build(oo, px), func() string { return fmt.Sprintf("%v read as %v", fo, oo) })
				}
			}
		}
	}
}
