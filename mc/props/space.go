package props

import (
	"fmt"
	"strings"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// Leaf is the message type used inside other messages.
var Leaf = model.New("L", model.F(1, model.Plain, model.Int32), model.F(2, model.Opt, model.String), model.F(3, model.Rep, model.Sint64))

// visit is called for every message of a space; it returns the number of
// calls of the implementation it compared.
type visit func(s *model.Schema, m *model.Msg) int

// messageSpace enumerates the bounded space of messages of C01, C02, C03.
func messageSpace(c *h.Ctx, v visit) {
	do := func(s *model.Schema, m *model.Msg) {
		if !c.Case(func() string { return m.String() }) {
			return
		}
		c.SetRepro(func() string { return reproMarshal(s, m) })
		before := len(c.R.Violations)
		n := 0
		c.Guard("call", func() { n = v(s, m) })
		c.Trans(n)
		c.State(s.Label(), string(model.Encode(s, m)))
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	shapes := model.Shapes()

	// E1: every shape, every tag size, every boundary value.
	if c.Family("single-field") {
		for _, num := range gen.Nums {
			for _, sh := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				do(s, model.NewMsg(s))
				lv := gen.Full
				if !c.Thorough() && num != 1 && num != 16 && num != 536870911 && sh.Card == model.Map {
					lv = gen.Small
				}
				for _, fv := range gen.FieldVals(&s.Fields[0], lv) {
					m := model.NewMsg(s)
					m.F[0] = fv
					do(s, m)
				}
			}
		}
	}

	// E1a: numbers around every power of two with every core shape, and every
	// number up to a bound, each beside its neighbours.
	if c.Family("field numbers") {
		core := model.CoreShapes()
		for _, num := range gen.PowerNums {
			for _, sh := range core {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := numbered(sh, num)
				for _, fv := range gen.FieldVals(&s.Fields[1], gen.Tiny) {
					m := model.NewMsg(s)
					m.F[1] = fv
					do(s, m)
					m = m.Clone()
					m.F[0] = presentOf(&s.Fields[0], 1)
					do(s, m)
				}
			}
		}
		max := 1100
		if c.Thorough() {
			max = 20000
		}
		for lo := 1; lo < max; lo += 100 {
			if !c.Unit(func() string { return fmt.Sprintf("numbers from %d", lo) }) {
				continue
			}
			for num := lo; num < lo+100; num++ {
				s := numbered(model.Shape{Kind: model.Sint32}, num)
				m := model.NewMsg(s)
				m.F[1] = presentOf(&s.Fields[1], 1)
				do(s, m)
				m = m.Clone()
				m.F[0] = presentOf(&s.Fields[0], 1)
				do(s, m)
			}
		}
		for v := 0; v < 4; v++ {
			if !c.Unit(func() string { return fmt.Sprintf("all numbers around powers of two, %d", v) }) {
				continue
			}
			var fs []model.Field
			for i := range gen.PowerNums {
				num := gen.PowerNums[i]
				if v&1 != 0 {
					num = gen.PowerNums[len(gen.PowerNums)-1-i]
				}
				sh := core[(i*5+v)%len(core)]
				if v >= 2 {
					sh = model.Shape{Kind: model.Int64}
				}
				fs = append(fs, sh.Of(num, Leaf))
			}
			s := model.New("N", fs...)
			m := model.NewMsg(s)
			for i := range s.Fields {
				m.F[i] = presentOfCard(&s.Fields[i], i+1)
				one := model.NewMsg(s)
				one.F[i] = m.F[i]
				do(s, one)
			}
			do(s, m)
		}
	}

	// E1b: long strings around the remaining length boundaries.
	if c.Family("long") {
		ls := []int{1 << 17, 2097151, 2097152, 2097153}
		if c.Thorough() {
			ls = append(ls, 1<<23, 1<<28-1, 1<<28)
		}
		for _, sh := range []model.Shape{{Kind: model.String}, {Kind: model.Bytes}, {Kind: model.String, Card: model.Opt}, {Kind: model.String, Card: model.Ptr}, {Kind: model.String, Card: model.Rep}, {Kind: model.Bytes, Card: model.Rep}, {Kind: model.String, Card: model.Map, Key: model.Bool}, {Kind: model.Bytes, Card: model.Map, Key: model.String}} {
			for _, l := range ls {
				if !c.Unit(func() string { return fmt.Sprintf("%v length %d", sh, l) }) {
					continue
				}
				s := model.New("", sh.Of(5, Leaf))
				m := model.NewMsg(s)
				x := model.Val{S: gen.Str(l, 3)}
				switch sh.Card {
				case model.Rep:
					m.F[0].L = []model.Val{x, {S: "y"}}
				case model.Map:
					m.F[0].E = []model.Entry{{K: model.Val{}, V: x}}
				default:
					m.F[0] = model.FieldVal{Set: true, V: x}
				}
				do(s, m)
			}
		}
	}

	// E2: every ordered pair of shapes: codec selection and caching, offsets.
	if c.Family("field-pairs") {
		nums := [][2]int{{1, 2}, {2, 1}, {15, 16}, {2048, 3}}
		for i, a := range shapes {
			for j, b := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v", a, b) }) {
					continue
				}
				nn := nums[(i+j)%len(nums)]
				s := model.New("", a.Of(nn[0], Leaf), b.Of(nn[1], Leaf))
				va := withAbsent(gen.FieldVals(&s.Fields[0], gen.Tiny), c.Thorough())
				vb := withAbsent(gen.FieldVals(&s.Fields[1], gen.Tiny), c.Thorough())
				for _, x := range va {
					for _, y := range vb {
						m := model.NewMsg(s)
						m.F[0], m.F[1] = x, y
						do(s, m)
					}
				}
			}
		}
	}

	// E3: triples of the core shapes.
	if c.Family("field-triples") {
		core := model.CoreShapes()
		for _, a := range core {
			for _, b := range core {
				for _, d := range core {
					if !c.Unit(func() string { return fmt.Sprintf("%v, %v, %v", a, b, d) }) {
						continue
					}
					s := model.New("", a.Of(1, Leaf), b.Of(17, Leaf), d.Of(3, Leaf))
					var vs [3][]model.FieldVal
					for i := range vs {
						t := gen.FieldVals(&s.Fields[i], gen.Tiny)
						vs[i] = []model.FieldVal{{}, t[len(t)-1]}
						if c.Thorough() {
							vs[i] = append(vs[i], t[0])
						}
					}
					for _, x := range vs[0] {
						for _, y := range vs[1] {
							for _, z := range vs[2] {
								m := model.NewMsg(s)
								m.F[0], m.F[1], m.F[2] = x, y, z
								do(s, m)
							}
						}
					}
				}
			}
		}
	}

	// E4: nesting chains with payloads sweeping the length boundaries.
	if c.Family("nesting") {
		depth := 4
		if c.Thorough() {
			depth = 5
		}
		var lens []int
		for i := 0; i <= 4; i++ {
			lens = append(lens, i)
		}
		for i := 96; i <= 132; i++ {
			lens = append(lens, i)
		}
		for i := 16384 - 44; i <= 16386; i++ {
			lens = append(lens, i)
		}
		for d := 1; d <= depth; d++ {
			n := 1
			for i := 0; i < d; i++ {
				n *= 4
			}
			for code := 0; code < n; code++ {
				if !c.Unit(func() string { return fmt.Sprintf("depth %d chain %d", d, code) }) {
					continue
				}
				s := chainSchema(d, code)
				for _, l := range lens {
					if d >= 4 && l > 140 && l%4 != 0 {
						continue
					}
					do(s, chainMsg(s, d, l))
				}
			}
		}
	}

	// E5: trees of the recursive types.
	if c.Family("trees") {
		max := 5
		if c.Thorough() {
			max = 6
		}
		for _, s := range []*model.Schema{types.RecS, types.AS} {
			for n := 1; n <= max; n++ {
				for i, m := range trees(s, n) {
					if !c.Unit(func() string { return fmt.Sprintf("%v: tree %d of %d nodes", s, i, n) }) {
						continue
					}
					do(s, m)
				}
			}
		}
		for _, n := range []int{8, 16, 33, 64, 100, 128, 200, 500, 1000, 2000} {
			for k := 0; k < 3; k++ {
				if !c.Unit(func() string { return fmt.Sprintf("Rec: chain of %d through field %d", n, k+2) }) {
					continue
				}
				if n > 500 && k > 0 {
					continue // sizes are computed quadratically
				}
				do(types.RecS, deepRec(n, k))
			}
		}
	}

	// E6: hand-written types: every single field value, every pair of fields.
	if c.Family("written-types") {
		for _, s := range types.All() {
			n := len(s.Fields)
			for i := 0; i <= n; i++ {
				for j := i; j <= n; j++ {
					if !c.Unit(func() string { return fmt.Sprintf("%v fields %d, %d", s, i, j) }) {
						continue
					}
					if i == n {
						do(s, model.NewMsg(s))
						continue
					}
					lv := gen.Small
					if j == n {
						lv = gen.Full
					}
					for _, x := range fieldValsRec(&s.Fields[i], lv) {
						if j == n || j == i {
							m := model.NewMsg(s)
							m.F[i] = x
							do(s, m)
							continue
						}
						for _, y := range fieldValsRec(&s.Fields[j], gen.Tiny) {
							m := model.NewMsg(s)
							m.F[i], m.F[j] = x, y
							do(s, m)
						}
					}
				}
			}
		}
	}

	// E7: wide messages: every shape at once, and every number of fields.
	if c.Family("wide") {
		for _, rev := range []bool{false, true} {
			for _, canary := range []bool{false, true} {
				var fs []model.Field
				for i, sh := range shapes {
					num := i + 1
					if rev {
						num = len(shapes) - i
					}
					fs = append(fs, sh.Of(num, Leaf))
				}
				mk := model.New
				if canary {
					mk = model.NewCanary
				}
				var s *model.Schema
				for i := -1; i <= len(shapes); i++ {
					if !c.Unit(func() string { return fmt.Sprintf("all shapes, rev=%v, set %d", rev, i) }) {
						continue
					}
					if s == nil {
						s = mk("W", fs...)
					}
					m := model.NewMsg(s)
					for j := range s.Fields {
						// i: only that field; -1: all; len: all but multiples of 3
						if i == j || i == -1 || i == len(shapes) && j%3 != 0 {
							vs := gen.FieldVals(&s.Fields[j], gen.Tiny)
							m.F[j] = vs[len(vs)-1]
						}
					}
					do(s, m)
				}
			}
		}
		maxW := 140
		if c.Thorough() {
			maxW = 400
		}
		ws := []int{}
		for w := 0; w <= maxW; w++ {
			ws = append(ws, w)
		}
		for _, w := range append(ws, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000) {
			if w > 400 && w > maxW && !c.Thorough() && w != 513 {
				continue
			}
			for _, sh := range []model.Shape{{Kind: model.Int32}, {Kind: model.String, Card: model.Opt}, {Kind: model.Message}} {
				if !c.Unit(func() string { return fmt.Sprintf("%d fields %v", w, sh) }) {
					continue
				}
				var fs []model.Field
				for i := 0; i < w; i++ {
					fs = append(fs, sh.Of(i+1, Leaf))
				}
				s := model.New("W", fs...)
				m := model.NewMsg(s)
				for j := range s.Fields {
					m.F[j] = presentOf(&s.Fields[j], j+1)
				}
				do(s, m)
				if w > 0 {
					m := model.NewMsg(s)
					m.F[w-1] = presentOf(&s.Fields[w-1], w)
					do(s, m)
				}
			}
		}
	}

	// E7b: structs of many sizes: a field at every power of two.
	if c.Family("large structs") {
		max := 17
		if c.Thorough() {
			max = 21
		}
		for e := 5; e <= max; e++ {
			for _, d := range []int{-8, 0} {
				for _, sh := range shapes {
					if sh.Card == model.Map && (sh.Key != model.Int32 || sh.Kind != model.String && sh.Kind != model.Message) {
						continue
					}
					if !c.Unit(func() string { return fmt.Sprintf("%v after %d bytes", sh, 1<<uint(e)+d) }) {
						continue
					}
					s := model.NewPadded("P", 1<<uint(e)+d, sh.Of(1, Leaf), model.F(2, model.Plain, model.Int64))
					for _, i := range []int{1, 2, 3} {
						m := model.NewMsg(s)
						if i != 2 {
							vs := gen.FieldVals(&s.Fields[0], gen.Tiny)
							m.F[0] = vs[len(vs)-1]
						}
						if i != 1 {
							m.F[1] = presentOf(&s.Fields[1], 5)
						}
						do(s, m)
					}
				}
			}
		}
		// as nested messages, elements and map values
		for _, pad := range []int{1024, 32768, 65528, 65536, 131072} {
			for _, card := range []model.Card{model.Plain, model.Rep, model.Map} {
				if !c.Unit(func() string { return fmt.Sprintf("%v messages of %d bytes", card, 2*pad) }) {
					continue
				}
				big := model.NewPadded("Q", pad, model.F(1, model.Plain, model.String), model.F(2, model.Opt, model.Int32))
				f := model.FM(1, card, big)
				if card == model.Map {
					f = model.FMap(1, model.Int32, model.Message, big)
				}
				s := model.New("", f, model.F(2, model.Plain, model.Int32))
				for _, fv := range gen.FieldVals(&s.Fields[0], gen.Tiny) {
					m := model.NewMsg(s)
					m.F[0], m.F[1] = fv, presentOf(&s.Fields[1], 3)
					do(s, m)
				}
			}
		}
	}

	// E8: every number of elements around the powers of two, of distinct
	// values and of zero values.
	if c.Family("counts") {
		for _, sh := range shapes {
			if sh.Card != model.Rep && sh.Card != model.Map {
				continue
			}
			core := sh.Card == model.Rep || sh.Key == model.Int32 || sh.Key == model.String && sh.Kind != model.Message
			for part := 0; part < 3; part++ {
				if part == 2 && !(sh.Card == model.Rep || core && (sh.Kind == model.Int32 || sh.Kind == model.String || sh.Kind == model.Message)) {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v, part %d", sh, part) }) {
					continue
				}
				s := model.New("", sh.Of(6, Leaf))
				f := &s.Fields[0]
				for _, n := range counts(c, core, part) {
					m := model.NewMsg(s)
					if sh.Card == model.Map {
						if sh.Key == model.Bool && n > 2 {
							break
						}
						m.F[0] = gen.MapOf(f, n)
					} else {
						m.F[0] = gen.ListOf(f, n)
						do(s, m)
						z := model.NewMsg(s)
						z.F[0].L = make([]model.Val, n)
						if f.Kind == model.Message {
							for i := range z.F[0].L {
								z.F[0].L[i].M = model.NewMsg(f.Msg)
							}
						}
						m = z
					}
					do(s, m)
				}
			}
		}
	}

	// E9: every length of strings and byte slices up to 300 and around the
	// powers of two, in every position a string can have.
	if c.Family("lengths") {
		for _, sh := range shapes {
			val := sh.Kind == model.String || sh.Kind == model.Bytes
			key := sh.Card == model.Map && sh.Key == model.String
			if !val && !key {
				continue
			}
			s := model.New("", model.F(3, model.Plain, model.Bool), sh.Of(1, Leaf))
			for part := 0; part < 2; part++ {
				if !c.Unit(func() string { return fmt.Sprintf("%v, part %d", sh, part) }) {
					continue
				}
				for _, l := range lengths(c, part) {
					x := model.Val{S: gen.Str(l, byte(l))}
					m := model.NewMsg(s)
					fv := &m.F[1]
					switch sh.Card {
					case model.Rep:
						fv.L = []model.Val{{S: "q"}, x, x}
					case model.Map:
						e := model.Entry{K: gen.Nth(sh.Key, 1), V: gen.NthElem(&s.Fields[1], 1)}
						if key {
							e.K = x
						}
						if val {
							e.V = x
						}
						fv.E = []model.Entry{e}
					default:
						*fv = model.FieldVal{Set: l > 0 || sh.Card != model.Plain || sh.Kind == model.Bytes, V: x}
					}
					do(s, m)
				}
			}
		}
	}

	// E9b: lengths where the length prefix has four and five bytes.
	if c.Family("huge") {
		holder := model.New("H", model.F(1, model.Plain, model.Bytes), model.F(3, model.Plain, model.Bool))
		for hi, hold := range hugeFields(holder) {
			for part, base := range []int{1 << 21, 1 << 28} {
				if part == 1 && hi%3 != 0 && !c.Thorough() {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v, %d bytes", hold.Card, base) }) {
					continue
				}
				end := c.Exclusive()
				s := model.New("", model.F(3, model.Plain, model.Bool), hold, model.F(5, model.Plain, model.Int32))
				// the message that holds the bytes is five or six bytes longer
				ls := []int{base - 1, base}
				if hold.Kind == model.Message {
					ls = []int{base - 5 - part, base - 4 - part}
				}
				if part == 0 {
					ls = append(ls, base-20, base-6, base-3, base-2, base+1)
				}
				for _, l := range ls {
					x := model.Val{S: strings.Repeat("0123456789abcde", l/15+1)[:l]}
					if hold.Kind == model.Message {
						im := model.NewMsg(hold.Msg)
						im.F[0] = model.FieldVal{Set: true, V: x}
						x = model.Val{M: im}
					}
					m := model.NewMsg(s)
					m.F[2] = model.FieldVal{Set: true, V: model.Val{U: 77}}
					switch hold.Card {
					case model.Rep:
						m.F[1].L = []model.Val{x}
					case model.Map:
						m.F[1].E = []model.Entry{{K: gen.Nth(hold.Key, 1), V: x}}
					default:
						m.F[1] = model.FieldVal{Set: true, V: x}
					}
					do(s, m)
				}
				end()
			}
		}
	}

	// E10: every number of up to 13 bits, and its neighbours at the top.
	if c.Family("numbers") {
		bits := uint(13)
		if c.Thorough() {
			bits = 17
		}
		for _, sh := range shapes {
			if sh.Card == model.Map && (sh.Kind != sh.Key) || sh.Kind == model.String || sh.Kind == model.Bytes || sh.Kind == model.Message || sh.Kind == model.Bool {
				continue
			}
			for part := 0; part < 2; part++ {
				if !c.Unit(func() string { return fmt.Sprintf("%v, part %d", sh, part) }) {
					continue
				}
				s := model.New("", sh.Of(2, Leaf))
				for i := uint64(0); i < 1<<bits; i++ {
					u := i
					if part == 1 {
						u = ^i
					}
					if sh.Kind.Is32() || sh.Kind == model.Float {
						u = uint64(uint32(u))
					}
					if sh.Card != model.Rep && sh.Card != model.Map {
						m := model.NewMsg(s)
						m.F[0] = model.FieldVal{Set: sh.Card != model.Plain || u != 0, V: model.Val{U: u}}
						do(s, m)
						continue
					}
					if i%16 != 0 {
						continue
					}
					m := model.NewMsg(s)
					for j := uint64(0); j < 16; j++ {
						x := model.Val{U: u + j}
						if part == 1 {
							x.U = u - j
						}
						if sh.Kind.Is32() || sh.Kind == model.Float {
							x.U = uint64(uint32(x.U))
						}
						if sh.Card == model.Rep {
							m.F[0].L = append(m.F[0].L, x)
						} else {
							m.F[0].E = append(m.F[0].E, model.Entry{K: x, V: x})
						}
					}
					model.SortEntries(m.F[0].E)
					do(s, m)
				}
			}
		}
	}
}

// hugeFields are fields, numbered 4, that can hold much.
func hugeFields(holder *model.Schema) []model.Field {
	return []model.Field{
		model.F(4, model.Plain, model.Bytes),
		model.F(4, model.Opt, model.String),
		model.F(4, model.Rep, model.String),
		model.FM(4, model.Plain, holder),
		model.F(4, model.Plain, model.String),
		model.F(4, model.Rep, model.Bytes),
		model.FMap(4, model.Int32, model.Bytes, nil),
		model.FM(4, model.Rep, holder),
		model.FMap(4, model.Int32, model.Message, holder),
	}
}

// counts are numbers of elements; part 1 holds the large ones.
func counts(c *h.Ctx, core bool, part int) []int {
	var r []int
	if part == 0 {
		for i := 1; i <= 66; i++ {
			r = append(r, i)
		}
		return append(r, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300)
	}
	if part == 2 {
		r = []int{32767, 32768, 32769, 65535, 65536, 65537, 131073}
		if c.Thorough() {
			r = append(r, 262145, 524289, 1<<20-1, 1<<20+1, 1<<21+1)
		}
		return r
	}
	r = []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}
	if core {
		r = append(r, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 10000)
	}
	if core && c.Thorough() {
		r = append(r, 16383, 16384, 16385, 20000, 50000, 100000)
	}
	return r
}

// lengths are lengths of strings; part 1 holds the large ones.
func lengths(c *h.Ctx, part int) []int {
	var r []int
	if part == 0 {
		for i := 0; i <= 300; i++ {
			r = append(r, i)
		}
		return r
	}
	for i := 9; i <= 16; i++ {
		for d := -2; d <= 2; d++ {
			r = append(r, 1<<uint(i)+d)
		}
	}
	r = append(r, 1000, 10000, 100000)
	if c.Thorough() {
		for i := 17; i <= 20; i++ {
			for d := -2; d <= 2; d++ {
				r = append(r, 1<<uint(i)+d)
			}
		}
	}
	return r
}

// presentOf is a non-zero singular value depending on i.
func presentOf(f *model.Field, i int) model.FieldVal {
	v := gen.NthElem(f, i)
	set := true
	if f.Card == model.Plain && f.Kind != model.Bytes && v.M == nil && v.U == 0 && v.S == "" {
		set = false
	}
	return model.FieldVal{Set: set, V: v}
}

// presentOfCard is presentOf for every cardinality.
func presentOfCard(f *model.Field, i int) model.FieldVal {
	if f.Card == model.Rep || f.Card == model.Map {
		vs := gen.FieldVals(f, gen.Tiny)
		return vs[len(vs)-1]
	}
	return presentOf(f, i)
}

// numbered has a field of a shape with a number, second, beside one with a
// neighbouring number.
func numbered(sh model.Shape, num int) *model.Schema {
	next := num + 1
	if num%3 == 0 || next > 536870911 {
		next = num - 1
	}
	return model.NewCanary("", model.F(next, model.Plain, model.Int32), sh.Of(num, Leaf))
}

// deepRec is a chain of n Rec messages through field k (0: Self, 1: L, 2: M).
func deepRec(n, k int) *model.Msg {
	m := model.NewMsg(types.RecS)
	m.F[0] = model.FieldVal{Set: true, V: model.Val{U: 7}}
	for i := 0; i < n; i++ {
		p := model.NewMsg(types.RecS)
		switch k {
		case 0:
			p.F[1] = model.FieldVal{Set: true, V: model.Val{M: m}}
		case 1:
			p.F[2].L = []model.Val{{M: m}}
		case 2:
			p.F[3].E = []model.Entry{{K: model.Val{S: "k"}, V: model.Val{M: m}}}
		}
		m = p
	}
	return m
}

func withAbsent(v []model.FieldVal, all bool) []model.FieldVal {
	if !all && len(v) > 3 {
		v = []model.FieldVal{v[0], v[len(v)-1]}
	}
	return append([]model.FieldVal{{}}, v...)
}

// fieldValsRec is gen.FieldVals, but does not descend into recursive types.
func fieldValsRec(f *model.Field, lv gen.Level) []model.FieldVal {
	if f.Kind != model.Message {
		return gen.FieldVals(f, lv)
	}
	subs := []*model.Msg{model.NewMsg(f.Msg)}
	all := model.NewMsg(f.Msg)
	for j := range f.Msg.Fields {
		ff := &f.Msg.Fields[j]
		if ff.Kind == model.Message {
			continue
		}
		vs := gen.FieldVals(ff, gen.Tiny)
		m := model.NewMsg(f.Msg)
		m.F[j] = vs[0]
		all.F[j] = vs[len(vs)-1]
		subs = append(subs, m)
	}
	subs = append(subs, all)
	var r []model.FieldVal
	for i, x := range subs {
		switch f.Card {
		case model.Rep:
			r = append(r, model.FieldVal{L: []model.Val{{M: x}}}, model.FieldVal{L: []model.Val{{M: x}, {M: subs[0]}, {M: all}}})
		case model.Map:
			ks := gen.KeyVals(f.Key, gen.Tiny)
			e := []model.Entry{{K: ks[i%len(ks)], V: model.Val{M: x}}}
			r = append(r, model.FieldVal{E: e})
			e2 := []model.Entry{{K: ks[0], V: model.Val{M: x}}, {K: ks[1], V: model.Val{M: all}}}
			model.SortEntries(e2)
			r = append(r, model.FieldVal{E: e2})
		default:
			r = append(r, model.FieldVal{Set: true, V: model.Val{M: x}})
		}
	}
	return r
}

// chainSchema nests d messages; base-4 digits of code select how: plain,
// repeated, map by string, map by int32. Every level has a scalar before and
// after the nested message.
func chainSchema(d, code int) *model.Schema {
	s := model.New("N", model.F(1, model.Plain, model.String), model.F(2, model.Plain, model.Int32))
	for i := 0; i < d; i++ {
		digit := code >> (2 * uint(i)) & 3
		var f model.Field
		switch digit {
		case 0:
			f = model.FM(3, model.Plain, s)
		case 1:
			f = model.FM(3, model.Rep, s)
		case 2:
			f = model.FMap(16, model.String, model.Message, s)
		case 3:
			f = model.FMap(3, model.Int32, model.Message, s)
		}
		s = model.New("N", model.F(1, model.Plain, model.Bool), f, model.F(17, model.Plain, model.Sint32))
	}
	return s
}

func chainMsg(s *model.Schema, d, l int) *model.Msg {
	m := model.NewMsg(s)
	if d == 0 {
		m.F[0] = model.FieldVal{Set: l > 0, V: model.Val{S: gen.Str(l, 0)}}
		m.F[1] = model.FieldVal{Set: true, V: model.Val{U: 300}}
		return m
	}
	m.F[0] = model.FieldVal{Set: true, V: model.Val{U: 1}}
	m.F[2] = model.FieldVal{Set: true, V: model.Val{U: uint64(d)}}
	sub := s.Fields[1].Msg
	x := chainMsg(sub, d-1, l)
	switch s.Fields[1].Card {
	case model.Plain:
		m.F[1] = model.FieldVal{Set: true, V: model.Val{M: x}}
	case model.Rep:
		m.F[1].L = []model.Val{{M: x}, {M: model.NewMsg(sub)}, {M: x}}
		if d > 2 {
			m.F[1].L = m.F[1].L[:2]
		}
	case model.Map:
		k := model.Val{U: 5}
		if s.Fields[1].Key == model.String {
			k = model.Val{S: "key"}
		}
		m.F[1].E = []model.Entry{{K: k, V: model.Val{M: x}}}
	}
	return m
}

var treeMemo = map[string][]*model.Msg{}

// trees lists all messages of s with exactly n message nodes; scalars are
// filled with values depending on the position.
func trees(s *model.Schema, n int) []*model.Msg {
	key := fmt.Sprintf("%p/%d", s, n)
	if r, ok := treeMemo[key]; ok {
		return r
	}
	var mf []int
	for i := range s.Fields {
		if s.Fields[i].Kind == model.Message {
			mf = append(mf, i)
		}
	}
	var out []*model.Msg
	// distribute n-1 nodes over the message fields, left to right
	var rec func(k, left int, cur *model.Msg)
	rec = func(k, left int, cur *model.Msg) {
		if k == len(mf) {
			if left == 0 {
				m := cur.Clone()
				for i := range s.Fields {
					f := &s.Fields[i]
					if f.Kind != model.Message && f.Card != model.Map && f.Card != model.Rep && (n+i)%2 == 0 {
						m.F[i] = presentOf(f, n+i+len(out)%5+1)
					}
				}
				out = append(out, m)
			}
			return
		}
		f := &s.Fields[mf[k]]
		rec(k+1, left, cur)
		switch f.Card {
		case model.Plain:
			for x := 1; x <= left; x++ {
				for _, t := range trees(f.Msg, x) {
					cur.F[mf[k]] = model.FieldVal{Set: true, V: model.Val{M: t}}
					rec(k+1, left-x, cur)
				}
			}
		default:
			var forest func(left2, used int, items []*model.Msg)
			forest = func(left2, used int, items []*model.Msg) {
				if len(items) > 0 {
					var fv model.FieldVal
					for i, t := range items {
						if f.Card == model.Rep {
							fv.L = append(fv.L, model.Val{M: t})
						} else {
							fv.E = append(fv.E, model.Entry{K: gen.Nth(f.Key, i), V: model.Val{M: t}})
						}
					}
					model.SortEntries(fv.E)
					cur.F[mf[k]] = fv
					rec(k+1, left-used, cur)
				}
				for x := 1; x <= left2; x++ {
					for _, t := range trees(f.Msg, x) {
						forest(left2-x, used+x, append(items[:len(items):len(items)], t))
					}
				}
			}
			forest(left, 0, nil)
		}
		cur.F[mf[k]] = model.FieldVal{}
	}
	rec(0, n-1, model.NewMsg(s))
	treeMemo[key] = out
	return out
}
