package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// C12: presence.
func c12(c *h.Ctx) {
	// One message: which fields are written, which are set afterwards.
	check := func(s *model.Schema, m *model.Msg) {
		if !c.Case(func() string { return m.String() }) {
			return
		}
		c.SetRepro(func() string { return reproMarshal(s, m) })
		before := len(c.R.Violations)
		c.Guard("call", func() {
			p := model.ToGo(s, m)
			b, err := proto.Marshal(p.Interface())
			if err != nil {
				c.Fail("Marshal: %v", err)
				return
			}
			q := model.Fresh(s)
			if err := proto.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("Unmarshal: %v; bytes %s", err, hx(b))
				return
			}
			c.Trans(2)
			// written exactly when set
			n := make([]int, len(s.Fields))
			bad := false
			func() {
				defer func() {
					if recover() != nil {
						bad = true
					}
				}()
				for _, r := range model.Records(s, b) {
					if r.Field < 0 {
						bad = true
						return
					}
					n[r.Field]++
				}
			}()
			if bad {
				c.Fail("the encoding of %v is not one: %s", m, hx(b))
				return
			}
			got, err := model.FromGo(s, q)
			if err != nil {
				c.Fail("%v", err)
				return
			}
			for i := range s.Fields {
				f := &s.Fields[i]
				if f.Card == model.Rep || f.Card == model.Map {
					continue
				}
				w := 0
				if m.F[i].Set {
					w = 1
				}
				if n[i] != w {
					c.Fail("%v (set: %v) is written %d times; bytes %s", f, m.F[i].Set, n[i], hx(b))
				}
				if got.F[i].Set != m.F[i].Set {
					c.Fail("%v: set is %v after a round trip, was %v; bytes %s", f, got.F[i].Set, m.F[i].Set, hx(b))
				}
			}
			if d := model.Diff(m, got); d != "" {
				c.Fail("round trip: %s; bytes %s", d, hx(b))
			}
			if want := model.Encode(s, m); !bytes.Equal(b, want) && !model.HasMap(s) {
				c.Fail("encoding is %s, want %s", hx(b), hx(want))
			}
			c.Outcome(fmt.Sprintf("%d bytes", min(len(b), 20)))
		})
		c.State(s.Label(), string(model.Encode(s, m)))
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	// states of a field: unset, set to zero, set to something.
	states := func(f *model.Field) []model.FieldVal {
		r := []model.FieldVal{{}}
		if f.Card == model.Rep || f.Card == model.Map {
			return append(r, fieldValsRec(f, gen.Tiny)[0])
		}
		if f.Kind == model.Message {
			full := model.NewMsg(f.Msg)
			for i := range full.F {
				if f.Msg.Fields[i].Kind != model.Message {
					vs := gen.FieldVals(&f.Msg.Fields[i], gen.Tiny)
					full.F[i] = vs[len(vs)-1]
				}
			}
			return append(r, model.FieldVal{Set: true, V: model.Val{M: model.NewMsg(f.Msg)}}, model.FieldVal{Set: true, V: model.Val{M: full}})
		}
		if f.Card != model.Plain || f.Kind == model.Bytes {
			r = append(r, model.FieldVal{Set: true})
		}
		v := presentOf(f, 1)
		if !v.Set {
			v = presentOf(f, 2)
		}
		r = append(r, v)
		switch f.Kind {
		case model.Float:
			r = append(r, model.FieldVal{Set: true, V: model.Val{U: 1 << 31}})
		case model.Double:
			r = append(r, model.FieldVal{Set: true, V: model.Val{U: 1 << 63}})
		}
		return r
	}
	var shapes []model.Shape
	for _, sh := range model.Shapes() {
		if sh.Card != model.Rep && sh.Card != model.Map {
			shapes = append(shapes, sh)
		}
	}
	combos := func(s *model.Schema) {
		vs := make([][]model.FieldVal, len(s.Fields))
		for i := range vs {
			vs[i] = states(&s.Fields[i])
		}
		ix := make([]int, len(vs))
		for {
			m := model.NewMsg(s)
			for i, k := range ix {
				m.F[i] = vs[i][k]
			}
			check(s, m)
			i := 0
			for ; i < len(ix); i++ {
				if ix[i]++; ix[i] < len(vs[i]) {
					break
				}
				ix[i] = 0
			}
			if i == len(ix) {
				return
			}
		}
	}

	if c.Family("one field, all values") {
		for _, num := range gen.Nums {
			for _, sh := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				check(s, model.NewMsg(s))
				for _, fv := range gen.FieldVals(&s.Fields[0], gen.Full) {
					m := model.NewMsg(s)
					m.F[0] = fv
					check(s, m)
				}
			}
		}
	}
	if c.Family("pairs and triples") {
		for _, a := range shapes {
			for _, b := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v, *", a, b) }) {
					continue
				}
				combos(model.NewCanary("", a.Of(1, Leaf), b.Of(16, Leaf)))
				for k, d := range shapes {
					if !c.Thorough() && k%3 != 0 {
						continue
					}
					combos(model.New("", a.Of(1, Leaf), b.Of(2, Leaf), d.Of(3, Leaf)))
				}
			}
		}
	}
	if c.Family("many fields") {
		// windows of n neighbours in the list of shapes, all combinations
		n := 7
		if c.Thorough() {
			n = 10
		}
		for st := 1; st <= 11; st += 2 {
			for at := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%d fields from %v step %d", n, shapes[at], st) }) {
					continue
				}
				var fs []model.Field
				for i := 0; i < n; i++ {
					fs = append(fs, shapes[(at+i*st)%len(shapes)].Of(i*3+1, Leaf))
				}
				combos(model.New("", fs...))
			}
		}
	}
	if c.Family("inside") {
		// the same inside nested messages, elements and map values
		for _, card := range []model.Card{model.Plain, model.Rep, model.Map} {
			for _, a := range shapes {
				for _, b := range shapes {
					if !c.Unit(func() string { return fmt.Sprintf("%v of {%v, %v}", card, a, b) }) {
						continue
					}
					sub := model.New("I", a.Of(1, Leaf), b.Of(2, Leaf))
					s := model.New("O", model.Field{Num: 1, Card: card, Kind: model.Message, Msg: sub, Key: model.String})
					va, vb := states(&sub.Fields[0]), states(&sub.Fields[1])
					for _, x := range va {
						for _, y := range vb {
							in := model.NewMsg(sub)
							in.F[0], in.F[1] = x, y
							in2 := model.NewMsg(sub)
							in2.F[1] = y
							m := model.NewMsg(s)
							switch card {
							case model.Plain:
								m.F[0] = model.FieldVal{Set: true, V: model.Val{M: in}}
							case model.Rep:
								m.F[0].L = []model.Val{{M: in}, {M: in2}, {M: in}}
							case model.Map:
								m.F[0].E = []model.Entry{{K: model.Val{}, V: model.Val{M: in}}, {K: model.Val{S: "k"}, V: model.Val{M: in2}}}
							}
							check(s, m)
						}
					}
				}
			}
		}
	}
	if c.Family("written types") {
		for _, s := range []*model.Schema{types.EnumsS, types.InnerS, types.CS, types.MixedS, types.UnorderedS, types.AS, types.BS} {
			if c.Unit(func() string { return s.Label() }) {
				combos(s)
			}
		}
	}
	if c.Family("option accessors") {
		optAPI(c, "varint", proto.Bool, false, true)
		optAPI(c, "varint", proto.Int32, 0, 1, -1, 127, 128, math.MaxInt32, math.MinInt32)
		optAPI(c, "zigzag32", proto.Int32, 0, 1, -1, 63, 64, math.MaxInt32, math.MinInt32)
		optAPI(c, "fixed32", proto.Int32, 0, 1, -1, math.MaxInt32, math.MinInt32)
		optAPI(c, "varint", proto.Int64, 0, 1, -1, 127, 128, math.MaxInt64, math.MinInt64)
		optAPI(c, "zigzag64", proto.Int64, 0, 1, -1, 63, 64, math.MaxInt64, math.MinInt64)
		optAPI(c, "fixed64", proto.Int64, 0, 1, -1, math.MaxInt64, math.MinInt64)
		optAPI(c, "varint", proto.Uint32, 0, 1, 127, 128, math.MaxUint32)
		optAPI(c, "fixed32", proto.Uint32, 0, 1, 127, 128, math.MaxUint32)
		optAPI(c, "varint", proto.Uint64, 0, 1, 127, 128, math.MaxUint32, math.MaxUint64)
		optAPI(c, "fixed64", proto.Uint64, 0, 1, 127, 128, math.MaxUint32, math.MaxUint64)
		optAPI(c, "fixed32", proto.Float32, 0, 1, float32(math.Copysign(0, -1)), math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(-1)), math.Float32frombits(0x7fc00001))
		optAPI(c, "fixed64", proto.Float64, 0, 1, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Float64frombits(0x7ff0000000000001))
		optAPI(c, "bytes", proto.String, "", "a", "\x00", gen.Str(127, 0), gen.Str(128, 1), "\xff\xfe")
		optAPI(c, "varint", proto.Some[types.E], 0, 1, -1)
	}
	// Explicit zeros on the wire are presence, too.
	if c.Family("decoded zeros") {
		for _, a := range shapes {
			for _, b := range shapes {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v", a, b) }) {
					continue
				}
				s := model.NewCanary("", a.Of(1, Leaf), b.Of(2, Leaf))
				var al [][]byte
				for i := range s.Fields {
					f := &s.Fields[i]
					zero := model.Val{}
					if f.Kind == model.Message {
						zero.M = model.NewMsg(f.Msg)
					}
					t := model.AppendTag(nil, f.Num, f.Kind.Wire())
					al = append(al, model.AppendValue(clip(t), f.Kind, f.Msg, zero))
					al = append(al, model.AppendValue(clip(t), f.Kind, f.Msg, presentOf(f, 2).V))
				}
				sequences(len(al), 4, func(ix []int) {
					var in []byte
					for _, k := range ix {
						in = append(in, al[k]...)
					}
					if !c.Case(func() string { return hx(in) }) {
						return
					}
					c.SetRepro(func() string { return reproUnmarshal(s, in) })
					before := len(c.R.Violations)
					c.Guard("Unmarshal", func() {
						q := model.Fresh(s)
						err := proto.Unmarshal(in, q.Interface())
						c.Trans(1)
						want := model.NewMsg(s)
						model.Decode(s, in, want)
						got, ferr := model.FromGo(s, q)
						if err != nil || ferr != nil {
							c.Fail("%v %v; input %s", err, ferr, hx(in))
							return
						}
						if d := model.Diff(want, got); d != "" {
							c.Fail("%s; input %s", d, hx(in))
						}
					})
					c.State(s.Label(), "in", string(in))
					if len(c.R.Violations) == before {
						c.Trace(1)
					}
				})
			}
		}
	}
}

func bitsOf(v interface{}) string {
	switch v := v.(type) {
	case float32:
		return fmt.Sprintf("%#x", math.Float32bits(v))
	case float64:
		return fmt.Sprintf("%#x", math.Float64bits(v))
	}
	return fmt.Sprintf("%#v", v)
}

// optAPI checks what an option says about itself, made by every constructor,
// assigned, copied and after a round trip and after every decode over it.
func optAPI[T any](c *h.Ctx, enc string, mk func(T) proto.Option[T], vals ...T) {
	ot := reflect.TypeOf(proto.Option[T]{})
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(false), Tag: `protobuf:"varint,1,opt"`},
		{Name: "O", Type: ot, Tag: reflect.StructTag(`protobuf:"` + enc + `,2,opt"`)},
		{Name: "P", Type: ot, Tag: reflect.StructTag(`protobuf:"` + enc + `,3,opt"`)},
	})
	says := func(o proto.Option[T], d T) string {
		return fmt.Sprintf("some %v none %v value %s or %s", o.IsSome(), o.IsNone(), bitsOf(o.Unwrap()), bitsOf(o.UnwrapOr(d)))
	}
	expect := func(set bool, v, d T) string {
		var zero T
		if !set {
			return fmt.Sprintf("some false none true value %s or %s", bitsOf(zero), bitsOf(d))
		}
		return fmt.Sprintf("some true none false value %s or %s", bitsOf(v), bitsOf(v))
	}
	type state struct {
		name string
		o    proto.Option[T]
		set  bool
		v    T
	}
	states := []state{{name: "zero value"}, {name: "None", o: proto.None[T]()}}
	for _, v := range vals {
		states = append(states, state{"Some " + bitsOf(v), proto.Some(v), true, v}, state{"constructor " + bitsOf(v), mk(v), true, v})
	}
	if !c.Unit(func() string { return fmt.Sprintf("%v %s", ot, enc) }) {
		return
	}
	for _, a := range states {
		for _, b := range states {
			for _, d := range vals {
				if !c.Case(func() string { return fmt.Sprintf("%s, %s, default %s", a.name, b.name, bitsOf(d)) }) {
					continue
				}
				before := len(c.R.Violations)
				c.Guard("option", func() {
					is := func(what string, o proto.Option[T], x *state) {
						if g, w := says(o, d), expect(x.set, x.v, d); g != w {
							c.Fail("%s: %s, want %s", what, g, w)
						}
					}
					o := a.o
					is("made", o, &a)
					o = b.o
					is("assigned", o, &b)
					is("left", a.o, &a)
					m := reflect.New(st)
					m.Elem().Field(1).Set(reflect.ValueOf(a.o))
					m.Elem().Field(2).Set(reflect.ValueOf(b.o))
					buf, err := proto.Marshal(m.Interface())
					if err != nil || len(buf) != proto.Size(m.Interface()) {
						c.Fail("Marshal: %v, %d bytes, size %d", err, len(buf), proto.Size(m.Interface()))
						return
					}
					if (len(buf) == 0) != (!a.set && !b.set) {
						c.Fail("set %v %v is written as %s", a.set, b.set, hx(buf))
					}
					get := func(m reflect.Value, i int) proto.Option[T] { return m.Elem().Field(i).Interface().(proto.Option[T]) }
					is("after Marshal", get(m, 1), &a)
					is("after Marshal", get(m, 2), &b)
					q := reflect.New(st)
					if err := proto.Unmarshal(buf, q.Interface()); err != nil {
						c.Fail("Unmarshal: %v", err)
						return
					}
					is("round trip", get(q, 1), &a)
					is("round trip", get(q, 2), &b)
					// over a message with the two exchanged: what is set wins
					q.Elem().Field(1).Set(reflect.ValueOf(b.o))
					q.Elem().Field(2).Set(reflect.ValueOf(a.o))
					if err := proto.Unmarshal(buf, q.Interface()); err != nil {
						c.Fail("Unmarshal: %v", err)
						return
					}
					wa, wb := &a, &b
					if !a.set {
						wa = &b
					}
					if !b.set {
						wb = &a
					}
					is("decoded over another", get(q, 1), wa)
					is("decoded over another", get(q, 2), wb)
					c.Trans(4)
				})
				c.State(ot.String()+enc, a.name, b.name, bitsOf(d))
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
			}
		}
	}
}
