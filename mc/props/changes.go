package props

import (
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
)

// The histories of changeSpace are words over these letters, applied to one
// message object: what a call returns depends on what the message holds now,
// not on what it held when it was last measured or encoded.
const (
	opSize = iota
	opMarshal
	opChange
	opOther // Marshal of another message of the type
)

var opNames = []string{"Size", "Marshal", "change", "Marshal of another"}

// changeVisit checks one call on p, which holds m; l are the lengths found on
// a message made to hold m. It returns the number of calls it made.
type changeVisit struct {
	size    func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int
	marshal func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int
}

// lens are the results of Size and Marshal on new messages, found before the
// histories, which no other calls disturb.
type lens struct{ size, marshal int }

// wraps are the places a field is put in.
var wraps = []struct {
	name string
	of   func(in *model.Schema) *model.Schema
	msg  func(o *model.Schema, m *model.Msg) *model.Msg
}{
	{"top", nil, nil},
	{"plain", func(in *model.Schema) *model.Schema {
		return model.New("O", model.F(1, model.Plain, model.Bool), model.FM(2, model.Plain, in))
	}, func(o *model.Schema, m *model.Msg) *model.Msg {
		r := model.NewMsg(o)
		r.F[1] = model.FieldVal{Set: true, V: model.Val{M: m}}
		return r
	}},
	{"repeated", func(in *model.Schema) *model.Schema {
		return model.New("O", model.FM(2, model.Rep, in), model.F(3, model.Plain, model.Int32))
	}, func(o *model.Schema, m *model.Msg) *model.Msg {
		r := model.NewMsg(o)
		r.F[0].L = []model.Val{{M: model.NewMsg(o.Fields[0].Msg)}, {M: m}}
		r.F[1] = model.FieldVal{Set: true, V: model.Val{U: 300}}
		return r
	}},
	{"map", func(in *model.Schema) *model.Schema {
		return model.New("O", model.FMap(2, model.String, model.Message, in))
	}, func(o *model.Schema, m *model.Msg) *model.Msg {
		r := model.NewMsg(o)
		r.F[0].E = []model.Entry{{K: model.Val{S: "k"}, V: model.Val{M: m}}}
		return r
	}},
}

// changeSpace enumerates histories of calls on one message that changes
// between the calls.
func changeSpace(c *h.Ctx, v changeVisit) {
	if !c.Family("changed messages") {
		return
	}
	depth := 4
	if c.Thorough() {
		depth = 6
	}
	ops := []int{opChange, opOther}
	if v.size != nil {
		ops = append(ops, opSize)
	}
	if v.marshal != nil {
		ops = append(ops, opMarshal)
	}
	words := opWords(ops, depth)
	for _, sh := range model.Shapes() {
		core := sh.Card != model.Map || sh.Key == sh.Kind || sh.Key == model.String
		for outer := 0; outer < len(wraps); outer++ {
			for w := range wraps {
				// outer: 0 none, else the place the place of the field is in
				if w == 0 && outer > 0 || outer > 1 && !core && !c.Thorough() {
					continue
				}
				name := wraps[w].name
				if outer > 0 {
					name += " in " + wraps[outer].name
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v, %s", sh, name) }) {
					continue
				}
				in := model.New("I", model.F(1, model.Plain, model.Int32), sh.Of(2, Leaf))
				s := in
				if w > 0 {
					s = wraps[w].of(in)
				}
				mid := s
				if outer > 0 {
					s = wraps[outer].of(mid)
				}
				place := func(x *model.Msg) *model.Msg {
					if w > 0 {
						x = wraps[w].msg(mid, x)
					}
					if outer > 0 {
						x = wraps[outer].msg(s, x)
					}
					return x
				}
				vals := withAbsent(gen.FieldVals(&in.Fields[1], gen.Tiny), c.Thorough())
				var ms []*model.Msg
				for i, fv := range vals {
					x := model.NewMsg(in)
					if i%2 == 0 {
						x.F[0] = model.FieldVal{Set: true, V: model.Val{U: 5}}
					}
					x.F[1] = fv
					ms = append(ms, place(x))
				}
				var ls []lens
				c.Guard("call", func() {
					for _, m := range ms {
						n := proto.Size(model.ToGo(s, m).Interface())
						b, err := proto.Marshal(model.ToGo(s, m).Interface())
						if err != nil {
							c.Fail("Marshal: %v", err)
						}
						ls = append(ls, lens{n, len(b)})
					}
				})
				if len(ls) < len(ms) {
					continue
				}
				other := model.ToGo(s, ms[len(ms)-1])
				for i, a := range ms {
					for j, b := range ms {
						if i == j {
							continue
						}
						for inPlace := 0; inPlace < 2; inPlace++ {
							for _, word := range words {
								changeHistory(c, v, s, [2]*model.Msg{a, b}, [2]lens{ls[i], ls[j]}, inPlace == 1, word, other)
							}
						}
					}
				}
			}
		}
	}
}

// opWords are all words of a length over ops that end in a call and hold a
// change; every prefix is checked on the way.
func opWords(ops []int, n int) (r [][]int) {
	var rec func(w []int, changed bool)
	rec = func(w []int, changed bool) {
		if len(w) == n {
			if l := w[n-1]; changed && l != opChange && l != opOther {
				r = append(r, append([]int(nil), w...))
			}
			return
		}
		for _, o := range ops {
			rec(append(w, o), changed || o == opChange)
		}
	}
	rec(nil, false)
	return r
}

func changeHistory(c *h.Ctx, v changeVisit, s *model.Schema, ms [2]*model.Msg, ls [2]lens, inPlace bool, word []int, other reflect.Value) {
	at := 0
	if !c.Case(func() string {
		d := fmt.Sprintf("%v; ", ms[0])
		for _, o := range word {
			d += opNames[o] + ", "
		}
		how := "replacing"
		if inPlace {
			how = "modifying in place"
		}
		return fmt.Sprintf("%sthe change is to %v and back, %s", d, ms[1], how)
	}) {
		return
	}
	before := len(c.R.Violations)
	c.Guard("call", func() {
		p := model.ToGo(s, ms[0])
		for i, o := range word {
			n := len(c.R.Violations)
			switch o {
			case opSize:
				c.Trans(v.size(s, ms[at], p, ls[at]))
			case opMarshal:
				c.Trans(v.marshal(s, ms[at], p, ls[at]))
			case opOther:
				_, _ = proto.Marshal(other.Interface())
			case opChange:
				at = 1 - at
				model.Update(s, ms[at], p.Elem(), inPlace)
			}
			if len(c.R.Violations) > n {
				c.Fail("that was call %d of the history", i+1)
				return
			}
		}
	})
	c.State(s.Label(), fmt.Sprint(word, at, inPlace), string(model.Encode(s, ms[at])))
	if len(c.R.Violations) == before {
		c.Trace(1)
	}
}
