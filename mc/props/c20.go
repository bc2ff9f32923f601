package props

import (
	"fmt"
	"math"
	"reflect"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/pgen"
)

// oneofMessages are the messages of a set with a real oneof.
func realOneofs(pm *protogen.Message) (r []*protogen.Oneof) {
	for _, o := range pm.Oneofs {
		if !o.Desc.IsSynthetic() {
			r = append(r, o)
		}
	}
	return r
}

func hasOneofs(set *pgen.Set) bool {
	plug, err := pgen.Plugin(pgen.Request(set.Files, set.All(), ""))
	if err != nil {
		return true // reported there
	}
	for _, f := range plug.Files {
		for _, pm := range messagesOf(f) {
			if len(realOneofs(pm)) > 0 {
				return true
			}
		}
	}
	return false
}

// osel is the state of a oneof: a member with a value, or nothing.
type osel struct {
	f  *protogen.Field
	ws *model.Schema
	fv model.FieldVal
}

func (s osel) String() string {
	if s.f == nil {
		return "unset"
	}
	w := model.NewMsg(s.ws)
	w.F[0] = s.fv
	return fmt.Sprintf("%s %v", s.f.Desc.Name(), w)
}

// C20: accessors of oneofs.
func c20(c *h.Ctx) {
	st := loadStatus(c.Dir)
	if !c.Family("states of oneofs") {
		return
	}
	for _, set := range pgen.Sets(c.Thorough()) {
		if !hasOneofs(set) || set.Directive || set.DupForward {
			continue
		}
		if st == nil || st.Sets[set.Name] == nil || !st.Sets[set.Name].Linked {
			if c.Unit(func() string { return "schema set " + set.Name }) && c.Case(nil) {
				c.Fail("the code generated for the schema set %s does not build, its accessors cannot be used", set.Name)
			}
			continue
		}
		ms, order, err := bindSetCached(set)
		if err != nil {
			continue
		}
		for _, gm := range order {
			os := realOneofs(gm.pm)
			if len(os) == 0 || !c.Unit(func() string { return string(gm.pm.Desc.FullName()) }) {
				continue
			}
			if gm.err != nil {
				c.Case(nil)
				c.Fail("generated Go type: %v", gm.err)
				continue
			}
			accessors(c, set, ms, gm, os)
		}
	}
}

func accessors(c *h.Ctx, set *pgen.Set, ms map[protoreflect.FullName]*genMsg, gm *genMsg, os []*protogen.Oneof) {
	full := model.NewMsg(gm.s)
	for i := range gm.s.Fields {
		al := fieldAlphabet(&gm.s.Fields[i], 1, gen.Tiny)
		full.F[i] = al[len(al)-1]
	}
	typ := goTypeOf(set, gm.pm.GoIdent)
	ptr := reflect.PtrTo(typ)
	// states of each oneof
	states := make([][]osel, len(os))
	ok := true
	for i, o := range os {
		states[i] = []osel{{}}
		lv := gen.Full
		if len(os) > 1 {
			lv = gen.Small
		}
		for _, pf := range o.Fields {
			mf, err := fieldOf(ms, pf)
			wt := goTypeOf(set, pf.GoIdent)
			if err != nil || wt == nil {
				c.Case(nil)
				c.Fail("member %s: no wrapper type %v", pf.Desc.Name(), pf.GoIdent)
				ok = false
				continue
			}
			mf.Card = model.Plain
			ws := &model.Schema{}
			if err := model.BindNamed(ws, pf.GoIdent.GoName, wt, []model.Field{mf}, []string{pf.GoName}); err != nil {
				c.Case(nil)
				c.Fail("wrapper type: %v", err)
				ok = false
				continue
			}
			vals := append([]model.FieldVal{{}}, fieldAlphabet(&mf, 1, lv)...)
			if len(os) > 2 {
				vals = thinFV(vals, 2)
			} else if len(os) > 1 {
				vals = thinFV(vals, 4)
			}
			for _, fv := range vals {
				states[i] = append(states[i], osel{pf, ws, fv})
			}
			// the wrapper fits its own oneof and no other
			for _, o2 := range os {
				sf, has := typ.FieldByName(o2.GoName)
				if !has || sf.Type.Kind() != reflect.Interface {
					c.Case(nil)
					c.Fail("%v has no interface field %s", typ, o2.GoName)
					return
				}
				if !c.Case(func() string { return fmt.Sprintf("%v assigned to %s", wt, o2.GoName) }) {
					continue
				}
				c.Trans(1)
				c.State(string(gm.pm.Desc.FullName()), "fits", wt.Name(), o2.GoName)
				if fits := reflect.PtrTo(wt).AssignableTo(sf.Type); fits != (o2 == o) {
					c.Fail("*%v assignable to the oneof %s: %v", wt, o2.GoName, fits)
					continue
				}
				c.Trace(1)
			}
		}
	}
	if !ok {
		return
	}
	check := func(p reflect.Value, sel []osel, wrappers []reflect.Value, what string) {
		for i, o := range os {
			get := p.MethodByName("Get" + o.GoName)
			if !get.IsValid() || get.Type().NumIn() != 0 || get.Type().NumOut() != 1 {
				c.Fail("%v has no accessor Get%s() with one result", ptr, o.GoName)
				return
			}
			r := get.Call(nil)[0]
			c.Trans(1)
			if sf, _ := typ.FieldByName(o.GoName); r.Type() != sf.Type {
				c.Fail("Get%s returns type %v, the field has %v", o.GoName, r.Type(), sf.Type)
				return
			}
			if sel[i].f == nil {
				if !r.IsNil() {
					c.Fail("Get%s%s returns %v, nothing is set", o.GoName, what, r)
				}
			} else if r.IsNil() || r.Elem().Type() != wrappers[i].Type() || r.Elem().UnsafePointer() != wrappers[i].UnsafePointer() {
				c.Fail("Get%s%s does not return the wrapper that is set (%v)", o.GoName, what, sel[i])
			}
			for _, pf := range o.Fields {
				get := p.MethodByName("Get" + pf.GoName)
				if !get.IsValid() || get.Type().NumIn() != 0 || get.Type().NumOut() != 1 {
					c.Fail("%v has no accessor Get%s() with one result", ptr, pf.GoName)
					return
				}
				r := get.Call(nil)[0]
				c.Trans(1)
				wf, _ := goTypeOf(set, pf.GoIdent).FieldByName(pf.GoName)
				if r.Type() != wf.Type {
					c.Fail("Get%s returns type %v, the member has %v", pf.GoName, r.Type(), wf.Type)
					return
				}
				if sel[i].f == pf {
					if want := wrappers[i].Elem().FieldByName(pf.GoName); !sameValue(r, want) {
						c.Fail("Get%s%s returns %v, set is %v", pf.GoName, what, r, want)
					}
					continue
				}
				// A default declared in the schema does not matter: it is the
				// default of the type that is promised.
				want := reflect.Zero(r.Type())
				if pf.Enum != nil {
					x := reflect.New(r.Type()).Elem()
					x.SetInt(int64(pf.Enum.Desc.Values().Get(0).Number()))
					want = x
				}
				if !sameValue(r, want) {
					c.Fail("Get%s%s returns %v although the member is not set, want %v", pf.GoName, what, r, want)
				}
			}
		}
	}
	run := func(base *model.Msg, sel []osel) {
		if !c.Case(func() string { return fmt.Sprintf("%v, others %v", sel, base) }) {
			return
		}
		before := len(c.R.Violations)
		c.Guard("accessor", func() {
			p := model.ToGo(gm.s, base)
			wrappers := make([]reflect.Value, len(os))
			key := []string{string(gm.pm.Desc.FullName()), base.Key()}
			for i, o := range os {
				if sel[i].f == nil {
					key = append(key, "-")
					continue
				}
				wm := model.NewMsg(sel[i].ws)
				wm.F[0] = sel[i].fv
				wrappers[i] = model.ToGo(sel[i].ws, wm)
				p.Elem().FieldByName(o.GoName).Set(wrappers[i])
				key = append(key, string(sel[i].f.Desc.Name()), wm.Key())
			}
			c.State(key...)
			check(p, sel, wrappers, "")
			got, err := model.FromGo(gm.s, p)
			if err != nil {
				c.Fail("%v", err)
				return
			}
			if d := model.Diff(base, got); d != "" {
				c.Fail("an accessor changed the message: %s", d)
			}
			check(p, sel, wrappers, ", called again,")
		})
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	// no message at all
	if c.Case(func() string { return "nil receiver" }) {
		before := len(c.R.Violations)
		c.Guard("accessor", func() { check(reflect.Zero(ptr), make([]osel, len(os)), nil, " on a nil message") })
		c.State(string(gm.pm.Desc.FullName()), "nil")
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	for _, base := range []*model.Msg{model.NewMsg(gm.s), full} {
		sel := make([]osel, len(os))
		if len(os) > 4 { // all states of any two oneofs, the others alike
			for _, bg := range []int{0, 1, -1} {
				for i := range os {
					for j := 0; j < i; j++ {
						for k := range os {
							sel[k] = states[k][(bg+len(states[k]))%len(states[k])]
						}
						for _, a := range states[i] {
							for _, b := range states[j] {
								sel[i], sel[j] = a, b
								run(base, append([]osel(nil), sel...))
							}
						}
					}
				}
			}
			continue
		}
		var rec func(i int)
		rec = func(i int) {
			if i == len(os) {
				run(base, append([]osel(nil), sel...))
				return
			}
			for _, s := range states[i] {
				sel[i] = s
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func thinFV(v []model.FieldVal, n int) []model.FieldVal {
	if len(v) <= n {
		return v
	}
	return spread(v, n)
}

// sameValue: equal bits, the same pointer, the same bytes.
func sameValue(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Ptr:
		return a.UnsafePointer() == b.UnsafePointer()
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		return a.Len() == 0 || a.UnsafePointer() == b.UnsafePointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
