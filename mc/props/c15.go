package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/proto"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif.local/mc/dyn"
	"verif.local/mc/gen"
	"verif.local/mc/gentypes"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/pgen"
)

// Keys of the listed findings of C15.
const (
	keyOneofDecode = "C15-oneof-not-decoded"
	keyOneofEncode = "C15-oneof-not-encoded"
	keyGroup       = "C15-group-unsupported"
	keyDupForward  = "C15-double-public-forward"
	keyDirective   = "C15-directive-comment"
)

// genMsg is a generated message type with its schema.
type genMsg struct {
	pm  *protogen.Message
	s   *model.Schema
	err error // the Go type does not fit
}

// bindSet binds the generated Go types of a set to their schemas.
func bindSet(set *pgen.Set) (map[protoreflect.FullName]*genMsg, []*genMsg, error) {
	plug, err := pgen.Plugin(pgen.Request(set.Files, set.All(), ""))
	if err != nil {
		return nil, nil, err
	}
	ms := map[protoreflect.FullName]*genMsg{}
	var order []*genMsg
	for _, f := range plug.Files {
		for _, pm := range messagesOf(f) {
			g := &genMsg{pm: pm, s: &model.Schema{}}
			ms[pm.Desc.FullName()] = g
			order = append(order, g)
		}
	}
	for _, g := range order {
		t := goTypeOf(set, g.pm.GoIdent)
		if t == nil {
			g.err = fmt.Errorf("no Go type %v", g.pm.GoIdent)
			t = reflect.TypeOf(struct{}{})
		}
		var fields []model.Field
		var names []string
		for _, pf := range g.pm.Fields {
			if pf.Oneof != nil && !pf.Oneof.Desc.IsSynthetic() {
				continue
			}
			f, err := fieldOf(ms, pf)
			if err != nil {
				g.err = err
			}
			if g.err == nil && t.Kind() == reflect.Struct && f.Card == model.Opt {
				if sf, ok := t.FieldByName(pf.GoName); ok && sf.Type.Kind() == reflect.Ptr {
					f.Card = model.Ptr
				}
			}
			fields = append(fields, f)
			names = append(names, pf.GoName)
		}
		if g.err == nil {
			g.err = model.BindNamed(g.s, string(g.pm.Desc.FullName()), t, fields, names)
		}
	}
	return ms, order, nil
}

func goTypeOf(set *pgen.Set, id protogen.GoIdent) reflect.Type {
	return gentypes.Types[set.Name][string(id.GoImportPath)+"."+id.GoName]
}

func fieldOf(ms map[protoreflect.FullName]*genMsg, pf *protogen.Field) (model.Field, error) {
	d := pf.Desc
	f := model.Field{Num: int(d.Number())}
	vd := d
	switch {
	case d.IsMap():
		f.Card = model.Map
		f.Key = dyn.Kind(d.MapKey().Kind())
		vd = d.MapValue()
	case d.IsList():
		f.Card = model.Rep
	}
	f.Kind = dyn.Kind(vd.Kind())
	if f.Card == model.Plain && d.HasPresence() && f.Kind != model.Message && f.Kind != model.Bytes {
		f.Card = model.Opt
	}
	if f.Kind == model.Message {
		g := ms[vd.Message().FullName()]
		if g == nil {
			return f, fmt.Errorf("no type %s", vd.Message().FullName())
		}
		f.Msg = g.s
	}
	return f, nil
}

// elemVals is the alphabet of element values up to a message depth.
func elemVals(f *model.Field, depth int, lv gen.Level) []model.Val {
	if f.Kind != model.Message {
		return append([]model.Val{{}}, gen.Scalars(f.Kind, lv)...)
	}
	r := []model.Val{{M: model.NewMsg(f.Msg)}}
	if depth <= 0 {
		return r
	}
	all := model.NewMsg(f.Msg)
	for i := range f.Msg.Fields {
		vs := fieldAlphabet(&f.Msg.Fields[i], depth-1, gen.Tiny)
		all.F[i] = vs[len(vs)-1]
		if lv > gen.Tiny {
			m := model.NewMsg(f.Msg)
			m.F[i] = vs[0]
			r = append(r, model.Val{M: m})
		}
	}
	return append(r, model.Val{M: all})
}

// fieldAlphabet is the alphabet of present values of a field.
func fieldAlphabet(f *model.Field, depth int, lv gen.Level) []model.FieldVal {
	var r []model.FieldVal
	switch f.Card {
	case model.Rep:
		es := elemVals(f, depth, lv)
		for _, e := range es {
			r = append(r, model.FieldVal{L: []model.Val{e}})
		}
		if lv > gen.Tiny {
			for n := 2; n < 20; n++ {
				var l []model.Val
				for i := 0; i < n; i++ {
					l = append(l, es[(i*5+n)%len(es)])
				}
				r = append(r, model.FieldVal{L: l})
			}
			var l []model.Val
			for i := 0; i < 200; i++ {
				l = append(l, es[i%len(es)])
			}
			r = append(r, model.FieldVal{L: l})
		}
		r = append(r, model.FieldVal{L: es})
	case model.Map:
		ks, es := gen.KeyVals(f.Key, gen.Tiny), elemVals(f, depth, gen.Tiny)
		if lv > gen.Tiny {
			ks = gen.KeyVals(f.Key, lv)
		}
		for _, k := range ks {
			for _, e := range es {
				r = append(r, model.FieldVal{E: []model.Entry{{K: k, V: e}}})
			}
		}
		if lv > gen.Tiny {
			for _, e := range elemVals(f, depth, lv) {
				r = append(r, model.FieldVal{E: []model.Entry{{K: ks[len(ks)-1], V: e}}})
			}
		}
		ns := []int{2}
		if lv > gen.Tiny {
			ns = []int{2, 3, 8, 9, 17, 60}
		}
		for _, n := range ns {
			var e []model.Entry
			for i, k := range gen.DistinctKeys(f.Key, n) {
				e = append(e, model.Entry{K: k, V: es[i%len(es)]})
			}
			model.SortEntries(e)
			r = append(r, model.FieldVal{E: e})
		}
	default:
		if f.Kind == model.Message {
			for _, v := range elemVals(f, depth, lv) {
				r = append(r, model.FieldVal{Set: true, V: v})
			}
			return r
		}
		if f.Card != model.Plain || f.Kind == model.Bytes {
			r = append(r, model.FieldVal{Set: true})
		}
		for _, v := range gen.Scalars(f.Kind, lv) {
			r = append(r, model.FieldVal{Set: true, V: v})
		}
	}
	return r
}

// valuesOf enumerates message values: every value of every field alone, pairs
// of fields, everything at once.
func valuesOf(s *model.Schema, rich bool, visit func(*model.Msg)) {
	lv := gen.Small
	if rich {
		lv = gen.Full
	}
	visit(model.NewMsg(s))
	var al [][]model.FieldVal
	for i := range s.Fields {
		al = append(al, fieldAlphabet(&s.Fields[i], 2, lv))
	}
	for i := range al {
		for _, v := range al[i] {
			m := model.NewMsg(s)
			m.F[i] = v
			visit(m)
		}
	}
	if len(al) < 2 {
		return
	}
	// rounds with all fields set, each to another value
	for r := 0; r < 6; r++ {
		m := model.NewMsg(s)
		for i := range al {
			m.F[i] = al[i][(r*(2*i+1)+i)%len(al[i])]
		}
		visit(m)
	}
	// pairs
	if len(al) <= 6 {
		for i := range al {
			for j := i + 1; j < len(al); j++ {
				for _, a := range spread(al[i], 5) {
					for _, b := range spread(al[j], 5) {
						m := model.NewMsg(s)
						m.F[i], m.F[j] = a, b
						visit(m)
					}
				}
			}
		}
	}
}

func spread(v []model.FieldVal, n int) []model.FieldVal {
	if len(v) <= n {
		return v
	}
	var r []model.FieldVal
	for i := 0; i < n; i++ {
		r = append(r, v[i*(len(v)-1)/(n-1)])
	}
	return r
}

// C15: generated code.
func c15(c *h.Ctx) {
	st := loadStatus(c.Dir)
	sets := pgen.Sets(c.Thorough())
	if c.Family("generate and compile") {
		for _, set := range sets {
			if !c.Unit(func() string { return "schema set " + set.Name }) || !c.Case(func() string { return strings.Join(set.All(), " ") }) {
				continue
			}
			c.Trans(1)
			if st == nil || st.PluginBuild != "" {
				e := "no status"
				if st != nil {
					e = st.PluginBuild
				}
				c.Fail("the plugin could not be built: %s", e)
				continue
			}
			x := st.Sets[set.Name]
			switch {
			case x == nil:
				c.Fail("set %s was not processed", set.Name)
			case x.Plugin != "":
				c.Fail("the plugin fails: %s", x.Plugin)
			case x.Compile != "" && set.DupForward && strings.Contains(x.Compile, "redeclared in this block"):
				c.FailKeyed(keyDupForward, "the generated code does not compile: %s", x.Compile)
			case x.Compile != "" && set.Directive:
				c.FailKeyed(keyDirective, "the generated code does not compile: %s", x.Compile)
			case x.Compile != "":
				c.Fail("the generated code does not compile:\n%s", x.Compile)
			case !x.Linked:
				c.Fail("the generated code could not be linked into a program")
			default:
				c.Trace(1)
				c.State("set", set.Name)
			}
		}
	}
	groups := []string{}
	by := map[string][]*pgen.Set{}
	for _, s := range sets {
		if by[s.Group] == nil {
			groups = append(groups, s.Group)
		}
		by[s.Group] = append(by[s.Group], s)
	}
	for _, g := range groups {
		if !c.Family(g) {
			continue
		}
		for _, set := range by[g] {
			if st == nil || st.Sets[set.Name] == nil || !st.Sets[set.Name].Linked {
				continue // reported above
			}
			_, order, err := bindSetCached(set)
			if err != nil {
				continue // reported above
			}
			for _, gm := range order {
				if !c.Unit(func() string { return string(gm.pm.Desc.FullName()) }) {
					continue
				}
				if gm.err != nil {
					c.Case(nil)
					c.Fail("generated Go type: %v", gm.err)
					continue
				}
				exchange(c, set, gm)
			}
		}
	}
}

func hasGroup(pm *protogen.Message, seen map[*protogen.Message]bool) bool {
	if seen[pm] {
		return false
	}
	seen[pm] = true
	for _, f := range pm.Fields {
		if f.Desc.Kind() == protoreflect.GroupKind || f.Message != nil && hasGroup(f.Message, seen) {
			return true
		}
	}
	return false
}

func exchange(c *h.Ctx, set *pgen.Set, gm *genMsg) {
	if hasGroup(gm.pm, map[*protogen.Message]bool{}) {
		if !c.Case(func() string { return "type with a group" }) {
			return
		}
		c.Trans(1)
		v := h.Panics(func() { _, _ = proto.Marshal(model.Fresh(gm.s).Interface()) })
		if e, ok := v.(error); ok && strings.Contains(e.Error(), "group") {
			c.FailKeyed(keyGroup, "Marshal panics: %v", e)
			return
		}
		if v != nil {
			c.Fail("Marshal panics: %v", v)
			return
		}
	}
	valuesOf(gm.s, set.Rich, func(m *model.Msg) {
		if !c.Case(m.String) {
			return
		}
		d := dyn.To(gm.pm.Desc, gm.s, m)
		wire, err := dyn.Marshal(d)
		if err != nil {
			if strings.Contains(err.Error(), "UTF-8") {
				c.Outcome("not a valid message (UTF-8)")
				return
			}
			c.Fail("harness: %v", err)
			return
		}
		norm, err := dyn.From(gm.s, d)
		if err != nil {
			c.Fail("harness: %v", err)
			return
		}
		norm = dyn.Quiet(gm.s, norm)
		c.State(string(gm.pm.Desc.FullName()), norm.Key())
		c.Guard("exchange", func() {
			// standard encoder -> generated type
			for i, b := range [][]byte{wire, model.Encode(gm.s, norm)} {
				p := model.Fresh(gm.s)
				c.Trans(1)
				if err := proto.Unmarshal(b, p.Interface()); err != nil {
					c.Fail("Unmarshal of %s (%s): %v", hx(b), [...]string{"from the standard encoder", "every field unpacked"}[i], err)
					continue
				}
				got, err := model.FromGo(gm.s, p)
				if err != nil {
					c.Fail("%v", err)
					continue
				}
				if df := model.Diff(norm, dyn.Quiet(gm.s, got)); df != "" {
					c.Fail("Unmarshal of %s (%s): %s", hx(b), [...]string{"from the standard encoder", "every field unpacked"}[i], df)
				}
			}
			// generated type -> standard decoder
			p := model.ToGo(gm.s, m)
			c.Trans(1)
			b, err := proto.Marshal(p.Interface())
			if err != nil {
				c.Fail("Marshal: %v", err)
				return
			}
			d2 := dynamicpb.NewMessage(gm.pm.Desc)
			if err := dyn.Unmarshal(b, d2); err != nil {
				c.Fail("the standard decoder rejects %s: %v", hx(b), err)
				return
			}
			got, err := dyn.From(gm.s, d2)
			if err != nil {
				c.Fail("the standard decoder of %s: %v", hx(b), err)
				return
			}
			if df := model.Diff(norm, dyn.Quiet(gm.s, got)); df != "" {
				c.Fail("the standard decoder of %s: %s", hx(b), df)
				return
			}
			c.Trace(1)
		})
	})
	for _, o := range gm.pm.Oneofs {
		if !o.Desc.IsSynthetic() {
			for _, f := range o.Fields {
				exchangeOneof(c, set, gm, o, f)
			}
		}
	}
}

// exchangeOneof checks one member of a oneof.
func exchangeOneof(c *h.Ctx, set *pgen.Set, gm *genMsg, o *protogen.Oneof, pf *protogen.Field) {
	ms, _, err := bindSetCached(set)
	if err != nil {
		return
	}
	mf, err := fieldOf(ms, pf)
	if err != nil {
		return
	}
	mf.Card = model.Plain
	// a schema with the member alone, bound to its wrapper struct
	wt := goTypeOf(set, pf.GoIdent)
	ws := &model.Schema{}
	if wt == nil {
		c.Case(nil)
		c.Fail("no wrapper type %v", pf.GoIdent)
		return
	}
	if err := model.BindNamed(ws, pf.GoIdent.GoName, wt, []model.Field{mf}, []string{pf.GoName}); err != nil {
		c.Case(nil)
		c.Fail("wrapper type: %v", err)
		return
	}
	full := model.NewMsg(gm.s)
	for i := range gm.s.Fields {
		al := fieldAlphabet(&gm.s.Fields[i], 1, gen.Tiny)
		full.F[i] = al[len(al)-1]
	}
	vals := []model.FieldVal{{Set: true, V: elemVals(&mf, 1, gen.Tiny)[0]}}
	for _, v := range fieldAlphabet(&mf, 1, gen.Small) {
		vals = append(vals, v)
	}
	for _, base := range []*model.Msg{model.NewMsg(gm.s), full} {
		for _, fv := range vals {
			wm := model.NewMsg(ws)
			wm.F[0] = fv
			if !c.Case(func() string {
				return fmt.Sprintf("oneof %s: %s = %v, others %v", o.Desc.Name(), pf.Desc.Name(), wm, base)
			}) {
				continue
			}
			d := dyn.To(gm.pm.Desc, gm.s, base)
			dyn.SetField(d, ws, 0, &fv)
			wire, err := dyn.Marshal(d)
			if err != nil {
				c.Outcome("not a valid message (UTF-8)")
				continue
			}
			wn := model.NewMsg(ws)
			if fv.V.M != nil || fv.V.U != 0 || fv.V.S != "" || mf.Kind == model.Bytes {
				wn.F[0] = fv
			}
			wn = dyn.Quiet(ws, wn)
			norm, err := dyn.From(gm.s, dyn.To(gm.pm.Desc, gm.s, base))
			if err != nil {
				c.Fail("harness: %v", err)
				continue
			}
			norm = dyn.Quiet(gm.s, norm)
			c.State(string(gm.pm.Desc.FullName()), string(pf.Desc.Name()), wn.Key(), norm.Key())
			c.Guard("exchange of a oneof", func() {
				p := model.Fresh(gm.s)
				c.Trans(2)
				if err := proto.Unmarshal(wire, p.Interface()); err != nil {
					c.Fail("Unmarshal of %s: %v", hx(wire), err)
					return
				}
				got, err := model.FromGo(gm.s, p)
				if err != nil {
					c.Fail("%v", err)
					return
				}
				if df := model.Diff(norm, dyn.Quiet(gm.s, got)); df != "" {
					c.Fail("Unmarshal of %s: %s", hx(wire), df)
				}
				readOneof := func(p reflect.Value, what string) {
					iv := p.Elem().FieldByName(o.GoName)
					if !iv.IsValid() || iv.Kind() != reflect.Interface {
						c.Fail("%v has no interface field %s", p.Type(), o.GoName)
						return
					}
					if iv.IsNil() {
						c.FailKeyed(keyOneofDecode, "%s: the oneof is not set", what)
						return
					}
					if iv.Elem().Type() != reflect.PtrTo(wt) {
						c.Fail("%s: the oneof holds %v, want %v", what, iv.Elem().Type(), wt)
						return
					}
					g, err := model.FromGo(ws, iv.Elem())
					if err != nil {
						c.Fail("%s: %v", what, err)
						return
					}
					if df := model.Diff(wn, dyn.Quiet(ws, g)); df != "" {
						c.Fail("%s: %s", what, df)
					}
				}
				readOneof(p, "Unmarshal of "+hx(wire))
				// the other direction
				p = model.ToGo(gm.s, base)
				iv := p.Elem().FieldByName(o.GoName)
				w := model.ToGo(ws, wm)
				if !iv.IsValid() || !w.Type().AssignableTo(iv.Type()) {
					c.Fail("%v cannot be assigned to field %s of %v", w.Type(), o.GoName, p.Type())
					return
				}
				iv.Set(w)
				// getters
				if get := p.MethodByName("Get" + pf.GoName); get.IsValid() {
					r := get.Call(nil)
					if len(r) == 1 && !reflect.DeepEqual(r[0].Interface(), w.Elem().FieldByName(pf.GoName).Interface()) && wn.Key() == dyn.Quiet(ws, wm).Key() && !nan(r[0]) {
						c.Fail("Get%s returns %v, set was %v", pf.GoName, r[0].Interface(), wm)
					}
					reflect.New(p.Type().Elem()).MethodByName("Get" + pf.GoName).Call(nil)
				}
				b, err := proto.Marshal(p.Interface())
				if err != nil {
					c.Fail("Marshal: %v", err)
					return
				}
				d2 := dynamicpb.NewMessage(gm.pm.Desc)
				if err := dyn.Unmarshal(b, d2); err != nil {
					c.Fail("the standard decoder rejects %s: %v", hx(b), err)
					return
				}
				got, err = dyn.From(gm.s, d2)
				if err != nil {
					c.Fail("the standard decoder of %s: %v", hx(b), err)
					return
				}
				if df := model.Diff(norm, dyn.Quiet(gm.s, got)); df != "" {
					c.Fail("the standard decoder of %s: %s", hx(b), df)
					return
				}
				wf := d2.WhichOneof(d2.Descriptor().Oneofs().ByName(o.Desc.Name()))
				if wf == nil {
					c.FailKeyed(keyOneofEncode, "the standard decoder of %s: the oneof is not set", hx(b))
					return
				}
				d3 := dynamicpb.NewMessage(gm.pm.Desc)
				dyn.SetField(d3, ws, 0, &fv)
				w2, w3 := model.NewMsg(ws), model.NewMsg(ws)
				if wf.Number() != pf.Desc.Number() {
					c.Fail("the standard decoder of %s: the oneof is %s", hx(b), wf.Name())
					return
				}
				w2, _ = dyn.From(ws, onlyField(d2, wf))
				w3, _ = dyn.From(ws, onlyField(d3, wf))
				if w2 == nil || w3 == nil {
					return
				}
				if df := model.Diff(dyn.Quiet(ws, w3), dyn.Quiet(ws, w2)); df != "" {
					c.Fail("the standard decoder of %s: oneof: %s", hx(b), df)
					return
				}
				c.Trace(1)
			})
		}
	}
}

func nan(v reflect.Value) bool {
	return (v.Kind() == reflect.Float32 || v.Kind() == reflect.Float64) && v.Float() != v.Float()
}

func onlyField(d *dynamicpb.Message, fd protoreflect.FieldDescriptor) *dynamicpb.Message {
	r := dynamicpb.NewMessage(d.Descriptor())
	if d.Has(fd) {
		r.Set(fd, d.Get(fd))
	}
	return r
}

type boundSet struct {
	ms    map[protoreflect.FullName]*genMsg
	order []*genMsg
	err   error
}

var bound = map[string]*boundSet{}

func bindSetCached(set *pgen.Set) (map[protoreflect.FullName]*genMsg, []*genMsg, error) {
	b := bound[set.Name]
	if b == nil {
		b = &boundSet{}
		b.ms, b.order, b.err = bindSet(set)
		bound[set.Name] = b
	}
	return b.ms, b.order, b.err
}
