package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

type namedInt int
type namedPtr *types.Rec
type namedStruct types.Inner
type ifc interface{ M() }
type impl struct {
	V int64 `protobuf:"varint,1,opt"`
}

func (impl) M() {}

// misuse is an argument none of the functions takes.
type misuse struct {
	name string
	mk   func() interface{}
}

// badArgs are arguments that are not pointers to structs.
func badArgs() []misuse {
	var r []misuse
	add := func(name string, f func() interface{}) { r = append(r, misuse{name, f}) }
	add("nil", func() interface{} { return nil })
	add("true", func() interface{} { return true })
	add("int", func() interface{} { return 7 })
	add("int32", func() interface{} { return int32(-1) })
	add("uint8", func() interface{} { return uint8(200) })
	add("uint64", func() interface{} { return ^uint64(0) })
	add("uintptr", func() interface{} { return uintptr(0x1000) })
	add("namedInt", func() interface{} { return namedInt(3) })
	add("float64", func() interface{} { return 1.5 })
	add("complex128", func() interface{} { return complex(1, 2) })
	add("string", func() interface{} { return "hello" })
	add("empty string", func() interface{} { return "" })
	add("[]byte", func() interface{} { return []byte{1, 2, 3} })
	add("nil []byte", func() interface{} { return []byte(nil) })
	add("[]*Rec", func() interface{} { return []*types.Rec{{V: 1}} })
	add("map[string]int32", func() interface{} { return map[string]int32{"a": 1} })
	add("nil map", func() interface{} { return map[string]*types.Rec(nil) })
	add("map[int]*Rec", func() interface{} { return map[int]*types.Rec{1: {V: 3}} })
	add("func", func() interface{} { return func() {} })
	add("nil func", func() interface{} { return (func(int) string)(nil) })
	add("chan", func() interface{} { return make(chan int) })
	add("nil chan", func() interface{} { return (chan *types.Rec)(nil) })
	add("array", func() interface{} { return [4]int32{1, 2, 3, 4} })
	add("empty array", func() interface{} { return [0]int{} })
	add("array of one pointer", func() interface{} { return [1]*types.Rec{{V: 2}} })
	add("Rec value", func() interface{} { return types.Rec{V: 5} })
	add("Inner value", func() interface{} { return types.Inner{V: 5} })
	add("Empty value", func() interface{} { return types.Empty{} })
	add("one-pointer struct", func() interface{} { return struct{ P *types.Rec }{&types.Rec{V: 1}} })
	add("impl value", func() interface{} { return ifc(impl{1}) })
	add("Option value", func() interface{} { return proto.Some(int32(4)) })
	add("unsafe.Pointer", func() interface{} { return unsafe.Pointer(new(types.Rec)) })
	add("nil unsafe.Pointer", func() interface{} { return unsafe.Pointer(nil) })
	add("reflect.Value", func() interface{} { return reflect.ValueOf(&types.Rec{}) })
	add("error", func() interface{} { return errors.New("x") == nil })
	// pointers to something else
	add("*int", func() interface{} { x := 7; return &x })
	add("*int64", func() interface{} { x := int64(7); return &x })
	add("*bool", func() interface{} { x := true; return &x })
	add("*string", func() interface{} { x := "text"; return &x })
	add("*[]byte", func() interface{} { x := []byte("text"); return &x })
	add("*[]*Rec", func() interface{} { x := []*types.Rec{{V: 1}}; return &x })
	add("*map", func() interface{} { x := map[string]int32{"k": 1}; return &x })
	add("**Rec", func() interface{} { x := &types.Rec{V: 1}; return &x })
	add("**Rec to nil", func() interface{} { var x *types.Rec; return &x })
	add("***Rec", func() interface{} { x := &types.Rec{V: 1}; y := &x; return &y })
	add("*array", func() interface{} { x := [3]int32{1, 2, 3}; return &x })
	add("*[1]Rec", func() interface{} { x := [1]types.Rec{{V: 9}}; return &x })
	add("*interface with pointer", func() interface{} { var x interface{} = &types.Rec{V: 1}; return &x })
	add("*interface with value", func() interface{} { var x interface{} = types.Rec{V: 1}; return &x })
	add("*interface nil", func() interface{} { var x interface{}; return &x })
	add("*ifc", func() interface{} { var x ifc = impl{1}; return &x })
	add("*func", func() interface{} { x := func() {}; return &x })
	add("*chan", func() interface{} { x := make(chan int); return &x })
	add("*unsafe.Pointer", func() interface{} { x := unsafe.Pointer(new(int)); return &x })
	add("*uintptr", func() interface{} { x := uintptr(1); return &x })
	add("*namedPtr", func() interface{} { var x namedPtr = &types.Rec{}; return &x })
	// nil pointers to something else
	add("nil *int", func() interface{} { return (*int)(nil) })
	add("nil *string", func() interface{} { return (*string)(nil) })
	add("nil **Rec", func() interface{} { return (**types.Rec)(nil) })
	add("nil *[]byte", func() interface{} { return (*[]byte)(nil) })
	add("nil *map", func() interface{} { return (*map[string]int)(nil) })
	add("nil *interface", func() interface{} { return (*interface{})(nil) })
	add("nil *func", func() interface{} { return (*func())(nil) })
	add("nil *[2]Rec", func() interface{} { return (*[2]types.Rec)(nil) })
	return r
}

// nilPtrs are nil pointers to messages.
func nilPtrs() []misuse {
	return []misuse{
		{"nil *Rec", func() interface{} { return (*types.Rec)(nil) }},
		{"nil *A", func() interface{} { return (*types.A)(nil) }},
		{"nil *B", func() interface{} { return (*types.B)(nil) }},
		{"nil *Empty", func() interface{} { return (*types.Empty)(nil) }},
		{"nil *Hidden", func() interface{} { return (*types.Hidden)(nil) }},
		{"nil *Mixed", func() interface{} { return (*types.Mixed)(nil) }},
		{"nil *Enums", func() interface{} { return (*types.Enums)(nil) }},
		{"nil *Unordered", func() interface{} { return (*types.Unordered)(nil) }},
		{"nil namedPtr", func() interface{} { return namedPtr(nil) }},
		{"nil *namedStruct", func() interface{} { return (*namedStruct)(nil) }},
		{"nil *struct{}", func() interface{} { return (*struct{})(nil) }},
		{"nil *impl in interface", func() interface{} { var x ifc = (*impl)(nil); return x }},
	}
}

// show renders an argument with what it points to.
func show(v interface{}) string {
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	var b strings.Builder
	for i := 0; i < 4 && rv.Kind() == reflect.Ptr && !rv.IsNil(); i++ {
		fmt.Fprintf(&b, "->%x:", rv.Pointer())
		rv = rv.Elem()
	}
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return b.String() + "nil interface"
		}
		return b.String() + show(rv.Interface())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(&b, "%x", rv.Pointer())
	case reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.String:
		if rv.Type() != reflect.TypeOf(reflect.Value{}) {
			hidden(&b, rv, 0)
		}
	default:
		fmt.Fprintf(&b, "%#v", rv)
	}
	return b.String()
}

// C14: misuse.
func c14(c *h.Ctx) {
	inputs := [][]byte{{8, 1}, {0}, {0x0a, 0}, {0x0a, 3, 'a', 'b', 'c'}, {0xff}, {0x12, 2, 8, 1}, {0x0f}, {8, 1, 0x82, 1, 2, 'h', 'i'}, make([]byte, 100)}
	calls := []string{"Marshal"}
	for _, in := range inputs {
		calls = append(calls, "Unmarshal "+hx(in))
	}
	bad := badArgs()
	nils := nilPtrs()
	// text judges what an error says: which type the argument has and what
	// is wrong with it.
	said := map[string]string{}
	learning := true
	text := func(call string, v interface{}, err error) {
		got, kind := err.Error(), "nil"
		if v != nil {
			t := reflect.TypeOf(v)
			at := strings.LastIndex(got, t.String())
			if at < 0 && learning {
				return
			}
			if at < 0 {
				c.Fail("%s: the error %q does not name the type %v of the argument", call, got, t)
				return
			}
			got = got[:at] + "T" + got[at+len(t.String()):]
			switch {
			case t.Kind() != reflect.Ptr:
				kind = "not a pointer"
			case t.Elem().Kind() != reflect.Struct:
				kind = "a pointer to something else"
			default:
				kind = "a nil pointer"
			}
		} else if call == "Marshal" {
			kind = "not a pointer"
		}
		if learning {
			if said[call+got] == "" {
				said[call+got] = kind
			}
			return
		}
		if got == "" {
			c.Fail("%s: empty error text", call)
		}
		if k, ok := said[call+got]; ok && k != kind {
			c.Fail("%s: the error %q for %T (%s) is the one for an argument that is %s", call, err.Error(), v, kind, k)
			return
		}
		said[call+got] = kind
		c.Outcome(call + " says it is " + kind)
	}
	// What is said of one argument of each kind is known in every shard and
	// every replay; what panics here is found below.
	type apart struct {
		V int64 `protobuf:"varint,1,opt"`
	}
	for _, v := range []interface{}{nil, 7, new(int), (*apart)(nil)} {
		h.Panics(func() {
			if err := proto.Unmarshal([]byte{8, 1}, v); err != nil {
				text("Unmarshal", v, err)
			}
		})
		h.Panics(func() {
			if _, err := proto.Marshal(v); err != nil {
				text("Marshal", v, err)
			}
		})
	}
	learning = false
	// wrong does one wrong call and judges it.
	wrong := func(m misuse, k int, isNil bool) {
		v := m.mk()
		before := show(v)
		if k == 0 {
			b, err := proto.Marshal(v)
			c.Trans(1)
			if isNil {
				if err != nil || len(b) != 0 {
					c.Fail("Marshal(%s) = %x, %v, want no bytes and no error", m.name, b, err)
				}
				if n := proto.Size(v); n != 0 {
					c.Fail("Size(%s) = %d", m.name, n)
				}
				c.Outcome("nil message marshalled")
				return
			}
			if err == nil {
				c.Fail("Marshal(%s) = %x without an error", m.name, b)
				return
			}
			text("Marshal", v, err)
			c.Outcome("Marshal refused")
		} else {
			in := clip(inputs[k-1])
			err := proto.Unmarshal(in, v)
			c.Trans(1)
			var iu *proto.InvalidUnmarshalError
			if err == nil || !errors.As(err, &iu) {
				c.Fail("Unmarshal(%s, %s) = %v, want an InvalidUnmarshalError", hx(in), m.name, err)
				return
			}
			if iu.Type != reflect.TypeOf(v) {
				c.Fail("Unmarshal(%s, %s): the error carries the type %v, want %v", hx(in), m.name, iu.Type, reflect.TypeOf(v))
			}
			text("Unmarshal", v, iu)
			c.Outcome("Unmarshal refused")
		}
		if after := show(v); after != before {
			c.Fail("%s(%s) changed its argument from %s to %s", calls[k], m.name, before, after)
		}
	}
	// proper does correct calls on used and new types.
	fresh := 0
	proper := func(isNew bool) {
		ss := []*model.Schema{types.RecS, types.InnerS, types.EnumsS, types.AS}
		if isNew {
			fresh++
			// the sequence number makes it a new Go type
			s := model.New(fmt.Sprintf("Z%dx%d", c.Shard, fresh), model.F(1, model.Plain, model.Int32), model.FM(2, model.Rep, Leaf), model.FMap(3, model.String, model.Bytes, nil), model.F(4, model.Ptr, model.Sint32), model.F(5, model.Opt, model.String))
			ss = append(ss, s)
		}
		for _, s := range ss {
			m := model.NewMsg(s)
			for i := range m.F {
				vs := fieldValsRec(&s.Fields[i], gen.Tiny)
				m.F[i] = vs[len(vs)-1]
			}
			p := model.ToGo(s, m)
			b, err := proto.Marshal(p.Interface())
			c.Trans(2)
			if err != nil {
				c.Fail("afterwards: Marshal: %v", err)
				return
			}
			if n := proto.Size(p.Interface()); n != len(b) {
				c.Fail("afterwards: Size %d, %d bytes", n, len(b))
			}
			q := model.Fresh(s)
			if err := proto.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("afterwards: Unmarshal: %v", err)
				return
			}
			got, err := model.FromGo(s, q)
			if err != nil {
				c.Fail("afterwards: %v", err)
				return
			}
			if d := model.Diff(m, got); d != "" {
				c.Fail("afterwards: %s", d)
			}
		}
	}
	type mis struct {
		m     misuse
		isNil bool
	}
	var all []mis
	for _, m := range bad {
		all = append(all, mis{m, false})
	}
	for _, m := range nils {
		all = append(all, mis{m, true})
	}
	one := func(desc func() string, f func()) {
		if !c.Case(desc) {
			return
		}
		before := len(c.R.Violations)
		c.Guard("call", f)
		c.StateU(uint64(len(c.R.PerFamily)), c.Pos())
		if len(c.R.Violations) == before {
			c.Trace(1)
		}
	}
	if c.Family("one wrong call") {
		for _, a := range all {
			for k := range calls {
				if !c.Unit(func() string { return a.m.name + ", " + calls[k] }) {
					continue
				}
				one(func() string { return "as the first call" }, func() {
					wrong(a.m, k, a.isNil)
					proper(true)
				})
				one(func() string { return "again" }, func() {
					wrong(a.m, k, a.isNil)
					proper(false)
					wrong(a.m, k, a.isNil)
					proper(true)
				})
			}
		}
	}
	if c.Family("two wrong calls") {
		for _, a := range all {
			for _, b := range all {
				if !c.Unit(func() string { return a.m.name + " then " + b.m.name }) {
					continue
				}
				ks := []int{0, 1, 4}
				if c.Thorough() {
					ks = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
				}
				for _, k := range ks {
					for _, l := range ks {
						one(func() string { return calls[k] + ", " + calls[l] }, func() {
							wrong(a.m, k, a.isNil)
							wrong(b.m, l, b.isNil)
							proper(k == 0 && l == 0)
						})
					}
				}
			}
		}
	}
	// Arguments whose message type is not supported: what is wrong with the
	// argument is found before anything is wrong with the type.
	if c.Family("of a type that is not supported") {
		for _, t := range unsupported() {
			if !c.Unit(func() string { return t.Name() }) {
				continue
			}
			args := []misuse{
				{"nil *" + t.Name(), func() interface{} { return reflect.Zero(reflect.PtrTo(t)).Interface() }},
				{t.Name() + " value", func() interface{} { return reflect.Zero(t).Interface() }},
				{"**" + t.Name(), func() interface{} {
					x := reflect.New(reflect.PtrTo(t))
					x.Elem().Set(reflect.New(t))
					return x.Interface()
				}},
				{"**" + t.Name() + " to nil", func() interface{} { return reflect.New(reflect.PtrTo(t)).Interface() }},
				{"[]*" + t.Name(), func() interface{} { return reflect.New(reflect.SliceOf(reflect.PtrTo(t))).Interface() }},
			}
			for i, m := range args {
				for k := 1; k < len(calls); k++ {
					for twice := 0; twice < 2; twice++ {
						one(func() string { return fmt.Sprintf("%s, %s, %d calls", m.name, calls[k], twice+1) }, func() {
							for j := 0; j <= twice; j++ {
								wrong(m, k, false)
							}
							proper(i == 0 && k == 1)
						})
					}
				}
			}
		}
	}
	// Arguments of every field shape: T, **T, []T, map of T, *[1]T and the
	// nil pointer for a message type T never seen before.
	if c.Family("every shape") {
		for _, sh := range model.Shapes() {
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			fresh++
			for v := 0; v < 8; v++ {
				s := model.New(fmt.Sprintf("Y%dv%d", fresh, v), sh.Of(1, Leaf))
				mk := func() (interface{}, bool) {
					p := reflect.New(s.Type)
					switch v {
					case 0:
						return p.Elem().Interface(), false
					case 1:
						x := reflect.New(p.Type())
						x.Elem().Set(p)
						return x.Interface(), false
					case 2:
						return reflect.MakeSlice(reflect.SliceOf(p.Type()), 1, 1).Interface(), false
					case 3:
						return reflect.New(reflect.SliceOf(s.Type)).Interface(), false
					case 4:
						return reflect.New(reflect.ArrayOf(1, s.Type)).Interface(), false
					case 5:
						return reflect.Zero(p.Type()).Interface(), true
					case 6:
						return reflect.New(reflect.MapOf(reflect.TypeOf(""), p.Type())).Interface(), false
					}
					return reflect.Zero(reflect.PtrTo(p.Type())).Interface(), false
				}
				for k := range calls {
					one(func() string { return fmt.Sprintf("argument %d of type %T, %s", v, first2(mk()), calls[k]) }, func() {
						x, isNil := mk()
						wrong(misuse{fmt.Sprintf("%T", x), func() interface{} { return x }}, k, isNil)
						// the type itself works afterwards
						for _, fv := range gen.FieldVals(&s.Fields[0], gen.Tiny) {
							m := model.NewMsg(s)
							m.F[0] = fv
							b, err := proto.Marshal(model.ToGo(s, m).Interface())
							if err != nil {
								c.Fail("afterwards: Marshal: %v", err)
								return
							}
							q := model.Fresh(s)
							if err := proto.Unmarshal(b, q.Interface()); err != nil {
								c.Fail("afterwards: Unmarshal: %v", err)
								return
							}
							got, _ := model.FromGo(s, q)
							if d := model.Diff(m, got); d != "" {
								c.Fail("afterwards: %s", d)
							}
						}
					})
				}
			}
		}
	}
}

func first2(x interface{}, _ bool) interface{} { return x }
