package props

import (
	"bufio"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// Types with something the codec does not support.
type (
	uInt8 struct {
		A int32 `protobuf:"varint,1,opt"`
		X int8  `protobuf:"varint,2,opt"`
	}
	uFirst struct {
		X chan int `protobuf:"varint,1,opt"`
		A *types.A `protobuf:"bytes,2,opt"`
	}
	uLast struct {
		A *types.A   `protobuf:"bytes,2,opt"`
		R *types.Rec `protobuf:"bytes,3,opt"`
		X complex64  `protobuf:"varint,1,opt"`
	}
	uNested struct {
		V int32  `protobuf:"varint,1,opt"`
		U *uInt8 `protobuf:"bytes,2,opt"`
	}
	uSlice struct {
		U []*uInt8 `protobuf:"bytes,2,rep"`
	}
	uMapVal struct {
		U map[string]*uInt8 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	uCycA struct {
		V int32  `protobuf:"varint,1,opt"`
		B *uCycB `protobuf:"bytes,2,opt"`
	}
	uCycB struct {
		A *uCycA `protobuf:"bytes,1,opt"`
		C *uCycC `protobuf:"bytes,2,opt"`
		X uint16 `protobuf:"varint,3,opt"`
	}
	uCycC struct {
		A  *uCycA   `protobuf:"bytes,1,opt"`
		Bs []*uCycB `protobuf:"bytes,2,rep"`
	}
	uValue struct {
		I types.Inner `protobuf:"bytes,1,opt"`
	}
	uPtrSlice struct {
		P *[]int32 `protobuf:"varint,1,opt"`
	}
	uSliceMap struct {
		M  map[string]int32   `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
		MM []map[string]int32 `protobuf:"bytes,2,rep"`
	}
	uMapSlice struct {
		L []int32            `protobuf:"varint,1,rep"`
		M map[string][]int32 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	}
	uSliceSlice struct {
		L []int32   `protobuf:"varint,1,rep"`
		M [][]int32 `protobuf:"varint,2,rep"`
	}
	uIface struct {
		R *types.Rec  `protobuf:"bytes,1,opt"`
		I interface{} `protobuf:"bytes,2,opt"`
	}
	uFunc struct {
		F func() `protobuf:"bytes,1,opt"`
	}
	uMapKey struct {
		M map[int8]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	uTag struct {
		V int32 `protobuf:"varint,1,opt"`
		W int32 `protobuf:"vari,2,opt"`
	}
	uNum struct {
		V int32 `protobuf:"varint,one,opt"`
	}
	uPtrPtrMsg struct {
		P **types.Rec `protobuf:"bytes,1,opt"`
	}
)

func unsupported() []reflect.Type {
	return []reflect.Type{reflect.TypeOf(uInt8{}), reflect.TypeOf(uFirst{}), reflect.TypeOf(uLast{}), reflect.TypeOf(uNested{}), reflect.TypeOf(uSlice{}), reflect.TypeOf(uMapVal{}),
		reflect.TypeOf(uCycA{}), reflect.TypeOf(uCycB{}), reflect.TypeOf(uCycC{}), reflect.TypeOf(uValue{}), reflect.TypeOf(uPtrSlice{}), reflect.TypeOf(uSliceMap{}), reflect.TypeOf(uMapSlice{}), reflect.TypeOf(uSliceSlice{}),
		reflect.TypeOf(uIface{}), reflect.TypeOf(uFunc{}), reflect.TypeOf(uMapKey{}), reflect.TypeOf(uTag{}), reflect.TypeOf(uNum{})}
}

type (
	structOne struct{ V int32 }
	structTwo struct {
		some  bool
		value int32
	}
	structOpt struct {
		Some  bool
		Value int32
	}
	namedLong   int64
	namedString string
	namedEnum   int32
)

// noFieldTypes are types no field of a message can have.
func noFieldTypes() []reflect.Type {
	var r []reflect.Type
	for _, v := range []interface{}{
		struct{}{}, structOne{}, structTwo{some: true, value: 1}, structOpt{}, types.Inner{},
		proto.Option[namedEnum]{}, proto.Option[namedLong]{}, proto.Option[namedString]{}, proto.Option[int]{}, proto.Option[int8]{}, proto.Option[uint8]{}, proto.Option[uint16]{},
		proto.Option[[]byte]{}, proto.Option[types.Inner]{}, proto.Option[*types.Inner]{}, proto.Option[proto.Option[int32]]{}, proto.Option[[4]int32]{}, proto.Option[complex64]{},
		Optional{}, Options{some: true, value: 1}, Option[int32]{some: true, value: 1}, Option[namedEnum]{}, Option[int64]{}, Option[string]{}, Option2[bool, int32]{some: true, value: 1}, Option2[int64, namedEnum]{}, derivedOption{},
		int(0), int8(0), int16(0), uint(0), uint8(0), uint16(0), uintptr(0), complex64(0), complex128(0),
		[0]int32{}, [3]int32{}, [4]byte{}, [8]byte{}, [1]string{}, make(chan int), func() {}, unsafe.Pointer(nil),
		[]int{}, []int8{}, []uint16{}, []bool8{}, []structOne{}, []types.Inner{}, [][]int32{}, [][]string{}, []proto.Option[int32]{}, []interface{}{}, [][4]byte{}, []map[string]int32{}, []chan int{},
		map[int]int32{}, map[int32]int{}, map[int8]int32{}, map[uint16]string{}, map[string]uint8{}, map[string][]int32{}, map[string]types.Inner{}, map[string]map[string]int32{}, map[types.Inner]int32{},
		map[string]proto.Option[int32]{}, map[proto.Option[int32]]string{}, map[[2]int32]string{}, map[string]interface{}{}, map[interface{}]string{}, map[string]func(){}, map[complex64]int32{},
		(*int)(nil), (*int8)(nil), (*uint16)(nil), (*[]int32)(nil), (*[]string)(nil), (*map[string]int32)(nil), (*interface{})(nil), (*[2]int32)(nil), (*chan int)(nil),
	} {
		r = append(r, reflect.TypeOf(v))
	}
	return append(r, reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*ifc)(nil)).Elem())
}

// Types of the user's own which look like proto.Option, by name or by layout.
type (
	Optional struct {
		Count int64
		Value int32
	}
	Options struct {
		some  bool
		value namedEnum
	}
	Option[T any] struct {
		some  bool
		value T
	}
	Option2[K, V any] struct {
		some  K
		value V
	}
	derivedOption proto.Option[int32]
)

type bool8 int8

// namesakes are pairs of types which differ, but not in their names (Name,
// PkgPath and String of the reflect types agree).
func namesakes() [][2]*model.Schema {
	one := func() [3]reflect.Type {
		type Leaf struct {
			X uint32 `protobuf:"varint,1,opt"`
		}
		type Host struct {
			L *Leaf `protobuf:"bytes,1,opt"`
		}
		type Bag struct {
			M map[string]*Leaf `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		}
		return [3]reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Host{}), reflect.TypeOf(Bag{})}
	}()
	two := func() [3]reflect.Type {
		type Leaf struct {
			A []int64 `protobuf:"zigzag64,3,rep"`
			Y string  `protobuf:"bytes,1,opt"`
		}
		type Host struct {
			L *Leaf `protobuf:"bytes,1,opt"`
		}
		type Bag struct {
			M map[string]*Leaf `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		}
		return [3]reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Host{}), reflect.TypeOf(Bag{})}
	}()
	l1 := model.Bind("first Leaf", one[0], model.F(1, model.Plain, model.Uint32))
	l2 := model.Bind("second Leaf", two[0], model.F(3, model.Rep, model.Sint64), model.F(1, model.Plain, model.String))
	return [][2]*model.Schema{
		{l1, l2},
		{model.Bind("first Host", one[1], model.FM(1, model.Plain, l1)), model.Bind("second Host", two[1], model.FM(1, model.Plain, l2))},
		{model.Bind("first Bag", one[2], model.FMap(1, model.String, model.Message, l1)), model.Bind("second Bag", two[2], model.FMap(1, model.String, model.Message, l2))},
	}
}

// hType is a type used in histories.
type hType struct {
	name string
	s    *model.Schema // nil: unsupported
	t    reflect.Type
	m    *model.Msg
	in   []byte
}

func histTypes() []hType {
	var r []hType
	add := func(name string, fs ...model.Field) {
		s := model.New("H"+strconv.Itoa(len(r)), fs...)
		m := model.NewMsg(s)
		for i := range m.F {
			vs := fieldValsRec(&s.Fields[i], gen.Tiny)
			m.F[i] = vs[len(vs)-1]
		}
		r = append(r, hType{name: name, s: s, t: s.Type, m: m, in: model.Encode(s, m)})
	}
	bind := func(s *model.Schema) {
		m := model.NewMsg(s)
		for i := range m.F {
			vs := fieldValsRec(&s.Fields[i], gen.Tiny)
			m.F[i] = vs[len(vs)-1]
		}
		r = append(r, hType{name: s.Label(), s: s, t: s.Type, m: m, in: model.Encode(s, m)})
	}
	quad := func(k model.Kind) []model.Field {
		return []model.Field{model.F(1, model.Plain, k), model.F(2, model.Rep, k), model.F(3, model.Ptr, k), model.FMap(4, model.String, k, nil)}
	}
	rev := func(k model.Kind) []model.Field {
		q := quad(k)
		return []model.Field{q[3], q[2], q[1], q[0]}
	}
	for _, k := range []model.Kind{model.Int32, model.Sint32, model.Sfixed32, model.Int64, model.Sint64, model.Sfixed64, model.Uint32, model.Fixed32, model.Uint64, model.Fixed64, model.Float, model.Double, model.Bool, model.String} {
		add("quad "+k.String(), quad(k)...)
	}
	for _, k := range []model.Kind{model.Int32, model.Sint32, model.Sfixed32} {
		add("reversed quad "+k.String(), rev(k)...)
	}
	add("maps int32", model.FMap(1, model.Int32, model.Int32, nil), model.FMap(2, model.Sint32, model.Int32, nil), model.FMap(3, model.Int32, model.Sint32, nil), model.FMap(4, model.Sfixed32, model.Sfixed32, nil))
	add("map zigzag", model.FMap(1, model.Sint32, model.Sint32, nil))
	add("map plain", model.FMap(1, model.Int32, model.Int32, nil))
	add("bytes", model.F(1, model.Plain, model.Bytes), model.F(2, model.Rep, model.Bytes), model.FMap(3, model.Int32, model.Bytes, nil))
	add("options", model.F(1, model.Opt, model.Int32), model.F(2, model.Opt, model.Sint32), model.F(3, model.Opt, model.Sfixed32), model.F(4, model.Opt, model.Uint64), model.F(5, model.Opt, model.Fixed64), model.F(6, model.Opt, model.String))
	add("message uses", model.FM(1, model.Plain, Leaf), model.FM(2, model.Rep, Leaf), model.FMap(3, model.Int32, model.Message, Leaf))
	add("message map only", model.FMap(3, model.Sint32, model.Message, Leaf))
	bind(Leaf)
	for _, s := range types.All() {
		bind(s)
	}
	for i, p := range namesakes() {
		// a type and its namesake, in one message and alone
		add("namesakes", model.FM(1, model.Plain, p[0]), model.FM(2, model.Plain, p[1]))
		switch i {
		case 0:
			add("namesakes in a map", model.FMap(1, model.Int32, model.Message, p[1]), model.FMap(2, model.Int32, model.Message, p[0]))
			add("namesakes in lists", model.FM(1, model.Rep, p[1]), model.FM(2, model.Rep, p[0]))
		case 1:
			add("other depth", model.FM(1, model.Plain, p[0]), model.FM(2, model.Plain, namesakes()[0][1]))
		}
		bind(p[0])
		bind(p[1])
	}
	for _, t := range unsupported() {
		r = append(r, hType{name: t.Name(), t: t, in: []byte{8, 1}})
	}
	return r
}

const histOps = 3 // Size, Marshal, Unmarshal

// histRun does one call and describes its result.
func histRun(t *hType, op int) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "panic"
		}
	}()
	arg := reflect.New(t.t)
	if t.s != nil {
		if op == 2 {
			arg = model.Fresh(t.s)
		} else {
			arg = model.ToGo(t.s, t.m)
		}
	}
	switch op {
	case 0:
		return "size " + strconv.Itoa(proto.Size(arg.Interface()))
	case 1:
		b, err := proto.Marshal(arg.Interface())
		if err != nil {
			return "error " + err.Error()
		}
		if t.s != nil {
			if x, err := model.Canonical(t.s, b); err == nil {
				return fmt.Sprintf("bytes %x", x)
			}
		}
		return fmt.Sprintf("raw %x", b)
	}
	if err := proto.Unmarshal(t.in, arg.Interface()); err != nil {
		return "error " + err.Error()
	}
	if t.s == nil {
		return "accepted"
	}
	m, err := model.FromGo(t.s, arg)
	if err != nil {
		return "broken " + err.Error()
	}
	return "message " + m.Key()
}

// histExpect is the result of the call according to the reference.
func histExpect(t *hType, op int) string {
	if t.s == nil {
		return "panic"
	}
	b := model.Encode(t.s, t.m)
	switch op {
	case 0:
		return "size " + strconv.Itoa(len(b))
	case 1:
		x, err := model.Canonical(t.s, b)
		if err != nil {
			panic(err)
		}
		return fmt.Sprintf("bytes %x", x)
	}
	want := model.NewMsg(t.s)
	model.Decode(t.s, t.in, want)
	return "message " + want.Key()
}

func histName(ts []hType, k int) string {
	return [...]string{"Size", "Marshal", "Unmarshal"}[k%histOps] + " " + ts[k/histOps].name
}

// childHist executes histories: the first calls of a process, then a call of
// everything ("*"), printing the results that differ from the reference.
func childHist(args []string) {
	ts := histTypes()
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	n := 0
	do := func(k int) {
		n++
		got, want := histRun(&ts[k/histOps], k%histOps), histExpect(&ts[k/histOps], k%histOps)
		if got != want {
			fmt.Fprintf(w, "DIFF call %d: %s gives %s, want %s\n", n, histName(ts, k), got, want)
		}
	}
	for _, a := range strings.Split(args[0], ",") {
		switch a {
		case "":
		case "*":
			for k := 0; k < len(ts)*histOps; k++ {
				do(k)
			}
		case "/": // in the other direction
			for k := len(ts)*histOps - 1; k >= 0; k-- {
				do(k)
			}
		default:
			k, _ := strconv.Atoi(a)
			do(k)
		}
	}
	fmt.Fprintf(w, "DONE %d\n", n)
}

// C08: order of first uses.
func c08(c *h.Ctx) {
	ts := histTypes()
	n := len(ts) * histOps
	desc := func(h []int) string {
		var p []string
		for _, k := range h {
			p = append(p, histName(ts, k))
		}
		return strings.Join(p, ", ")
	}
	run := func(hist []int, then string) {
		if !c.Case(func() string { return desc(hist) }) {
			return
		}
		c.SetRepro(func() string { return "// in a fresh process: " + desc(hist) + ", then every call once" })
		var p []string
		for _, k := range hist {
			p = append(p, strconv.Itoa(k))
		}
		if then != "" {
			p = append(p, then)
		}
		out, err := runSelf(c, 60*time.Second, "hist", strings.Join(p, ","))
		i := strings.Index(out, "DONE ")
		if err != nil || i < 0 {
			c.Fail("history [%s]: the process died: %v %s", desc(hist), err, firstLines(out, 2000))
			return
		}
		calls, _ := strconv.Atoi(strings.TrimSpace(out[i+5:]))
		c.Trans(calls)
		c.StateU(c.Pos())
		if strings.Contains(out, "DIFF") {
			c.Fail("history [%s]: %s", desc(hist), firstLines(out, 2000))
			return
		}
		c.Trace(1)
		c.Outcome("as alone")
	}
	if c.Family("alone in a fresh process") {
		for k := 0; k < n; k++ {
			if c.Unit(func() string { return histName(ts, k) }) {
				run([]int{k}, "")
			}
		}
	}
	if c.Family("two first uses, then everything") {
		for a := 0; a < n; a++ {
			if !c.Unit(func() string { return histName(ts, a) }) {
				continue
			}
			for b := 0; b < n; b++ {
				if !c.Thorough() && a%histOps != b%histOps && (a+b)%4 != 0 {
					continue // the second call: the same function of every type, and a spread of the others
				}
				then := "*"
				if (a+b)%2 == 1 {
					then = "/"
				}
				run([]int{a, b}, then)
			}
		}
	}
	if c.Thorough() && c.Family("three first uses, then everything") {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b += 1 {
				if a == b {
					continue
				}
				if !c.Unit(func() string { return histName(ts, a) + ", " + histName(ts, b) }) {
					continue
				}
				for d := 0; d < n; d++ {
					if (a+b+d)%histOps != 0 {
						continue
					}
					then := "*"
					if (a+b+d)/histOps%2 == 1 {
						then = "/"
					}
					run([]int{a, b, d}, then)
				}
			}
		}
	}

	// Within a type: every pair of fields of which one is not supported.
	if c.Family("unsupported fields beside others") {
		bad := []reflect.StructField{
			{Name: "X", Type: reflect.TypeOf(int8(0)), Tag: `protobuf:"varint,9,opt"`},
			{Name: "X", Type: reflect.TypeOf(uint16(0)), Tag: `protobuf:"fixed32,9,opt"`},
			{Name: "X", Type: reflect.TypeOf(0), Tag: `protobuf:"varint,9,opt"`},
			{Name: "X", Type: reflect.TypeOf((chan int)(nil)), Tag: `protobuf:"varint,9,opt"`},
			{Name: "X", Type: reflect.TypeOf((func())(nil)), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf((*interface{})(nil)).Elem(), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf(types.Inner{}), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf([]types.Inner(nil)), Tag: `protobuf:"bytes,9,rep"`},
			{Name: "X", Type: reflect.TypeOf(map[string]types.Inner(nil)), Tag: `protobuf:"bytes,9,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`},
			{Name: "X", Type: reflect.TypeOf([4]byte{}), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf([]int8(nil)), Tag: `protobuf:"varint,9,rep"`},
			{Name: "X", Type: reflect.TypeOf([][]int32(nil)), Tag: `protobuf:"varint,9,rep"`},
			{Name: "X", Type: reflect.TypeOf([]map[string]int32(nil)), Tag: `protobuf:"bytes,9,rep"`},
			{Name: "X", Type: reflect.TypeOf((*[]int32)(nil)), Tag: `protobuf:"varint,9,opt"`},
			{Name: "X", Type: reflect.TypeOf((*map[string]int32)(nil)), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf((*int16)(nil)), Tag: `protobuf:"varint,9,opt"`},
			{Name: "X", Type: reflect.TypeOf(map[string][]int32(nil)), Tag: `protobuf:"bytes,9,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`},
			{Name: "X", Type: reflect.TypeOf(map[int16]int32(nil)), Tag: `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`},
			{Name: "X", Type: reflect.TypeOf(int32(0)), Tag: `protobuf:"varint4,9,opt"`},
			{Name: "X", Type: reflect.TypeOf(int32(0)), Tag: `protobuf:"varint,x9,opt"`},
			{Name: "X", Type: reflect.TypeOf((*uInt8)(nil)), Tag: `protobuf:"bytes,9,opt"`},
			{Name: "X", Type: reflect.TypeOf([]*uCycA(nil)), Tag: `protobuf:"bytes,9,rep"`},
			{Name: "X", Type: reflect.TypeOf(map[int32]*uCycC(nil)), Tag: `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`},
		}
		panics := func(t reflect.Type, op int) bool {
			return h.Panics(func() {
				switch op {
				case 0:
					proto.Size(reflect.New(t).Interface())
				case 1:
					_, _ = proto.Marshal(reflect.New(t).Interface())
				case 2:
					_ = proto.Unmarshal([]byte{8, 1}, reflect.New(t).Interface())
				}
			}) != nil
		}
		for bi, x := range bad {
			for _, sh := range model.Shapes() {
				if !c.Unit(func() string { return fmt.Sprintf("%v %s with %v", x.Type, x.Tag, sh) }) {
					continue
				}
				for v := 0; v < 6; v++ {
					good := model.New(fmt.Sprintf("P%dq%d", bi, v), sh.Of(1, Leaf))
					g := good.Type.Field(0)
					g.Name = "G" + g.Name
					var t reflect.Type
					switch v {
					case 0:
						t = reflect.StructOf([]reflect.StructField{g, x})
					case 1:
						t = reflect.StructOf([]reflect.StructField{x, g})
					default:
						// a message that contains both kinds of message
						xx := x
						xx.Name = fmt.Sprintf("X%dw%d", bi, v)
						bt := reflect.StructOf([]reflect.StructField{g, xx})
						gf := reflect.StructField{Name: "M", Type: reflect.PtrTo(good.Type), Tag: `protobuf:"bytes,1,opt"`}
						var bf reflect.StructField
						switch v {
						case 2, 3:
							bf = reflect.StructField{Name: "B", Type: reflect.PtrTo(bt), Tag: `protobuf:"bytes,2,opt"`}
						case 4:
							bf = reflect.StructField{Name: "B", Type: reflect.SliceOf(reflect.PtrTo(bt)), Tag: `protobuf:"bytes,2,rep"`}
						case 5:
							bf = reflect.StructField{Name: "B", Type: reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(bt)), Tag: `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`}
						}
						if v == 3 {
							t = reflect.StructOf([]reflect.StructField{bf, gf})
						} else {
							t = reflect.StructOf([]reflect.StructField{gf, bf})
						}
					}
					for first := 0; first < 3; first++ {
						if first > 0 && !c.Thorough() && (bi+v)%3 != first {
							continue
						}
						if !c.Case(func() string { return fmt.Sprintf("arrangement %d, first call %d", v, first) }) {
							continue
						}
						before := len(c.R.Violations)
						for _, op := range []int{first, (first + 1) % 3, (first + 2) % 3, first} {
							c.Trans(1)
							if !panics(t, op) {
								c.Fail("%s of %v does not panic", [...]string{"Size", "Marshal", "Unmarshal"}[op], t)
							}
						}
						c.Guard("call", func() {
							// the supported part of it works
							for _, fv := range gen.FieldVals(&good.Fields[0], gen.Tiny) {
								m := model.NewMsg(good)
								m.F[0] = fv
								b, err := proto.Marshal(model.ToGo(good, m).Interface())
								q := model.Fresh(good)
								err2 := proto.Unmarshal(b, q.Interface())
								c.Trans(2)
								if err != nil || err2 != nil {
									c.Fail("afterwards: %v %v", err, err2)
									return
								}
								got, _ := model.FromGo(good, q)
								if d := model.Diff(m, got); d != "" {
									c.Fail("afterwards: %s", d)
								}
							}
						})
						c.StateU(uint64(bi), c.Pos())
						if len(c.R.Violations) == before {
							c.Trace(1)
						}
					}
				}
			}
		}
	}
	// Every Go type that is no field type, under every tag, wherever a message
	// can stand.
	if c.Family("unsupported types under every tag") {
		ops := [...]string{"Size", "Marshal", "Unmarshal"}
		for ti, t := range noFieldTypes() {
			if !c.Unit(func() string { return t.String() }) {
				continue
			}
			for gi, tag := range []string{"varint", "bytes", "fixed32", "fixed64", "zigzag32", "zigzag64"} {
				if t == reflect.TypeOf(proto.Option[namedEnum]{}) && tag == "varint" {
					continue // an enum with presence
				}
				card, more := "opt", ""
				switch {
				case t.Kind() == reflect.Slice:
					card = "rep"
				case t.Kind() == reflect.Map:
					card, more = "rep", fmt.Sprintf(` protobuf_key:"varint,1,opt" protobuf_val:"%s,2,opt"`, tag)
				}
				for place := 0; place < 5; place++ {
					for first := 0; first < 3; first++ {
						if !c.Case(func() string {
							return fmt.Sprintf("tag %s, place %d, first call %s", tag, place, ops[first])
						}) {
							continue
						}
						before := len(c.R.Violations)
						// named by its place, so that each case has types of its own
						f := reflect.StructField{Name: fmt.Sprintf("U%dx%dx%dx%d", ti, gi, place, first), Type: t, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s,5,%s"%s`, tag, card, more))}
						st := reflect.StructOf([]reflect.StructField{f})
						switch place {
						case 1:
							st = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(int32(0)), Tag: `protobuf:"varint,1,opt"`}, f, {Name: "B", Type: reflect.TypeOf(""), Tag: `protobuf:"bytes,2,opt"`}})
						case 2:
							st = reflect.StructOf([]reflect.StructField{{Name: "M", Type: reflect.PtrTo(st), Tag: `protobuf:"bytes,1,opt"`}})
						case 3:
							st = reflect.StructOf([]reflect.StructField{{Name: "M", Type: reflect.SliceOf(reflect.PtrTo(st)), Tag: `protobuf:"bytes,1,rep"`}})
						case 4:
							st = reflect.StructOf([]reflect.StructField{{Name: "M", Type: reflect.MapOf(reflect.TypeOf(int32(0)), reflect.PtrTo(st)), Tag: `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`}})
						}
						for i := 0; i < 4; i++ {
							op := (first + i) % 3
							c.Trans(1)
							got := h.Panics(func() {
								v := reflect.New(st).Interface()
								switch op {
								case 0:
									proto.Size(v)
								case 1:
									_, _ = proto.Marshal(v)
								case 2:
									_ = proto.Unmarshal([]byte{8, 1}, v)
								}
							})
							if got == nil {
								c.Fail("%s of %v (call %d) does not panic", ops[op], st, i+1)
							}
						}
						c.StateU(uint64(ti), c.Pos())
						if len(c.R.Violations) == before {
							c.Trace(1)
						}
					}
				}
			}
		}
	}
	// Within a type: the field alone and after another field, as types.
	if c.Family("fields after fields") {
		shapes := model.Shapes()
		for i, a := range shapes {
			if !c.Unit(func() string { return a.String() }) {
				continue
			}
			for j, b := range shapes {
				if !c.Case(func() string { return fmt.Sprintf("%v then %v", a, b) }) {
					continue
				}
				before := len(c.R.Violations)
				c.Guard("call", func() {
					for op := 0; op < histOps; op++ {
						// a new type per first call
						if op != (i+j)%histOps && !c.Thorough() {
							continue
						}
						name := fmt.Sprintf("Q%d", op)
						s := model.New(name, a.Of(1, Leaf), b.Of(2, Leaf))
						m := model.NewMsg(s)
						for k := range m.F {
							vs := gen.FieldVals(&s.Fields[k], gen.Tiny)
							m.F[k] = vs[len(vs)-1]
						}
						t := hType{s: s, t: s.Type, m: m, in: model.Encode(s, m)}
						for k := 0; k < histOps; k++ {
							o := (op + k) % histOps
							c.Trans(1)
							if got, want := histRun(&t, o), histExpect(&t, o); got != want {
								c.Fail("first call %d, call %d of %v: %s, want %s", op, o, s, got, want)
							}
						}
					}
				})
				c.StateU(uint64(i), uint64(j))
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
			}
		}
	}
}
