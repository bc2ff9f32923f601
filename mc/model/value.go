package model

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

// Val is one scalar or message value. Numbers are stored as raw bits: 32-bit
// kinds zero-extended from their 32 bits, bool as 0 or 1.
type Val struct {
	U     uint64
	S     string
	M     *Msg
	Nil   bool // nil message pointer
	NilOK bool // (expected values) a nil message pointer is as good
}

// Entry is a map entry.
type Entry struct{ K, V Val }

// FieldVal is the value of a field. Set is presence (plain scalars: non-zero).
type FieldVal struct {
	Set bool
	V   Val
	L   []Val   // repeated
	E   []Entry // map, sorted by key
}

// Msg is an abstract message value; F is parallel to the schema's fields.
type Msg struct{ F []FieldVal }

// NewMsg is the empty message of a schema.
func NewMsg(s *Schema) *Msg { return &Msg{F: make([]FieldVal, len(s.Fields))} }

// Clone is a deep copy.
func (m *Msg) Clone() *Msg {
	if m == nil {
		return nil
	}
	c := &Msg{F: make([]FieldVal, len(m.F))}
	for i := range m.F {
		c.F[i] = m.F[i].Clone()
	}
	return c
}

// Clone is a deep copy.
func (f FieldVal) Clone() FieldVal {
	f.V = f.V.clone()
	if f.L != nil {
		f.L = append([]Val(nil), f.L...)
		for j := range f.L {
			f.L[j] = f.L[j].clone()
		}
	}
	if f.E != nil {
		f.E = append([]Entry(nil), f.E...)
		for j := range f.E {
			f.E[j].V = f.E[j].V.clone()
		}
	}
	return f
}

func (v Val) clone() Val {
	v.M = v.M.Clone()
	return v
}

func lessVal(a, b Val) bool {
	if a.S != b.S {
		return a.S < b.S
	}
	return a.U < b.U
}

// SortEntries brings map entries into canonical order.
func SortEntries(e []Entry) {
	sort.Slice(e, func(i, j int) bool { return lessVal(e[i].K, e[j].K) })
}

// Diff compares an expected with an actual message and describes the first
// difference, or returns "".
func Diff(want, got *Msg) string {
	for i := range want.F {
		w, g := &want.F[i], &got.F[i]
		if w.Set != g.Set {
			return fmt.Sprintf("field#%d: set=%v, want %v", i, g.Set, w.Set)
		}
		if w.Set {
			if d := diffVal(w.V, g.V); d != "" {
				return fmt.Sprintf("field#%d: %s", i, d)
			}
		}
		if len(w.L) != len(g.L) {
			return fmt.Sprintf("field#%d: %d elements, want %d", i, len(g.L), len(w.L))
		}
		for j := range w.L {
			if d := diffVal(w.L[j], g.L[j]); d != "" {
				return fmt.Sprintf("field#%d[%d]: %s", i, j, d)
			}
		}
		if len(w.E) != len(g.E) {
			return fmt.Sprintf("field#%d: %d entries, want %d", i, len(g.E), len(w.E))
		}
		for j := range w.E {
			if w.E[j].K.U != g.E[j].K.U || w.E[j].K.S != g.E[j].K.S {
				return fmt.Sprintf("field#%d: key %v, want %v", i, g.E[j].K, w.E[j].K)
			}
			if d := diffVal(w.E[j].V, g.E[j].V); d != "" {
				return fmt.Sprintf("field#%d[key %v]: %s", i, w.E[j].K, d)
			}
		}
	}
	return ""
}

func diffVal(w, g Val) string {
	if w.U != g.U || w.S != g.S {
		return fmt.Sprintf("%v, want %v", g, w)
	}
	if w.Nil != g.Nil {
		if g.Nil && w.NilOK {
			return ""
		}
		return fmt.Sprintf("%v, want %v", g, w)
	}
	if (w.M == nil) != (g.M == nil) {
		return fmt.Sprintf("%v, want %v", g, w)
	}
	if w.M != nil {
		return Diff(w.M, g.M)
	}
	return ""
}

func (v Val) String() string {
	switch {
	case v.Nil:
		return "nil"
	case v.M != nil:
		return v.M.String()
	case v.S != "":
		if len(v.S) > 40 {
			return fmt.Sprintf("%q..(%d)", v.S[:16], len(v.S))
		}
		return strconv.Quote(v.S)
	}
	return "0x" + strconv.FormatUint(v.U, 16)
}

// String is a canonical rendering, used for state identity and reports.
func (m *Msg) String() string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	m.render(&b, false)
	return b.String()
}

// Key is String without abbreviations.
func (m *Msg) Key() string {
	var b strings.Builder
	m.render(&b, true)
	return b.String()
}

func (m *Msg) render(b *strings.Builder, full bool) {
	rv := func(v Val) {
		switch {
		case v.M != nil && !v.Nil:
			v.M.render(b, full)
		case full && v.S != "":
			b.WriteString(strconv.Quote(v.S))
		default:
			b.WriteString(v.String())
		}
	}
	b.WriteByte('{')
	for i := range m.F {
		f := &m.F[i]
		if i > 0 {
			b.WriteByte(' ')
		}
		switch {
		case len(f.L) > 0:
			b.WriteByte('[')
			for j, v := range f.L {
				if j > 0 {
					b.WriteByte(',')
				}
				if !full && j == 8 {
					fmt.Fprintf(b, "..%d", len(f.L))
					break
				}
				rv(v)
			}
			b.WriteByte(']')
		case len(f.E) > 0:
			b.WriteByte('<')
			for j, e := range f.E {
				if j > 0 {
					b.WriteByte(',')
				}
				if !full && j == 8 {
					fmt.Fprintf(b, "..%d", len(f.E))
					break
				}
				rv(e.K)
				b.WriteByte(':')
				rv(e.V)
			}
			b.WriteByte('>')
		case f.Set:
			rv(f.V)
		default:
			b.WriteByte('-')
		}
	}
	b.WriteByte('}')
}

// ---- Go values ----

func setScalar(k Kind, dst reflect.Value, v Val) {
	switch k {
	case Bool:
		dst.SetBool(v.U != 0)
	case Int32, Sint32, Sfixed32:
		dst.SetInt(int64(int32(v.U)))
	case Int64, Sint64, Sfixed64:
		dst.SetInt(int64(v.U))
	case Uint32, Fixed32:
		dst.SetUint(uint64(uint32(v.U)))
	case Uint64, Fixed64:
		dst.SetUint(v.U)
	case Float:
		*(*float32)(dst.Addr().UnsafePointer()) = math.Float32frombits(uint32(v.U))
	case Double:
		dst.SetFloat(math.Float64frombits(v.U))
	case String:
		dst.SetString(v.S)
	case Bytes:
		b := make([]byte, len(v.S))
		copy(b, v.S)
		dst.SetBytes(b)
	}
}

var tFloat32 = reflect.TypeOf(float32(0))

func getScalar(k Kind, src reflect.Value) Val {
	switch k {
	case Bool:
		if src.Bool() {
			return Val{U: 1}
		}
		return Val{}
	case Int32, Sint32, Sfixed32:
		return Val{U: uint64(uint32(src.Int()))}
	case Int64, Sint64, Sfixed64:
		return Val{U: uint64(src.Int())}
	case Uint32, Fixed32, Uint64, Fixed64:
		return Val{U: src.Uint()}
	case Float:
		// not src.Float(): converting would quiet a signalling NaN
		return Val{U: uint64(math.Float32bits(src.Convert(tFloat32).Interface().(float32)))}
	case Double:
		return Val{U: math.Float64bits(src.Float())}
	case String:
		return Val{S: strings.Clone(src.String())}
	case Bytes:
		return Val{S: string(src.Bytes())}
	}
	panic("model: kind")
}

func makeOption(k Kind, set bool, v Val) reflect.Value {
	if !set {
		return reflect.Zero(goOption[goScalar[k]])
	}
	var x interface{}
	switch k {
	case Bool:
		x = proto.Some(v.U != 0)
	case Int32, Sint32, Sfixed32:
		x = proto.Some(int32(v.U))
	case Int64, Sint64, Sfixed64:
		x = proto.Some(int64(v.U))
	case Uint32, Fixed32:
		x = proto.Some(uint32(v.U))
	case Uint64, Fixed64:
		x = proto.Some(v.U)
	case Float:
		x = proto.Some(math.Float32frombits(uint32(v.U)))
	case Double:
		x = proto.Some(math.Float64frombits(v.U))
	case String:
		x = proto.Some(v.S)
	}
	return reflect.ValueOf(x)
}

var optCtor = map[reflect.Type]func(Val) interface{}{}
var optRead = map[reflect.Type]func(interface{}) (bool, Val){}

// RegisterEnumOption makes Option[E] usable in bound types.
func RegisterEnumOption[E ~int32]() {
	t := reflect.TypeOf(proto.Option[E]{})
	optCtor[t] = func(v Val) interface{} { return proto.Some(E(int32(v.U))) }
	optRead[t] = func(x interface{}) (bool, Val) {
		o := x.(proto.Option[E])
		return o.IsSome(), Val{U: uint64(uint32(o.Unwrap()))}
	}
}

func readOption(src reflect.Value) (bool, Val) {
	if f := optRead[src.Type()]; f != nil {
		return f(src.Interface())
	}
	switch o := src.Interface().(type) {
	case proto.Option[bool]:
		if o.Unwrap() {
			return o.IsSome(), Val{U: 1}
		}
		return o.IsSome(), Val{}
	case proto.Option[int32]:
		return o.IsSome(), Val{U: uint64(uint32(o.Unwrap()))}
	case proto.Option[int64]:
		return o.IsSome(), Val{U: uint64(o.Unwrap())}
	case proto.Option[uint32]:
		return o.IsSome(), Val{U: uint64(o.Unwrap())}
	case proto.Option[uint64]:
		return o.IsSome(), Val{U: o.Unwrap()}
	case proto.Option[float32]:
		return o.IsSome(), Val{U: uint64(math.Float32bits(o.Unwrap()))}
	case proto.Option[float64]:
		return o.IsSome(), Val{U: math.Float64bits(o.Unwrap())}
	case proto.Option[string]:
		return o.IsSome(), Val{S: strings.Clone(o.Unwrap())}
	}
	if isEnumOption(src.Type()) && src.CanAddr() {
		o := *(*proto.Option[int32])(src.Addr().UnsafePointer())
		return o.IsSome(), Val{U: uint64(uint32(o.Unwrap()))}
	}
	panic("model: option type " + src.Type().String())
}

// isEnumOption: Option[E] for an enum type E, which has the layout of
// Option[int32].
func isEnumOption(t reflect.Type) bool {
	o := reflect.TypeOf(proto.Option[int32]{})
	if t.Kind() != reflect.Struct || t.PkgPath() != o.PkgPath() || !strings.HasPrefix(t.Name(), "Option[") || t.NumField() != o.NumField() {
		return false
	}
	for i := 0; i < o.NumField(); i++ {
		if t.Field(i).Type.Kind() != o.Field(i).Type.Kind() || t.Field(i).Offset != o.Field(i).Offset {
			return false
		}
	}
	return true
}

func toElem(k Kind, m *Schema, dst reflect.Value, v Val) {
	if k == Message {
		if v.Nil || v.M == nil {
			return
		}
		dst.Set(ToGo(m, v.M))
		return
	}
	setScalar(k, dst, v)
}

// ToGo builds the Go message (a pointer to a struct) of an abstract value.
func ToGo(s *Schema, m *Msg) reflect.Value {
	p := reflect.New(s.Type)
	WriteGo(s, m, p.Elem())
	return p
}

var canary = [canaryLen]byte{0xA5, 0x5A, 0xC3, 0x3C, 0x96}

// Fresh is a new empty Go message with its guard fields initialized.
func Fresh(s *Schema) reflect.Value {
	p := reflect.New(s.Type)
	if s.canaries != nil {
		ArmCanaries(s, p.Elem())
	}
	return p
}

// ArmCanaries fills the guard fields.
func ArmCanaries(s *Schema, e reflect.Value) {
	for _, c := range s.canaries {
		*e.Field(c).Addr().Interface().(*[canaryLen]byte) = canary
	}
}

// WriteGo writes an abstract value into a zero Go struct.
func WriteGo(s *Schema, m *Msg, e reflect.Value) {
	ArmCanaries(s, e)
	for i := range s.Fields {
		WriteField(s, i, &m.F[i], e)
	}
}

// GoField is the Go struct field of schema field i.
func GoField(s *Schema, i int, e reflect.Value) reflect.Value { return e.Field(s.idx[i]) }

// WriteField writes one field.
func WriteField(s *Schema, i int, fv *FieldVal, e reflect.Value) {
	f := &s.Fields[i]
	dst := e.Field(s.idx[i])
	switch f.Card {
	case Plain:
		if fv.Set {
			toElem(f.Kind, f.Msg, dst, fv.V)
		}
	case Opt:
		if c := optCtor[dst.Type()]; c != nil {
			if fv.Set {
				dst.Set(reflect.ValueOf(c(fv.V)))
			}
			return
		}
		if o := makeOption(f.Kind, fv.Set, fv.V); o.Type() == dst.Type() {
			dst.Set(o)
		} else if isEnumOption(dst.Type()) && goScalar[f.Kind].Kind() == reflect.Int32 {
			reflect.NewAt(o.Type(), dst.Addr().UnsafePointer()).Elem().Set(o)
		} else {
			panic(fmt.Sprintf("model: a %v field cannot hold optional %v", dst.Type(), f.Kind))
		}
	case Ptr:
		if fv.Set {
			p := reflect.New(dst.Type().Elem())
			setScalar(f.Kind, p.Elem(), fv.V)
			dst.Set(p)
		}
	case Rep:
		if len(fv.L) == 0 {
			return
		}
		l := reflect.MakeSlice(dst.Type(), len(fv.L), len(fv.L))
		for j, v := range fv.L {
			toElem(f.Kind, f.Msg, l.Index(j), v)
		}
		dst.Set(l)
	case Map:
		if len(fv.E) == 0 {
			return
		}
		mm := reflect.MakeMapWithSize(dst.Type(), len(fv.E))
		for _, en := range fv.E {
			k := reflect.New(dst.Type().Key()).Elem()
			setScalar(f.Key, k, en.K)
			v := reflect.New(dst.Type().Elem()).Elem()
			toElem(f.Kind, f.Msg, v, en.V)
			mm.SetMapIndex(k, v)
		}
		dst.Set(mm)
	}
}

// Update makes a Go struct hold m. In place: pointers, slices and maps that
// are there are kept and what they hold is modified; otherwise fields are
// assigned anew.
func Update(s *Schema, m *Msg, e reflect.Value, inPlace bool) {
	for i := range s.Fields {
		f, fv := &s.Fields[i], &m.F[i]
		dst := e.Field(s.idx[i])
		if !inPlace {
			dst.Set(reflect.Zero(dst.Type()))
			WriteField(s, i, fv, e)
			continue
		}
		switch {
		case f.Card == Plain && f.Kind == Message && fv.Set && !fv.V.Nil && fv.V.M != nil && !dst.IsNil():
			Update(f.Msg, fv.V.M, dst.Elem(), true)
		case f.Card == Plain && f.Kind == Bytes && fv.Set && len(fv.V.S) <= dst.Cap() && dst.Cap() > 0:
			l := dst.Slice(0, len(fv.V.S))
			copy(l.Bytes(), fv.V.S)
			dst.Set(l)
		case f.Card == Ptr && fv.Set && !dst.IsNil():
			setScalar(f.Kind, dst.Elem(), fv.V)
		case f.Card == Rep && !dst.IsNil():
			l := dst.Slice(0, 0)
			for j, v := range fv.L {
				if j < dst.Len() {
					l = dst.Slice(0, j+1)
					updateElem(f, l.Index(j), v)
					continue
				}
				x := reflect.New(dst.Type().Elem()).Elem()
				toElem(f.Kind, f.Msg, x, v)
				l = reflect.Append(l, x)
			}
			dst.Set(l)
		case f.Card == Map && !dst.IsNil():
			keep := map[interface{}]bool{}
			for _, en := range fv.E {
				k := reflect.New(dst.Type().Key()).Elem()
				setScalar(f.Key, k, en.K)
				keep[k.Interface()] = true
				x := reflect.New(dst.Type().Elem()).Elem()
				if old := dst.MapIndex(k); old.IsValid() {
					x.Set(old)
				}
				updateElem(f, x, en.V)
				dst.SetMapIndex(k, x)
			}
			for _, k := range dst.MapKeys() {
				if !keep[k.Interface()] {
					dst.SetMapIndex(k, reflect.Value{})
				}
			}
		default:
			dst.Set(reflect.Zero(dst.Type()))
			WriteField(s, i, fv, e)
		}
	}
}

func updateElem(f *Field, dst reflect.Value, v Val) {
	if f.Kind == Message && !v.Nil && v.M != nil && !dst.IsNil() {
		Update(f.Msg, v.M, dst.Elem(), true)
		return
	}
	if f.Kind == Bytes && dst.Cap() > 0 && len(v.S) <= dst.Cap() {
		l := dst.Slice(0, len(v.S))
		copy(l.Bytes(), v.S)
		dst.Set(l)
		return
	}
	dst.Set(reflect.Zero(dst.Type()))
	toElem(f.Kind, f.Msg, dst, v)
}

func fromElem(k Kind, m *Schema, src reflect.Value) (Val, error) {
	if k == Message {
		if src.IsNil() {
			return Val{Nil: true}, nil
		}
		x, err := fromGo(m, src, false)
		return Val{M: x}, err
	}
	return getScalar(k, src), nil
}

// FromGo reads a Go message back; it fails if a guard field was overwritten.
func FromGo(s *Schema, p reflect.Value) (*Msg, error) { return fromGo(s, p, true) }

func fromGo(s *Schema, p reflect.Value, top bool) (*Msg, error) {
	m := NewMsg(s)
	e := p.Elem()
	for i := range s.Fields {
		f := &s.Fields[i]
		src := e.Field(s.idx[i])
		fv := &m.F[i]
		switch f.Card {
		case Plain:
			switch f.Kind {
			case Message:
				if !src.IsNil() {
					x, err := fromGo(f.Msg, src, false)
					if err != nil {
						return nil, err
					}
					fv.Set, fv.V = true, Val{M: x}
				}
			case Bytes:
				if !src.IsNil() {
					fv.Set, fv.V = true, getScalar(Bytes, src)
				}
			default:
				fv.V = getScalar(f.Kind, src)
				fv.Set = fv.V.U != 0 || fv.V.S != ""
			}
		case Opt:
			fv.Set, fv.V = readOption(src)
			if !fv.Set {
				fv.V = Val{}
			}
		case Ptr:
			if !src.IsNil() {
				fv.Set, fv.V = true, getScalar(f.Kind, src.Elem())
			}
		case Rep:
			if n := src.Len(); n > 0 {
				fv.L = make([]Val, n)
				for j := range fv.L {
					v, err := fromElem(f.Kind, f.Msg, src.Index(j))
					if err != nil {
						return nil, err
					}
					fv.L[j] = v
				}
			}
		case Map:
			if n := src.Len(); n > 0 {
				fv.E = make([]Entry, 0, n)
				it := src.MapRange()
				for it.Next() {
					v, err := fromElem(f.Kind, f.Msg, it.Value())
					if err != nil {
						return nil, err
					}
					fv.E = append(fv.E, Entry{K: getScalar(f.Key, it.Key()), V: v})
				}
				SortEntries(fv.E)
			}
		}
	}
	for _, c := range s.canaries {
		// nested messages made by the decoder have zero guard fields
		g := *e.Field(c).Addr().Interface().(*[canaryLen]byte)
		if g != canary && (g != [canaryLen]byte{} || top) {
			return nil, fmt.Errorf("guard field %d was overwritten: %v", c, e.Field(c).Interface())
		}
	}
	return m, nil
}

// GoField is the Go field of field i of the message p points to.
func (s *Schema) GoField(p reflect.Value, i int) reflect.Value { return p.Elem().Field(s.idx[i]) }
