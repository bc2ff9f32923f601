// Package model is the reference model the checks compare the implementation
// with: message schemas, abstract message values, a reference encoder and a
// reference decoder written directly from the protobuf wire format. It is kept
// deliberately simple and shares no code with the implementation.
package model

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

// Kind is a protobuf field kind.
type Kind uint8

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	String
	Bytes
	Message
	NumKinds
)

var kindNames = [...]string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes", "message"}

func (k Kind) String() string { return kindNames[k] }

// Wire types.
const (
	WVarint  = 0
	WFixed64 = 1
	WBytes   = 2
	WFixed32 = 5
)

// Wire returns the wire type of a kind.
func (k Kind) Wire() int {
	switch k {
	case Fixed32, Sfixed32, Float:
		return WFixed32
	case Fixed64, Sfixed64, Double:
		return WFixed64
	case String, Bytes, Message:
		return WBytes
	}
	return WVarint
}

// Is32 reports whether values of the kind are 32 bits wide.
func (k Kind) Is32() bool {
	switch k {
	case Int32, Uint32, Sint32, Fixed32, Sfixed32, Float:
		return true
	}
	return false
}

func (k Kind) tagWord() string {
	switch k {
	case Sint32:
		return "zigzag32"
	case Sint64:
		return "zigzag64"
	case Fixed32, Sfixed32, Float:
		return "fixed32"
	case Fixed64, Sfixed64, Double:
		return "fixed64"
	case String, Bytes, Message:
		return "bytes"
	}
	return "varint"
}

// Card is the cardinality / Go representation of a field.
type Card uint8

const (
	Plain Card = iota // T; *Struct for messages, nullable []byte for bytes
	Opt               // proto.Option[T]
	Ptr               // *T
	Rep               // []T
	Map               // map[K]T
)

var cardNames = [...]string{"plain", "opt", "ptr", "rep", "map"}

func (c Card) String() string { return cardNames[c] }

// Field is one field of a message.
type Field struct {
	Num  int
	Kind Kind // value kind for maps
	Card Card
	Key  Kind    // maps only
	Msg  *Schema // message kind only
	Req  bool    // emit the "req" label
}

func (f *Field) String() string {
	t := f.Kind.String()
	if f.Kind == Message {
		t = f.Msg.String()
	}
	if f.Card == Map {
		return fmt.Sprintf("map<%s,%s>=%d", f.Key, t, f.Num)
	}
	return fmt.Sprintf("%s %s=%d", f.Card, t, f.Num)
}

// Shape is a field without its number.
type Shape struct {
	Kind Kind
	Card Card
	Key  Kind
}

func (s Shape) String() string {
	if s.Card == Map {
		return fmt.Sprintf("map<%s,%s>", s.Key, s.Kind)
	}
	return s.Card.String() + " " + s.Kind.String()
}

// Schema is a message type bound to a Go struct type.
type Schema struct {
	Name     string // only used to make distinct Go types for equal schemas
	Fields   []Field
	Type     reflect.Type
	idx      []int // Go field index per schema field
	canaries []int
	byNum    map[int]int
	label    string
	cached   string
	Loose    bool // names of Go fields carry no prefix (hand written types)
}

// Label is a cached String.
func (s *Schema) Label() string {
	if s.cached == "" {
		s.cached = s.String()
	}
	return s.cached
}

func (s *Schema) String() string {
	if s.label != "" {
		return s.label
	}
	var p []string
	for i := range s.Fields {
		p = append(p, s.Fields[i].String())
	}
	return "{" + strings.Join(p, "; ") + "}"
}

var goScalar = [...]reflect.Type{
	Bool:     reflect.TypeOf(false),
	Int32:    reflect.TypeOf(int32(0)),
	Int64:    reflect.TypeOf(int64(0)),
	Uint32:   reflect.TypeOf(uint32(0)),
	Uint64:   reflect.TypeOf(uint64(0)),
	Sint32:   reflect.TypeOf(int32(0)),
	Sint64:   reflect.TypeOf(int64(0)),
	Fixed32:  reflect.TypeOf(uint32(0)),
	Fixed64:  reflect.TypeOf(uint64(0)),
	Sfixed32: reflect.TypeOf(int32(0)),
	Sfixed64: reflect.TypeOf(int64(0)),
	Float:    reflect.TypeOf(float32(0)),
	Double:   reflect.TypeOf(float64(0)),
	String:   reflect.TypeOf(""),
	Bytes:    reflect.TypeOf([]byte(nil)),
}

var goOption = map[reflect.Type]reflect.Type{
	reflect.TypeOf(false):      reflect.TypeOf(proto.Option[bool]{}),
	reflect.TypeOf(int32(0)):   reflect.TypeOf(proto.Option[int32]{}),
	reflect.TypeOf(int64(0)):   reflect.TypeOf(proto.Option[int64]{}),
	reflect.TypeOf(uint32(0)):  reflect.TypeOf(proto.Option[uint32]{}),
	reflect.TypeOf(uint64(0)):  reflect.TypeOf(proto.Option[uint64]{}),
	reflect.TypeOf(float32(0)): reflect.TypeOf(proto.Option[float32]{}),
	reflect.TypeOf(float64(0)): reflect.TypeOf(proto.Option[float64]{}),
	reflect.TypeOf(""):         reflect.TypeOf(proto.Option[string]{}),
}

func goElem(k Kind, m *Schema) reflect.Type {
	if k == Message {
		return reflect.PtrTo(m.Type)
	}
	return goScalar[k]
}

// GoType is the Go type of a field.
func (f *Field) GoType() reflect.Type {
	e := goElem(f.Kind, f.Msg)
	switch f.Card {
	case Opt:
		return goOption[e]
	case Ptr:
		return reflect.PtrTo(e)
	case Rep:
		return reflect.SliceOf(e)
	case Map:
		return reflect.MapOf(goElem(f.Key, nil), e)
	}
	return e
}

// Tag is the struct tag of a field, as the generator writes it.
func (f *Field) Tag() string {
	lab := "opt"
	if f.Card == Rep || f.Card == Map {
		lab = "rep"
	}
	if f.Req {
		lab = "req"
	}
	if f.Card == Map {
		return fmt.Sprintf(`protobuf:"bytes,%d,rep" protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`, f.Num, f.Key.tagWord(), f.Kind.tagWord())
	}
	return fmt.Sprintf(`protobuf:"%s,%d,%s"`, f.Kind.tagWord(), f.Num, lab)
}

const canaryLen = 5

var canaryType = reflect.TypeOf([canaryLen]byte{})

// New builds the Go struct type of a schema. name distinguishes Go types of
// otherwise equal schemas (the implementation caches by Go type).
func New(name string, fields ...Field) *Schema { return build(name, false, fields) }

// NewCanary is New with untagged guard fields around every field.
func NewCanary(name string, fields ...Field) *Schema { return build(name, true, fields) }

// NewPadded is New with pad untagged bytes (a multiple of 8) before each field.
func NewPadded(name string, pad int, fields ...Field) *Schema {
	s := &Schema{Name: name, Fields: fields, byNum: map[int]int{}}
	var sf []reflect.StructField
	for i := range fields {
		f := &fields[i]
		if pad > 0 {
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("G%s%d", name, i), Type: reflect.ArrayOf(pad/8, reflect.TypeOf(uint64(0)))})
		}
		s.idx = append(s.idx, len(sf))
		s.byNum[f.Num] = i
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%s%d", name, i), Type: f.GoType(), Tag: reflect.StructTag(f.Tag())})
	}
	s.Type = reflect.StructOf(sf)
	return s
}

func build(name string, canary bool, fields []Field) *Schema {
	s := &Schema{Name: name, Fields: fields, byNum: map[int]int{}}
	var sf []reflect.StructField
	addCanary := func() {
		if canary {
			s.canaries = append(s.canaries, len(sf))
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("G%s%d", name, len(sf)), Type: canaryType})
		}
	}
	addCanary()
	for i := range fields {
		f := &fields[i]
		s.idx = append(s.idx, len(sf))
		s.byNum[f.Num] = i
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%s%d", name, i), Type: f.GoType(), Tag: reflect.StructTag(f.Tag())})
		addCanary()
	}
	s.Type = reflect.StructOf(sf)
	return s
}

// Bind describes a hand-written Go struct type: fields are matched in order
// with the exported fields that carry a protobuf tag. It may be called before
// the Msg schemas of its fields are bound (for recursive types).
func Bind(label string, t reflect.Type, fields ...Field) *Schema {
	s := &Schema{}
	BindTo(s, label, t, fields...)
	return s
}

// BindTo is Bind for a schema that is already referred to.
func BindTo(s *Schema, label string, t reflect.Type, fields ...Field) {
	s.Type, s.Fields, s.label = t, fields, label
	s.byNum = map[int]int{}
	s.idx = nil
	n := 0
	for i := 0; i < t.NumField(); i++ {
		if _, ok := t.Field(i).Tag.Lookup("protobuf"); ok && t.Field(i).PkgPath == "" {
			if n >= len(fields) {
				panic("model: too many fields in " + t.String())
			}
			s.idx = append(s.idx, i)
			s.byNum[fields[n].Num] = n
			n++
		}
	}
	if n != len(fields) {
		panic("model: too few fields in " + t.String())
	}
}

// BindNamed binds a schema to a Go struct type by the names of the Go fields.
func BindNamed(s *Schema, label string, t reflect.Type, fields []Field, names []string) error {
	s.Type, s.Fields, s.label = t, fields, label
	s.byNum = map[int]int{}
	s.idx = nil
	for i, n := range names {
		if t.Kind() != reflect.Struct {
			return fmt.Errorf("%v is not a struct", t)
		}
		sf, ok := t.FieldByName(n)
		if !ok || len(sf.Index) != 1 || sf.PkgPath != "" {
			return fmt.Errorf("%v has no field %s", t, n)
		}
		s.idx = append(s.idx, sf.Index[0])
		s.byNum[fields[i].Num] = i
	}
	return nil
}

// F is shorthand for a field.
func F(num int, card Card, kind Kind) Field { return Field{Num: num, Card: card, Kind: kind} }

// FM is shorthand for a message field.
func FM(num int, card Card, msg *Schema) Field {
	return Field{Num: num, Card: card, Kind: Message, Msg: msg}
}

// FMap is shorthand for a map field.
func FMap(num int, key, val Kind, msg *Schema) Field {
	return Field{Num: num, Card: Map, Key: key, Kind: val, Msg: msg}
}

// Of makes a field of a shape.
func (s Shape) Of(num int, sub *Schema) Field {
	f := Field{Num: num, Kind: s.Kind, Card: s.Card, Key: s.Key}
	if s.Kind == Message {
		f.Msg = sub
	}
	return f
}

// ScalarKinds are all kinds but message.
var ScalarKinds = []Kind{Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Float, Double, String, Bytes}

// MapKeyKinds are the kinds allowed as map keys.
var MapKeyKinds = []Kind{Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, String}

// Shapes lists every supported field shape, simplest first.
func Shapes() []Shape {
	var r []Shape
	for _, k := range ScalarKinds {
		r = append(r, Shape{Kind: k, Card: Plain})
	}
	r = append(r, Shape{Kind: Message, Card: Plain})
	for _, c := range []Card{Opt, Ptr} {
		for _, k := range ScalarKinds {
			if k != Bytes {
				r = append(r, Shape{Kind: k, Card: c})
			}
		}
	}
	for _, k := range ScalarKinds {
		r = append(r, Shape{Kind: k, Card: Rep})
	}
	r = append(r, Shape{Kind: Message, Card: Rep})
	for _, kk := range MapKeyKinds {
		for _, k := range ScalarKinds {
			r = append(r, Shape{Kind: k, Card: Map, Key: kk})
		}
		r = append(r, Shape{Kind: Message, Card: Map, Key: kk})
	}
	return r
}

// CoreShapes is a subset of Shapes with one representative per code path of
// codec selection: every scalar plain, and a spread of the others.
func CoreShapes() []Shape {
	return []Shape{
		{Kind: Bool}, {Kind: Int32}, {Kind: Sint64}, {Kind: Fixed32}, {Kind: Double}, {Kind: String}, {Kind: Bytes}, {Kind: Message},
		{Kind: Bool, Card: Opt}, {Kind: Sint32, Card: Opt}, {Kind: Sfixed64, Card: Opt}, {Kind: String, Card: Opt},
		{Kind: Int32, Card: Ptr}, {Kind: Fixed64, Card: Ptr}, {Kind: String, Card: Ptr},
		{Kind: Int32, Card: Rep}, {Kind: Sint32, Card: Rep}, {Kind: Fixed32, Card: Rep}, {Kind: Bytes, Card: Rep}, {Kind: Message, Card: Rep},
		{Kind: String, Card: Map, Key: Int32}, {Kind: Sint32, Card: Map, Key: Sint32}, {Kind: Fixed64, Card: Map, Key: Bool}, {Kind: Message, Card: Map, Key: String},
	}
}
