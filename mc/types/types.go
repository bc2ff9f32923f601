// Package types holds hand-written message types (recursive types, enums,
// types as the generator writes them) and their schemas.
package types

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	. "verif.local/mc/model"
)

// E is an enum.
type E int32

// Rec is directly recursive.
type Rec struct {
	V    int64           `protobuf:"varint,1,opt"`
	Self *Rec            `protobuf:"bytes,2,opt"`
	L    []*Rec          `protobuf:"bytes,3,rep"`
	M    map[string]*Rec `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	S    string          `protobuf:"bytes,16,opt"`
}

// A and B are mutually recursive.
type A struct {
	B  *B                   `protobuf:"bytes,1,opt"`
	X  proto.Option[uint32] `protobuf:"varint,2,opt"`
	Bs map[int32]*B         `protobuf:"bytes,3,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type B struct {
	As []*A   `protobuf:"bytes,1,rep"`
	Y  []byte `protobuf:"bytes,2,opt"`
	C  *C     `protobuf:"bytes,3,opt"`
}

type C struct {
	A *A      `protobuf:"bytes,1,opt"`
	Z float64 `protobuf:"fixed64,2,opt"`
}

// Enums has every use of an enum.
type Enums struct {
	P E               `protobuf:"varint,1,opt"`
	O proto.Option[E] `protobuf:"varint,2,opt"`
	Q *E              `protobuf:"varint,3,opt"`
	R []E             `protobuf:"varint,4,rep"`
	M map[string]E    `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	N map[int32]*Rec  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	Z proto.Option[E] `protobuf:"varint,7,req"`
}

// Mixed has fields the codec must ignore between the others.
type Mixed struct {
	_     [0]func()
	a     int64
	A     int32 `protobuf:"varint,1,opt"`
	b     string
	Plain string
	B     string `protobuf:"bytes,2,opt" json:"b,omitempty"`
	c     []byte
	C     []uint32 `json:"c" protobuf:"varint,3,rep,name=c,proto3"`
	D     *Inner   `protobuf:"bytes,4,opt,name=d"`
	Other *Inner
	E     map[string]int32 `protobuf:"bytes,5,rep,name=e" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"e"`
	d     [3]byte
}

type Inner struct {
	x [7]byte
	V uint64 `protobuf:"fixed64,9,req,name=v"`
	y bool
	W proto.Option[bool] `protobuf:"varint,8,opt"`
}

// Unordered has field numbers out of order, and gaps.
type Unordered struct {
	F5  string               `protobuf:"bytes,5,opt"`
	F1  int32                `protobuf:"varint,1,opt"`
	F99 bool                 `protobuf:"varint,99,opt"`
	F2  *Inner               `protobuf:"bytes,2,opt"`
	F64 proto.Option[string] `protobuf:"bytes,64,opt"`
	F63 []float32            `protobuf:"fixed32,63,rep"`
	F65 []byte               `protobuf:"bytes,65,opt"`
	FM  uint64               `protobuf:"varint,536870911,opt"`
	F3  map[uint32]string    `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

// Empty has no fields at all.
type Empty struct{}

// Hidden has only fields to ignore.
type Hidden struct {
	a int
	B string
}

// Named types of every kind.
type (
	NBool   bool
	NInt64  int64
	NUint32 uint32
	NUint64 uint64
	NFloat  float32
	NDouble float64
	NString string
	NBytes  []byte
	NStrs   []NString
	NList   []NUint64
	NMsgs   []*Inner
	NMap    map[NString]NBytes
	NByte   byte
)

// Named uses them.
type Named struct {
	B      NBool              `protobuf:"varint,1,opt"`
	I      NInt64             `protobuf:"zigzag64,2,opt"`
	U      NUint32            `protobuf:"fixed32,3,opt"`
	F      NFloat             `protobuf:"fixed32,4,opt"`
	D      *NDouble           `protobuf:"fixed64,5,opt"`
	S      NString            `protobuf:"bytes,6,opt"`
	Y      NBytes             `protobuf:"bytes,7,opt"`
	Ss     NStrs              `protobuf:"bytes,8,rep"`
	L      NList              `protobuf:"varint,9,rep"`
	Ms     NMsgs              `protobuf:"bytes,10,rep"`
	M      NMap               `protobuf:"bytes,11,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	N      map[NInt64]NBool   `protobuf:"bytes,12,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	P      map[NUint32]*Inner `protobuf:"bytes,13,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	Bs     []NBytes           `protobuf:"bytes,14,rep"`
	Q      *NString           `protobuf:"bytes,15,opt"`
	Z      []NByte            `protobuf:"bytes,16,opt"`
	*Inner `protobuf:"bytes,17,opt"`
	G      []NBool `protobuf:"varint,18,rep"`
}

var (
	RecS       = &Schema{}
	AS         = &Schema{}
	BS         = &Schema{}
	CS         = &Schema{}
	EnumsS     = &Schema{}
	MixedS     = &Schema{}
	InnerS     = &Schema{}
	UnorderedS = &Schema{}
	EmptyS     = &Schema{}
	HiddenS    = &Schema{}
	NamedS     = &Schema{}
)

func init() {
	RegisterEnumOption[E]()
	BindTo(RecS, "Rec", reflect.TypeOf(Rec{}), F(1, Plain, Int64), FM(2, Plain, RecS), FM(3, Rep_, RecS), FMap(4, String, Message, RecS), F(16, Plain, String))
	BindTo(AS, "A", reflect.TypeOf(A{}), FM(1, Plain, BS), F(2, Opt, Uint32), FMap(3, Sint32, Message, BS))
	BindTo(BS, "B", reflect.TypeOf(B{}), FM(1, Rep_, AS), F(2, Plain, Bytes), FM(3, Plain, CS))
	BindTo(CS, "C", reflect.TypeOf(C{}), FM(1, Plain, AS), F(2, Plain, Double))
	BindTo(EnumsS, "Enums", reflect.TypeOf(Enums{}), F(1, Plain, Int32), F(2, Opt, Int32), F(3, Ptr, Int32), F(4, Rep_, Int32), FMap(5, String, Int32, nil), FMap(6, Int32, Message, RecS), F(7, Opt, Int32))
	BindTo(InnerS, "Inner", reflect.TypeOf(Inner{}), F(9, Plain, Fixed64), F(8, Opt, Bool))
	BindTo(MixedS, "Mixed", reflect.TypeOf(Mixed{}), F(1, Plain, Int32), F(2, Plain, String), F(3, Rep_, Uint32), FM(4, Plain, InnerS), FMap(5, String, Int32, nil))
	BindTo(UnorderedS, "Unordered", reflect.TypeOf(Unordered{}), F(5, Plain, String), F(1, Plain, Int32), F(99, Plain, Bool), FM(2, Plain, InnerS), F(64, Opt, String), F(63, Rep_, Float), F(65, Plain, Bytes), F(536870911, Plain, Uint64), FMap(3, Fixed32, String, nil))
	BindTo(EmptyS, "Empty", reflect.TypeOf(Empty{}))
	BindTo(NamedS, "Named", reflect.TypeOf(Named{}), F(1, Plain, Bool), F(2, Plain, Sint64), F(3, Plain, Fixed32), F(4, Plain, Float), F(5, Ptr, Double), F(6, Plain, String), F(7, Plain, Bytes), F(8, Rep_, String), F(9, Rep_, Uint64), FM(10, Rep_, InnerS),
		FMap(11, String, Bytes, nil), FMap(12, Sint64, Bool, nil), FMap(13, Fixed32, Message, InnerS), F(14, Rep_, Bytes), F(15, Ptr, String), F(16, Plain, Bytes), FM(17, Plain, InnerS), F(18, Rep_, Bool))
	BindTo(HiddenS, "Hidden", reflect.TypeOf(Hidden{}))
}

// Rep_ is model.Rep (Rec is taken).
const Rep_ = Card(3)

// All lists the schemas.
func All() []*Schema {
	return []*Schema{EmptyS, HiddenS, InnerS, MixedS, EnumsS, UnorderedS, CS, BS, AS, RecS, NamedS}
}
