// Package dyn binds the reference model to google.golang.org/protobuf: it
// converts message values between the model and dynamic messages.
package dyn

import (
	"fmt"
	"math"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	dpb "google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif.local/mc/model"
)

// Kind is the model kind of a protobuf kind.
func Kind(k protoreflect.Kind) model.Kind {
	switch k {
	case protoreflect.BoolKind:
		return model.Bool
	case protoreflect.Int32Kind, protoreflect.EnumKind:
		return model.Int32
	case protoreflect.Int64Kind:
		return model.Int64
	case protoreflect.Uint32Kind:
		return model.Uint32
	case protoreflect.Uint64Kind:
		return model.Uint64
	case protoreflect.Sint32Kind:
		return model.Sint32
	case protoreflect.Sint64Kind:
		return model.Sint64
	case protoreflect.Fixed32Kind:
		return model.Fixed32
	case protoreflect.Fixed64Kind:
		return model.Fixed64
	case protoreflect.Sfixed32Kind:
		return model.Sfixed32
	case protoreflect.Sfixed64Kind:
		return model.Sfixed64
	case protoreflect.FloatKind:
		return model.Float
	case protoreflect.DoubleKind:
		return model.Double
	case protoreflect.StringKind:
		return model.String
	case protoreflect.BytesKind:
		return model.Bytes
	}
	return model.Message
}

func scalar(fd protoreflect.FieldDescriptor, v model.Val) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(v.U != 0)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(v.U)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.U))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(v.U))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.U))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.U)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(math.Float32frombits(uint32(v.U)))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(math.Float64frombits(v.U))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.S)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(v.S))
	}
	panic("dyn: kind")
}

func unscalar(fd protoreflect.FieldDescriptor, v protoreflect.Value) model.Val {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		if v.Bool() {
			return model.Val{U: 1}
		}
		return model.Val{}
	case protoreflect.EnumKind:
		return model.Val{U: uint64(uint32(v.Enum()))}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return model.Val{U: uint64(uint32(v.Int()))}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return model.Val{U: uint64(v.Int())}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return model.Val{U: v.Uint()}
	case protoreflect.FloatKind:
		return model.Val{U: uint64(math.Float32bits(float32(v.Float())))}
	case protoreflect.DoubleKind:
		return model.Val{U: math.Float64bits(v.Float())}
	case protoreflect.StringKind:
		return model.Val{S: v.String()}
	case protoreflect.BytesKind:
		return model.Val{S: string(v.Bytes())}
	}
	panic("dyn: kind")
}

// To builds the dynamic message of a model value.
func To(md protoreflect.MessageDescriptor, s *model.Schema, m *model.Msg) *dynamicpb.Message {
	d := dynamicpb.NewMessage(md)
	for i := range s.Fields {
		SetField(d, s, i, &m.F[i])
	}
	return d
}

// SetField sets one field of a dynamic message.
func SetField(d *dynamicpb.Message, s *model.Schema, i int, fv *model.FieldVal) {
	f := &s.Fields[i]
	fd := d.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(f.Num))
	one := func(fd protoreflect.FieldDescriptor, v model.Val) protoreflect.Value {
		if f.Kind != model.Message {
			return scalar(fd, v)
		}
		if v.M == nil {
			return protoreflect.ValueOfMessage(dynamicpb.NewMessage(fd.Message()))
		}
		return protoreflect.ValueOfMessage(To(fd.Message(), f.Msg, v.M))
	}
	switch f.Card {
	case model.Rep:
		if len(fv.L) > 0 {
			l := d.Mutable(fd).List()
			for _, v := range fv.L {
				l.Append(one(fd, v))
			}
		}
	case model.Map:
		if len(fv.E) > 0 {
			mm := d.Mutable(fd).Map()
			for _, e := range fv.E {
				mm.Set(scalar(fd.MapKey(), e.K).MapKey(), one(fd.MapValue(), e.V))
			}
		}
	default:
		if fv.Set {
			d.Set(fd, one(fd, fv.V))
		}
	}
}

// From reads a dynamic message back. Unknown fields are an error.
func From(s *model.Schema, d protoreflect.Message) (*model.Msg, error) {
	m := model.NewMsg(s)
	if u := d.GetUnknown(); len(u) > 0 {
		return nil, fmt.Errorf("unknown fields %x in %s", []byte(u), d.Descriptor().FullName())
	}
	var rerr error
	for i := range s.Fields {
		f := &s.Fields[i]
		fd := d.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) model.Val {
			if f.Kind != model.Message {
				return unscalar(fd, v)
			}
			x, err := From(f.Msg, v.Message())
			if err != nil {
				rerr = err
			}
			return model.Val{M: x}
		}
		if !d.Has(fd) {
			continue
		}
		v := d.Get(fd)
		fv := &m.F[i]
		switch f.Card {
		case model.Rep:
			for j := 0; j < v.List().Len(); j++ {
				fv.L = append(fv.L, one(fd, v.List().Get(j)))
			}
		case model.Map:
			v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
				fv.E = append(fv.E, model.Entry{K: unscalar(fd.MapKey(), k.Value()), V: one(fd.MapValue(), x)})
				return true
			})
			model.SortEntries(fv.E)
		default:
			fv.Set, fv.V = true, one(fd, v)
		}
	}
	return m, rerr
}

// Marshal encodes a dynamic message.
func Marshal(d proto.Message) ([]byte, error) {
	return proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(d)
}

// Unmarshal decodes into a dynamic message.
func Unmarshal(b []byte, d proto.Message) error {
	return proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(b, d)
}

// Quiet turns all NaNs of a value into one NaN: the dynamic messages pass
// 32-bit floats through 64-bit ones.
func Quiet(s *model.Schema, m *model.Msg) *model.Msg {
	m = m.Clone()
	quiet(s, m)
	return m
}

func quiet(s *model.Schema, m *model.Msg) {
	if m == nil {
		return
	}
	for i := range s.Fields {
		f := &s.Fields[i]
		one := func(v *model.Val) {
			switch f.Kind {
			case model.Float:
				if x := math.Float32frombits(uint32(v.U)); x != x {
					v.U = 0x7fc00000
				}
			case model.Double:
				if x := math.Float64frombits(v.U); x != x {
					v.U = 0x7ff8000000000001
				}
			case model.Message:
				quiet(f.Msg, v.M)
			}
		}
		fv := &m.F[i]
		one(&fv.V)
		for j := range fv.L {
			one(&fv.L[j])
		}
		for j := range fv.E {
			one(&fv.E[j].V)
		}
	}
}

// Descriptor builds a descriptor for a model schema (and those it refers to).
// It is a proto2 schema: strings are not checked to be UTF-8, and all singular
// fields have presence (see Implicit).
func Descriptor(s *model.Schema) (protoreflect.MessageDescriptor, error) {
	f := &dpb.FileDescriptorProto{Name: proto.String("m.proto"), Package: proto.String("m")}
	names := map[*model.Schema]string{}
	var add func(s *model.Schema) string
	add = func(s *model.Schema) string {
		if n, ok := names[s]; ok {
			return n
		}
		n := fmt.Sprintf("M%d", len(names))
		names[s] = n
		m := &dpb.DescriptorProto{Name: &n}
		f.MessageType = append(f.MessageType, m)
		for i := range s.Fields {
			fl := &s.Fields[i]
			fn := fmt.Sprintf("f%d", i)
			fd := &dpb.FieldDescriptorProto{Name: proto.String(fn), Number: proto.Int32(int32(fl.Num))}
			lab := dpb.FieldDescriptorProto_LABEL_OPTIONAL
			t := protoType(fl.Kind)
			tn := ""
			if fl.Kind == model.Message {
				tn = ".m." + add(fl.Msg)
			}
			switch fl.Card {
			case model.Rep:
				lab = dpb.FieldDescriptorProto_LABEL_REPEATED
			case model.Map:
				lab = dpb.FieldDescriptorProto_LABEL_REPEATED
				en := fmt.Sprintf("F%dEntry", i)
				lo := dpb.FieldDescriptorProto_LABEL_OPTIONAL
				kt := protoType(fl.Key)
				vt := t
				e := &dpb.DescriptorProto{Name: &en, Options: &dpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*dpb.FieldDescriptorProto{
					{Name: proto.String("key"), Number: proto.Int32(1), Label: &lo, Type: &kt},
					{Name: proto.String("value"), Number: proto.Int32(2), Label: &lo, Type: &vt},
				}}
				if tn != "" {
					e.Field[1].TypeName = proto.String(tn)
				}
				m.NestedType = append(m.NestedType, e)
				t = dpb.FieldDescriptorProto_TYPE_MESSAGE
				tn = ".m." + n + "." + en
			}
			fd.Label = &lab
			fd.Type = &t
			if tn != "" {
				fd.TypeName = proto.String(tn)
			}
			m.Field = append(m.Field, fd)
		}
		return n
	}
	top := add(s)
	fd, err := protodesc.NewFile(f, nil)
	if err != nil {
		return nil, err
	}
	return fd.Messages().ByName(protoreflect.Name(top)), nil
}

func protoType(k model.Kind) dpb.FieldDescriptorProto_Type {
	return [...]dpb.FieldDescriptorProto_Type{
		model.Bool: dpb.FieldDescriptorProto_TYPE_BOOL, model.Int32: dpb.FieldDescriptorProto_TYPE_INT32, model.Int64: dpb.FieldDescriptorProto_TYPE_INT64,
		model.Uint32: dpb.FieldDescriptorProto_TYPE_UINT32, model.Uint64: dpb.FieldDescriptorProto_TYPE_UINT64, model.Sint32: dpb.FieldDescriptorProto_TYPE_SINT32,
		model.Sint64: dpb.FieldDescriptorProto_TYPE_SINT64, model.Fixed32: dpb.FieldDescriptorProto_TYPE_FIXED32, model.Fixed64: dpb.FieldDescriptorProto_TYPE_FIXED64,
		model.Sfixed32: dpb.FieldDescriptorProto_TYPE_SFIXED32, model.Sfixed64: dpb.FieldDescriptorProto_TYPE_SFIXED64, model.Float: dpb.FieldDescriptorProto_TYPE_FLOAT,
		model.Double: dpb.FieldDescriptorProto_TYPE_DOUBLE, model.String: dpb.FieldDescriptorProto_TYPE_STRING, model.Bytes: dpb.FieldDescriptorProto_TYPE_BYTES,
		model.Message: dpb.FieldDescriptorProto_TYPE_MESSAGE,
	}[k]
}

// Implicit unsets the fields of m that have no presence in the Go types and
// are zero.
func Implicit(s *model.Schema, m *model.Msg) {
	if m == nil {
		return
	}
	for i := range s.Fields {
		f, fv := &s.Fields[i], &m.F[i]
		if f.Kind != model.Message {
			if f.Card == model.Plain && f.Kind != model.Bytes && fv.Set && fv.V.U == 0 && fv.V.S == "" {
				*fv = model.FieldVal{}
			}
			continue
		}
		Implicit(f.Msg, fv.V.M)
		for j := range fv.L {
			Implicit(f.Msg, fv.L[j].M)
		}
		for j := range fv.E {
			Implicit(f.Msg, fv.E[j].V.M)
		}
	}
}

// FromKnown is From, but ignores unknown fields.
func FromKnown(s *model.Schema, d protoreflect.Message) (*model.Msg, error) {
	forget(d)
	return From(s, d)
}

func forget(d protoreflect.Message) {
	if len(d.GetUnknown()) > 0 {
		d.SetUnknown(nil)
	}
	d.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Kind() == protoreflect.MessageKind {
				v.Map().Range(func(_ protoreflect.MapKey, x protoreflect.Value) bool {
					forget(x.Message())
					return true
				})
			}
		case fd.Kind() != protoreflect.MessageKind:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				forget(v.List().Get(i).Message())
			}
		default:
			forget(v.Message())
		}
		return true
	})
}
