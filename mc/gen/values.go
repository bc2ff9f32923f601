// Package gen enumerates the alphabets of the checks: scalar values, field
// values and schemas, simplest first and always in the same order.
package gen

import (
	"math"
	"strings"

	"verif.local/mc/model"
)

// Level selects the size of an alphabet.
type Level int

const (
	Tiny  Level = iota // 2-3 values
	Small              // about 6
	Full               // every boundary
)

func u32(vs ...int64) []uint64 {
	var r []uint64
	for _, v := range vs {
		r = append(r, uint64(uint32(v)))
	}
	return r
}

// bits of every magnitude: 2^i, 2^i-1 and their complements.
func magnitudes(n uint) []uint64 {
	var r []uint64
	mask := uint64(math.MaxUint64)
	if n == 32 {
		mask = math.MaxUint32
	}
	seen := map[uint64]bool{0: true}
	add := func(v uint64) {
		v &= mask
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for i := uint(0); i < n; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(1<<i + 1)
		add(^(uint64(1) << i))
		add(^(uint64(1)<<i - 1))
	}
	add(mask)
	add(0x0123456789abcdef)
	add(0xfedcba9876543210)
	return r
}

// Str is a recognizable string of length n; salt makes it distinct.
func Str(n int, salt byte) string {
	var b strings.Builder
	b.Grow(n)
	for i := 0; i < n; i++ {
		b.WriteByte('a' + byte((i+int(salt))%26))
	}
	return b.String()
}

// Zero is the zero value of a scalar kind.
func Zero() model.Val { return model.Val{} }

// Scalars is the alphabet of non-zero values of a scalar kind.
func Scalars(k model.Kind, lv Level) []model.Val {
	var us []uint64
	switch k {
	case model.Bool:
		us = []uint64{1}
	case model.String, model.Bytes:
		var ss []string
		switch lv {
		case Tiny:
			ss = []string{"x", Str(130, 1)}
		case Small:
			ss = []string{"x", "\x00", Str(127, 0), Str(128, 0), "\xff\xfe", "h\u00e9llo"}
		default:
			for i := 1; i <= 10; i++ {
				ss = append(ss, Str(i, byte(i)))
			}
			ss = append(ss, "\x00", "\xff", "\xff\xfe\x80", "h\u00e9llo \u4e16\u754c", "\x08\x01\x12\x00")
			for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 65535, 65536} {
				ss = append(ss, Str(n, byte(n)))
			}
		}
		r := make([]model.Val, len(ss))
		for i := range ss {
			r[i] = model.Val{S: ss[i]}
		}
		return r
	case model.Float:
		switch lv {
		case Tiny:
			us = []uint64{uint64(math.Float32bits(1.5)), 0x80000000}
		case Small:
			us = []uint64{uint64(math.Float32bits(1.5)), 0x80000000, 0x7fc00000, 0x7f800000, 1}
		default:
			us = append(magnitudes(32), 0x7fc00000, 0x7f800000, 0xff800000, 0x7f7fffff, 0x7f800001, 0xffc00001, 0x3f800000, 0x00800000)
		}
	case model.Double:
		switch lv {
		case Tiny:
			us = []uint64{math.Float64bits(1.5), 1 << 63}
		case Small:
			us = []uint64{math.Float64bits(1.5), 1 << 63, 0x7ff8000000000000, 0x7ff0000000000000, 1}
		default:
			us = append(magnitudes(64), 0x7ff8000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7fefffffffffffff, 0x7ff0000000000001, 0x3ff0000000000000, 0x0010000000000000)
		}
	default:
		if k.Is32() {
			switch lv {
			case Tiny:
				us = u32(1, -1)
			case Small:
				us = u32(1, -1, 127, 128, math.MaxInt32, math.MinInt32)
			default:
				us = magnitudes(32)
			}
		} else {
			switch lv {
			case Tiny:
				us = []uint64{1, math.MaxUint64}
			case Small:
				us = []uint64{1, math.MaxUint64, 127, 1 << 35, math.MaxInt64, 1 << 63}
			default:
				us = magnitudes(64)
			}
		}
	}
	seen := map[uint64]bool{}
	r := make([]model.Val, 0, len(us))
	for _, u := range us {
		if !seen[u] {
			seen[u] = true
			r = append(r, model.Val{U: u})
		}
	}
	return r
}

// Nth is a value that depends on i (for distinct elements).
func Nth(k model.Kind, i int) model.Val {
	switch k {
	case model.Bool:
		return model.Val{U: uint64(i & 1)}
	case model.String, model.Bytes:
		return model.Val{S: Str(i%7, byte(i)) + string(rune('0'+i%10)) + itoa(i)}
	case model.Float:
		return model.Val{U: uint64(math.Float32bits(float32(i) + 0.5))}
	case model.Double:
		return model.Val{U: math.Float64bits(float64(i) + 0.5)}
	}
	v := uint64(i) * 37
	if i%3 == 2 {
		v = -v
	}
	if k.Is32() {
		v = uint64(uint32(v))
	}
	return model.Val{U: v}
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for i > 0 {
		s = string(rune('0'+i%10)) + s
		i /= 10
	}
	return s
}

// Elems is the alphabet of element values (repeated elements, map values,
// optional values): zero included.
func Elems(f *model.Field, lv Level) []model.Val {
	if f.Kind == model.Message {
		return MsgVals(f.Msg, lv)
	}
	return append([]model.Val{{}}, Scalars(f.Kind, lv)...)
}

// MsgVals is a small alphabet of messages of a schema: empty, each field set
// to its first value, all fields set.
func MsgVals(s *model.Schema, lv Level) []model.Val {
	r := []model.Val{{M: model.NewMsg(s)}}
	if len(s.Fields) == 0 {
		return r
	}
	all := model.NewMsg(s)
	sub := Tiny
	if lv == Full {
		sub = Small
	}
	for i := range s.Fields {
		vs := FieldVals(&s.Fields[i], sub)
		if len(vs) == 0 {
			continue
		}
		all.F[i] = vs[len(vs)-1]
		if lv > Tiny {
			for _, v := range vs {
				m := model.NewMsg(s)
				m.F[i] = v
				r = append(r, model.Val{M: m})
			}
		}
	}
	return append(r, model.Val{M: all})
}

// KeyVals is the alphabet of map keys, zero included.
func KeyVals(k model.Kind, lv Level) []model.Val {
	return append([]model.Val{{}}, Scalars(k, lv)...)
}

// DistinctKeys returns up to n distinct keys in canonical order.
func DistinctKeys(k model.Kind, n int) []model.Val {
	var r []model.Val
	seen := map[model.Val]bool{}
	for i := 0; len(r) < n && i < 4*n+8; i++ {
		v := Nth(k, i)
		if !seen[model.Val{U: v.U, S: v.S}] {
			seen[model.Val{U: v.U, S: v.S}] = true
			r = append(r, v)
		}
	}
	return r
}

// NthElem is an element value that depends on i.
func NthElem(f *model.Field, i int) model.Val {
	if f.Kind == model.Message {
		m := model.NewMsg(f.Msg)
		for j := range f.Msg.Fields {
			ff := &f.Msg.Fields[j]
			if ff.Kind == model.Message || ff.Card == model.Map || ff.Card == model.Rep {
				continue
			}
			v := Nth(ff.Kind, i+j+1)
			m.F[j] = model.FieldVal{Set: true, V: v}
			if ff.Card == model.Plain && ff.Kind != model.Bytes && v.U == 0 && v.S == "" {
				m.F[j].Set = false
			}
		}
		return model.Val{M: m}
	}
	return Nth(f.Kind, i)
}

// ListOf is a repeated value with n distinct elements.
func ListOf(f *model.Field, n int) model.FieldVal {
	l := make([]model.Val, n)
	for i := range l {
		l[i] = NthElem(f, i)
	}
	return model.FieldVal{L: l}
}

// MapOf is a map value with up to n entries.
func MapOf(f *model.Field, n int) model.FieldVal {
	ks := DistinctKeys(f.Key, n)
	e := make([]model.Entry, len(ks))
	for i := range ks {
		e[i] = model.Entry{K: ks[i], V: NthElem(f, i)}
	}
	model.SortEntries(e)
	return model.FieldVal{E: e}
}

// FieldVals is the alphabet of present (non-absent) values of a field.
func FieldVals(f *model.Field, lv Level) []model.FieldVal {
	var r []model.FieldVal
	switch f.Card {
	case model.Rep:
		es := Elems(f, lv)
		for _, e := range es {
			r = append(r, model.FieldVal{L: []model.Val{e}})
		}
		r = append(r, model.FieldVal{L: es})
		if lv >= Small {
			r = append(r, ListOf(f, 3), ListOf(f, 11))
		}
		if lv == Full {
			// every pair of the small alphabet, in order
			sm := Elems(f, Small)
			for _, a := range sm {
				for _, b := range sm {
					r = append(r, model.FieldVal{L: []model.Val{a, b}})
				}
			}
			for n := 2; n <= 45; n++ {
				r = append(r, ListOf(f, n))
			}
			for _, n := range []int{79, 80, 81, 127, 128, 129, 159, 160, 161, 1025} {
				r = append(r, ListOf(f, n))
			}
		}
	case model.Map:
		ks, es := KeyVals(f.Key, Tiny), Elems(f, Tiny)
		if lv == Full {
			ks, es = KeyVals(f.Key, Full), Elems(f, Tiny)
		}
		for _, k := range ks {
			for _, e := range es {
				r = append(r, model.FieldVal{E: []model.Entry{{K: k, V: e}}})
			}
		}
		if lv == Full {
			for _, k := range KeyVals(f.Key, Tiny) {
				for _, e := range Elems(f, Full) {
					r = append(r, model.FieldVal{E: []model.Entry{{K: k, V: e}}})
				}
			}
		}
		r = append(r, MapOf(f, 2))
		if lv >= Small {
			r = append(r, MapOf(f, 9), MapOf(f, 17))
		}
		if lv == Full {
			for _, n := range []int{3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 20, 28, 29, 32, 33, 64, 65, 100, 129, 600} {
				if f.Key == model.Bool && n > 2 {
					break
				}
				r = append(r, MapOf(f, n))
			}
		}
	default:
		if f.Kind == model.Message {
			for _, v := range MsgVals(f.Msg, lv) {
				r = append(r, model.FieldVal{Set: true, V: v})
			}
			return r
		}
		if f.Card != model.Plain || f.Kind == model.Bytes {
			r = append(r, model.FieldVal{Set: true}) // present, zero
		}
		for _, v := range Scalars(f.Kind, lv) {
			r = append(r, model.FieldVal{Set: true, V: v})
		}
	}
	return r
}

// Nums are field numbers at the boundaries of the tag size.
var Nums = []int{1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911}

// PowerNums are the field numbers next to every power of two.
var PowerNums = func() (r []int) {
	seen := map[int]bool{}
	for k := 0; k <= 29; k++ {
		for _, n := range []int{1<<k - 1, 1 << k, 1<<k + 1} {
			if n >= 1 && n <= 1<<29-1 && !seen[n] {
				seen[n] = true
				r = append(r, n)
			}
		}
	}
	return r
}()
