package model

import (
	"fmt"
	"sort"
)

// AppendVarint is the minimal base-128 encoding.
func AppendVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// AppendVarintN is a base-128 encoding padded to n bytes (n large enough).
func AppendVarintN(b []byte, v uint64, n int) []byte {
	for i := 0; i < n-1; i++ {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// AppendTag appends a field tag.
func AppendTag(b []byte, num, wire int) []byte { return AppendVarint(b, uint64(num)<<3|uint64(wire)) }

func zigzag(v int64) uint64   { return uint64(v<<1) ^ uint64(v>>63) }
func unzigzag(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// varintOf is the number a scalar of a varint kind is encoded as.
func varintOf(k Kind, u uint64) uint64 {
	switch k {
	case Int32:
		return uint64(int64(int32(u)))
	case Sint32:
		return zigzag(int64(int32(u)))
	case Sint64:
		return zigzag(int64(u))
	}
	return u
}

func appendLE(b []byte, u uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(u>>(8*i)))
	}
	return b
}

// AppendValue appends the payload of one value (without tag).
func AppendValue(b []byte, k Kind, sub *Schema, v Val) []byte {
	switch k.Wire() {
	case WVarint:
		return AppendVarint(b, varintOf(k, v.U))
	case WFixed32:
		return appendLE(b, v.U, 4)
	case WFixed64:
		return appendLE(b, v.U, 8)
	}
	s := v.S
	if k == Message {
		if v.M != nil {
			s = string(Encode(sub, v.M))
		}
	}
	b = AppendVarint(b, uint64(len(s)))
	return append(b, s...)
}

// Encode is the reference encoding: declaration order, map entries in
// canonical key order.
func Encode(s *Schema, m *Msg) []byte { return AppendMsg(nil, s, m) }

// AppendMsg appends the reference encoding of m.
func AppendMsg(b []byte, s *Schema, m *Msg) []byte {
	for i := range s.Fields {
		b = AppendField(b, &s.Fields[i], &m.F[i])
	}
	return b
}

// AppendField appends the reference encoding of one field.
func AppendField(b []byte, f *Field, fv *FieldVal) []byte {
	switch f.Card {
	case Rep:
		for _, v := range fv.L {
			if v.Nil {
				continue
			}
			b = AppendTag(b, f.Num, f.Kind.Wire())
			b = AppendValue(b, f.Kind, f.Msg, v)
		}
	case Map:
		for _, e := range fv.E {
			b = AppendTag(b, f.Num, WBytes)
			x := AppendEntry(nil, f, e)
			b = AppendVarint(b, uint64(len(x)))
			b = append(b, x...)
		}
	default:
		if fv.Set {
			b = AppendTag(b, f.Num, f.Kind.Wire())
			b = AppendValue(b, f.Kind, f.Msg, fv.V)
		}
	}
	return b
}

// AppendEntry appends the body of a map entry.
func AppendEntry(b []byte, f *Field, e Entry) []byte {
	b = AppendTag(b, 1, f.Key.Wire())
	b = AppendValue(b, f.Key, nil, e.K)
	if !e.V.Nil {
		b = AppendTag(b, 2, f.Kind.Wire())
		b = AppendValue(b, f.Kind, f.Msg, e.V)
	}
	return b
}

// Err classes of the reference decoder.
type ErrClass int

const (
	OK          ErrClass = iota
	EOF                  // input ends inside a field
	Overflow             // varint longer than 64 bits
	Mismatch             // known field with another wire type
	WireTypes            // wire type that cannot be skipped
	OverflowCut          // varint longer than 64 bits which is cut as well
)

var errNames = [...]string{"ok", "unexpected EOF", "varint overflow", "wire type mismatch", "unknown wire type", "varint overflow or unexpected EOF"}

func (e ErrClass) String() string { return errNames[e] }

// FieldRef names a field in an error path.
type FieldRef struct{ Num, Wire int }

// Result of the reference decoder.
type Result struct {
	Class  ErrClass
	Path   []FieldRef // fields from the outermost to the failing one (empty: failed on a tag)
	InTag  bool       // failed while reading a tag
	Unspec bool       // the input contains something the format leaves open (see below)
}

func (r Result) String() string { return fmt.Sprintf("%v at %v", r.Class, r.Path) }

// Unspec marks inputs on which the property makes no claim: field number 0 or
// above 2^29-1, and zigzag-32 payloads wider than 32 bits (implementations
// differ in whether the mask is applied before or after the zigzag step).

func readVarint(b []byte) (uint64, int, ErrClass) {
	var x uint64
	for i := 0; i < len(b); i++ {
		c := b[i]
		if i == 10 || i == 9 && c&0x7f > 1 {
			// more than 64 bits, whether or not it ends
			for _, c := range b[i:] {
				if c < 0x80 {
					return 0, 0, Overflow
				}
			}
			return 0, 0, OverflowCut
		}
		x |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return x, i + 1, OK
		}
	}
	return 0, 0, EOF
}

const maxNum = 1<<29 - 1

// Decode is the reference decoder: it merges b into m (starting from m's
// current value).
func Decode(s *Schema, b []byte, m *Msg) Result {
	var r Result
	r.Class = decode(s, b, m, &r)
	return r
}

func fail(r *Result, num, wire int, c ErrClass) ErrClass {
	r.Path = append([]FieldRef{{num, wire}}, r.Path...)
	return c
}

func decode(s *Schema, b []byte, m *Msg, r *Result) ErrClass {
	for len(b) > 0 {
		t, n, c := readVarint(b)
		if c != OK {
			r.InTag = true
			return c
		}
		b = b[n:]
		wire := int(t & 7)
		if t>>3 == 0 || t>>3 > maxNum {
			r.Unspec = true
		}
		num := -1
		if t>>3 <= maxNum {
			num = int(t >> 3)
		}
		i, known := s.byNum[num]
		numErr := num
		packed := false
		var f *Field
		if known {
			f = &s.Fields[i]
			want := f.Kind.Wire()
			if f.Card == Map {
				want = WBytes
			}
			if wire == WBytes && f.Card == Rep && want != WBytes {
				packed = true
			} else if wire != want {
				return fail(r, numErr, wire, Mismatch)
			}
		}
		var u uint64
		var body []byte
		switch wire {
		case WVarint:
			u, n, c = readVarint(b)
			if c != OK {
				return fail(r, numErr, wire, c)
			}
			b = b[n:]
		case WFixed32, WFixed64:
			n = 4
			if wire == WFixed64 {
				n = 8
			}
			if len(b) < n {
				return fail(r, numErr, wire, EOF)
			}
			for j := 0; j < n; j++ {
				u |= uint64(b[j]) << (8 * uint(j))
			}
			b = b[n:]
		case WBytes:
			var l uint64
			l, n, c = readVarint(b)
			if c != OK {
				return fail(r, numErr, wire, c)
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return fail(r, numErr, wire, EOF)
			}
			body, b = b[:l], b[l:]
		default:
			return fail(r, numErr, wire, WireTypes)
		}
		if !known {
			continue
		}
		fv := &m.F[i]
		if packed {
			for len(body) > 0 {
				var c ErrClass
				u, n, c = 0, 0, OK
				switch f.Kind.Wire() {
				case WVarint:
					u, n, c = readVarint(body)
				case WFixed32, WFixed64:
					n = 4
					if f.Kind.Wire() == WFixed64 {
						n = 8
					}
					if len(body) < n {
						c = EOF
						break
					}
					for j := 0; j < n; j++ {
						u |= uint64(body[j]) << (8 * uint(j))
					}
				}
				if c != OK {
					return fail(r, num, wire, c)
				}
				body = body[n:]
				fv.L = append(fv.L, scalarFrom(f.Kind, u, nil, r))
			}
			continue
		}
		if f.Card == Map {
			if c := decodeEntry(f, body, fv, r); c != OK {
				return fail(r, num, wire, c)
			}
			continue
		}
		if f.Kind == Message {
			var dst *Msg
			if f.Card == Rep {
				dst = NewMsg(f.Msg)
			} else if fv.Set {
				dst = fv.V.M
			} else {
				dst = NewMsg(f.Msg)
			}
			c := decode(f.Msg, body, dst, r)
			if c != OK {
				return fail(r, num, wire, c)
			}
			if f.Card == Rep {
				fv.L = append(fv.L, Val{M: dst})
			} else {
				fv.Set, fv.V = true, Val{M: dst}
			}
			continue
		}
		v := scalarFrom(f.Kind, u, body, r)
		if f.Card == Rep {
			fv.L = append(fv.L, v)
			continue
		}
		fv.V = v
		fv.Set = true
		if f.Card == Plain && f.Kind != Bytes && v.U == 0 && v.S == "" {
			fv.Set = false // implicit presence
		}
	}
	return OK
}

func scalarFrom(k Kind, u uint64, body []byte, r *Result) Val {
	switch k {
	case Bool:
		if u != 0 {
			return Val{U: 1}
		}
		return Val{}
	case Int32, Uint32:
		return Val{U: uint64(uint32(u))}
	case Sint32:
		if u>>32 != 0 {
			r.Unspec = true
		}
		return Val{U: uint64(uint32(unzigzag(u)))}
	case Sint64:
		return Val{U: uint64(unzigzag(u))}
	case String, Bytes:
		return Val{S: string(body)}
	}
	return Val{U: u}
}

func decodeEntry(f *Field, body []byte, fv *FieldVal, r *Result) ErrClass {
	es := &Schema{Fields: []Field{{Num: 1, Kind: f.Key, Card: Opt}, {Num: 2, Kind: f.Kind, Card: Opt, Msg: f.Msg}}, byNum: map[int]int{1: 0, 2: 1}}
	em := NewMsg(es)
	if c := decode(es, body, em, r); c != OK {
		return c
	}
	k, v := em.F[0].V, em.F[1].V
	if f.Kind == Message && !em.F[1].Set {
		v = Val{M: NewMsg(f.Msg), NilOK: true}
	}
	i := sort.Search(len(fv.E), func(i int) bool { return !lessVal(fv.E[i].K, k) })
	out := make([]Entry, 0, len(fv.E)+1)
	out = append(out, fv.E[:i]...)
	out = append(out, Entry{K: k, V: v})
	if i < len(fv.E) && fv.E[i].K.U == k.U && fv.E[i].K.S == k.S {
		i++
	}
	out = append(out, fv.E[i:]...)
	fv.E = out
	return OK
}

// Canonical rewrites an encoding so that two encodings of the same message
// that differ only in the order of entries within a map become equal: the
// records of consecutive entries of one map field are sorted. It fails if b is
// not an encoding of s made of minimal varints and known fields only.
func Canonical(s *Schema, b []byte) ([]byte, error) {
	out := make([]byte, 0, len(b))
	var run []string
	runNum := -1
	flush := func() {
		sortStrings(run)
		for _, x := range run {
			out = append(out, x...)
		}
		run, runNum = run[:0], -1
	}
	min := func(b []byte) (uint64, int, error) {
		v, n, c := readVarint(b)
		if c != OK {
			return 0, 0, fmt.Errorf("%v", c)
		}
		if n > 1 && b[n-1] == 0 {
			return 0, 0, fmt.Errorf("varint not minimal")
		}
		return v, n, nil
	}
	for len(b) > 0 {
		start := b
		t, n, err := min(b)
		if err != nil {
			return nil, err
		}
		b = b[n:]
		wire := int(t & 7)
		i, ok := s.byNum[int(t>>3)]
		if !ok {
			return nil, fmt.Errorf("field number %d does not exist", t>>3)
		}
		f := &s.Fields[i]
		if f.Card != Map && runNum >= 0 || f.Card == Map && runNum != f.Num {
			flush()
		}
		switch wire {
		case WVarint:
			if _, n, err = min(b); err != nil {
				return nil, err
			}
			b = b[n:]
			out = append(out, start[:len(start)-len(b)]...)
		case WFixed32, WFixed64:
			n = 4
			if wire == WFixed64 {
				n = 8
			}
			if len(b) < n {
				return nil, fmt.Errorf("EOF")
			}
			b = b[n:]
			out = append(out, start[:len(start)-len(b)]...)
		case WBytes:
			l, n, err := min(b)
			if err != nil {
				return nil, err
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return nil, fmt.Errorf("length past the end")
			}
			head, body := start[:len(start)-len(b)], b[:l]
			b = b[l:]
			switch {
			case f.Card == Map:
				es := &Schema{Fields: []Field{{Num: 1, Kind: f.Key, Card: Opt}, {Num: 2, Kind: f.Kind, Card: Opt, Msg: f.Msg}}, byNum: map[int]int{1: 0, 2: 1}}
				x, err := Canonical(es, body)
				if err != nil {
					return nil, fmt.Errorf("map entry: %w", err)
				}
				runNum = f.Num
				run = append(run, string(head)+string(x))
			case f.Kind == Message:
				x, err := Canonical(f.Msg, body)
				if err != nil {
					return nil, err
				}
				out = append(append(out, head...), x...)
			default:
				out = append(append(out, head...), body...)
			}
		default:
			return nil, fmt.Errorf("wire type %d", wire)
		}
	}
	flush()
	return out, nil
}

func sortStrings(a []string) { sort.Strings(a) }

// HasMap reports whether a map field is reachable from the schema.
func HasMap(s *Schema) bool { return hasMap(s, map[*Schema]bool{}) }

func hasMap(s *Schema, seen map[*Schema]bool) bool {
	if seen[s] {
		return false
	}
	seen[s] = true
	for i := range s.Fields {
		f := &s.Fields[i]
		if f.Card == Map || f.Kind == Message && hasMap(f.Msg, seen) {
			return true
		}
	}
	return false
}
