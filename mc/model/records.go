package model

// Record is one record of a well-formed encoding.
type Record struct {
	Num, Wire int
	Field     int    // index of the schema field, -1 if unknown
	Head      []byte // tag
	Body      []byte // payload without the length prefix (length-delimited) or the raw value
	Raw       []byte
}

// Records splits a well-formed encoding.
func Records(s *Schema, b []byte) []Record {
	var out []Record
	for len(b) > 0 {
		start := b
		t, n, c := readVarint(b)
		if c != OK {
			panic("model: records")
		}
		b = b[n:]
		r := Record{Num: int(t >> 3), Wire: int(t & 7), Field: -1, Head: start[:n]}
		if i, ok := s.byNum[r.Num]; ok {
			r.Field = i
		}
		switch r.Wire {
		case WVarint:
			_, n, _ = readVarint(b)
			r.Body, b = b[:n], b[n:]
		case WFixed32:
			r.Body, b = b[:4], b[4:]
		case WFixed64:
			r.Body, b = b[:8], b[8:]
		case WBytes:
			l, n, _ := readVarint(b)
			r.Body, b = b[n:n+int(l)], b[n+int(l):]
		default:
			panic("model: records")
		}
		r.Raw = start[:len(start)-len(b)]
		out = append(out, r)
	}
	return out
}

// EntrySchema describes the entries of a map field.
func EntrySchema(f *Field) *Schema {
	return &Schema{label: "entry", Fields: []Field{{Num: 1, Kind: f.Key, Card: Opt}, {Num: 2, Kind: f.Kind, Card: Opt, Msg: f.Msg}}, byNum: map[int]int{1: 0, 2: 1}}
}

// SubSchema is the schema of the contents of a record, or nil.
func SubSchema(s *Schema, r *Record) *Schema {
	if r.Field < 0 || r.Wire != WBytes {
		return nil
	}
	f := &s.Fields[r.Field]
	switch {
	case f.Card == Map:
		return EntrySchema(f)
	case f.Kind == Message:
		return f.Msg
	}
	return nil
}

// Has reports whether the schema declares the number.
func (s *Schema) Has(num int) bool { _, ok := s.byNum[num]; return ok }

// Rebuild calls f with every encoding that results from inserting ins(level
// schema) at a record boundary of b, at any level. path describes the place.
func Rebuild(s *Schema, b []byte, ins func(s *Schema) []byte, f func(out []byte, depth, pos int)) {
	rebuild(s, b, ins, f, 0)
}

func rebuild(s *Schema, b []byte, ins func(s *Schema) []byte, f func(out []byte, depth, pos int), depth int) {
	rs := Records(s, b)
	if t := ins(s); t != nil {
		off := 0
		for i := 0; i <= len(rs); i++ {
			o := make([]byte, 0, len(b)+len(t))
			o = append(o, b[:off]...)
			o = append(o, t...)
			o = append(o, b[off:]...)
			f(o, depth, i)
			if i < len(rs) {
				off += len(rs[i].Raw)
			}
		}
	}
	off := 0
	for i := range rs {
		r := &rs[i]
		if sub := SubSchema(s, r); sub != nil {
			off := off
			rebuild(sub, r.Body, ins, func(x []byte, d, p int) {
				o := make([]byte, 0, len(b)+len(x))
				o = append(o, b[:off]...)
				o = append(o, r.Head...)
				o = AppendVarint(o, uint64(len(x)))
				o = append(o, x...)
				o = append(o, b[off+len(r.Raw):]...)
				f(o, d, p)
			}, depth+1)
		}
		off += len(r.Raw)
	}
}
