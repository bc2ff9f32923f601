package gen

import (
	"fmt"

	"verif.local/mc/model"
)

// Tok is a piece of input: usually one record, well-formed or not.
type Tok struct {
	B    []byte
	Desc string
}

func tk(desc string, b []byte) Tok { return Tok{B: b, Desc: desc} }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func rep(c byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}

func vi(v uint64) []byte         { return model.AppendVarint(nil, v) }
func vin(v uint64, n int) []byte { return model.AppendVarintN(nil, v, n) }
func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}
func tag(num, wire int) []byte { return model.AppendTag(nil, num, wire) }
func lenp(b []byte) []byte     { return cat(vi(uint64(len(b))), b) }

// BadVarints are varints no decoder may accept, complete or not.
var BadVarints = []Tok{
	tk("overflow 2^64", cat(rep(0x80, 9), []byte{2})),
	tk("overflow 0x7f", cat(rep(0xff, 9), []byte{0x7f})),
	tk("11 bytes, zero", cat(rep(0x80, 10), []byte{0})),
	tk("11 bytes, one", cat(rep(0x80, 10), []byte{1})),
	tk("12 bytes", cat(rep(0xff, 11), []byte{1})),
	tk("cut after 1", []byte{0x80}),
	tk("cut after 1", []byte{0xff}),
	tk("cut after 2", []byte{0x80, 0x80}),
	tk("cut after 9", rep(0xff, 9)),
	tk("cut after 10", rep(0x80, 10)),
	tk("cut after 11", rep(0xff, 11)),
}

// OddVarints are unusual but well-formed varints.
var OddVarints = []Tok{
	tk("0 in 2", vin(0, 2)), tk("0 in 10", vin(0, 10)), tk("1 in 2", vin(1, 2)), tk("1 in 3", vin(1, 3)), tk("1 in 5", vin(1, 5)), tk("1 in 9", vin(1, 9)), tk("1 in 10", vin(1, 10)),
	tk("2", vi(2)), tk("128", vi(128)), tk("128 in 4", vin(128, 4)), tk("256", vi(256)), tk("2^31", vi(1<<31)), tk("2^32", vi(1<<32)), tk("2^32+5", vi(1<<32+5)), tk("2^32-1", vi(1<<32-1)),
	tk("2^63", vi(1<<63)), tk("2^63-1", vi(1<<63-1)), tk("2^64-1", vi(1<<64-1)), tk("-2^31", vi(1<<64-1<<31)), tk("2^33-1", vi(1<<33-1)), tk("0x100000000ff", vi(0x100000000ff)),
}

// payloads of one value of a kind (after the tag), well-formed.
func payloads(k model.Kind, sub *model.Schema, lv Level) []Tok {
	var r []Tok
	switch k.Wire() {
	case model.WVarint:
		for _, v := range append([]model.Val{{}}, Scalars(k, Small)...) {
			r = append(r, tk(v.String(), model.AppendValue(nil, k, sub, v)))
			if lv == Tiny && len(r) == 3 {
				return r
			}
		}
		odd := OddVarints
		if lv == Small {
			odd = odd[:8]
		}
		r = append(r, odd...)
	case model.WFixed32, model.WFixed64:
		for _, v := range append([]model.Val{{}}, Scalars(k, Small)...) {
			r = append(r, tk(v.String(), model.AppendValue(nil, k, sub, v)))
			if lv == Tiny && len(r) == 3 {
				return r
			}
		}
	case model.WBytes:
		if k != model.Message {
			for _, v := range append([]model.Val{{}}, Scalars(k, Small)...) {
				r = append(r, tk(v.String(), model.AppendValue(nil, k, sub, v)))
				if lv == Tiny && len(r) == 3 {
					return r
				}
			}
			r = append(r, tk("\"x\", length in 2", cat(vin(1, 2), []byte("x"))), tk("\"ab\", length in 5", cat(vin(2, 5), []byte("ab"))), tk("empty, length in 10", vin(0, 10)), tk("\"q\", length in 10", cat(vin(1, 10), []byte("q"))))
			return r
		}
		for _, b := range msgBodies(sub, lv) {
			r = append(r, tk("{"+b.Desc+"}", lenp(b.B)))
		}
		if lv > Tiny {
			r = append(r, tk("{}, length in 3", vin(0, 3)))
		}
	}
	return r
}

// msgBodies are bodies of a nested message.
func msgBodies(s *model.Schema, lv Level) []Tok {
	r := []Tok{tk("", nil)}
	var firsts [][]byte
	for i := range s.Fields {
		f := &s.Fields[i]
		if f.Kind == model.Message {
			continue
		}
		ps := payloads(f.Kind, nil, Tiny)
		if f.Card == model.Map {
			continue
		}
		for j, p := range ps {
			t := cat(tag(f.Num, f.Kind.Wire()), p.B)
			if j == 1 {
				firsts = append(firsts, t)
			}
			if lv > Tiny || j == 1 {
				r = append(r, tk(fmt.Sprintf("%d:%s", f.Num, p.Desc), t))
			}
		}
	}
	if len(firsts) > 1 {
		r = append(r, tk("all", cat(firsts...)))
		if lv > Tiny {
			rev := [][]byte{}
			for i := len(firsts) - 1; i >= 0; i-- {
				rev = append(rev, firsts[i])
			}
			r = append(r, tk("all reversed", cat(rev...)), tk("all twice", cat(append(firsts, rev...)...)))
			r = append(r, tk("unknown", cat(tag(99, 0), vi(300))), tk("unknown+first", cat(tag(99, 2), lenp([]byte("zz")), firsts[0])))
		}
	}
	return r
}

// badBodies are malformed bodies of a nested message.
func badBodies(s *model.Schema) []Tok {
	r := []Tok{tk("cut tag", []byte{0x80}), tk("wire 3", cat(tag(99, 3))), tk("wire 7", []byte{15}), tk("unknown cut", cat(tag(99, 2), vi(5), []byte("ab"))), tk("overflow tag", BadVarints[1].B)}
	for i := range s.Fields {
		f := &s.Fields[i]
		w := f.Kind.Wire()
		if f.Card == model.Map {
			w = model.WBytes
		}
		r = append(r, tk("only tag", tag(f.Num, w)))
		r = append(r, tk("wrong wire", cat(tag(f.Num, (w+1)%6), rep(0, 8))))
		if w == model.WBytes {
			r = append(r, tk("cut", cat(tag(f.Num, w), vi(7), []byte("ab"))))
		}
	}
	return r
}

// GoodToks are well-formed records of a field.
func GoodToks(f *model.Field, lv Level) []Tok {
	var r []Tok
	w := f.Kind.Wire()
	if f.Card == model.Map {
		for _, e := range entryBodies(f, lv) {
			r = append(r, tk("entry{"+e.Desc+"}", cat(tag(f.Num, 2), lenp(e.B))))
		}
		if lv > Tiny {
			e := entryBodies(f, Tiny)[1]
			r = append(r, tk("entry, length in 4", cat(tag(f.Num, 2), vin(uint64(len(e.B)), 4), e.B)))
		}
	} else {
		for _, p := range payloads(f.Kind, f.Msg, lv) {
			r = append(r, tk(p.Desc, cat(tag(f.Num, w), p.B)))
		}
		if f.Card == model.Rep && w != model.WBytes {
			ps := payloads(f.Kind, nil, Small)
			r = append(r, tk("packed []", cat(tag(f.Num, 2), vi(0))))
			r = append(r, tk("packed one", cat(tag(f.Num, 2), lenp(ps[1].B))))
			var all []byte
			for _, p := range ps {
				all = append(all, p.B...)
			}
			r = append(r, tk("packed all", cat(tag(f.Num, 2), lenp(all))))
			if lv > Tiny {
				r = append(r, tk("packed two", cat(tag(f.Num, 2), lenp(cat(ps[1].B, ps[0].B)))))
				for n := 9; n <= 12; n++ {
					r = append(r, tk(fmt.Sprintf("packed %d", n), cat(tag(f.Num, 2), lenp(rep2(ps[1].B, n)))))
				}
			}
		}
	}
	if lv > Tiny {
		// padded tags
		body := r[1].B[len(tag(f.Num, w)):]
		if f.Card == model.Map {
			w = model.WBytes
			body = r[1].B[len(tag(f.Num, 2)):]
		}
		t := uint64(f.Num)<<3 | uint64(w)
		for n := len(vi(t)) + 1; n <= 10; n++ {
			if lv == Full || n == 10 || n == len(vi(t))+1 {
				r = append(r, tk(fmt.Sprintf("tag in %d", n), cat(vin(t, n), body)))
			}
		}
	}
	return r
}

func rep2(b []byte, n int) []byte {
	var r []byte
	for i := 0; i < n; i++ {
		r = append(r, b...)
	}
	return r
}

// entryBodies are well-formed bodies of a map entry.
func entryBodies(f *model.Field, lv Level) []Tok {
	ks := payloads(f.Key, nil, Tiny)
	vs := payloads(f.Kind, f.Msg, Tiny)
	kt, vt := tag(1, f.Key.Wire()), tag(2, f.Kind.Wire())
	K := func(i int) []byte { return cat(kt, ks[i%len(ks)].B) }
	V := func(i int) []byte { return cat(vt, vs[i%len(vs)].B) }
	r := []Tok{tk("", nil), tk("k1 v1", cat(K(1), V(1)))}
	if lv == Tiny {
		return append(r, tk("k1 v2", cat(K(1), V(2))), tk("k1", K(1)), tk("v1", V(1)))
	}
	for i := range ks {
		for j := range vs {
			if i != 1 || j != 1 {
				r = append(r, tk(fmt.Sprintf("k%d v%d", i, j), cat(K(i), V(j))))
			}
		}
	}
	for i := range ks {
		r = append(r, tk(fmt.Sprintf("k%d", i), K(i)))
	}
	for i := range vs {
		r = append(r, tk(fmt.Sprintf("v%d", i), V(i)))
	}
	r = append(r, tk("v1 k1", cat(V(1), K(1))), tk("k1 k2 v1", cat(K(1), K(2), V(1))), tk("k1 v1 v2", cat(K(1), V(1), V(2))), tk("k1 v1 k0", cat(K(1), V(1), K(0))), tk("v2 k1 v1 k2", cat(V(2), K(1), V(1), K(2))))
	r = append(r, tk("k1 unknown v1", cat(K(1), tag(3, 0), vi(300), V(1))), tk("unknown", cat(tag(3, 2), lenp([]byte("zz")))), tk("k1 v1 unknown", cat(K(1), V(1), tag(15, 5), rep(7, 4))), tk("unknown(9,fixed64) k1", cat(tag(9, 1), rep(7, 8), K(1))))
	if lv == Full {
		for _, p := range payloads(f.Key, nil, Full) {
			r = append(r, tk("key "+p.Desc, cat(kt, p.B, V(1))))
		}
		for _, p := range payloads(f.Kind, f.Msg, Full) {
			r = append(r, tk("val "+p.Desc, cat(K(1), vt, p.B)))
		}
	}
	return r
}

// BadToks are malformed records of a field.
func BadToks(f *model.Field, lv Level) []Tok {
	var r []Tok
	w := f.Kind.Wire()
	if f.Card == model.Map {
		w = model.WBytes
	}
	t := tag(f.Num, w)
	for wt := 0; wt < 8; wt++ {
		if wt == w {
			continue
		}
		var body []byte
		switch wt {
		case 0:
			body = vi(1)
		case 1:
			body = rep(1, 8)
		case 2:
			body = lenp([]byte{1, 1, 1})
		case 5:
			body = rep(1, 4)
		}
		r = append(r, tk(fmt.Sprintf("wire type %d", wt), cat(tag(f.Num, wt), body)))
	}
	r = append(r, tk("only tag", t))
	switch w {
	case model.WVarint:
		for _, b := range BadVarints {
			if lv > Tiny {
				r = append(r, tk(b.Desc, cat(t, b.B)))
			}
		}
		if lv == Tiny {
			r = append(r, tk("overflow", cat(t, BadVarints[1].B)))
		}
	case model.WFixed32:
		for n := 1; n < 4; n++ {
			r = append(r, tk(fmt.Sprintf("%d bytes", n), cat(t, rep(1, n))))
		}
	case model.WFixed64:
		for n := 1; n < 8; n++ {
			if lv > Tiny || n == 7 || n == 4 {
				r = append(r, tk(fmt.Sprintf("%d bytes", n), cat(t, rep(1, n))))
			}
		}
	case model.WBytes:
		for _, l := range HostileLens {
			if lv > Tiny || l == 4 || l == 1<<63 || l == 1<<64-1 {
				r = append(r, tk(fmt.Sprintf("length %d, 3 bytes", l), cat(t, vi(l), []byte{0x0a, 0x01, 0x61})))
			}
		}
		if lv > Tiny {
			for _, b := range BadVarints {
				r = append(r, tk("length "+b.Desc, cat(t, b.B)))
			}
		}
	}
	if f.Kind == model.Message && f.Card != model.Map {
		for _, b := range badBodies(f.Msg) {
			r = append(r, tk("{"+b.Desc+"}", cat(t, lenp(b.B))))
		}
	}
	if f.Card == model.Map {
		kt, vt := tag(1, f.Key.Wire()), tag(2, f.Kind.Wire())
		k1 := cat(kt, payloads(f.Key, nil, Tiny)[1].B)
		v1 := cat(vt, payloads(f.Kind, f.Msg, Tiny)[1].B)
		bad := []Tok{tk("cut tag", []byte{0x80}), tk("k only tag", kt), tk("v only tag", cat(k1, vt)), tk("wire 3", cat(k1, v1, tag(7, 3))), tk("wire 6", cat(tag(1, 6), v1)), tk("cut unknown", cat(k1, v1, tag(7, 1), rep(1, 7))),
			tk("key wrong wire", cat(tag(1, (f.Key.Wire()+1)%6), rep(0, 8), v1)), tk("val wrong wire", cat(k1, tag(2, (f.Kind.Wire()+1)%6), rep(0, 8)))}
		if f.Kind.Wire() == model.WBytes {
			bad = append(bad, tk("val cut", cat(k1, vt, vi(9), []byte("abc"))), tk("val huge", cat(k1, vt, vi(1<<63), []byte("abc"))))
		}
		if f.Key == model.String {
			bad = append(bad, tk("key cut", cat(kt, vi(9), []byte("abc"))), tk("val then key cut", cat(v1, kt, vi(9), []byte("abc"))))
		}
		if f.Kind == model.Message {
			for _, b := range badBodies(f.Msg) {
				bad = append(bad, tk("val{"+b.Desc+"}", cat(k1, vt, lenp(b.B))))
			}
		}
		for _, b := range bad {
			r = append(r, tk("entry{"+b.Desc+"}", cat(t, lenp(b.B))))
		}
	}
	if f.Card == model.Rep && f.Kind.Wire() != model.WBytes {
		ps := payloads(f.Kind, nil, Tiny)
		pt := tag(f.Num, 2)
		cut := []byte{0x80}
		if f.Kind.Wire() != model.WVarint {
			cut = []byte{1, 1, 1}
		}
		r = append(r, tk("packed cut", cat(pt, lenp(cut))), tk("packed one, cut", cat(pt, lenp(cat(ps[1].B, cut)))), tk("packed past end", cat(pt, vi(9), ps[1].B)))
		if f.Kind.Wire() == model.WVarint {
			r = append(r, tk("packed overflow", cat(pt, lenp(cat(ps[1].B, BadVarints[1].B)))))
		}
	}
	return r
}

// HostileLens are lengths past the end of any input used here.
var HostileLens = []uint64{4, 127, 128, 1 << 14, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 3, 1 << 40, 1 << 48, 1 << 62, 1<<63 - 20, 1<<63 - 1, 1 << 63, 1<<63 + 3, 1<<64 - 20, 1<<64 - 4, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1}

// UnknownNums are numbers to use for unknown fields next to known ones:
// neighbours, and numbers that alias the known ones when truncated.
func UnknownNums(s *model.Schema, lv Level) []int {
	known := map[int]bool{}
	for i := range s.Fields {
		known[s.Fields[i].Num] = true
	}
	var r []int
	add := func(n int) {
		if n >= 1 && n <= 536870911 && !known[n] {
			known[n] = true
			r = append(r, n)
		}
	}
	add(1000)
	add(536870911)
	add(1)
	for i := range s.Fields {
		n := s.Fields[i].Num
		add(n + 1)
		add(n - 1)
		if lv > Tiny {
			add(n + 16)
			add(n + 32)
			add(n + 64)
			add(n + 128)
			add(n + 256)
			add(n + 512)
			add(n + 1024)
			add(n + 4096)
			add(n + 65536)
			add(n + 1<<20)
			add(n + 1<<24)
			add(n + 1<<28)
			add(n + 1<<21)
			add(n * 8)
			add(n << 3 & 536870911)
		}
	}
	if lv == Full {
		for _, n := range Nums {
			add(n)
		}
		for n := 1; n <= 130; n++ {
			add(n)
		}
	}
	return r
}

// UnknownToks are well-formed records of an unknown field number.
func UnknownToks(num int, lv Level) []Tok {
	d := func(s string, w int, b []byte) Tok {
		return tk(fmt.Sprintf("unknown %d %s", num, s), cat(tag(num, w), b))
	}
	r := []Tok{d("varint 1", 0, vi(1)), d("fixed32", 5, []byte{1, 2, 3, 4}), d("fixed64", 1, []byte{8, 1, 8, 1, 8, 1, 8, 1}), d("bytes", 2, lenp([]byte{8, 1, 0x0a}))}
	if lv > Tiny {
		r = append(r, d("varint 0", 0, vi(0)), d("varint max", 0, vi(1<<64-1)), d("varint padded", 0, vin(5, 10)), d("varint 300", 0, vi(300)), d("bytes empty", 2, vi(0)), d("bytes 127", 2, lenp(rep(0x0a, 127))), d("bytes 128", 2, lenp(rep(0xff, 128))), d("bytes padded length", 2, cat(vin(2, 9), []byte{0x80, 0x80})), d("fixed32 ff", 5, rep(0xff, 4)), d("fixed64 80", 1, rep(0x80, 8)))
	}
	if lv == Full {
		r = append(r, d("bytes 16384", 2, lenp(rep(1, 16384))), d("bytes 1", 2, lenp([]byte{0})), d("varint 2^63", 0, vi(1<<63)), d("varint 2^35", 0, vi(1<<35)))
	}
	return r
}

// BadUnknownToks are malformed records of an unknown field number.
func BadUnknownToks(num int, lv Level) []Tok {
	d := func(s string, w int, b []byte) Tok {
		return tk(fmt.Sprintf("unknown %d %s", num, s), cat(tag(num, w), b))
	}
	var r []Tok
	for _, w := range []int{3, 4, 6, 7} {
		r = append(r, d(fmt.Sprintf("wire type %d", w), w, nil), d(fmt.Sprintf("wire type %d, more", w), w, []byte{0, 0, 0, 0, 0, 0, 0, 0}))
	}
	r = append(r, d("only tag", 0, nil), d("only tag", 2, nil), d("3 of 4", 5, rep(1, 3)), d("7 of 8", 1, rep(1, 7)), d("only tag", 5, nil), d("only tag", 1, nil))
	for _, l := range HostileLens {
		r = append(r, d(fmt.Sprintf("length %d of 3", l), 2, cat(vi(l), rep(8, 3))))
		if lv == Tiny {
			break
		}
	}
	for _, b := range BadVarints {
		r = append(r, d(b.Desc, 0, b.B), d("length "+b.Desc, 2, b.B))
		if lv == Tiny {
			break
		}
	}
	return r
}
