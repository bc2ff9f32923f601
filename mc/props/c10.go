package props

import (
	"fmt"
	"reflect"

	"verif.local/mc/csync"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/sched"
)

type (
	wWide struct {
		B  []byte            `protobuf:"bytes,1,opt"`
		P  *string           `protobuf:"bytes,2,opt"`
		F  []float32         `protobuf:"fixed32,3,rep"`
		S  []string          `protobuf:"bytes,4,rep"`
		M  map[string]string `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		Bs [][]byte          `protobuf:"bytes,6,rep"`
	}
	wTwoMaps struct {
		A map[string]string `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		B map[string]string `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		C map[int32][]byte  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	wBulk struct { // filled with much data
		S string            `protobuf:"bytes,1,opt"`
		B []byte            `protobuf:"bytes,2,opt"`
		R []int64           `protobuf:"varint,3,rep"`
		N []*wLeaf          `protobuf:"bytes,4,rep"`
		M map[string]string `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		P map[int32]*wFlat  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		T []string          `protobuf:"bytes,7,rep"`
		O *wBulk            `protobuf:"bytes,8,opt"`
	}
	wHuge struct { // filled with more data than any usual threshold
		S string           `protobuf:"bytes,1,opt"`
		B []byte           `protobuf:"bytes,2,opt"`
		R []int64          `protobuf:"varint,3,rep"`
		N []*wLeaf         `protobuf:"bytes,4,rep"`
		M map[int32]string `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		T []string         `protobuf:"bytes,7,rep"`
	}
)

// huge fills a wHuge.
func huge(s, leaf *model.Schema, salt int) *model.Msg {
	m := model.NewMsg(s)
	str := func(n, k int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + (i*7+k*3+salt)%26)
		}
		return string(b)
	}
	m.F[0] = model.FieldVal{Set: true, V: model.Val{S: str(70000, 1)}}
	m.F[1] = model.FieldVal{Set: true, V: model.Val{S: str(66000, 2)}}
	for i := 0; i < 1100; i++ {
		m.F[2].L = append(m.F[2].L, model.Val{U: uint64(i*1000 + salt)})
	}
	for i := 0; i < 70; i++ {
		l := model.NewMsg(leaf)
		l.F[0] = model.FieldVal{Set: true, V: model.Val{U: uint64(i + salt + 1)}}
		m.F[3].L = append(m.F[3].L, model.Val{M: l})
		m.F[4].E = append(m.F[4].E, model.Entry{K: model.Val{U: uint64(i * 3)}, V: model.Val{S: str(i, i)}})
		m.F[5].L = append(m.F[5].L, model.Val{S: str(i*20, i)})
	}
	return m
}

// bulk fills a wBulk; salt makes the data of different messages different.
func bulk(s, leaf, flat *model.Schema, salt int) *model.Msg {
	m := model.NewMsg(s)
	str := func(n, k int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + (i*7+k*3+salt)%26)
		}
		return string(b)
	}
	m.F[0] = model.FieldVal{Set: true, V: model.Val{S: str(300, 1)}}
	m.F[1] = model.FieldVal{Set: true, V: model.Val{S: str(5000, 2)}}
	for i := 0; i < 40; i++ {
		m.F[2].L = append(m.F[2].L, model.Val{U: uint64(i*1000 + salt)})
	}
	for i := 0; i < 20; i++ {
		l := model.NewMsg(leaf)
		l.F[0] = model.FieldVal{Set: true, V: model.Val{U: uint64(i + salt + 1)}}
		m.F[3].L = append(m.F[3].L, model.Val{M: l})
		m.F[4].E = append(m.F[4].E, model.Entry{K: model.Val{S: str(i+1, i)}, V: model.Val{S: str(2*i, i)}})
		fl := model.NewMsg(flat)
		fl.F[0] = model.FieldVal{Set: true, V: model.Val{U: uint64(i + salt + 1)}}
		fl.F[1] = model.FieldVal{Set: true, V: model.Val{S: str(70, i)}}
		m.F[5].E = append(m.F[5].E, model.Entry{K: model.Val{U: uint64(i + salt)}, V: model.Val{M: fl}})
		m.F[6].L = append(m.F[6].L, model.Val{S: str(40, i)})
	}
	return m
}

var useTypesMemo []hType

func useTypes() []hType {
	if useTypesMemo != nil {
		return useTypesMemo
	}
	r := append([]hType(nil), concTypes()...)
	add := func(v interface{}, fs ...model.Field) {
		t := reflect.TypeOf(v)
		s := model.Bind(t.Name(), t, fs...)
		m := smallMsg(s, 2)
		r = append(r, hType{name: t.Name(), s: s, t: t, m: m, in: model.Encode(s, m)})
	}
	F, FMap := model.F, model.FMap
	add(wWide{}, F(1, model.Plain, model.Bytes), F(2, model.Ptr, model.String), F(3, model.Rep, model.Float), F(4, model.Rep, model.String), FMap(5, model.String, model.String, nil), F(6, model.Rep, model.Bytes))
	add(wTwoMaps{}, FMap(1, model.String, model.String, nil), FMap(2, model.String, model.String, nil), FMap(3, model.Int32, model.Bytes, nil))
	leaf, flat := typeNamed(r, "wLeaf").s, typeNamed(r, "wFlat").s
	bs := &model.Schema{}
	model.BindTo(bs, "wBulk", reflect.TypeOf(wBulk{}), F(1, model.Plain, model.String), F(2, model.Plain, model.Bytes), F(3, model.Rep, model.Int64), model.FM(4, model.Rep, leaf), FMap(5, model.String, model.String, nil), FMap(6, model.Int32, model.Message, flat), F(7, model.Rep, model.String), model.FM(8, model.Plain, bs))
	bm := bulk(bs, leaf, flat, 1)
	in := bulk(bs, leaf, flat, 50)
	in.F[7] = model.FieldVal{Set: true, V: model.Val{M: bulk(bs, leaf, flat, 7)}}
	r = append(r, hType{name: "wBulk", s: bs, t: bs.Type, m: bm, in: model.Encode(bs, in)})
	hs := model.Bind("wHuge", reflect.TypeOf(wHuge{}), F(1, model.Plain, model.String), F(2, model.Plain, model.Bytes), F(3, model.Rep, model.Int64), model.FM(4, model.Rep, leaf), FMap(5, model.Int32, model.String, nil), F(7, model.Rep, model.String))
	r = append(r, hType{name: "wHuge", s: hs, t: hs.Type, m: huge(hs, leaf, 1), in: model.Encode(hs, huge(hs, leaf, 5))})
	useTypesMemo = r
	return r
}

// inputsOf lists inputs for a type: its encoding, entries that leave something
// out, and malformed ones that fail half-way.
func inputsOf(t *hType) [][]byte {
	r := [][]byte{t.in}
	ent := func(num int, body ...byte) []byte {
		return append(append([]byte{byte(num<<3 | 2)}, byte(len(body))), body...)
	}
	cat := func(bs ...[]byte) []byte {
		var x []byte
		for _, b := range bs {
			x = append(x, b...)
		}
		return x
	}
	switch t.name {
	case "wStrMap":
		full, key, val := ent(1, 0x0a, 1, 'k', 0x10, 7), ent(1, 0x0a, 1, 'q'), ent(1, 0x10, 9)
		r = append(r, cat(full, key), val, cat(full, ent(1, 0x0a, 1, 'z', 0x10)), cat(key, ent(1, 0x10, 5, 0x0a, 9)))
	case "wMap":
		full, key, val := ent(1, 0x08, 3, 0x12, 2, 0x08, 4), ent(1, 0x08, 5), ent(1, 0x12, 2, 0x08, 6)
		r = append(r, cat(full, key), val, cat(full, ent(1, 0x08, 1, 0x12, 2, 0x08)), ent(1, 0x12, 2, 0x08, 7, 0x12, 9))
	case "wSelfMap":
		in := ent(1, 0x08, 2, 0x12, 2, 0x10, 5)
		full := ent(1, append([]byte{0x08, 1, 0x12, byte(len(in))}, in...)...)
		r = append(r, full, cat(full, in), cat(in, ent(1, 0x08, 9, 0x12, 4, 0x0a, 2, 0x12, 3)))
	case "wWide":
		r = append(r, cat(ent(5, 0x0a, 1, 'k', 0x12, 1, 'v'), ent(1, 'b', 'y'), ent(5, 0x0a, 1, 'l')), cat(ent(5, 0x12, 2, 'w', 'w'), ent(4, 's'), ent(6), []byte{0x22, 9}), cat(ent(5, 0x12, 1, 'x'), ent(3, 1, 2, 3)))
	case "wTwoMaps":
		r = append(r, cat(ent(1, 0x0a, 1, 'a', 0x12, 1, 'A'), ent(2, 0x0a, 1, 'b'), ent(3, 0x12, 2, 1, 2)), cat(ent(2, 0x12, 1, 'B'), ent(1, 0x0a, 1, 'c', 0x12, 4)), cat(ent(3, 0x08, 5, 0x12, 1, 9), ent(3, 0x08, 6)))
	case "wMid":
		r = append(r, cat(ent(3, 0x0a, 1, 'k'), ent(2, 's', 't'), ent(3, 0x12, 2, 8, 5), ent(5, 8, 9)), cat(ent(3, 0x0a, 1, 'k', 0x12, 2, 8, 3), ent(3, 0x0a, 1, 'l', 0x12, 1, 8)))
	case "wBulk", "wHuge":
		r = append(r, clip(t.in[:len(t.in)-1]))
	case "wFlat", "wRep", "wInts2":
		r = append(r, append(append([]byte{}, t.in...), 0x80), append([]byte{0x1a, 2, 1, 1}, t.in...))
	}
	return r
}

func c10(c *h.Ctx) {
	c.MaxViolations = 1
	ts := useTypes()
	if !sched.Woven() {
		freeRun(c, ts)
		return
	}
	names := []string{"wFlat", "wMap", "wStrMap", "wSelfMap", "wWide", "wTwoMaps", "wRep", "wSelf", "wA", "wInts2"}
	// the calls on one type: marshal and size a shared message, decode shared
	// inputs
	shared := map[string]reflect.Value{}
	arg := func(t *hType) reflect.Value {
		v, ok := shared[t.name]
		if !ok {
			v = model.ToGo(t.s, t.m)
			shared[t.name] = v
		}
		return v
	}
	type kind struct {
		name string
		op   int
		in   []byte
	}
	kinds := map[string][]kind{}
	for _, n := range names {
		t := typeNamed(ts, n)
		ks := []kind{{n, 0, nil}, {n, 1, nil}}
		for _, in := range inputsOf(t) {
			b := make([]byte, len(in), len(in)+4)
			copy(b, in)
			ks = append(ks, kind{n, 2, b})
		}
		kinds[n] = ks
	}
	mk := func(k kind) *call {
		t := typeNamed(ts, k.name)
		x := mkCall(t, k.op)
		if k.op == 2 {
			x.in = k.in
		} else {
			x.arg = arg(t)
		}
		return x
	}
	sc := func(gran, budget, parts, pool int, threads ...[]kind) concScenario {
		s := concScenario{name: "types in use", gran: gran, budget: budget, parts: parts, pool: pool}
		seen := map[string]bool{}
		for _, th := range threads {
			var cs []*call
			for _, k := range th {
				x := mk(k)
				cs = append(cs, x)
				t := x.t
				if k.op == 2 {
					s.inputs = append(s.inputs, sharedInput{k.in, string(k.in[:cap(k.in)])})
				} else {
					s.shared = append(s.shared, x)
				}
				if !seen[t.name] {
					seen[t.name] = true
					for op := 0; op < 3; op++ {
						s.warm = append(s.warm, mkCall(t, op))
					}
					for _, kk := range kinds[t.name] {
						if kk.op != 0 {
							s.after = append(s.after, mk(kk))
						}
					}
				}
			}
			s.threads = append(s.threads, cs)
		}
		return s
	}
	q := func(quick, thorough int) int {
		if c.Thorough() {
			return thorough
		}
		return quick
	}
	var ss []concScenario
	// larger messages: few preemptions
	large := []string{"wMid", "wBig", "wCyA", "wBulk", "wHuge"}
	for _, n := range large {
		t := typeNamed(ts, n)
		ks := []kind{{n, 0, nil}, {n, 1, nil}}
		for _, in := range inputsOf(t) {
			ks = append(ks, kind{n, 2, in})
		}
		kinds[n] = ks
	}
	for x, n := range large {
		for y, o := range append(append([]string{}, large[x:]...), "wTwoMaps", "wWide") {
			if n != o && (n == "wHuge" || o == "wHuge") {
				continue
			}
			for i, a := range kinds[n] {
				for j, b := range kinds[o] {
					if n == o && j < i || !c.Thorough() && n != o && (i+j+x+y)%2 == 0 {
						continue
					}
					ss = append(ss, sc(sched.Sync, q(1, 2), 1, (i+j)%3, []kind{a}, []kind{b}))
				}
			}
		}
	}
	concExplore(c, "larger messages, synchronization operations", ss)
	ss = nil
	for _, n := range []string{"wMid", "wBig"} {
		for i, a := range kinds[n] {
			for _, b := range kinds[n][i:] {
				ss = append(ss, sc(sched.Fine, 1, 1, csync.LIFO, []kind{a}, []kind{b}))
			}
		}
	}
	concExplore(c, "larger messages, every statement", ss)
	ss = nil
	// every pair of calls on the same type, and on two types
	for _, n := range names {
		for i, a := range kinds[n] {
			for j, b := range kinds[n] {
				if j < i {
					continue
				}
				for pool := csync.LIFO; pool <= csync.Never; pool++ {
					if pool != csync.LIFO && !c.Thorough() && (i+j+pool)%3 != 0 {
						continue
					}
					ss = append(ss, sc(sched.Sync, q(4, 6), 1, pool, []kind{a}, []kind{b}))
				}
			}
		}
	}
	for i, n := range names {
		for j := i + 1; j < len(names); j++ {
			for x, a := range kinds[n] {
				for y, b := range kinds[names[j]] {
					if !c.Thorough() && (x+y+i+j)%2 != 0 {
						continue
					}
					ss = append(ss, sc(sched.Sync, q(3, 4), 1, (x+y)%3, []kind{a}, []kind{b}))
				}
			}
		}
	}
	concExplore(c, "pairs of calls, synchronization operations", ss)
	// longer histories per thread
	ss = nil
	for _, n := range names {
		ks := kinds[n]
		for i := range ks {
			for j := range ks {
				if !c.Thorough() && (i+j)%2 == 1 {
					continue
				}
				a, b := ks[i], ks[j]
				ss = append(ss, sc(sched.Sync, q(3, 4), 1, (i+j)%3, []kind{a, b}, []kind{b, a}))
				ss = append(ss, sc(sched.Sync, q(2, 3), 1, (i+j+1)%3, []kind{a}, []kind{b}, []kind{ks[(i+1)%len(ks)]}))
			}
		}
	}
	concExplore(c, "histories and three threads, synchronization operations", ss)
	// every statement
	ss = nil
	for _, n := range names {
		ks := kinds[n]
		for i, a := range ks {
			for j, b := range ks {
				if j < i {
					continue
				}
				ss = append(ss, sc(sched.Fine, 1, 1, csync.LIFO, []kind{a}, []kind{b}))
			}
		}
	}
	concExplore(c, "pairs of calls, every statement", ss)
	ss = nil
	for _, n := range names {
		ks := kinds[n]
		for i, a := range ks {
			for j, b := range ks {
				if j < i || !c.Thorough() && (n != "wStrMap" || !(i == 2 && j == 3 || i == 3 && j == 4)) {
					continue
				}
				ss = append(ss, sc(sched.Fine, 2, 32, csync.LIFO, []kind{a}, []kind{b}))
			}
		}
	}
	concExplore(c, "pairs of calls, every statement, deep", ss)
	_ = fmt.Sprint
}
