package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
)

// region is a piece of memory something refers to.
type region struct {
	lo, hi uintptr
	str    bool // immutable: may be shared with other strings only
	owner  int  // identical owner and address: the same object met twice
	what   string
}

type regions struct {
	r     []region
	owner int
	maps  map[uintptr]string
	dup   string
	pre   string
	quiet bool // do not render paths
}

func (g *regions) add(p unsafe.Pointer, n uintptr, str bool, what string) {
	if n == 0 || p == nil {
		return
	}
	g.r = append(g.r, region{uintptr(p), uintptr(p) + n, str, g.owner, what})
}

func (g *regions) sub(path, s string) string {
	if g.quiet {
		return ""
	}
	return path + s
}

// message collects the memory of a message (a pointer to a struct).
func (g *regions) message(p reflect.Value, name string) {
	g.owner++
	g.add(p.UnsafePointer(), p.Type().Elem().Size(), false, name)
	g.walk(p.Elem(), name)
}

func (g *regions) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			g.add(v.UnsafePointer(), v.Type().Elem().Size(), false, g.sub(path, ".*"))
			g.walk(v.Elem(), g.sub(path, ".*"))
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			switch t.Field(i).Type.Kind() {
			case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.String, reflect.Map:
				if g.quiet {
					g.walk(v.Field(i), "")
				} else {
					g.walk(v.Field(i), path+"."+t.Field(i).Name)
				}
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		g.add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size(), false, g.sub(path, "[]"))
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.String, reflect.Map:
			for i := 0; i < v.Len(); i++ {
				if g.quiet {
					g.walk(v.Index(i), "")
				} else {
					g.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
				}
			}
		}
	case reflect.String:
		s := v.String()
		if len(s) > 0 {
			g.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), true, path)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if g.maps == nil {
			g.maps = map[uintptr]string{}
		}
		if o, ok := g.maps[v.Pointer()]; ok {
			g.dup = fmt.Sprintf("%s and %s are the same map", o, path)
		}
		g.maps[v.Pointer()] = path
		it := v.MapRange()
		i := 0
		for it.Next() {
			g.walk(it.Key(), g.sub(path, " key"))
			if g.quiet {
				g.walk(it.Value(), "")
			} else {
				g.walk(it.Value(), fmt.Sprintf("%s{%v}", path, it.Key()))
			}
			i++
		}
	}
}

// buffer adds a byte slice up to its capacity.
func (g *regions) buffer(b []byte, name string) {
	g.owner++
	if cap(b) > 0 {
		g.add(unsafe.Pointer(&b[:1][0]), uintptr(cap(b)), false, name)
	}
}

// overlap reports two regions that share memory.
func (g *regions) overlap() string {
	if g.dup != "" {
		return g.dup
	}
	if len(g.r) < 2 {
		return ""
	}
	if len(g.r) < 12 {
		for i := 1; i < len(g.r); i++ {
			for j := i; j > 0 && g.r[j].lo < g.r[j-1].lo; j-- {
				g.r[j], g.r[j-1] = g.r[j-1], g.r[j]
			}
		}
	} else {
		sort.Slice(g.r, func(i, j int) bool { return g.r[i].lo < g.r[j].lo })
	}
	// furthest end of a writable region, and of a string
	var w, s *region
	for i := range g.r {
		x := &g.r[i]
		if w != nil && x.lo < w.hi {
			return fmt.Sprintf("%s and %s share memory", w.what, x.what)
		}
		if s != nil && x.lo < s.hi && !x.str {
			return fmt.Sprintf("%s and %s share memory", s.what, x.what)
		}
		if x.str {
			if s == nil || x.hi > s.hi {
				s = x
			}
		} else if w == nil || x.hi > w.hi {
			w = x
		}
	}
	return ""
}

// shared runs the analysis, a second time with names if something is found.
func shared(f func(g *regions)) string {
	g := regions{quiet: true}
	f(&g)
	if g.overlap() == "" {
		return ""
	}
	g = regions{}
	f(&g)
	return g.overlap()
}

// withSpare copies b into a buffer with spare capacity filled with x.
func withSpare(b []byte, n int, x byte) []byte {
	buf := make([]byte, len(b), len(b)+n)
	copy(buf, b)
	sp := buf[:cap(buf)]
	for i := len(b); i < len(sp); i++ {
		sp[i] = x
	}
	return buf
}

func spareIntact(buf []byte, n int, x byte) bool {
	sp := buf[:cap(buf)]
	for i := n; i < len(sp); i++ {
		if sp[i] != x {
			return false
		}
	}
	return true
}

// C11: no sharing.
func c11(c *h.Ctx) {
	var prev reflect.Value // the message decoded before
	var prevS *model.Schema
	var prevKey string
	count := 0
	decodeSpace(c, func(s *model.Schema, in []byte) {
		// nothing variable-sized: nothing can be shared
		buf := withSpare(in, 16, 0x0a)
		p, q := model.Fresh(s), model.Fresh(s)
		_ = proto.Unmarshal(buf, p.Interface())
		_ = proto.Unmarshal(buf, q.Interface())
		c.Trans(2)
		if !bytes.Equal(buf, in) || !spareIntact(buf, len(in), 0x0a) {
			c.Fail("Unmarshal changed its input (or what follows it): %s", hx(in))
		}
		if d := shared(func(g *regions) {
			g.buffer(buf, "input")
			g.message(p, "message")
			g.message(q, "second message")
			if prev.IsValid() {
				g.message(prev, "earlier message")
			}
		}); d != "" {
			c.Fail("%s; input %s", d, hx(in))
		}
		// the earlier message is as it was
		if prev.IsValid() {
			m, err := model.FromGo(prevS, prev)
			if err == nil && m.Key() != prevKey {
				c.Fail("decoding %s changes an earlier message: %s, was %s", hx(in), m.Key(), prevKey)
			}
		}
		// overwriting the input changes nothing
		m1, err := model.FromGo(s, p)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		k := m1.Key()
		all := buf[:cap(buf)]
		for i := range all {
			all[i] = 0xEE
		}
		m2, _ := model.FromGo(s, p)
		if m2 == nil || m2.Key() != k {
			c.Fail("overwriting the input changes the message from %v to %v; input %s", m1, m2, hx(in))
		}
		if count++; count%7 == 0 {
			prev, prevS, prevKey = p, s, k
		}
		c.Outcome("decoded")
	})

	// Encoding side.
	messageSpace(c, func(s *model.Schema, m *model.Msg) int {
		p := model.ToGo(s, m)
		before := hiddenKey(p)
		sz := proto.Size(p.Interface())
		b1, e1 := proto.Marshal(p.Interface())
		b2, e2 := proto.Marshal(p.Interface())
		if e1 != nil || e2 != nil {
			c.Fail("Marshal: %v %v", e1, e2)
			return 3
		}
		if hiddenKey(p) != before {
			c.Fail("Size or Marshal changed the message to %s, was %s", hiddenKey(p), before)
		}
		_ = sz
		if d := shared(func(g *regions) {
			g.message(p, "message")
			g.buffer(b1, "first result")
			g.buffer(b2, "second result")
		}); d != "" {
			c.Fail("%s", d)
		}
		keep := clip(b2)
		all := b1[:cap(b1)]
		for i := range all {
			all[i] ^= 0xFF
		}
		if hiddenKey(p) != before {
			c.Fail("overwriting the marshalled bytes changes the message")
		}
		if !bytes.Equal(keep, b2) {
			c.Fail("overwriting the result of one Marshal changes the result of another")
		}
		// decode, modify one thing at a time
		q := model.Fresh(s)
		if err := proto.Unmarshal(b2, q.Interface()); err != nil {
			c.Fail("Unmarshal: %v", err)
			return 4
		}
		if d := shared(func(g *regions) {
			g.message(p, "source message")
			g.buffer(b2, "bytes")
			g.message(q, "decoded message")
		}); d != "" {
			c.Fail("%s", d)
		}
		return 4
	})

	// Histories: several messages of the same type decoded one after the
	// other into fresh and used messages; all of them stay apart.
	if c.Family("histories") {
		for _, sh := range model.Shapes() {
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf), model.F(2, model.Plain, model.Bytes))
			n := 8
			depth := 3
			if c.Thorough() {
				n, depth = 14, 4
			}
			toks := thin(gen.GoodToks(&s.Fields[0], gen.Small), n)
			bad := thin(gen.BadToks(&s.Fields[0], gen.Small), 3)
			for _, b := range bad {
				toks = append(toks, gen.Tok{B: append(clip(toks[1].B), b.B...), Desc: toks[1].Desc + " then " + b.Desc})
			}
			// op: token k into message j (0: fresh, 1: the first, 2: the latest)
			type op struct{ k, j int }
			var ops []op
			for k := range toks {
				ops = append(ops, op{k, 0}, op{k, 1})
			}
			sequences(len(ops), depth, func(ix []int) {
				if !c.Case(func() string {
					d := ""
					for _, i := range ix {
						d += fmt.Sprintf("<%s into %d> ", toks[ops[i].k].Desc, ops[i].j)
					}
					return d
				}) {
					return
				}
				before := len(c.R.Violations)
				c.Guard("Unmarshal", func() {
					var ms []reflect.Value
					var keys []string
					var bufs [][]byte
					for _, i := range ix {
						o := ops[i]
						buf := withSpare(toks[o.k].B, 8, 0x0a)
						bufs = append(bufs, buf)
						var p reflect.Value
						at := -1
						if o.j == 1 && len(ms) > 0 {
							p, at = ms[0], 0
						} else {
							p = model.Fresh(s)
							ms = append(ms, p)
							keys = append(keys, "")
							at = len(ms) - 1
						}
						_ = proto.Unmarshal(buf, p.Interface())
						c.Trans(1)
						for j := range ms {
							m, err := model.FromGo(s, ms[j])
							if err != nil {
								c.Fail("%v", err)
								return
							}
							if j != at && m.Key() != keys[j] {
								c.Fail("decoding into message %d changes message %d from %s to %s", at, j, keys[j], m.Key())
								return
							}
							keys[j] = m.Key()
						}
					}
					if d := shared(func(g *regions) {
						for i := range bufs {
							g.buffer(bufs[i], fmt.Sprintf("input %d", i))
						}
						for i := range ms {
							g.message(ms[i], fmt.Sprintf("message %d", i))
						}
					}); d != "" {
						c.Fail("%s", d)
					}
				})
				c.StateU(c.Pos())
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
			})
		}
	}
}
