package props

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/h"
	"verif.local/mc/model"
)

func hx(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x..(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// C01: round trip.
func c01(c *h.Ctx) {
	check := func(s *model.Schema, m *model.Msg, p reflect.Value) int {
		b, err := proto.Marshal(p.Interface())
		if err != nil {
			c.Fail("Marshal: %v", err)
			return 1
		}
		q := model.Fresh(s)
		if err := proto.Unmarshal(b, q.Interface()); err != nil {
			c.Fail("Unmarshal(Marshal(m)): %v; bytes %s", err, hx(b))
			return 2
		}
		got, err := model.FromGo(s, q)
		if err != nil {
			c.Fail("%v; bytes %s", err, hx(b))
			return 2
		}
		if d := model.Diff(m, got); d != "" {
			c.Fail("round trip changed the message: %s; got %v; bytes %s", d, got, hx(b))
		}
		return 2
	}
	messageSpace(c, func(s *model.Schema, m *model.Msg) int { return check(s, m, model.ToGo(s, m)) })
	changeSpace(c, changeVisit{size: onlySize, marshal: func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int { return check(s, m, p) }})
}

// C02: canonical encoding.
func c02(c *h.Ctx) {
	check := func(s *model.Schema, m *model.Msg, p reflect.Value) int {
		b, err := proto.Marshal(p.Interface())
		if err != nil {
			c.Fail("Marshal: %v", err)
			return 1
		}
		want := model.Encode(s, m)
		if !bytes.Equal(b, want) {
			ok := false
			var cerr error
			if len(b) == len(want) && model.HasMap(s) {
				var x, y []byte
				x, cerr = model.Canonical(s, b)
				if cerr == nil {
					y, cerr = model.Canonical(s, want)
					ok = cerr == nil && bytes.Equal(x, y)
				}
			}
			if !ok {
				c.Fail("encoding is %s, want %s (map entries in any order) %v", hx(b), hx(want), cerr)
			}
			c.Outcome("map order differs")
		}
		if d := standardReads(c, s, m, b); d != "" {
			c.Fail("%s; %s", d, hx(b))
		}
		b2, err := proto.Marshal(p.Interface())
		if err != nil || len(b2) != len(b) || !model.HasMap(s) && !bytes.Equal(b, b2) {
			c.Fail("second Marshal of the same message gives %s (%v), first %s", hx(b2), err, hx(b))
		}
		return 2
	}
	messageSpace(c, func(s *model.Schema, m *model.Msg) int { return check(s, m, model.ToGo(s, m)) })
	changeSpace(c, changeVisit{size: onlySize, marshal: func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int { return check(s, m, p) }})
}

// C03: size.
func c03(c *h.Ctx) {
	messageSpace(c, func(s *model.Schema, m *model.Msg) int {
		p := model.ToGo(s, m)
		n := proto.Size(p.Interface())
		b, err := proto.Marshal(p.Interface())
		if err != nil {
			c.Fail("Marshal: %v", err)
			return 2
		}
		if n != len(b) {
			c.Fail("Size is %d, Marshal produces %d bytes: %s", n, len(b), hx(b))
		}
		if n2 := proto.Size(p.Interface()); n2 != n {
			c.Fail("Size is %d after Marshal, %d before", n2, n)
		}
		got, err := model.FromGo(s, p)
		if err != nil {
			c.Fail("Size/Marshal: %v", err)
			return 3
		}
		if d := model.Diff(m, got); d != "" {
			c.Fail("Size or Marshal changed the message: %s", d)
		}
		return 3
	})
	changeSpace(c, changeVisit{
		size: func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int {
			if n := proto.Size(p.Interface()); n != l.marshal {
				c.Fail("Size is %d, an equal message marshals to %d bytes", n, l.marshal)
			}
			return 1
		},
		marshal: func(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int {
			b, err := proto.Marshal(p.Interface())
			if err != nil || len(b) != l.size {
				c.Fail("Marshal gives %d bytes, the Size of an equal message is %d: %s (%v)", len(b), l.size, hx(b), err)
			}
			return 1
		},
	})
}

// onlySize is a call of Size between others.
func onlySize(s *model.Schema, m *model.Msg, p reflect.Value, l lens) int {
	proto.Size(p.Interface())
	return 1
}
