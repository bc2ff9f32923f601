package props

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// errPath collects the field errors of an error, outermost first.
func errPath(err error) (p []model.FieldRef, cause error) {
	for err != nil {
		if fe, ok := err.(*proto.UnmarshalFieldError); ok {
			p = append(p, model.FieldRef{Num: fe.FieldNumber, Wire: fe.WireType})
		}
		u := errors.Unwrap(err)
		if u == nil {
			return p, err
		}
		err = u
	}
	return p, nil
}

// checkError compares an error with the verdict of the reference decoder.
func checkError(c *h.Ctx, r model.Result, err error, in []byte) {
	if err == nil {
		c.Fail("no error, want %v; input %s", r, hx(in))
		return
	}
	c.Outcome(r.Class.String())
	path, _ := errPath(err)
	for e, i := err, 0; e != nil && i < 4; e, i = errors.Unwrap(e), i+1 {
		fe, ok := e.(*proto.UnmarshalFieldError)
		if !ok {
			continue
		}
		for _, w := range []string{strconv.Itoa(fe.FieldNumber), strconv.Itoa(fe.WireType), fe.Err.Error()} {
			if !strings.Contains(e.Error(), w) {
				c.Fail("the text %q of the error for field %d, wire type %d does not give %q; input %s", e.Error(), fe.FieldNumber, fe.WireType, w, hx(in))
			}
		}
	}
	same := len(path) == len(r.Path)
	for i := 0; same && i < len(path); i++ {
		same = path[i] == r.Path[i]
	}
	if !same {
		c.Fail("the error is reported for the fields %v, want %v (number, wire type; outermost first): %v; input %s", path, r.Path, err, hx(in))
	}
	eof, unk := errors.Is(err, io.ErrUnexpectedEOF), errors.Is(err, proto.ErrWireTypeUnknown)
	switch r.Class {
	case model.EOF:
		if !eof {
			c.Fail("want an error that is io.ErrUnexpectedEOF, got %v; input %s", err, hx(in))
		}
	case model.WireTypes:
		if !unk || eof {
			c.Fail("want an error that is ErrWireTypeUnknown, got %v; input %s", err, hx(in))
		}
	case model.Mismatch:
		if eof {
			c.Fail("a wrong wire type is reported as %v; input %s", err, hx(in))
		}
	case model.Overflow:
		if eof {
			c.Fail("a varint which is too long, but not cut, is reported as %v; input %s", err, hx(in))
		}
	}
	if unk && (r.Class == model.EOF || r.Class == model.Overflow) {
		c.Fail("%v is reported as %v; input %s", r.Class, err, hx(in))
	}
	var fe *proto.UnmarshalFieldError
	if len(r.Path) > 0 && (!errors.As(err, &fe) || fe.FieldNumber != r.Path[0].Num) {
		c.Fail("errors.As does not give the outermost field: %v; input %s", err, hx(in))
	}
}

// C13: truncation and corruption.
func c13(c *h.Ctx) {
	cuts := func(s *model.Schema, enc []byte) {
		bound := map[int]bool{0: true}
		off := 0
		for _, r := range model.Records(s, enc) {
			off += len(r.Raw)
			bound[off] = true
		}
		for k := 0; k <= len(enc); k++ {
			if len(enc) > 400 && k > 150 && k < len(enc)-150 && k%37 != 0 && !bound[k] {
				continue // the middle of a long string
			}
			in := enc[:k:k]
			if !c.Case(func() string { return fmt.Sprintf("cut at %d of %s", k, hx(enc)) }) {
				continue
			}
			c.SetRepro(func() string { return reproUnmarshal(s, in) })
			before := len(c.R.Violations)
			c.Guard("Unmarshal", func() {
				q := model.Fresh(s)
				err := proto.Unmarshal(in, q.Interface())
				c.Trans(1)
				want := model.NewMsg(s)
				r := model.Decode(s, in, want)
				if bound[k] {
					c.Outcome("cut between fields")
					if err != nil {
						c.Fail("cut between two fields: %v; input %s", err, hx(in))
						return
					}
					got, ferr := model.FromGo(s, q)
					if ferr != nil {
						c.Fail("%v", ferr)
						return
					}
					if d := model.Diff(want, got); d != "" {
						c.Fail("cut between two fields: %s; got %v, want %v; input %s", d, got, want, hx(in))
					}
					return
				}
				if r.Class != model.EOF {
					panic(fmt.Sprintf("reference: cut message is %v", r))
				}
				checkError(c, r, err, in)
			})
			c.State(s.Label(), string(in))
			if len(c.R.Violations) == before {
				c.Trace(1)
			}
		}
	}
	if c.Family("cuts, one field") {
		for _, num := range []int{1, 16, 2048, 536870911} {
			for _, sh := range model.Shapes() {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				lv := gen.Small
				if c.Thorough() || num == 1 && sh.Card != model.Map {
					lv = gen.Full
				}
				for _, fv := range gen.FieldVals(&s.Fields[0], lv) {
					m := model.NewMsg(s)
					m.F[0] = fv
					enc := model.Encode(s, m)
					if len(enc) < 20000 {
						cuts(s, enc)
					}
				}
				for _, t := range gen.GoodToks(&s.Fields[0], lv) {
					cuts(s, append(clip(t.B), t.B...))
				}
			}
		}
	}
	if c.Family("cuts, several fields") {
		shapes := model.Shapes()
		others := model.CoreShapes()
		if c.Thorough() {
			others = shapes
		}
		for _, a := range shapes {
			for _, b := range others {
				if !c.Unit(func() string { return fmt.Sprintf("%v, %v", a, b) }) {
					continue
				}
				s := model.NewCanary("", a.Of(1, Leaf), b.Of(17, Leaf))
				va, vb := gen.FieldVals(&s.Fields[0], gen.Tiny), gen.FieldVals(&s.Fields[1], gen.Tiny)
				m := model.NewMsg(s)
				m.F[0], m.F[1] = va[len(va)-1], vb[len(vb)-1]
				cuts(s, model.Encode(s, m))
			}
		}
	}
	if c.Family("cuts, nested") {
		max := 3
		if c.Thorough() {
			max = 5
		}
		for d := 1; d <= max; d++ {
			for code := 0; code < 1<<(2*uint(d)); code++ {
				if !c.Unit(func() string { return fmt.Sprintf("depth %d chain %d", d, code) }) {
					continue
				}
				s := chainSchema(d, code)
				for _, l := range []int{0, 2, 100, 127, 128} {
					cuts(s, model.Encode(s, chainMsg(s, d, l)))
				}
			}
		}
		tmax := 4
		if c.Thorough() {
			tmax = 5
		}
		for _, s := range []*model.Schema{types.RecS, types.AS} {
			for n := 1; n <= tmax; n++ {
				for i, m := range trees(s, n) {
					if !c.Unit(func() string { return fmt.Sprintf("%v: tree %d of %d nodes", s, i, n) }) {
						continue
					}
					cuts(s, model.Encode(s, m))
				}
			}
		}
		for _, s := range types.All() {
			for i := range s.Fields {
				if !c.Unit(func() string { return fmt.Sprintf("%v field %d", s, i) }) {
					continue
				}
				for _, fv := range fieldValsRec(&s.Fields[i], gen.Small) {
					m := model.NewMsg(s)
					m.F[i] = fv
					enc := model.Encode(s, m)
					if len(enc) < 20000 {
						cuts(s, enc)
					}
				}
			}
		}
	}
	// Errors inside deeply nested messages.
	if c.Family("deep") {
		depths := []int{}
		for d := 1; d <= 70; d++ {
			depths = append(depths, d)
		}
		depths = append(depths, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 999, 1000, 1001)
		if c.Thorough() {
			depths = append(depths, 2000, 4095, 4096, 4097, 9999, 10000, 10001)
		}
		faults := [][]byte{{8}, {9, 0}, {8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}, {13, 0, 0, 0, 0}, {16, 1}, {18, 5, 8, 1}, {34, 2, 10, 9}, {34, 2, 16, 9}, {34, 2, 18, 9}, {0x82, 1, 3, 'a'}, {0x0f}, {0}, {0x80}, {11}, {12}, {40}}
		for k := 0; k < 4; k++ {
			for _, d := range depths {
				if !c.Unit(func() string { return fmt.Sprintf("chain %d of depth %d", k, d) }) {
					continue
				}
				if k == 3 && d > 1000 {
					continue
				}
				for _, fault := range faults {
					// 0..2: one kind of field at every level; 3: all in turn, with siblings
					in := clip(fault)
					for i := 0; i < d; i++ {
						kk := k
						if k == 3 {
							kk = i % 3
						}
						switch kk {
						case 0:
							in = append(model.AppendVarint([]byte{18}, uint64(len(in))), in...)
						case 1:
							in = append(model.AppendVarint([]byte{26}, uint64(len(in))), in...)
						case 2:
							in = append(model.AppendVarint([]byte{10, 1, 'k', 18}, uint64(len(in))), in...)
							in = append(model.AppendVarint([]byte{34}, uint64(len(in))), in...)
						}
						if k == 3 {
							in = append([]byte{8, 1, 26, 2, 8, 3}, in...)
						}
					}
					if !c.Case(func() string { return fmt.Sprintf("%x inside", fault) }) {
						continue
					}
					c.SetRepro(func() string { return reproUnmarshal(types.RecS, in) })
					before := len(c.R.Violations)
					c.Guard("Unmarshal", func() {
						want := model.NewMsg(types.RecS)
						r := model.Decode(types.RecS, in, want)
						if r.Unspec || r.Class == model.OK {
							return
						}
						err := proto.Unmarshal(in, model.Fresh(types.RecS).Interface())
						c.Trans(1)
						checkError(c, r, err, in)
					})
					c.State(types.RecS.Label(), string(in))
					if len(c.R.Violations) == before {
						c.Trace(1)
					}
				}
			}
		}
	}
	// Corruption: every token of the decode space, and damaged messages.
	decodeSpace(c, func(s *model.Schema, in []byte) {
		want := model.NewMsg(s)
		r := model.Decode(s, in, want)
		if r.Unspec {
			return
		}
		if r.Class == model.OK {
			return
		}
		q := model.Fresh(s)
		err := proto.Unmarshal(in, q.Interface())
		c.Trans(1)
		checkError(c, r, err, in)
	})
	if c.Family("every byte replaced") {
		for _, be := range bearers(c) {
			s, m := be.s, be.m
			if !c.Unit(func() string { return fmt.Sprintf("%v %v", s, m) }) {
				continue
			}
			enc := model.Encode(s, m)
			if len(enc) > 120 {
				enc = enc[:120]
			}
			for k := range enc {
				for x := 0; x < 256; x++ {
					if !c.Thorough() && x%8 > 5 && x < 0x70 && x > 24 {
						continue
					}
					in := clip(enc)
					in[k] = byte(x)
					if !c.Case(func() string { return hx(in) }) {
						continue
					}
					c.SetRepro(func() string { return reproUnmarshal(s, in) })
					before := len(c.R.Violations)
					c.Guard("Unmarshal", func() {
						want := model.NewMsg(s)
						r := model.Decode(s, in, want)
						if r.Unspec {
							return
						}
						q := model.Fresh(s)
						err := proto.Unmarshal(in, q.Interface())
						c.Trans(1)
						if r.Class != model.OK {
							checkError(c, r, err, in)
							return
						}
						if err != nil {
							c.Fail("%v; input %s", err, hx(in))
							return
						}
						got, ferr := model.FromGo(s, q)
						if ferr != nil {
							c.Fail("%v", ferr)
							return
						}
						if d := model.Diff(want, got); d != "" {
							c.Fail("%s; input %s", d, hx(in))
						}
					})
					c.State(s.Label(), string(in))
					if len(c.R.Violations) == before {
						c.Trace(1)
					}
				}
			}
		}
	}
}
