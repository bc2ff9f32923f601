package props

import (
	"fmt"

	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"verif.local/mc/dyn"
	"verif.local/mc/h"
	"verif.local/mc/model"
)

// The reference model is held against a second, independent implementation
// (google.golang.org/protobuf with dynamic messages) on every message and
// input that is explored.

var descMemo = map[*model.Schema]protoreflect.MessageDescriptor{}

// descOf is the descriptor of a schema; nil if there is none (numbers that
// are reserved, ...).
func descOf(s *model.Schema) protoreflect.MessageDescriptor {
	d, ok := descMemo[s]
	if !ok {
		if len(descMemo) > 64 {
			descMemo = map[*model.Schema]protoreflect.MessageDescriptor{}
		}
		d, _ = dyn.Descriptor(s)
		descMemo[s] = d
	}
	return d
}

// standard decodes with the standard implementation.
func standard(s *model.Schema, md protoreflect.MessageDescriptor, in []byte) (*model.Msg, error) {
	d := dynamicpb.NewMessage(md)
	if err := dyn.Unmarshal(in, d); err != nil {
		return nil, err
	}
	m, err := dyn.FromKnown(s, d)
	if err != nil {
		return nil, err
	}
	dyn.Implicit(s, m)
	return dyn.Quiet(s, m), nil
}

// standardReads checks that the standard implementation reads b as m.
func standardReads(c *h.Ctx, s *model.Schema, m *model.Msg, b []byte) string {
	md := descOf(s)
	if md == nil {
		c.Outcome("no descriptor for the standard implementation")
		return ""
	}
	got, err := standard(s, md, b)
	if err != nil {
		return fmt.Sprintf("a standard decoder rejects the bytes: %v", err)
	}
	if d := model.Diff(dyn.Quiet(s, m), got); d != "" {
		return fmt.Sprintf("a standard decoder reads %v from the bytes: %s", got, d)
	}
	c.Outcome("read back by the standard implementation")
	return ""
}

// standardAgrees checks the outcome of the reference decoder.
func standardAgrees(c *h.Ctx, s *model.Schema, in []byte, want *model.Msg, r model.Result) string {
	switch {
	case r.Unspec:
		return ""
	case r.Class == model.Mismatch || r.Class == model.WireTypes:
		return "" // handled as unknown fields there
	}
	md := descOf(s)
	if md == nil {
		c.Outcome("no descriptor for the standard implementation")
		return ""
	}
	got, err := standard(s, md, in)
	if (err == nil) != (r.Class == model.OK) {
		return fmt.Sprintf("the reference decoder finds %v, a standard decoder %v", r, err)
	}
	c.Outcome("reference confirmed by the standard implementation")
	if err != nil {
		return ""
	}
	if d := model.Diff(dyn.Quiet(s, want), got); d != "" {
		return fmt.Sprintf("the reference decoder reads %v, a standard decoder %v: %s", want, got, d)
	}
	return ""
}
