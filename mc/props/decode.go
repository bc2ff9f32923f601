package props

import (
	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/h"
	"verif.local/mc/model"
)

// C05: decode conformance.
func c05(c *h.Ctx) {
	decodeSpace(c, func(s *model.Schema, in []byte) {
		want := model.NewMsg(s)
		r := model.Decode(s, in, want)
		if d := standardAgrees(c, s, in, want, r); d != "" {
			c.Fail("%s; input %s", d, hx(in))
			return
		}
		q := model.Fresh(s)
		err := proto.Unmarshal(in, q.Interface())
		c.Trans(1)
		if r.Unspec {
			c.Outcome("unspecified")
			return
		}
		if (r.Class == model.OK) != (err == nil) {
			c.Fail("Unmarshal returns %v, the input is: %v; input %s", err, r, hx(in))
			return
		}
		if r.Class != model.OK {
			c.Outcome("rejected: " + r.Class.String())
			return
		}
		c.Outcome("accepted")
		got, err := model.FromGo(s, q)
		if err != nil {
			c.Fail("%v; input %s", err, hx(in))
			return
		}
		if d := model.Diff(want, got); d != "" {
			c.Fail("decoded %s; got %v, want %v; input %s", d, got, want, hx(in))
		}
	})
}
