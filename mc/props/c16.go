package props

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"

	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/sched"
	"verif.local/mc/types"
)

var churnSink [64][]byte
var churnPtrs [64][]*int64

// churn reuses freed memory and fills it with junk.
func churn() {
	for i := 0; i < 64; i++ {
		n := 8 << (i % 8)
		b := make([]byte, n)
		for j := range b {
			b[j] = 0xEE
		}
		churnSink[i] = b
		v := new(int64)
		*v = 0x6666666666666666
		p := make([]*int64, 1+i%24)
		for j := range p {
			p[j] = v
		}
		churnPtrs[i] = p
	}
	for i := range churnSink {
		churnSink[i], churnPtrs[i] = nil, nil
	}
}

//go:noinline
func deepStack(n int) int {
	var pad [512]byte
	pad[n%512] = byte(n)
	if n == 0 {
		return int(pad[0])
	}
	return deepStack(n-1) + int(pad[(n+1)%512])
}

// disturb moves the stack, collects garbage and reuses what was freed. With
// clobberfree set, freed memory is overwritten as well.
func disturb() {
	deepStack(60) // more than 32 KB: the stack has to grow
	runtime.GC()  // shrinks it again
	churn()
}

// ballast is a chain of objects that keeps the marker busy; it is marked
// before the small objects of a call, which are marked last.
type ballastNode struct {
	next *ballastNode
	pad  [255]*ballastNode
}

var ballast *ballastNode

func makeBallast(n int) {
	for i := 0; i < n; i++ {
		ballast = &ballastNode{next: ballast}
	}
}

// startMarking starts a collection and returns when it has scanned the stacks
// and is busy with the ballast; the channel is closed when the collection is
// over.
func startMarking() chan struct{} {
	done := make(chan struct{})
	go func() {
		runtime.GC()
		close(done)
	}()
	for i := 0; i < 4; i++ {
		runtime.Gosched()
	}
	return done
}

// C16: collections at every point.
func c16(c *h.Ctx) {
	c.MaxViolations = 1
	debug.SetGCPercent(-1)
	if !sched.Woven() {
		c.R.Capped = true
		c.Note("without points in the code: collections only before and after the calls")
	}
	type subject struct {
		s    *model.Schema
		m    *model.Msg
		prev *model.Msg // message to decode into, nil: a fresh one
		mk   bool       // the first field of the message to decode into is an empty map
	}
	warm := false // the type is in use already
	// exec makes one call with disturbances at the points for which at is
	// true, and checks the result, then once more after another disturbance.
	exec := func(x *subject, op int, at func(step int) bool, in []byte, want string, wantMsg *model.Msg) (points int) {
		if !warm {
			sched.Reset()
		}
		done := make(chan struct{})
		var fail string
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					fail = fmt.Sprintf("panic: %v", r)
				}
			}()
			t := &hType{name: x.s.Label(), s: x.s, t: x.s.Type, m: x.m, in: in}
			k := mkCall(t, op)
			if op == 2 {
				if x.prev != nil {
					k.arg = model.ToGo(x.s, x.prev)
				} else {
					k.arg = model.Fresh(x.s)
				}
				if x.mk {
					f := model.GoField(x.s, 0, k.arg.Elem())
					f.Set(reflect.MakeMap(f.Type()))
				}
			}
			k.prepare()
			var marking chan struct{}
			points = sched.Count(func(step int) {
				if at(step) {
					if ballast == nil {
						disturb()
					} else if marking == nil {
						marking = startMarking()
					}
				}
			}, k.do)
			if marking != nil {
				select {
				case <-marking:
					c.Outcome("marking ended before the call")
				default:
					c.Outcome("marking outlasted the call")
					<-marking
				}
				churn()
			}
			for round := 0; round < 2; round++ {
				got := k.describe()
				if got != want {
					fail = fmt.Sprintf("round %d: %v gives %s, want %s (panic: %v)", round, k, got, want, k.res.panic)
					return
				}
				if op != 2 {
					m, err := model.FromGo(x.s, k.res.arg)
					if err != nil || m.Key() != x.m.Key() {
						fail = fmt.Sprintf("round %d: %v changed the message to %v (%v)", round, k, m, err)
						return
					}
				}
				disturb()
			}
		}()
		<-done
		if fail != "" {
			c.Fail("%s", fail)
		}
		return points
	}
	run := func(x subject, all bool, pairs int) {
		in := model.Encode(x.s, x.m)
		for op := 0; op < 3; op++ {
			if op != 2 && (x.prev != nil || warm) {
				continue
			}
			want := ""
			var wm *model.Msg
			switch op {
			case 0:
				want = fmt.Sprintf("size %d", len(in))
			case 1:
				b, err := model.Canonical(x.s, in)
				if err != nil {
					panic(err)
				}
				want = fmt.Sprintf("bytes %x", b)
			case 2:
				wm = model.NewMsg(x.s)
				if x.prev != nil {
					wm = x.prev.Clone()
				}
				model.Decode(x.s, in, wm)
				want = "message " + wm.Key()
			}
			name := [...]string{"Size", "Marshal", "Unmarshal"}[op]
			n := 0
			one := func(desc func() string, at func(int) bool) {
				if !c.Case(desc) {
					return
				}
				before := len(c.R.Violations)
				p := exec(&x, op, at, in, want, wm)
				if p > n {
					n = p
				}
				c.Trans(p) // every point passed
				c.StateU(c.Pos(), uint64(len(c.R.PerFamily)))
				if len(c.R.Violations) == before {
					c.Trace(1)
				}
				c.Outcome(name + " unchanged")
			}
			// learn the number of points
			if warm {
				exec(&x, op, func(int) bool { return false }, in, want, wm)
			}
			n = exec(&x, op, func(int) bool { return false }, in, want, wm)
			for k := 1; k <= n; k++ {
				k := k
				one(func() string { return fmt.Sprintf("%s %v: collection at point %d of %d", name, x.m, k, n) }, func(s int) bool { return s == k })
			}
			if all {
				one(func() string { return fmt.Sprintf("%s %v: collections at all %d points", name, x.m, n) }, func(s int) bool { return true })
			}
			if pairs > 0 {
				for k := 1; k <= n; k++ {
					for d := 1; d <= pairs && k+d <= n; d++ {
						k, d := k, d
						one(func() string {
							return fmt.Sprintf("%s %v: collections at points %d and %d of %d", name, x.m, k, k+d, n)
						}, func(s int) bool { return s == k || s == k+d })
					}
				}
			}
		}
	}
	// exploration of marking: everything the call does from point k on happens
	// between the scan of the stacks and the scan of the heap
	mark := func(x subject) {
		warm = true
		run(x, false, 0)
		warm = false
		if c.Thorough() {
			run(x, false, 0)
		}
	}
	pairs := 0
	if c.Thorough() {
		pairs = 12
	}
	if c.Family("every shape, every point") {
		for i, sh := range model.Shapes() {
			if !c.Thorough() && sh.Card == model.Map && (i%4 != 0 && sh.Key != model.String) {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.New("", sh.Of(3, Leaf))
			f := &s.Fields[0]
			var vals []model.FieldVal
			switch sh.Card {
			case model.Rep:
				vals = append(vals, gen.ListOf(f, 3))
			case model.Map:
				vals = append(vals, gen.MapOf(f, 2))
			default:
				vals = append(vals, presentOf(f, 3))
			}
			for _, fv := range vals {
				m := model.NewMsg(s)
				m.F[0] = fv
				run(subject{s: s, m: m}, true, pairs)
				run(subject{s: s, m: m, prev: m}, false, 0)
			}
		}
	}
	// Messages inside others that hold nothing but one field, or that and a
	// number: whatever decides how their memory is allocated sees each shape
	// alone.
	if c.Family("every shape inside, every point") {
		for i, sh := range model.Shapes() {
			if sh.Card == model.Map && (i%9 != 0 || !c.Thorough() && i%27 != 0) {
				continue
			}
			for with := 0; with < 2; with++ {
				points := sh.Kind == model.String || sh.Kind == model.Bytes || sh.Kind == model.Message
				if !c.Thorough() && !points && (with == 1 || sh.Card == model.Plain || sh.Card == model.Opt || i%3 != 0) {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v, %d more", sh, with) }) {
					continue
				}
				fs := []model.Field{sh.Of(3, Leaf)}
				if with == 1 {
					fs = []model.Field{model.F(1, model.Opt, model.Int64), fs[0]}
				}
				in := model.New("", fs...)
				val := func(k int) *model.Msg {
					m := model.NewMsg(in)
					f := &in.Fields[with]
					switch sh.Card {
					case model.Rep:
						m.F[with] = gen.ListOf(f, 1+k)
					case model.Map:
						m.F[with] = gen.MapOf(f, 1+k)
					default:
						m.F[with] = presentOf(f, 3+k)
					}
					if with == 1 {
						m.F[0] = model.FieldVal{Set: true, V: model.Val{U: uint64(k)}}
					}
					return m
				}
				for _, out := range []model.Field{model.FM(2, model.Plain, in), model.FM(2, model.Rep, in), model.FMap(2, model.Int32, model.Message, in)} {
					s := model.New("", out)
					m := model.NewMsg(s)
					switch out.Card {
					case model.Rep:
						m.F[0].L = []model.Val{{M: val(0)}, {M: val(1)}}
					case model.Map:
						m.F[0].E = []model.Entry{{K: model.Val{U: 1}, V: model.Val{M: val(0)}}, {K: model.Val{U: 2}, V: model.Val{M: val(1)}}}
					default:
						m.F[0] = model.FieldVal{Set: true, V: model.Val{M: val(0)}}
					}
					run(subject{s: s, m: m}, true, 0)
				}
			}
		}
	}
	if c.Family("growth, every point") {
		for _, sh := range model.CoreShapes() {
			if sh.Card != model.Rep && sh.Card != model.Map {
				continue
			}
			if !c.Unit(func() string { return sh.String() }) {
				continue
			}
			s := model.New("", sh.Of(3, Leaf))
			f := &s.Fields[0]
			for _, n := range []int{11, 21} {
				m := model.NewMsg(s)
				if sh.Card == model.Rep {
					m.F[0] = gen.ListOf(f, n)
				} else {
					m.F[0] = gen.MapOf(f, n)
				}
				if !c.Thorough() && n > 11 {
					continue
				}
				run(subject{s: s, m: m}, true, 0)
			}
		}
	}
	if c.Family("large fields, points spread over the call") {
		spread := 12
		counts := []int{41, 161, 700, 2561, 5200}
		if c.Thorough() {
			spread = 150
			counts = append(counts, 10300, 33000)
		}
		for _, sh := range model.CoreShapes() {
			if sh.Card != model.Rep && sh.Card != model.Map || sh.Card == model.Map && sh.Kind != model.String && sh.Kind != model.Message && sh.Key != model.String {
				continue
			}
			for _, n := range counts {
				if n > 161 && sh.Kind != model.String && sh.Kind != model.Bytes && sh.Kind != model.Message && sh.Card != model.Map && n != 5200 || sh.Card == model.Map && sh.Key == model.Bool && n > 41 {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v, %d", sh, n) }) {
					continue
				}
				s := model.New("", sh.Of(3, Leaf))
				f := &s.Fields[0]
				m := model.NewMsg(s)
				if sh.Card == model.Rep {
					m.F[0] = gen.ListOf(f, n)
				} else {
					m.F[0] = gen.MapOf(f, n)
				}
				in := model.Encode(s, m)
				wm := model.NewMsg(s)
				x := subject{s: s, m: m}
				for op := 1; op < 3; op++ {
					want := ""
					if op == 1 {
						b, err := model.Canonical(s, in)
						if err != nil {
							panic(err)
						}
						want = fmt.Sprintf("bytes %x", b)
					} else {
						model.Decode(s, in, wm)
						want = "message " + wm.Key()
					}
					total := 0
					for k := 0; k <= spread; k++ {
						// the first one: only after the call
						name := [...]string{"Size", "Marshal", "Unmarshal"}[op]
						if !c.Case(func() string { return fmt.Sprintf("%s: collection %d of %d", name, k, spread) }) {
							continue
						}
						before := len(c.R.Violations)
						step := -1
						if k > 0 {
							if total == 0 {
								total = exec(&x, op, func(int) bool { return false }, in, want, wm)
							}
							step = total * k / spread
						}
						p := exec(&x, op, func(s int) bool { return s == step }, in, want, wm)
						c.Trans(p)
						c.StateU(c.Pos(), uint64(len(c.R.PerFamily)))
						if len(c.R.Violations) == before {
							c.Trace(1)
						}
						c.Outcome(name + " unchanged")
					}
				}
			}
		}
	}
	if c.Family("whole messages, every point") {
		for _, s := range types.All() {
			if !c.Unit(func() string { return s.Label() }) {
				continue
			}
			m := smallMsg(s, 2)
			run(subject{s: s, m: m}, c.Thorough(), pairs)
			run(subject{s: s, m: m, prev: smallMsg(s, 1)}, false, 0)
		}
		for _, d := range []int{1, 2, 3} {
			for k := 0; k < 3; k++ {
				if !c.Unit(func() string { return fmt.Sprintf("Rec %d deep by %d", d, k) }) {
					continue
				}
				run(subject{s: types.RecS, m: deepRec(d, k)}, true, pairs)
			}
		}
	}
	if c.Family("marking in progress from every point on") {
		makeBallast(1500)
		defer func() { ballast = nil }()
		for _, sh := range model.CoreShapes() {
			if sh.Card != model.Rep && sh.Card != model.Map && sh.Kind != model.Message && sh.Kind != model.Bytes && sh.Kind != model.String && sh.Card != model.Ptr {
				continue
			}
			for _, n := range []int{1, 3, 9, 16, 31} {
				if !c.Thorough() && n > 3 && (sh.Kind != model.Message && sh.Kind != model.String || n != 16) || n > 1 && sh.Card != model.Rep && sh.Card != model.Map {
					continue
				}
				if !c.Unit(func() string { return fmt.Sprintf("%v x %d", sh, n) }) {
					continue
				}
				s := model.New("", sh.Of(3, Leaf))
				f := &s.Fields[0]
				m := model.NewMsg(s)
				switch sh.Card {
				case model.Rep:
					m.F[0] = gen.ListOf(f, n)
				case model.Map:
					m.F[0] = gen.MapOf(f, n)
				default:
					m.F[0] = presentOf(f, 3)
				}
				mark(subject{s: s, m: m})
				if sh.Card == model.Map {
					mark(subject{s: s, m: m, prev: model.NewMsg(s), mk: true})
				}
				if n < 5 {
					mark(subject{s: s, m: m, prev: m})
				}
			}
		}
		for _, s := range types.All() {
			if !c.Unit(func() string { return s.Label() }) {
				continue
			}
			mark(subject{s: s, m: smallMsg(s, 2)})
			mark(subject{s: s, m: smallMsg(s, 2), prev: smallMsg(s, 1)})
		}
	}
}
