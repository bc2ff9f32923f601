package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/csync"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/sched"
)

// call is one call made by a thread. Everything but the call itself happens
// outside of the schedule.
type call struct {
	t   *hType
	op  int // 0 Size, 1 Marshal, 2 Unmarshal
	in  []byte
	m   *model.Msg
	arg reflect.Value // shared argument, or
	res *result
}

type result struct {
	arg   reflect.Value
	iface interface{}
	n     int
	b     []byte
	err   error
	panic interface{}
}

func (k *call) String() string {
	return [...]string{"Size", "Marshal", "Unmarshal"}[k.op] + " " + k.t.name
}

func callsString(cs []*call) string {
	var s []string
	for _, k := range cs {
		s = append(s, k.String())
	}
	return strings.Join(s, "; ")
}

// prepare builds the argument.
func (k *call) prepare() {
	k.res = new(result)
	a := k.arg
	if !a.IsValid() {
		switch {
		case k.t.s == nil:
			a = reflect.New(k.t.t)
		case k.op == 2:
			a = model.Fresh(k.t.s)
		default:
			a = model.ToGo(k.t.s, k.m)
		}
	}
	k.res.arg = a
	k.res.iface = a.Interface()
}

// do makes the call; it runs inside the schedule.
func (k *call) do() {
	r := k.res
	defer func() {
		if p := recover(); p != nil {
			r.panic = p
		}
	}()
	switch k.op {
	case 0:
		r.n = proto.Size(r.iface)
	case 1:
		r.b, r.err = proto.Marshal(r.iface)
	case 2:
		r.err = proto.Unmarshal(k.in, r.iface)
	}
}

// describe renders the result in the terms of histExpect.
func (k *call) describe() string {
	r := k.res
	if r.panic != nil {
		return "panic"
	}
	switch k.op {
	case 0:
		return "size " + strconv.Itoa(r.n)
	case 1:
		if r.err != nil {
			return "error " + r.err.Error()
		}
		if k.t.s != nil {
			if x, err := model.Canonical(k.t.s, r.b); err == nil {
				return fmt.Sprintf("bytes %x", x)
			}
		}
		return fmt.Sprintf("raw %x", r.b)
	}
	if k.t.s == nil {
		return "accepted"
	}
	m, err := model.FromGo(k.t.s, r.arg)
	if err != nil {
		return "broken " + err.Error()
	}
	if r.err != nil {
		return "error " + r.err.Error() + ", message " + m.Key()
	}
	return "message " + m.Key()
}

// expect is what the call returns when it is made alone: in a process in the
// state it has at its start.
func (k *call) expect() string {
	sched.Reset()
	alone([]*call{k})
	return k.describe()
}

func mkCall(t *hType, op int) *call { return &call{t: t, op: op, in: t.in, m: t.m} }

// concScenario is a set of threads.
type concScenario struct {
	name    string
	threads [][]*call
	warm    []*call       // made before the threads start
	after   []*call       // made when they are done
	shared  []*call       // their arg is a shared message that must not change
	inputs  []sharedInput // must not change
	gran    int
	budget  int // preemptions
	pool    int
	order   int // of ranges over maps
	parts   int // units the schedules are spread over
}

type sharedInput struct {
	b   []byte
	now string
}

func (s *concScenario) String() string {
	var t []string
	for _, cs := range s.threads {
		t = append(t, "{"+callsString(cs)+"}")
	}
	g := "every statement"
	if s.gran == sched.Sync {
		g = "synchronization operations"
	}
	return fmt.Sprintf("%s %s, at most %d preemptions at %s, pool %d, map order %d", s.name, strings.Join(t, " || "), s.budget, g, s.pool, s.order)
}

// raceReport returns the last report of the race detector.
func raceReport() string {
	f := ""
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			f = kv[9:]
		}
	}
	if f == "" {
		return ""
	}
	b, _ := os.ReadFile(f + "." + strconv.Itoa(os.Getpid()))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	// drop the directory of the overlay
	s = strings.ReplaceAll(s, filepath.Dir(f)+"/", "")
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type explorer struct {
	c        *h.Ctx
	s        *concScenario
	stop     bool
	calls    [][]*call
	expected [][]string
	afterExp []string
	snapshot []string
}

// alone makes calls one after the other, in a goroutine of their own (the race
// detector never forgets the stack frames that a panic unwinds).
func alone(cs []*call) {
	if len(cs) == 0 {
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, k := range cs {
			k.prepare()
			k.do()
		}
	}()
	<-done
}

func (e *explorer) once(devs []sched.Dev, check bool) sched.Outcome {
	s := e.s
	csync.PoolPolicy = s.pool
	sched.SetMapOrder(s.order)
	sched.Reset()
	alone(s.warm)
	var ths []func()
	for _, cs := range s.threads {
		cs := cs
		for _, k := range cs {
			k.prepare()
		}
		ths = append(ths, func() {
			for _, k := range cs {
				k.do()
			}
		})
	}
	o := sched.Run(s.gran, devs, ths...)
	if o.Deadlock || o.Stuck {
		return o
	}
	if !check {
		return o
	}
	alone(s.after)
	return o
}

func devString(o *sched.Outcome, devs []sched.Dev) string {
	var p []string
	if len(o.Decisions) > 0 {
		p = append(p, fmt.Sprintf("thread %d starts", o.Decisions[0].To))
	}
	for _, d := range devs {
		if d.At < len(o.Decisions) {
			x := o.Decisions[d.At]
			if x.From == 255 {
				continue
			}
			p = append(p, fmt.Sprintf("at decision %d thread %d gives way to thread %d", d.At, x.From, x.To))
		}
	}
	return strings.Join(p, ", ")
}

// verdict checks one executed schedule.
func (e *explorer) verdict(o *sched.Outcome, devs []sched.Dev) {
	c, s := e.c, e.s
	at := func() string { return devString(o, devs) }
	c.SetRepro(func() string { return "// schedule: " + at() })
	if o.Deadlock {
		e.stop = true
		c.Fail("deadlock: every thread waits (%s)", at())
		return
	}
	if o.Stuck {
		e.stop = true
		c.R.Capped = true
		c.Note("a thread blocked outside of the scheduler's control; exploration stopped")
		return
	}
	bad := false
	for i, cs := range s.threads {
		for j, k := range cs {
			if got := k.describe(); got != e.expected[i][j] {
				bad = true
				x := ""
				if k.res.panic != nil {
					x = fmt.Sprintf(" (%v)", k.res.panic)
				}
				c.Fail("thread %d, %v gives %s%s, alone it gives %s (%s)", i, k, got, x, e.expected[i][j], at())
			}
		}
	}
	for j, k := range s.after {
		if got := k.describe(); got != e.afterExp[j] {
			bad = true
			c.Fail("afterwards, %v gives %s, want %s (%s)", k, got, e.afterExp[j], at())
		}
	}
	for _, in := range s.inputs {
		if in.now != string(in.b[:cap(in.b)]) {
			bad = true
			c.Fail("the shared input changed from %x to %x (%s)", in.now, in.b[:cap(in.b)], at())
		}
	}
	for j, k := range s.shared {
		m, err := model.FromGo(k.t.s, k.arg)
		if err != nil || m.Key() != e.snapshot[j] {
			bad = true
			c.Fail("the shared message changed from %s to %v (%v) (%s)", e.snapshot[j], m, err, at())
		}
	}
	if o.Races > 0 {
		bad = true
		c.Fail("data race (%s)\n%s", at(), raceReport())
	}
	if !bad {
		c.Trace(1)
	}
}

// part explores the schedules whose first deviation has the given residue.
func (e *explorer) part(part int) {
	c, s := e.c, e.s
	e.expected, e.afterExp, e.snapshot = nil, nil, nil
	for _, cs := range s.threads {
		var x []string
		for _, k := range cs {
			x = append(x, k.expect())
		}
		e.expected = append(e.expected, x)
	}
	for _, k := range s.after {
		e.afterExp = append(e.afterExp, k.expect())
	}
	for _, k := range s.shared {
		m, _ := model.FromGo(k.t.s, k.arg)
		e.snapshot = append(e.snapshot, m.Key())
	}
	var dfs func(devs []sched.Dev, budget int, root bool)
	dfs = func(devs []sched.Dev, budget int, root bool) {
		if e.stop || c.Expired() {
			return
		}
		var o sched.Outcome
		mine := !root || part == 0
		if mine && c.Case(func() string { return fmt.Sprintf("schedule %v", devs) }) {
			o = e.once(devs, true)
			e.verdict(&o, devs)
			c.Trans(o.Steps)
			c.StateU(c.Pos())
			if o.Diverged {
				c.Outcome("diverged")
			}
			if o.Truncated {
				c.R.Capped = true
				c.Outcome("longer than can be controlled")
			}
			c.Outcome("schedules with " + strconv.Itoa(s.budget-budget) + " preemptions")
		} else {
			o = e.once(devs, false)
			if o.Deadlock || o.Stuck {
				e.stop = true
			}
		}
		if e.stop {
			return
		}
		from := 0
		if n := len(devs); n > 0 {
			from = devs[n-1].At + 1
		}
		// deepest first: keeps the recursion of alternatives local
		ds := o.Decisions
		for i := from; i < len(ds); i++ {
			cost := 1
			if ds[i].Free {
				cost = 0
			}
			if cost > budget || (root && i%s.parts != part) {
				continue
			}
			for p := 1; p < int(ds[i].N); p++ {
				nd := append(append([]sched.Dev(nil), devs...), sched.Dev{At: i, Pick: p})
				dfs(nd, budget-cost, false)
				if e.stop || c.Expired() {
					return
				}
			}
		}
	}
	dfs(nil, s.budget, true)
}

// concExplore explores all schedules of the scenarios within their bounds.
func concExplore(c *h.Ctx, family string, ss []concScenario) {
	if !c.Family(family) {
		return
	}
	for i := range ss {
		s := &ss[i]
		if s.parts == 0 {
			s.parts = 1
		}
		for p := 0; p < s.parts; p++ {
			if !c.Unit(func() string { return fmt.Sprintf("%v [part %d of %d]", s, p, s.parts) }) {
				continue
			}
			e := &explorer{c: c, s: s}
			old := debug.SetGCPercent(400)
			e.part(p)
			debug.SetGCPercent(old)
			if e.stop {
				return
			}
		}
	}
}
