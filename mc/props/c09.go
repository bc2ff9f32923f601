package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/csync"
	"verif.local/mc/gen"
	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/sched"
	"verif.local/mc/weave"
)

// Small types for the exploration of schedules.
type (
	wFlat struct {
		A int32  `protobuf:"varint,1,opt"`
		B string `protobuf:"bytes,2,opt"`
	}
	wLeaf struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	wPtr struct {
		L *wLeaf `protobuf:"bytes,1,opt"`
	}
	wRep struct {
		L []*wLeaf `protobuf:"bytes,1,rep"`
	}
	wMap struct {
		M map[int32]*wLeaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	wBad struct { // unsupported, but walks wLeaf first
		L *wLeaf `protobuf:"bytes,1,opt"`
		X int8   `protobuf:"varint,2,opt"`
	}
	wSelf struct {
		V int32  `protobuf:"varint,1,opt"`
		S *wSelf `protobuf:"bytes,2,opt"`
	}
	wA struct {
		B *wB   `protobuf:"bytes,1,opt"`
		V int32 `protobuf:"varint,2,opt"`
	}
	wB struct {
		A *wA `protobuf:"bytes,1,opt"`
		C *wC `protobuf:"bytes,2,opt"`
	}
	wC struct {
		A *wA   `protobuf:"bytes,1,opt"`
		W int32 `protobuf:"varint,2,opt"`
	}
	wUA struct { // unsupported cycle
		V int32 `protobuf:"varint,1,opt"`
		B *wUB  `protobuf:"bytes,2,opt"`
	}
	wUB struct {
		A *wUA   `protobuf:"bytes,1,opt"`
		L *wLeaf `protobuf:"bytes,2,opt"`
		X int8   `protobuf:"varint,3,opt"`
	}
	wInts struct {
		L []int32 `protobuf:"varint,1,rep"`
	}
	wInts2 struct {
		L []int32 `protobuf:"varint,2,rep"`
		P *int32  `protobuf:"varint,1,opt"`
	}
	wStrMap struct {
		M map[string]int32 `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	}
	wSelfMap struct {
		M map[int32]*wSelfMap `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		V int32               `protobuf:"varint,2,opt"`
	}
	wMid struct { // some fields of every sort
		A int32                `protobuf:"zigzag32,1,opt"`
		B []string             `protobuf:"bytes,2,rep"`
		C map[string]*wLeaf    `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		D proto.Option[uint64] `protobuf:"varint,4,opt"`
		E *wLeaf               `protobuf:"bytes,5,opt"`
		F *int64               `protobuf:"fixed64,6,opt"`
		G float64              `protobuf:"fixed64,7,opt"`
	}
	wBig struct { // many fields
		F1  bool                 `protobuf:"varint,1,opt"`
		F2  int32                `protobuf:"varint,2,opt"`
		F3  int64                `protobuf:"varint,3,opt"`
		F4  uint32               `protobuf:"varint,4,opt"`
		F5  uint64               `protobuf:"varint,5,opt"`
		F6  int32                `protobuf:"zigzag32,6,opt"`
		F7  int64                `protobuf:"zigzag64,7,opt"`
		F8  uint32               `protobuf:"fixed32,8,opt"`
		F9  int64                `protobuf:"fixed64,9,opt"`
		F10 float32              `protobuf:"fixed32,10,opt"`
		F11 string               `protobuf:"bytes,11,opt"`
		F12 []byte               `protobuf:"bytes,12,opt"`
		F13 proto.Option[bool]   `protobuf:"varint,13,opt"`
		F14 proto.Option[string] `protobuf:"bytes,14,opt"`
		F15 []int64              `protobuf:"zigzag64,15,rep"`
		F16 []bool               `protobuf:"varint,16,rep"`
		F17 [][]byte             `protobuf:"bytes,17,rep"`
		F18 []*wSelf             `protobuf:"bytes,18,rep"`
		F19 *wFlat               `protobuf:"bytes,19,opt"`
		F20 map[uint32]bool      `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	wCyA struct { // a cycle of larger types
		A int32           `protobuf:"varint,1,opt"`
		B string          `protobuf:"bytes,2,opt"`
		C *wCyB           `protobuf:"bytes,3,opt"`
		D map[int32]*wCyB `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		E []int32         `protobuf:"varint,5,rep"`
	}
	wCyB struct {
		A []*wCyA             `protobuf:"bytes,1,rep"`
		B proto.Option[int32] `protobuf:"varint,2,opt"`
		C *wCyB               `protobuf:"bytes,3,opt"`
		D *wLeaf              `protobuf:"bytes,4,opt"`
		E bool                `protobuf:"varint,5,opt"`
	}
	wEmpty struct{}
)

var concTypesMemo []hType

// concTypes binds the types above.
func concTypes() []hType {
	if concTypesMemo != nil {
		return concTypesMemo
	}
	var ss []*model.Schema
	bind := func(v interface{}, fs ...model.Field) *model.Schema {
		t := reflect.TypeOf(v)
		s := model.Bind(t.Name(), t, fs...)
		ss = append(ss, s)
		return s
	}
	F, FM, FMap := model.F, model.FM, model.FMap
	bind(wFlat{}, F(1, model.Plain, model.Int32), F(2, model.Plain, model.String))
	leaf := bind(wLeaf{}, F(1, model.Plain, model.Int32))
	bind(wPtr{}, FM(1, model.Plain, leaf))
	bind(wRep{}, FM(1, model.Rep, leaf))
	bind(wMap{}, FMap(1, model.Int32, model.Message, leaf))
	self := &model.Schema{}
	model.BindTo(self, "wSelf", reflect.TypeOf(wSelf{}), F(1, model.Plain, model.Int32), FM(2, model.Plain, self))
	ss = append(ss, self)
	a, b, cc := &model.Schema{}, &model.Schema{}, &model.Schema{}
	model.BindTo(a, "wA", reflect.TypeOf(wA{}), FM(1, model.Plain, b), F(2, model.Plain, model.Int32))
	model.BindTo(b, "wB", reflect.TypeOf(wB{}), FM(1, model.Plain, a), FM(2, model.Plain, cc))
	model.BindTo(cc, "wC", reflect.TypeOf(wC{}), FM(1, model.Plain, a), F(2, model.Plain, model.Int32))
	ss = append(ss, a, b, cc)
	bind(wInts{}, F(1, model.Rep, model.Int32))
	bind(wInts2{}, F(2, model.Rep, model.Int32), F(1, model.Ptr, model.Int32))
	bind(wStrMap{}, FMap(1, model.String, model.Int32, nil))
	sm := &model.Schema{}
	model.BindTo(sm, "wSelfMap", reflect.TypeOf(wSelfMap{}), FMap(1, model.Int32, model.Message, sm), F(2, model.Plain, model.Int32))
	ss = append(ss, sm)
	P, O := model.Plain, model.Opt
	bind(wMid{}, F(1, P, model.Sint32), F(2, model.Rep, model.String), FMap(3, model.String, model.Message, leaf), F(4, O, model.Uint64), FM(5, P, leaf), F(6, model.Ptr, model.Sfixed64), F(7, P, model.Double))
	flat := ss[0]
	bind(wBig{}, F(1, P, model.Bool), F(2, P, model.Int32), F(3, P, model.Int64), F(4, P, model.Uint32), F(5, P, model.Uint64), F(6, P, model.Sint32), F(7, P, model.Sint64), F(8, P, model.Fixed32), F(9, P, model.Sfixed64), F(10, P, model.Float),
		F(11, P, model.String), F(12, P, model.Bytes), F(13, O, model.Bool), F(14, O, model.String), F(15, model.Rep, model.Sint64), F(16, model.Rep, model.Bool), F(17, model.Rep, model.Bytes), FM(18, model.Rep, self), FM(19, P, flat), FMap(20, model.Uint32, model.Bool, nil))
	ca, cb := &model.Schema{}, &model.Schema{}
	model.BindTo(ca, "wCyA", reflect.TypeOf(wCyA{}), F(1, P, model.Int32), F(2, P, model.String), FM(3, P, cb), FMap(4, model.Int32, model.Message, cb), F(5, model.Rep, model.Int32))
	model.BindTo(cb, "wCyB", reflect.TypeOf(wCyB{}), FM(1, model.Rep, ca), F(2, O, model.Int32), FM(3, P, cb), FM(4, P, leaf), F(5, P, model.Bool))
	ss = append(ss, ca, cb)
	bind(wEmpty{})
	var r []hType
	for _, s := range ss {
		m := smallMsg(s, 2)
		r = append(r, hType{name: s.Label(), s: s, t: s.Type, m: m, in: model.Encode(s, m)})
	}
	for _, t := range []reflect.Type{reflect.TypeOf(wBad{}), reflect.TypeOf(wUA{}), reflect.TypeOf(wUB{})} {
		r = append(r, hType{name: t.Name(), t: t, in: []byte{8, 1}})
	}
	concTypesMemo = r
	return r
}

// smallMsg sets every field to something small, to the given depth; maps and
// repeated fields get one entry.
func smallMsg(s *model.Schema, depth int) *model.Msg {
	m := model.NewMsg(s)
	for i := range s.Fields {
		f := &s.Fields[i]
		if f.Msg != nil && depth == 0 {
			continue
		}
		val := func(salt int) model.Val {
			if f.Msg != nil {
				return model.Val{M: smallMsg(f.Msg, depth-1)}
			}
			return gen.Nth(f.Kind, 2+salt)
		}
		fv := &m.F[i]
		switch f.Card {
		case model.Rep:
			fv.L = []model.Val{val(i)}
		case model.Map:
			fv.E = []model.Entry{{K: gen.Nth(f.Key, 1), V: val(i)}}
		default:
			fv.Set = true
			fv.V = val(i)
			if f.Card == model.Plain && f.Msg == nil && f.Kind != model.Bytes && fv.V.U == 0 && fv.V.S == "" {
				*fv = model.FieldVal{}
			}
		}
	}
	return m
}

func typeNamed(ts []hType, n string) *hType {
	for i := range ts {
		if ts[i].name == n {
			return &ts[i]
		}
	}
	panic(n)
}

// related pairs of types that share something.
var related = [][]string{
	{"wFlat", "wFlat"}, {"wSelf", "wSelf"}, {"wA", "wB"}, {"wB", "wC"}, {"wC", "wA"}, {"wA", "wA"}, {"wPtr", "wLeaf"}, {"wPtr", "wRep"}, {"wRep", "wMap"}, {"wMap", "wMap"}, {"wMap", "wPtr"},
	{"wPtr", "wBad"}, {"wLeaf", "wBad"}, {"wBad", "wBad"}, {"wUA", "wUB"}, {"wUA", "wUA"}, {"wUB", "wPtr"}, {"wInts", "wInts2"}, {"wInts", "wInts"}, {"wInts2", "wInts2"}, {"wStrMap", "wStrMap"}, {"wSelfMap", "wSelfMap"}, {"wMap", "wSelfMap"}, {"wStrMap", "wFlat"},
	{"wMid", "wMid"}, {"wMid", "wPtr"}, {"wMid", "wBad"}, {"wBig", "wBig"}, {"wBig", "wSelf"}, {"wBig", "wFlat"}, {"wCyA", "wCyA"}, {"wCyA", "wCyB"}, {"wCyB", "wLeaf"}, {"wEmpty", "wEmpty"},
}

func c09(c *h.Ctx) {
	c.MaxViolations = 1
	ts := concTypes()
	if !sched.Woven() {
		freeRun(c, ts)
		return
	}
	observers := func(names []string) []*call {
		var r []*call
		seen := map[string]bool{}
		for _, n := range names {
			if seen[n] {
				continue
			}
			seen[n] = true
			for op := 0; op < 3; op++ {
				r = append(r, mkCall(typeNamed(ts, n), op))
			}
		}
		return r
	}
	sc := func(gran, budget, parts, order int, names []string, ops []int) concScenario {
		s := concScenario{name: "first uses", gran: gran, budget: budget, parts: parts, order: order}
		for i, n := range names {
			s.threads = append(s.threads, []*call{mkCall(typeNamed(ts, n), ops[i])})
		}
		all := append([]string(nil), names...)
		for _, n := range names {
			// everything these types refer to
			switch n {
			case "wA", "wB", "wC":
				all = append(all, "wA", "wB", "wC")
			case "wPtr", "wRep", "wMap", "wBad", "wUB", "wUA", "wMid":
				all = append(all, "wLeaf", "wPtr")
			case "wBig":
				all = append(all, "wFlat", "wSelf")
			case "wCyA", "wCyB":
				all = append(all, "wCyA", "wCyB", "wLeaf")
			}
		}
		s.after = observers(all)
		return s
	}
	opPairs := [][]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {2, 1}, {0, 1}}
	q := func(quick, thorough int) int {
		if c.Thorough() {
			return thorough
		}
		return quick
	}
	big := func(ns ...string) int { // larger types: fewer preemptions in the quick tier
		for _, n := range ns {
			switch n {
			case "wMid", "wBig", "wCyA", "wCyB":
				if !c.Thorough() {
					return 1
				}
			}
		}
		return 0
	}
	// All pairs of types at synchronization operations. Together with the
	// race detector (no data race in any of these schedules) this covers the
	// interleavings of all statements up to the same number of preemptions.
	var ss []concScenario
	for i := range ts {
		for j := i; j < len(ts); j++ {
			for k, ops := range opPairs {
				if !c.Thorough() && i != j && (i+j+k)%2 != 0 {
					continue
				}
				ss = append(ss, sc(sched.Sync, q(2, 3)-big(ts[i].name, ts[j].name)*b2i(i != j), 1, (i+j+k)%2, []string{ts[i].name, ts[j].name}, ops))
			}
		}
	}
	concExplore(c, "all pairs, synchronization operations", ss)
	ss = nil
	for _, p := range related {
		for k, ops := range opPairs {
			if !c.Thorough() && (k > 2 || k != 1 && big(p...) > 0) {
				continue
			}
			ss = append(ss, sc(sched.Fine, 1, 1, k%2, p, ops))
		}
	}
	concExplore(c, "related pairs, every statement", ss)
	ss = nil
	for _, p := range [][]string{{"wFlat", "wFlat"}, {"wPtr", "wLeaf"}, {"wA", "wB"}, {"wSelf", "wSelf"}, {"wInts", "wInts2"}, {"wPtr", "wBad"}} {
		for k, ops := range opPairs {
			if !c.Thorough() && k != 1 {
				continue
			}
			ss = append(ss, sc(sched.Fine, 2, 64, k%2, p, ops))
		}
	}
	if c.Thorough() {
		concExplore(c, "related pairs, every statement, deep", ss)
	}
	ss = nil
	for _, p := range [][]string{{"wA", "wB", "wC"}, {"wPtr", "wRep", "wLeaf"}, {"wPtr", "wBad", "wLeaf"}, {"wMap", "wMap", "wLeaf"}, {"wInts", "wInts2", "wInts"}, {"wUA", "wUB", "wLeaf"}, {"wSelf", "wSelf", "wSelf"}, {"wFlat", "wFlat", "wFlat"}} {
		for k, ops := range [][]int{{1, 1, 1}, {2, 1, 0}, {2, 2, 2}} {
			if !c.Thorough() && k > 1 {
				continue
			}
			ss = append(ss, sc(sched.Sync, q(2, 4), q(4, 16), k%2, p, ops))
			ss = append(ss, sc(sched.Sync, q(2, 4), q(4, 16), 1-k%2, p, ops))
		}
	}
	concExplore(c, "three threads, synchronization operations", ss)
	ss = nil
	for _, p := range related {
		for k, ops := range opPairs {
			for order := 0; order < 2; order++ {
				if !c.Thorough() && (k == 0 || k > 3 || order != k%2) {
					continue
				}
				ss = append(ss, sc(sched.Sync, q(4, 6)-big(p...), q(4, 16), order, p, ops))
			}
		}
	}
	concExplore(c, "related pairs, synchronization operations, deep", ss)
}

// freeRun is what remains when the code cannot be woven: goroutines without
// control over their schedule.
func freeRun(c *h.Ctx, ts []hType) {
	c.R.Capped = true
	if !c.Family("without control of the schedule") {
		return
	}
	if !c.Unit(func() string { return "all types at once" }) || !c.Case(func() string { return "one run" }) {
		return
	}
	var wg sync.WaitGroup
	var all []*call
	for i := range ts {
		for op := 0; op < 3; op++ {
			k := mkCall(&ts[i], op)
			k.prepare()
			all = append(all, k)
		}
	}
	gate := make(chan struct{})
	for _, k := range all {
		k := k
		wg.Add(1)
		go func() { defer wg.Done(); <-gate; k.do() }()
	}
	close(gate)
	wg.Wait()
	c.Trans(len(all))
	for _, k := range all {
		if got := k.describe(); got != k.expect() {
			c.Fail("%v gives %s, alone it gives %s", k, got, k.expect())
			return
		}
	}
	c.Trace(1)
}

// prepareWoven builds the worker with the code under test woven; with the race
// detector if asked for.
func prepareWoven(race bool) func(dir, tier string) (string, string) {
	return func(dir, tier string) (string, string) {
		od := filepath.Join(dir, "overlay")
		if err := os.MkdirAll(od, 0o755); err != nil {
			return "", err.Error()
		}
		mod := filepath.Join(os.Getenv("VERIF_DIR"), "mc")
		note, ov := "", ""
		overlay := func(noMaps bool) error {
			var st weave.Stats
			var err error
			ov, st, err = weave.Overlay(od, mod, "github.com/RomiChan/protobuf", []string{"github.com/RomiChan/protobuf/proto"}, os.Environ(), noMaps)
			note += st.String()
			return err
		}
		if err := overlay(false); err != nil {
			return "", "the code could not be woven: " + err.Error()
		}
		bin := filepath.Join(dir, "woven")
		build := func(race bool) error {
			args := []string{"build", "-gcflags=all=-d=checkptr=0", "-overlay", ov, "-o", bin}
			env := os.Environ()
			if race {
				args = append(args, "-race")
				env = append(env, "CGO_ENABLED=1")
			}
			cmd := exec.Command("go", append(args, "./cmd/mc")...)
			cmd.Dir = mod
			cmd.Env = env
			out, err := cmd.CombinedOutput()
			if err != nil {
				return fmt.Errorf("%v %s", err, firstLines(string(out), 1500))
			}
			return nil
		}
		if err := build(false); err != nil {
			note += "; the woven code does not build: " + err.Error() + "; second attempt: "
			if err := overlay(true); err != nil {
				return "", "the code could not be woven: " + err.Error()
			}
		}
		if race {
			err := build(true)
			if err == nil {
				return bin, note + "; race detector on"
			}
			note += "; no build with the race detector: " + err.Error()
		}
		if err := build(false); err != nil {
			return "", strings.TrimSpace(note + "; the woven code does not build: " + err.Error())
		}
		return bin, note
	}
}

var _ = csync.LIFO

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
