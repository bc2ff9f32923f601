package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/RomiChan/protobuf/proto"

	"verif.local/mc/h"
	"verif.local/mc/model"
	"verif.local/mc/types"
)

// guarded is memory that ends exactly at an inaccessible page.
type guarded struct {
	mem  []byte
	size int
}

func newGuarded(pages int) *guarded {
	ps := os.Getpagesize()
	mem, err := syscall.Mmap(-1, 0, (pages+2)*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(mem[:ps], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(mem[(pages+1)*ps:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &guarded{mem: mem[ps : (pages+1)*ps], size: pages * ps}
}

// put copies b so that its last byte is the last accessible one.
func (g *guarded) put(b []byte) []byte {
	if len(b) > g.size {
		return append([]byte(nil), b...)
	}
	d := g.mem[g.size-len(b) : g.size : g.size]
	copy(d, b)
	return d
}

// allocBound is the allocation (bytes) that decoding n bytes may cause for
// the small message types used here.
func allocBound(n int) uint64 { return 8192 + 1024*uint64(n) }

// c04 explores the space of C05 (and more hostile inputs) under memory guards.
func c04(c *h.Ctx) {
	g := newGuarded(64)
	poisoned := make([]byte, 1<<16)
	type pend struct {
		s  *model.Schema
		in []byte
	}
	var batch []pend
	warm := map[*model.Schema]bool{}
	var ms runtime.MemStats
	n := 0
	measure := func(b []pend) (got, bound uint64) {
		targets := make([]interface{}, len(b))
		for i := range b {
			targets[i] = reflect.New(b[i].s.Type).Interface()
			bound += allocBound(len(b[i].in))
		}
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		for i := range b {
			_ = proto.Unmarshal(b[i].in, targets[i])
		}
		runtime.ReadMemStats(&ms)
		return ms.TotalAlloc - before, bound
	}
	flush := func() {
		if len(batch) > 0 {
			got, bound := measure(batch)
			if got > bound {
				for i := range batch {
					got, bound := measure(batch[i : i+1])
					if got > bound {
						if g2, _ := measure(batch[i : i+1]); g2 > bound { // rule out one-off costs
							c.Fail("decoding %d bytes allocates %d bytes (bound %d): type %v input %s", len(batch[i].in), g2, bound, batch[i].s, hx(batch[i].in))
						}
					}
				}
			}
			batch = batch[:0]
		}
	}
	visit := func(s *model.Schema, in []byte) {
		if !warm[s] {
			if len(warm) > 64 {
				warm = map[*model.Schema]bool{}
			}
			warm[s] = true
			_ = proto.Size(reflect.New(s.Type).Interface())
		}
		// 1. input at the end of readable memory
		gb := g.put(in)
		q := model.Fresh(s)
		err := proto.Unmarshal(gb, q.Interface())
		c.Trans(1)
		if !bytes.Equal(gb, in) {
			c.Fail("Unmarshal changed its input: %s, was %s", hx(gb), hx(in))
		}
		got, ferr := model.FromGo(s, q)
		if ferr != nil {
			c.Fail("after Unmarshal (%v): %v; input %s", err, ferr, hx(in))
			return
		}
		if err != nil {
			c.Outcome("error")
			if e := err.Error(); e == "" {
				c.Fail("empty error text")
			}
		} else {
			c.Outcome("accepted")
		}
		// 2. the same input with other bytes behind it in the same buffer
		if len(in) < 256 {
			pb := poisoned[:len(in)]
			copy(pb, in)
			for i := 0; i < 24; i++ {
				poisoned[len(in)+i] = byte(0x0a * (i & 1))
			}
			q2 := model.Fresh(s)
			err2 := proto.Unmarshal(pb, q2.Interface())
			c.Trans(1)
			got2, ferr := model.FromGo(s, q2)
			if ferr != nil {
				c.Fail("after Unmarshal with spare capacity: %v; input %s", ferr, hx(in))
				return
			}
			if (err == nil) != (err2 == nil) || model.Diff(got, got2) != "" {
				c.Fail("the result depends on bytes behind the input: %v %v, otherwise %v %v; input %s", got, err, got2, err2, hx(in))
			}
			for i := 0; i < 24; i++ {
				if poisoned[len(in)+i] != byte(0x0a*(i&1)) {
					c.Fail("Unmarshal wrote behind its input; input %s", hx(in))
				}
			}
		}
		batch = append(batch, pend{s, append([]byte(nil), in...)})
		if len(batch) >= 64 {
			flush()
		}
		if n++; n%50000 == 0 {
			runtime.GC()
		}
	}
	decodeSpace(c, visit)
	flush()

	// Every length up to 64 bits at every place a length can be.
	if c.Family("lengths") {
		for _, sh := range model.Shapes() {
			if sh.Kind.Wire() != model.WBytes && sh.Card != model.Map {
				continue
			}
			for _, num := range []int{1, 2048} {
				if !c.Unit(func() string { return fmt.Sprintf("%v = %d", sh, num) }) {
					continue
				}
				s := model.NewCanary("", sh.Of(num, Leaf))
				for _, l := range lengths64() {
					for _, tail := range []int{0, 1, 2, 5, 9} {
						for _, n := range []int{num, num + 7} {
							in := model.AppendTag(nil, n, 2)
							in = model.AppendVarint(in, l)
							in = append(in, bytes.Repeat([]byte{0x0a}, tail)...)
							if !c.Case(func() string { return hx(in) }) {
								continue
							}
							c.SetRepro(func() string { return reproUnmarshal(s, in) })
							before := len(c.R.Violations)
							c.Guard("Unmarshal", func() { visit(s, in) })
							c.State(s.Label(), string(in))
							if len(c.R.Violations) == before {
								c.Trace(1)
							}
						}
					}
				}
				flush()
			}
		}
	}

	// Long inputs: memory stays proportional.
	if c.Family("long inputs") {
		for _, sh := range model.Shapes() {
			if sh.Card != model.Rep && sh.Card != model.Map && sh.Kind != model.Message {
				continue
			}
			if !c.Unit(func() string { return fmt.Sprintf("%v", sh) }) {
				continue
			}
			s := model.NewCanary("", sh.Of(1, Leaf))
			w := sh.Kind.Wire()
			if sh.Card == model.Map {
				w = 2
			}
			unit := model.AppendTag(nil, 1, w)
			switch w {
			case 0, 2:
				unit = append(unit, 0)
			case 1:
				unit = append(unit, 0, 0, 0, 0, 0, 0, 0, 0)
			case 5:
				unit = append(unit, 0, 0, 0, 0)
			}
			for _, k := range []int{1000, 30000, 200000} {
				if !c.Thorough() && k > 100000 && sh.Card == model.Map {
					continue
				}
				in := bytes.Repeat(unit, k)
				if !c.Case(func() string { return fmt.Sprintf("%d times %x", k, unit) }) {
					continue
				}
				c.Guard("Unmarshal", func() {
					got, bound := measure([]pend{{s, in}})
					c.Trans(1)
					if got > bound {
						c.Fail("decoding %d bytes allocates %d bytes", len(in), got)
					}
				})
				c.State(s.Label(), strconv.Itoa(k))
				c.Trace(1)
			}
		}
	}

	// Deep nesting: each depth in a process of its own.
	if c.Family("deep nesting") {
		for k := 0; k < 3; k++ {
			for _, d := range []int{1, 10, 1000, 10000, 100000} {
				for _, end := range []string{"", "\x08\x05", "\x08", "\x80", "\x1f", "\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01"} {
					if !c.Unit(func() string {
						return fmt.Sprintf("Rec, field %d, %d levels, innermost %x", k+2, d, end)
					}) {
						continue
					}
					if !c.Case(nil) {
						continue
					}
					out, err := runSelf(c, 120*time.Second, "deep", strconv.Itoa(k), strconv.Itoa(d), fmt.Sprintf("%x", end))
					if err != nil {
						c.Fail("%d nested messages in %d bytes of input kill the process: %v %s", d, d*3, err, firstLines(out, 400))
					}
					c.Trans(1)
					c.Trace(1)
					c.State("deep", strconv.Itoa(k), strconv.Itoa(d), end)
				}
			}
		}
		if c.Unit(func() string { return "Rec, 4000000 levels" }) && c.Case(nil) {
			out, err := runSelf(c, 300*time.Second, "deep", "0", "4000000", "")
			if err != nil {
				if strings.Contains(out, "stack") {
					c.FailKeyed("C04-deep-nesting-4000000", "4000000 nested messages kill the process: %v %s", err, firstLines(out, 400))
				} else {
					c.Note("4000000 levels: %v %s", err, firstLines(out, 200))
				}
			}
			c.Trans(1)
		}
	}
	_ = debug.FreeOSMemory
}

func firstLines(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

// runSelf runs this binary as a helper process.
func runSelf(c *h.Ctx, limit time.Duration, args ...string) (string, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"child"}, args...)...)
	cmd.Dir = filepath.Clean(c.Dir)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	dl := time.After(limit)
	for {
		select {
		case err := <-done:
			return b.String(), err
		case <-dl:
			_ = cmd.Process.Kill()
			<-done
			return b.String(), fmt.Errorf("no answer within %v", limit)
		case <-time.After(time.Second):
			c.Beat()
		}
	}
}

func lengths64() []uint64 {
	var r []uint64
	for i := uint(0); i < 64; i++ {
		r = append(r, 1<<i, 1<<i-1, 1<<i+1, ^(uint64(1)<<i - 1), ^uint64(0)-(1<<i-1)/2)
	}
	return append(r, 1<<64-1, 1<<64-2, 1<<64-3, 1<<64-4, 1<<64-5, 1<<64-10, 1<<64-11)
}

// deepInput is n nested Rec messages through field k with an innermost body.
func deepInput(n, k int, body []byte) []byte {
	// sizes from the inside out
	type lv struct{ head []byte }
	heads := make([][]byte, n)
	size := len(body)
	for i := n - 1; i >= 0; i-- {
		var h []byte
		switch k {
		case 0:
			h = append([]byte{2<<3 | 2}, model.AppendVarint(nil, uint64(size))...)
		case 1:
			h = append([]byte{3<<3 | 2}, model.AppendVarint(nil, uint64(size))...)
		case 2:
			e := append([]byte{0x0a, 1, 'k', 0x12}, model.AppendVarint(nil, uint64(size))...)
			h = append([]byte{4<<3 | 2}, model.AppendVarint(nil, uint64(size+len(e)))...)
			h = append(h, e...)
		}
		heads[i] = h
		size += len(h)
	}
	out := make([]byte, 0, size)
	for _, h := range heads {
		out = append(out, h...)
	}
	return append(out, body...)
}

func childDeep(args []string) {
	k, _ := strconv.Atoi(args[0])
	d, _ := strconv.Atoi(args[1])
	if d <= 100000 {
		// 235 MB are needed; a decoder that needs a multiple of the input per
		// level must not take the memory of the whole sandbox.
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}
	var body []byte
	if len(args) > 2 {
		fmt.Sscanf(args[2], "%x", &body)
	}
	in := deepInput(d, k, body)
	x := new(types.Rec)
	err := proto.Unmarshal(in, x)
	want := model.NewMsg(types.RecS)
	if d <= 10000 {
		r := model.Decode(types.RecS, in, want)
		if (r.Class == model.OK) != (err == nil) {
			fmt.Printf("result %v, want %v", err, r)
			os.Exit(1)
		}
	}
	fmt.Println("done", err == nil)
}
