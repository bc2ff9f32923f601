// Package sched is a cooperative scheduler: the code under test, with calls
// of Point woven in before its statements and its synchronization replaced by
// the types of package csync, runs on real goroutines of which exactly one
// runs at a time, and an explorer decides at every point which.
//
// Control is passed through a plain variable in functions the race detector
// does not see, so that (in race builds) the only happens-before edges between
// the threads are those of the code under test.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"
)

// Granularities.
const (
	off   = iota
	Sync  // preempt before synchronization operations only
	Fine  // preempt before every statement
	count // call the hook at every point
)

const (
	maxThreads   = 6
	maxDecisions = 1 << 16
	maxSteps     = 4 << 20
	fairLimit    = 1 << 16
)

// Decision is a point at which more than one thread could have gone on.
type Decision struct {
	N    uint8 // number of candidates
	Pick uint8 // index of the chosen one
	Free bool  // the running thread could not go on
	From uint8 // thread that was running
	To   uint8
}

// Dev is a deviation from the default choice 0.
type Dev struct {
	At   int // number of the decision
	Pick int
}

var (
	mode      int
	turn      int // running thread, -1: the explorer
	nthreads  int
	alive     [maxThreads]bool
	blockedAt [maxThreads]int // progress when it blocked, -1: runnable
	steps     int
	progress  int
	inARow    int
	dec       [maxDecisions]Decision
	ndec      int
	devs      []Dev
	ndev      int
	deadlock  bool
	truncated bool
	diverged  bool
	stuck     bool
	hook      func(step int)

	resets   []func()
	mapOrder int
)

// RegisterReset is called by woven packages.
func RegisterReset(f func()) { resets = append(resets, f) }

// Woven reports whether the code under test is woven.
func Woven() bool { return len(resets) > 0 }

// Reset sets the package-level variables of the woven packages back to what
// they were at the start of the process.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// SetMapOrder chooses the order in which woven code ranges over maps: 0
// ascending, 1 descending (by printed key).
func SetMapOrder(n int) { mapOrder = n }

// A MapIt visits the entries of a map in the chosen order.
type MapIt[K comparable, V any] struct {
	m  map[K]V
	ks []K
}

// MapRange replaces a range clause over a map.
func MapRange[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K, v V) {
	return &MapIt[K, V]{m, Keys(m)}, k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.ks) > 0 {
		x := it.ks[0]
		it.ks = it.ks[1:]
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

// Keys lists the keys of a map in the chosen order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	name := make(map[K]string, len(ks))
	for _, k := range ks {
		switch x := any(k).(type) {
		case reflect.Type:
			name[k] = x.PkgPath() + " " + x.String()
		case int, int32, uint32, int64, uint64, uint:
			name[k] = fmt.Sprintf("%020d", x)
		default:
			v := reflect.ValueOf(k)
			switch {
			case v.IsValid() && v.CanInt():
				name[k] = fmt.Sprintf("%020d", v.Int())
			case v.IsValid() && v.CanUint():
				name[k] = fmt.Sprintf("%020d", v.Uint())
			default:
				name[k] = fmt.Sprint(k)
			}
		}
	}
	sort.SliceStable(ks, func(i, j int) bool {
		if mapOrder == 1 {
			i, j = j, i
		}
		return name[ks[i]] < name[ks[j]]
	})
	return ks
}

// Point is woven in before every statement.
//
//go:norace
func Point() {
	switch mode {
	case Fine:
		step()
	case Sync:
		steps++
	case count:
		steps++
		hook(steps)
	}
}

// SyncPoint comes before every synchronization operation.
//
//go:norace
func SyncPoint() {
	switch mode {
	case Fine, Sync:
		step()
	case count:
		steps++
		hook(steps)
	}
}

// Progress says that the running thread has done something others may wait
// for.
//
//go:norace
func Progress() { progress++ }

// Block says that the running thread cannot go on before another one has done
// something.
//
//go:norace
func Block() {
	if mode != Fine && mode != Sync {
		runtime.Gosched()
		return
	}
	blockedAt[turn] = progress
	step()
}

// Yield replaces runtime.Gosched and time.Sleep.
//
//go:norace
func Yield() { Block() }

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if mode != Fine && mode != Sync {
		time.Sleep(d)
		return
	}
	Block()
}

//go:norace
func step() {
	me := turn
	steps++
	if steps > maxSteps {
		truncated = true
		mode = off // run on without control: cannot decide this schedule
	}
	if blockedAt[me] < 0 {
		progress++
	}
	next := choose(me)
	if next != me {
		pass(me, next)
	}
	if blockedAt[me] >= 0 {
		blockedAt[me] = -1
	}
}

// choose decides which thread runs next.
//
//go:norace
func choose(me int) int {
	var cand [maxThreads]int
	n := 0
	free := true
	if me >= 0 && alive[me] && runnable(me) && inARow < fairLimit {
		cand[0] = me
		n = 1
		free = false
	}
	for i := 0; i < nthreads; i++ {
		if i != me && alive[i] && runnable(i) {
			cand[n] = i
			n++
		}
	}
	if n == 0 {
		if me >= 0 && alive[me] && runnable(me) {
			return me
		}
		any := -1
		for i := 0; i < nthreads; i++ {
			if alive[i] {
				any = i
			}
		}
		if any >= 0 {
			// everybody waits: let them spin on without end
			deadlock = true
		}
		return any
	}
	pick := 0
	if n > 1 {
		if ndec < maxDecisions {
			if ndev < len(devs) && devs[ndev].At == ndec {
				pick = devs[ndev].Pick
				ndev++
				if pick >= n {
					diverged = true
					pick = 0
				}
			}
			f := uint8(255)
			if me >= 0 {
				f = uint8(me)
			}
			dec[ndec] = Decision{N: uint8(n), Pick: uint8(pick), Free: free, From: f, To: uint8(cand[pick])}
			ndec++
		} else {
			truncated = true
		}
	}
	if cand[pick] == me {
		inARow++
	} else {
		inARow = 0
	}
	return cand[pick]
}

//go:norace
func runnable(i int) bool { return blockedAt[i] < 0 || blockedAt[i] < progress }

//go:norace
func pass(me, next int) {
	turn = next
	wait(me)
}

//go:norace
func wait(me int) {
	n := 0
	var since time.Time
	last := -1
	for turn != me {
		if stuck {
			select {}
		}
		n++
		if n&0x3ff == 0 {
			if steps != last {
				last = steps
				since = time.Now()
			} else if time.Since(since) > 20*time.Second {
				stuck = true
			}
		}
		runtime.Gosched()
	}
	if deadlock {
		select {}
	}
}

//go:norace
func finish(me int) {
	alive[me] = false
	progress++
	turn = choose(me)
}

//go:norace
func setup(m, n int, d []Dev) {
	nthreads = n
	for i := range alive {
		alive[i] = i < n
		blockedAt[i] = -1
	}
	steps, progress, inARow, ndec, ndev = 0, 0, 0, 0, 0
	devs = d
	deadlock, truncated, diverged, stuck = false, false, false, false
	turn = -1
	mode = m
}

// Outcome of a schedule.
type Outcome struct {
	Decisions []Decision
	Steps     int
	Deadlock  bool // every thread waits for another one
	Truncated bool // the schedule is longer than what can be controlled
	Diverged  bool // the schedule is not the one that was asked for
	Stuck     bool // a thread blocked outside of the scheduler
	Races     int
}

//go:norace
func begin() { turn = choose(-1) }

//go:norace
func bad() bool { return deadlock || stuck }

//go:norace
func end(o *Outcome) {
	mode = off
	o.Steps, o.Deadlock, o.Truncated, o.Diverged, o.Stuck = steps, deadlock, truncated, diverged || ndev < len(devs), stuck
	o.Decisions = make([]Decision, ndec)
	for i := 0; i < ndec; i++ {
		o.Decisions[i] = dec[i]
	}
}

// Run executes the threads under the schedule given by the deviations.
// After an outcome with Deadlock or Stuck the process must not run another
// schedule (goroutines are left behind).
func Run(gran int, d []Dev, threads ...func()) Outcome {
	races := RaceErrors()
	setup(gran, len(threads), d)
	var wg sync.WaitGroup
	for i, f := range threads {
		i, f := i, f
		wg.Add(1)
		go func() {
			wait(i)
			defer wg.Done()
			defer finish(i)
			f()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	begin()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-time.After(time.Second):
			if bad() {
				break loop
			}
		}
	}
	var o Outcome
	end(&o)
	o.Races = RaceErrors() - races
	return o
}

// Count runs f with the hook called at every point, and returns the number of
// points.
func Count(h func(step int), f func()) int {
	steps = 0
	hook = h
	mode = count
	defer func() { mode = off }()
	f()
	return steps
}

// Quiet runs f without calling the hook (for use in hooks).
func Quiet(f func()) {
	m := mode
	mode = off
	defer func() { mode = m }()
	f()
}
