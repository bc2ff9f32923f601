// Package csync stands in for package sync in woven code: the same types with
// the same meaning, but waiting is done through the scheduler, and every
// operation is a scheduling point. The real primitives underneath provide the
// happens-before edges.
package csync

import (
	"sync"
	"sync/atomic"

	"verif.local/mc/sched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	sched.SyncPoint()
	for !m.mu.TryLock() {
		sched.Block()
	}
}

func (m *Mutex) TryLock() bool { sched.SyncPoint(); return m.mu.TryLock() }

// Unlock is no point of preemption: what follows up to the next acquisition
// is not visible to others.
func (m *Mutex) Unlock() { m.mu.Unlock(); sched.Progress() }

// RWMutex is sync.RWMutex.
type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.SyncPoint()
	for !m.mu.TryLock() {
		sched.Block()
	}
}

func (m *RWMutex) RLock() {
	sched.SyncPoint()
	for !m.mu.TryRLock() {
		sched.Block()
	}
}

func (m *RWMutex) TryLock() bool  { sched.SyncPoint(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.SyncPoint(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); sched.Progress() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); sched.Progress() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.SyncPoint()
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer func() { sched.SyncPoint(); o.done.Store(1) }()
			f()
		}
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var r T
	return func() T {
		once.Do(func() {
			defer func() {
				if p = recover(); !valid {
					panic(p)
				}
			}()
			r = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return r
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(d int) { sched.SyncPoint(); w.n.Add(int64(d)); w.wg.Add(d) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.SyncPoint()
	for w.n.Load() != 0 {
		sched.Block()
	}
	w.wg.Wait()
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	mu   sync.Mutex
	wait []*atomic.Bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(atomic.Bool)
	c.mu.Lock()
	c.wait = append(c.wait, w)
	c.mu.Unlock()
	c.L.Unlock()
	for !w.Load() {
		sched.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.SyncPoint()
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.wait) > 0 {
		c.wait[0].Store(true)
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	sched.SyncPoint()
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.wait {
		w.Store(true)
	}
	c.wait = nil
}

// Pool policies.
const (
	LIFO  = iota // the last one put is the next one got
	FIFO         // the first one put is the next one got
	Never        // nothing is kept
)

// PoolPolicy is chosen by the explorer.
var PoolPolicy = LIFO

// Pool is sync.Pool with a chosen policy (a sync.Pool promises nothing about
// which of its items it returns, if any).
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	sched.SyncPoint()
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) take() any {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := len(p.items)
	if n == 0 {
		return nil
	}
	i := n - 1
	if PoolPolicy == FIFO {
		i = 0
	}
	x := p.items[i]
	p.items = append(p.items[:i], p.items[i+1:]...)
	return x
}

func (p *Pool) Put(x any) {
	sched.SyncPoint()
	if x == nil || PoolPolicy == Never {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.items = append(p.items, x)
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.SyncPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.SyncPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.SyncPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.SyncPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.SyncPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.SyncPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { sched.SyncPoint(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { sched.SyncPoint(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { sched.SyncPoint(); m.m.Range(f) }
func (m *Map) Clear() {
	sched.SyncPoint()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
