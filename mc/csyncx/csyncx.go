// Package csyncx stands in for github.com/RomiChan/syncx in woven code: the
// same types, every operation being a scheduling point.
package csyncx

import (
	"github.com/RomiChan/syncx"

	"verif.local/mc/csync"
	"verif.local/mc/sched"
)

// Map is syncx.Map.
type Map[K comparable, V any] struct{ m syncx.Map[K, V] }

func (m *Map[K, V]) Load(k K) (V, bool)             { sched.SyncPoint(); return m.m.Load(k) }
func (m *Map[K, V]) Store(k K, v V)                 { sched.SyncPoint(); m.m.Store(k, v) }
func (m *Map[K, V]) LoadOrStore(k K, v V) (V, bool) { sched.SyncPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map[K, V]) LoadAndDelete(k K) (V, bool)    { sched.SyncPoint(); return m.m.LoadAndDelete(k) }
func (m *Map[K, V]) Delete(k K)                     { sched.SyncPoint(); m.m.Delete(k) }
func (m *Map[K, V]) Range(f func(K, V) bool)        { sched.SyncPoint(); m.m.Range(f) }

// Lazy is syncx.Lazy.
type Lazy[T any] struct {
	m    csync.Mutex
	done bool
	val  T

	Init func() T
}

func (l *Lazy[T]) Get() T {
	l.m.Lock()
	defer l.m.Unlock()
	if !l.done {
		defer func() { l.done = true }()
		l.val = l.Init()
	}
	return l.val
}
