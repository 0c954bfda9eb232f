// Package zzsync stands in for package sync in native replays of schedules:
// before a lock is taken another thread of the harness may run.
package zzsync

import (
	"sync"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

type (
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
	Cond      = sync.Cond
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }
func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()   { sym.SchedPoint(); m.m.Lock(); sym.Held(1) }
func (m *Mutex) Unlock() { sym.Held(-1); m.m.Unlock() }
func (m *Mutex) TryLock() bool {
	ok := m.m.TryLock()
	if ok {
		sym.Held(1)
	}
	return ok
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()    { sym.SchedPoint(); m.m.Lock(); sym.Held(1) }
func (m *RWMutex) Unlock()  { sym.Held(-1); m.m.Unlock() }
func (m *RWMutex) RLock()   { sym.SchedPoint(); m.m.RLock(); sym.Held(1) }
func (m *RWMutex) RUnlock() { sym.Held(-1); m.m.RUnlock() }
func (m *RWMutex) TryLock() bool {
	ok := m.m.TryLock()
	if ok {
		sym.Held(1)
	}
	return ok
}
func (m *RWMutex) TryRLock() bool {
	ok := m.m.TryRLock()
	if ok {
		sym.Held(1)
	}
	return ok
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { sym.SchedPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { sym.SchedPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sym.SchedPoint()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { sym.SchedPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { sym.SchedPoint(); m.m.Delete(k) }
func (m *Map) Range(f func(k, v any) bool)     { sym.SchedPoint(); m.m.Range(f) }
