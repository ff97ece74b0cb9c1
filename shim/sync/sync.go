// Package sync replaces the standard package in the rewritten code.
package sync

import (
	std "sync"

	"verif/vsched"
)

type Mutex = vsched.Mutex
type RWMutex = vsched.RWMutex
type WaitGroup = vsched.WaitGroup
type Once = vsched.Once
type Cond = vsched.Cond
type Pool = vsched.Pool
type Locker = std.Locker

func NewCond(l Locker) *Cond { return vsched.NewCond(l) }

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m std.Map }

func (m *Map) Load(key any) (any, bool) { vsched.Point("map.load"); return m.m.Load(key) }
func (m *Map) Store(key, value any) {
	vsched.Point("map.store")
	m.note(key)
	m.m.Store(key, value)
}
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	vsched.Point("map.loadorstore")
	m.note(key)
	return m.m.LoadOrStore(key, value)
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	vsched.Point("map.loadanddelete")
	m.note(key)
	return m.m.LoadAndDelete(key)
}
func (m *Map) Delete(key any) { vsched.Point("map.delete"); m.note(key); m.m.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool) {
	vsched.Point("map.swap")
	m.note(key)
	return m.m.Swap(key, value)
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	vsched.Point("map.cas")
	m.note(key)
	return m.m.CompareAndSwap(key, old, new)
}
func (m *Map) CompareAndDelete(key, old any) bool {
	vsched.Point("map.cad")
	m.note(key)
	return m.m.CompareAndDelete(key, old)
}
func (m *Map) Range(f func(key, value any) bool) { vsched.Point("map.range"); m.m.Range(f) }
func (m *Map) Clear() {
	vsched.Point("map.clear")
	if marked {
		m.m.Range(func(key, _ any) bool { m.note(key); return true })
	}
	m.m.Clear()
}

// ---- the way back to an earlier state of all maps ----

type undo struct {
	m     *Map
	key   any
	value any
	had   bool
}

var (
	undoLock std.Mutex
	undos    []undo
	marked   bool
)

func (m *Map) note(key any) {
	if !marked {
		return
	}
	v, had := m.m.Load(key)
	undoLock.Lock()
	undos = append(undos, undo{m, key, v, had})
	undoLock.Unlock()
}

// Mark makes the present contents of all maps the ones Rewind brings back.
func Mark() {
	undoLock.Lock()
	marked, undos = true, nil
	undoLock.Unlock()
}

// Rewind brings all maps back to what they held at the last Mark. It is to be
// called outside the scheduler, while nothing else runs.
func Rewind() {
	undoLock.Lock()
	defer undoLock.Unlock()
	for i := len(undos) - 1; i >= 0; i-- {
		u := undos[i]
		if u.had {
			u.m.m.Store(u.key, u.value)
		} else {
			u.m.m.Delete(u.key)
		}
		undos[i] = undo{}
	}
	undos = undos[:0]
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
