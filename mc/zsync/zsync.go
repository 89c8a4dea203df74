// Package zsync stands for package sync in instrumented code. On goroutines run
// by the scheduler each operation is a point where another thread may go on;
// on others it is the operation of package sync.
package zsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/hangulize/hangulize/internal/verifmc/sched"
)

type Locker = sync.Locker

// Mutex

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *Mutex) Lock() {
	if !sched.Controlled() {
		m.mu.Lock()
		return
	}
	sched.Yield()
	for !m.mu.TryLock() {
		sched.Block(m.key())
	}
}

func (m *Mutex) TryLock() bool {
	sched.Yield()
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	sched.Wake(m.key())
	sched.Yield()
}

// RWMutex

type RWMutex struct {
	mu      sync.RWMutex
	writers int32 // waiting ones
}

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *RWMutex) waiting(d int32) int32 {
	m.writers += d
	return m.writers
}

func (m *RWMutex) Lock() {
	if !sched.Controlled() {
		m.mu.Lock()
		return
	}
	sched.Yield()
	m.waiting(1)
	for !m.mu.TryLock() {
		sched.Block(m.key())
	}
	m.waiting(-1)
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	sched.Wake(m.key())
	sched.Yield()
}

func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.mu.RLock()
		return
	}
	sched.Yield()
	// A waiting writer keeps new readers out.
	for m.waiting(0) > 0 || !m.mu.TryRLock() {
		sched.Block(m.key())
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	sched.Wake(m.key())
	sched.Yield()
}

func (m *RWMutex) TryLock() bool  { sched.Yield(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Yield(); return m.mu.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once, as in package sync

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Yield()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup

type WaitGroup struct {
	wg sync.WaitGroup
}

func (w *WaitGroup) Add(n int) { w.wg.Add(n) }
func (w *WaitGroup) Done()     { w.wg.Done() }
func (w *WaitGroup) Wait()     { w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Map

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	sched.Yield()
	return m.m.Load(k)
}

func (m *Map) Store(k, v any) {
	sched.Yield()
	m.m.Store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Yield()
	return m.m.LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sched.Yield()
	return m.m.LoadAndDelete(k)
}

func (m *Map) Delete(k any) {
	sched.Yield()
	m.m.Delete(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	sched.Yield()
	return m.m.Swap(k, v)
}

func (m *Map) CompareAndSwap(k, a, b any) bool {
	sched.Yield()
	return m.m.CompareAndSwap(k, a, b)
}

func (m *Map) CompareAndDelete(k, a any) bool {
	sched.Yield()
	return m.m.CompareAndDelete(k, a)
}

func (m *Map) Range(f func(k, v any) bool) {
	sched.Yield()
	m.m.Range(func(k, v any) bool {
		sched.Yield()
		return f(k, v)
	})
}

func (m *Map) Clear() {
	sched.Yield()
	m.m.Clear()
}

// Pool gives back what was put last, the least friendly way.

type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	sched.Yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	sched.Yield()
}
