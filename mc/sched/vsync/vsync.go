// Package vsync stands in for package sync in instrumented code: waiting goes through the
// scheduler, ordering through the real primitives, so that the race detector sees it.
package vsync

import (
	"sync"

	"verif/mc/sched"
)

type Locker = sync.Locker

type Mutex struct {
	mu sync.Mutex
	ok bool // held, written only by the holder
}

func (m *Mutex) Lock() {
	sched.Point(0)
	for !m.mu.TryLock() {
		if !sched.Active() {
			m.mu.Lock()
			return
		}
		sched.Block(m.held)
	}
	m.set(true)
}

//go:norace
func (m *Mutex) held() bool { return m.ok }

//go:norace
func (m *Mutex) set(b bool) { m.ok = b }

func (m *Mutex) TryLock() bool {
	sched.Point(0)
	if m.mu.TryLock() {
		m.set(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.mu.Unlock()
	sched.Point(0)
}

type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) noWrite() bool { return m.writer || m.readers > 0 }

//go:norace
func (m *RWMutex) noRead() bool { return m.writer }

//go:norace
func (m *RWMutex) add(w bool, r int) { m.writer = w; m.readers += r }

func (m *RWMutex) Lock() {
	sched.Point(0)
	for !m.mu.TryLock() {
		if !sched.Active() {
			m.mu.Lock()
			break
		}
		sched.Block(m.noWrite)
	}
	m.add(true, 0)
}

func (m *RWMutex) TryLock() bool {
	sched.Point(0)
	if m.mu.TryLock() {
		m.add(true, 0)
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	m.add(false, 0)
	m.mu.Unlock()
	sched.Point(0)
}

func (m *RWMutex) RLock() {
	sched.Point(0)
	for !m.mu.TryRLock() {
		if !sched.Active() {
			m.mu.RLock()
			break
		}
		sched.Block(m.noRead)
	}
	m.add(false, 1)
}

func (m *RWMutex) TryRLock() bool {
	sched.Point(0)
	if m.mu.TryRLock() {
		m.add(false, 1)
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	m.add(false, -1)
	m.mu.RUnlock()
	sched.Point(0)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool always hands out what was put back last.
type Pool struct {
	New func() any
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	sched.Point(0)
	p.mu.Lock()
	var x any
	if n := len(p.s); n > 0 {
		x, p.s = p.s[n-1], p.s[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	sched.Point(0)
	p.mu.Lock()
	if x != nil {
		p.s = append(p.s, x)
	}
	p.mu.Unlock()
	sched.Point(0)
}

// Map is the real map with scheduling points around its operations.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { sched.Point(0); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { sched.Point(0); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Point(0)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.Point(0); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { sched.Point(0); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { sched.Point(0); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { sched.Point(0); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { sched.Point(0); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear() {
	sched.Point(0)
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
func (m *Map) Range(f func(k, v any) bool) {
	sched.Point(0)
	m.m.Range(f)
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) count(d int) { w.n += d }

//go:norace
func (w *WaitGroup) waiting() bool { return w.n > 0 }

func (w *WaitGroup) Add(d int) { w.count(d); w.wg.Add(d); sched.Point(0) }
func (w *WaitGroup) Done()     { w.count(-1); w.wg.Done(); sched.Point(0) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	sched.Point(0)
	for w.waiting() && sched.Active() {
		sched.Block(w.waiting)
	}
	w.wg.Wait()
}

type Cond struct {
	L   Locker
	c   *sync.Mutex
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: &sync.Mutex{}} }

//go:norace
func (c *Cond) generation() int { return c.gen }

//go:norace
func (c *Cond) bump() { c.gen++ }

func (c *Cond) Wait() {
	g := c.generation()
	c.L.Unlock()
	sched.Block(func() bool { return c.generation() == g })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.bump(); sched.Point(0) }
func (c *Cond) Broadcast() { c.bump(); sched.Point(0) }
