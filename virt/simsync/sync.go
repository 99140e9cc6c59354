// Package simsync stands in for package sync: when tasks are scheduled by the
// simulator, blocking parks the task instead of the thread.
package simsync

import (
	"sync"
	"unsafe"

	"github.com/frk/gosql/zzsim/rt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !rt.Active() {
		m.mu.Lock()
		return
	}
	rt.Yield()
	for !m.mu.TryLock() {
		rt.Block(uintptr(unsafe.Pointer(m)))
	}
}

func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if rt.Active() {
		rt.Wake(uintptr(unsafe.Pointer(m)))
		rt.Yield()
	}
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if !rt.Active() {
		m.mu.Lock()
		return
	}
	rt.Yield()
	for !m.mu.TryLock() {
		rt.Block(uintptr(unsafe.Pointer(m)))
	}
}

func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if rt.Active() {
		rt.Wake(uintptr(unsafe.Pointer(m)))
		rt.Yield()
	}
}

func (m *RWMutex) RLock() {
	if !rt.Active() {
		m.mu.RLock()
		return
	}
	rt.Yield()
	for !m.mu.TryRLock() {
		rt.Block(uintptr(unsafe.Pointer(m)))
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if rt.Active() {
		rt.Wake(uintptr(unsafe.Pointer(m)))
		rt.Yield()
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Pool always hands out the most recently put value: the legal behaviour that
// exposes state left behind in pooled values best.
type Pool struct {
	mu   sync.Mutex
	free []any
	New  func() any
}

func (p *Pool) Get() any {
	rt.Yield()
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
	rt.Yield()
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	z := w.n
	w.mu.Unlock()
	if z < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if z == 0 && rt.Active() {
		rt.Wake(uintptr(unsafe.Pointer(w)))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		z := w.n
		w.mu.Unlock()
		if z == 0 {
			return
		}
		if rt.Active() {
			rt.Block(uintptr(unsafe.Pointer(w)))
		} else {
			rt.Spin()
		}
	}
}

type Cond struct {
	L Locker
	g Mutex
	n uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.n
	c.L.Unlock()
	for c.n == g {
		if rt.Active() {
			rt.Block(uintptr(unsafe.Pointer(c)))
		} else {
			rt.Spin()
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() { c.Broadcast() }

func (c *Cond) Broadcast() {
	c.n++
	if rt.Active() {
		rt.Wake(uintptr(unsafe.Pointer(c)))
	}
}
