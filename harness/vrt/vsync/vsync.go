// Package vsync has the API of package sync, under the control of vrt.
package vsync

import (
	"sync"

	"github.com/dpeckett/archivefs/internal/vrt"
)

// Types that never block are used as they are.
type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

// Mutex is a sync.Mutex.
type Mutex struct {
	m    sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Ready() bool { return !m.held }

//go:norace
func (m *Mutex) What() string { return "a mutex" }

//go:norace
func (m *Mutex) Lock() {
	vrt.SyncPoint()
	vrt.Wait(m)
	m.m.Lock()
	m.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	vrt.SyncPoint()
	if m.held {
		return false
	}
	if m.m.TryLock() {
		m.held = true
		return true
	}
	return false
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if vrt.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.m.Unlock()
}

// RWMutex is a sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	m       sync.RWMutex
	writer  bool
	readers int
	waiting int
}

type rReady struct{ m *RWMutex }

//go:norace
func (r rReady) Ready() bool { return !r.m.writer && r.m.waiting == 0 }

//go:norace
func (r rReady) What() string { return "a read lock" }

type wReady struct{ m *RWMutex }

//go:norace
func (w wReady) Ready() bool { return !w.m.writer && w.m.readers == 0 }

//go:norace
func (w wReady) What() string { return "a write lock" }

//go:norace
func (m *RWMutex) Lock() {
	vrt.SyncPoint()
	m.waiting++
	m.waitW()
	m.waiting--
	m.m.Lock()
	m.writer = true
}

//go:norace
func (m *RWMutex) waitW() { vrt.Wait(wReady{m}) }

//go:norace
func (m *RWMutex) TryLock() bool {
	vrt.SyncPoint()
	if m.writer || m.readers > 0 || !m.m.TryLock() {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		if vrt.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.m.Unlock()
}

//go:norace
func (m *RWMutex) RLock() {
	vrt.SyncPoint()
	vrt.Wait(rReady{m})
	m.m.RLock()
	m.readers++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vrt.SyncPoint()
	if m.writer || m.waiting > 0 || !m.m.TryRLock() {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if vrt.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.m.RUnlock()
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once.
type Once struct {
	mu   Mutex
	done bool
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) What() string { return "a wait group" }

//go:norace
func (w *WaitGroup) Add(n int) {
	vrt.SyncPoint()
	w.n += n
	w.wg.Add(n)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	vrt.SyncPoint()
	vrt.Wait(w)
	w.wg.Wait()
}

// Cond is a sync.Cond.
type Cond struct {
	L     Locker
	queue []*ticket
	mu    sync.Mutex
}

type ticket struct {
	woken bool
	ch    chan struct{}
}

//go:norace
func (t *ticket) Ready() bool { return t.woken }

//go:norace
func (t *ticket) What() string { return "a condition" }

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := &ticket{ch: make(chan struct{})}
	c.mu.Lock()
	c.queue = append(c.queue, t)
	c.mu.Unlock()
	c.L.Unlock()
	if !vrt.Wait(t) {
		<-t.ch
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vrt.SyncPoint()
	c.mu.Lock()
	if len(c.queue) > 0 {
		c.queue[0].woken = true
		close(c.queue[0].ch)
		c.queue = c.queue[1:]
	}
	c.mu.Unlock()
}

//go:norace
func (c *Cond) Broadcast() {
	vrt.SyncPoint()
	c.mu.Lock()
	for _, t := range c.queue {
		t.woken = true
		close(t.ch)
	}
	c.queue = nil
	c.mu.Unlock()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
