// Package vsync stands in for package sync in the code under test.  With no
// scheduler installed its primitives are the real ones; with a scheduler
// installed every acquire is a scheduling point the explorer controls.
package vsync

import (
	"sync"
	"sync/atomic"
)

type Locker = sync.Locker

// Sched is what a controlled scheduler implements.
type Sched interface {
	// Lock blocks the calling goroutine until it owns the lock named by key.
	Lock(key any, write bool)
	TryLock(key any, write bool) bool
	Unlock(key any, write bool)
	// Point is a scheduling point without a blocking condition.
	Point(what string)
	// Block blocks until ready() holds; ready is evaluated by the scheduler
	// while nothing else runs.
	Block(what string, ready func() bool)
}

var cur atomic.Pointer[Sched]

// Install makes s the scheduler (nil removes it).
func Install(s Sched) {
	if s == nil {
		cur.Store(nil)
		return
	}
	cur.Store(&s)
}

// Current returns the installed scheduler or nil.
func Current() Sched {
	if p := cur.Load(); p != nil {
		return *p
	}
	return nil
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if s := Current(); s != nil {
		s.Lock(m, true)
		return
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if s := Current(); s != nil {
		return s.TryLock(m, true)
	}
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	if s := Current(); s != nil {
		s.Unlock(m, true)
		return
	}
	m.mu.Unlock()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if s := Current(); s != nil {
		s.Lock(m, true)
		return
	}
	m.mu.Lock()
}
func (m *RWMutex) TryLock() bool {
	if s := Current(); s != nil {
		return s.TryLock(m, true)
	}
	return m.mu.TryLock()
}
func (m *RWMutex) Unlock() {
	if s := Current(); s != nil {
		s.Unlock(m, true)
		return
	}
	m.mu.Unlock()
}
func (m *RWMutex) RLock() {
	if s := Current(); s != nil {
		s.Lock(m, false)
		return
	}
	m.mu.RLock()
}
func (m *RWMutex) TryRLock() bool {
	if s := Current(); s != nil {
		return s.TryLock(m, false)
	}
	return m.mu.TryRLock()
}
func (m *RWMutex) RUnlock() {
	if s := Current(); s != nil {
		s.Unlock(m, false)
		return
	}
	m.mu.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup works with and without a scheduler.
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(d int) {
	w.n.Add(int64(d))
	w.wg.Add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if s := Current(); s != nil {
		s.Block("WaitGroup.Wait", func() bool { return w.n.Load() <= 0 })
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Once is a sync.Once whose waiters go through the scheduler.
type Once struct {
	mu   Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Cond: usable with a Locker of this package; waiters poll through the scheduler.
type Cond struct {
	L   Locker
	mu  sync.Mutex
	gen int
	tok int
	c   *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if s := Current(); s != nil {
		c.mu.Lock()
		g := c.gen
		c.mu.Unlock()
		c.L.Unlock()
		s.Block("Cond.Wait", func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			if c.gen != g {
				return true
			}
			if c.tok > 0 {
				c.tok--
				return true
			}
			return false
		})
		c.L.Lock()
		return
	}
	c.c.Wait()
}
func (c *Cond) Signal() {
	if Current() != nil {
		c.mu.Lock()
		c.tok++
		c.mu.Unlock()
		return
	}
	c.c.Signal()
}
func (c *Cond) Broadcast() {
	if Current() != nil {
		c.mu.Lock()
		c.gen++
		c.tok = 0
		c.mu.Unlock()
		return
	}
	c.c.Broadcast()
}
