//go:build go1.21

package zzvsched

import (
	"sync"
	"unsafe"
)

// The primitives of package sync, as the scheduler sees them. Outside an exploration they are those of package sync.

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) ready() bool { return !m.held }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	s := active
	if s == nil {
		m.real.Lock()
		return
	}
	P()
	for m.held {
		s.block(m)
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if active == nil {
		return m.real.TryLock()
	}
	P()
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceReleaseMerge(unsafe.Pointer(m))
	m.held = false
	s.seg(false)
	P()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
}

type rwWait struct{ m *RWMutex }
type rdWait struct{ m *RWMutex }

//go:norace
func (x rwWait) ready() bool { return !x.m.w && x.m.r == 0 }

//go:norace
func (x rdWait) ready() bool { return !x.m.w }

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.real.Lock()
		return
	}
	P()
	for m.w || m.r > 0 {
		s.block(rwWait{m})
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	if active == nil {
		return m.real.TryLock()
	}
	P()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks for writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	s := active
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(m))
	m.w = false
	s.seg(false)
	P()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.real.RLock()
		return
	}
	P()
	for m.w {
		s.block(rdWait{m})
	}
	m.r++
	raceAcquire(unsafe.Pointer(m))
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	if active == nil {
		return m.real.TryRLock()
	}
	P()
	if m.w {
		return false
	}
	m.r++
	raceAcquire(unsafe.Pointer(m))
	return true
}

// RUnlock undoes RLock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	s := active
	if s == nil {
		m.real.RUnlock()
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	// readers are not ordered with one another, only with the next writer
	raceReleaseMerge(unsafe.Pointer(&m.r))
	raceReleaseMerge(unsafe.Pointer(m))
	m.r--
	s.seg(false)
	P()
}

// RLocker gives the read side as a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup waits for a number of things to happen.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) ready() bool { return w.n <= 0 }

// Add adds to the counter.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if active == nil {
		w.real.Add(d)
		return
	}
	P()
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if s := active; s != nil {
		s.seg(false)
	}
}

// Done takes one from the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to be zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	s := active
	if s == nil {
		w.real.Wait()
		return
	}
	P()
	for w.n > 0 {
		s.block(w)
	}
	raceAcquire(unsafe.Pointer(w))
}

// Pool keeps objects; the one put last is the first to be handed out again.
type Pool struct {
	New  func() any
	real sync.Pool
	free []any
}

//go:norace
func (p *Pool) pop() (any, bool) {
	P()
	n := len(p.free)
	if n == 0 {
		return nil, false
	}
	x := p.free[n-1]
	p.free = p.free[:n-1]
	raceAcquire(unsafe.Pointer(p))
	return x, true
}

// Get takes an object.
func (p *Pool) Get() any {
	if active == nil {
		if x := p.real.Get(); x != nil {
			return x
		}
	} else if x, ok := p.pop(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
//
//go:norace
func (p *Pool) Put(x any) {
	if active == nil {
		p.real.Put(x)
		return
	}
	P()
	if x == nil {
		return
	}
	raceReleaseMerge(unsafe.Pointer(p))
	p.free = append(p.free, x)
	P()
}

// Map is sync.Map; its operations are atomic.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { P(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { P(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { P(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { P(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { P(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { P(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { P(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { P(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { P(); m.m.Range(f) }
func (m *Map) Clear()                           { P(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }

// Cond is a condition variable.
type Cond struct {
	L       Locker
	once    sync.Once
	real    *sync.Cond
	waiting []*condWait
}

func (c *Cond) cond() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

type condWait struct{ woken bool }

//go:norace
func (w *condWait) ready() bool { return w.woken }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is that of sync.Cond.
//
//go:norace
func (c *Cond) Wait() {
	s := active
	if s == nil {
		c.cond().Wait()
		return
	}
	w := &condWait{}
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	for !w.woken {
		s.block(w)
	}
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal is that of sync.Cond.
//
//go:norace
func (c *Cond) Signal() {
	s := active
	if s == nil {
		c.cond().Signal()
		return
	}
	raceReleaseMerge(unsafe.Pointer(c))
	if len(c.waiting) > 0 {
		c.waiting[0].woken = true
		c.waiting = c.waiting[1:]
	}
	s.seg(false)
	P()
}

// Broadcast is that of sync.Cond.
//
//go:norace
func (c *Cond) Broadcast() {
	s := active
	if s == nil {
		c.cond().Broadcast()
		return
	}
	raceReleaseMerge(unsafe.Pointer(c))
	for _, w := range c.waiting {
		w.woken = true
	}
	c.waiting = nil
	s.seg(false)
	P()
}
