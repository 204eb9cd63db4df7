// Package vsync is a stand-in for package sync that a vsched scheduler
// understands. Without an active scheduler it behaves like package sync.
package vsync

import (
	"sync"

	"verif/harness/vsched"
)

type (
	Pool   = sync.Pool
	Map    = sync.Map
	Cond   = sync.Cond
	Locker = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is like sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Mutex is like sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	s := vsched.Active()
	if s == nil {
		m.m.Lock()
		return
	}
	if s.Killed() {
		m.m.TryLock()
		return
	}
	vsched.Yield()
	for !m.m.TryLock() {
		s.Block(m)
	}
}

func (m *Mutex) TryLock() bool {
	vsched.Yield()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	s := vsched.Active()
	if s == nil {
		m.m.Unlock()
		return
	}
	if s.Killed() {
		m.m.TryLock()
		m.m.Unlock()
		return
	}
	m.m.Unlock()
	s.Wake(m)
}

// RWMutex is like sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	s := vsched.Active()
	if s == nil {
		m.m.Lock()
		return
	}
	if s.Killed() {
		return
	}
	vsched.Yield()
	for !m.m.TryLock() {
		s.Block(m)
	}
}

func (m *RWMutex) TryLock() bool {
	vsched.Yield()
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	s := vsched.Active()
	if s == nil {
		m.m.Unlock()
		return
	}
	if s.Killed() {
		return
	}
	m.m.Unlock()
	s.Wake(m)
}

func (m *RWMutex) RLock() {
	s := vsched.Active()
	if s == nil {
		m.m.RLock()
		return
	}
	if s.Killed() {
		return
	}
	vsched.Yield()
	for !m.m.TryRLock() {
		s.Block(m)
	}
}

func (m *RWMutex) TryRLock() bool {
	vsched.Yield()
	return m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	s := vsched.Active()
	if s == nil {
		m.m.RUnlock()
		return
	}
	if s.Killed() {
		return
	}
	m.m.RUnlock()
	s.Wake(m)
}

// RLocker is like the method of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is like sync.Once.
type Once struct {
	m    Mutex
	done bool
	mu   sync.Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

// WaitGroup is like sync.WaitGroup, including the misuse it panics about: the
// counter going negative, and an Add that happens between the release of a Wait
// and its return.
type WaitGroup struct {
	mu      sync.Mutex
	cond    *sync.Cond
	n       int
	waiters int
}

func (w *WaitGroup) Add(d int) {
	s := vsched.Active()
	if s != nil {
		if s.Killed() {
			return
		}
		vsched.Yield()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.waiters = 0
		if s != nil {
			s.Wake(w)
		}
		if w.cond != nil {
			w.cond.Broadcast()
		}
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go is like the method of sync.WaitGroup.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func (w *WaitGroup) Wait() {
	s := vsched.Active()
	if s != nil {
		if s.Killed() {
			return
		}
		vsched.Yield()
		w.mu.Lock()
		if w.n == 0 {
			w.mu.Unlock()
			return
		}
		w.waiters++
		w.mu.Unlock()
		s.Block(w)
		if s.Killed() {
			return
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.n != 0 || w.waiters != 0 {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.cond == nil {
		w.cond = sync.NewCond(&w.mu)
	}
	for w.n != 0 {
		w.cond.Wait()
	}
}
