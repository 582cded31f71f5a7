// Package ssync replaces package sync in the instrumented copy of gopf
package ssync

import (
	"sync"
	"verifsim/simrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Mutex is a lock among simulated threads
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock()         { simrt.P(); simrt.Block(m.mu.TryLock) }
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.P() }

// RWMutex is a lock among simulated threads
type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock()           { simrt.P(); simrt.Block(m.mu.TryLock) }
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock(); simrt.P() }
func (m *RWMutex) RLock()          { simrt.P(); simrt.Block(m.mu.TryRLock) }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock(); simrt.P() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup counts threads
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	neg := w.n < 0
	w.mu.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { simrt.P(); w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.P()
	simrt.Block(func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.n == 0
	})
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Pool keeps everything it is given: what it returns does not depend on the collector
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	simrt.P()
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.P()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Cond is sync.Cond
type Cond struct {
	L   Locker
	mu  sync.Mutex
	gen int
	one int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	g := c.gen
	c.mu.Unlock()
	c.L.Unlock()
	simrt.Block(func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.gen != g {
			return true
		}
		if c.one > 0 {
			c.one--
			return true
		}
		return false
	})
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	c.one++
	c.mu.Unlock()
	simrt.P()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.gen++
	c.one = 0
	c.mu.Unlock()
	simrt.P()
}
