// Package sync replaces sync in instrumented code so that blocking hands over to the scheduler.
package sync

import (
	"sync"

	"verifsim/simrt"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct {
	m sync.Mutex
	c simrt.Clock
}

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		simrt.Block()
	}
	simrt.Acquire(&m.c)
}
func (m *Mutex) TryLock() bool {
	if !m.m.TryLock() {
		return false
	}
	simrt.Acquire(&m.c)
	return true
}
func (m *Mutex) Unlock() {
	simrt.Release(&m.c)
	m.m.Unlock()
}

type RWMutex struct {
	m    sync.RWMutex
	w, r simrt.Clock
}

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		simrt.Block()
	}
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.r)
}
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.m.RLock()
		return
	}
	for !m.m.TryRLock() {
		simrt.Block()
	}
	simrt.Acquire(&m.w)
}
func (m *RWMutex) TryLock() bool {
	if !m.m.TryLock() {
		return false
	}
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.r)
	return true
}
func (m *RWMutex) TryRLock() bool {
	if !m.m.TryRLock() {
		return false
	}
	simrt.Acquire(&m.w)
	return true
}
func (m *RWMutex) Unlock() {
	simrt.Release(&m.w)
	m.m.Unlock()
}
func (m *RWMutex) RUnlock() {
	simrt.Release(&m.r)
	m.m.RUnlock()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		simrt.Acquire(&o.m.c)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool returns the most recently put item, which is the least forgiving legal behaviour.
type Pool struct {
	New   func() any
	m     sync.Mutex
	c     simrt.Clock
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.Acquire(&p.c)
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	simrt.Release(&p.c)
	p.m.Unlock()
}

type WaitGroup struct {
	m sync.Mutex
	c simrt.Clock
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	simrt.Release(&w.c)
	neg := w.n < 0
	w.m.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			simrt.Acquire(&w.c)
			return
		}
		simrt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker
	m sync.Mutex
	g int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) gen() int     { c.m.Lock(); defer c.m.Unlock(); return c.g }
func (c *Cond) Wait() {
	g := c.gen()
	c.L.Unlock()
	for c.gen() == g {
		simrt.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.m.Lock(); c.g++; c.m.Unlock() }
func (c *Cond) Broadcast() { c.m.Lock(); c.g++; c.m.Unlock() }
