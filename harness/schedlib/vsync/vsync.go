// Package vsync stands in for package sync under the controlled scheduler.
package vsync

import (
	"sync"

	sched "vsa/internal/verifsched"
)

type Locker = sync.Locker

type Cond struct {
	L  Locker
	mu sync.Mutex
	ws []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.ws = append(c.ws, ch)
	c.mu.Unlock()
	c.L.Unlock()
	wait(c, "Cond.Wait", ch)
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	sched.Point("Cond.Signal")
	c.mu.Lock()
	for ; n != 0 && len(c.ws) > 0; n-- {
		close(c.ws[0])
		c.ws = c.ws[1:]
	}
	c.mu.Unlock()
	sched.Wake(c)
}

func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(-1) }

// wait returns when ch is closed.
func wait(on any, op string, ch chan struct{}) {
	for {
		select {
		case <-ch:
			return
		default:
		}
		if !sched.Block(on, op) {
			<-ch
			return
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !sched.Controlled() {
		m.mu.Lock()
		return
	}
	sched.Point("Mutex.Lock")
	for !m.mu.TryLock() {
		sched.Block(m, "Mutex.Lock (held)")
	}
}

func (m *Mutex) TryLock() bool {
	sched.Point("Mutex.TryLock")
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	sched.Point("Mutex.Unlock")
	m.mu.Unlock()
	sched.Wake(m)
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	if !sched.Controlled() {
		m.mu.Lock()
		return
	}
	sched.Point("RWMutex.Lock")
	for !m.mu.TryLock() {
		sched.Block(m, "RWMutex.Lock (held)")
	}
}
func (m *RWMutex) TryLock() bool { sched.Point("RWMutex.TryLock"); return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	sched.Point("RWMutex.Unlock")
	m.mu.Unlock()
	sched.Wake(m)
}
func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.mu.RLock()
		return
	}
	sched.Point("RWMutex.RLock")
	for !m.mu.TryRLock() {
		sched.Block(m, "RWMutex.RLock (held)")
	}
}
func (m *RWMutex) TryRLock() bool { sched.Point("RWMutex.TryRLock"); return m.mu.TryRLock() }
func (m *RWMutex) RUnlock() {
	sched.Point("RWMutex.RUnlock")
	m.mu.RUnlock()
	sched.Wake(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	wg sync.WaitGroup // for its own checks
	mu sync.Mutex
	n  int
	ch chan struct{}
}

func (w *WaitGroup) Add(n int) {
	sched.Point("WaitGroup.Add")
	w.wg.Add(n)
	w.mu.Lock()
	if w.n == 0 {
		w.ch = make(chan struct{})
	}
	if w.n += n; w.n == 0 && n != 0 {
		close(w.ch)
	}
	w.mu.Unlock()
	sched.Wake(w)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func (w *WaitGroup) Wait() {
	sched.Point("WaitGroup.Wait")
	w.mu.Lock()
	ch, n := w.ch, w.n
	w.mu.Unlock()
	if n > 0 {
		wait(w, "WaitGroup.Wait", ch)
	}
}

type Pool struct {
	New func() any
	mu  sync.Mutex
	xs  []any
}

func (p *Pool) Get() any {
	sched.Point("Pool.Get")
	p.mu.Lock()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	sched.Point("Pool.Put")
	if x == nil {
		return
	}
	p.mu.Lock()
	p.xs = append(p.xs, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { sched.Point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { sched.Point("Map.Store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sched.Point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	sched.Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { sched.Point("Map.Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { sched.Point("Map.Swap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sched.Point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	sched.Point("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { sched.Point("Map.Range"); m.m.Range(f) }
func (m *Map) Clear()                      { sched.Point("Map.Clear"); m.m.Clear() }
