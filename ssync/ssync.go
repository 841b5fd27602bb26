// Package ssync stands in for package sync in instrumented code: the same
// API, but who gets a lock, what a Pool returns and who is woken is decided
// by the simulator. Outside a simulated world it is the real sync package.
package ssync

import (
	rsync "sync"

	"verif/sim"
)

type Locker = rsync.Locker
type Map = rsync.Map

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Mutex struct {
	real rsync.Mutex
	held bool
	gen  int
}

func (m *Mutex) fix(w *sim.World) {
	if m.gen != w.Gen {
		m.gen = w.Gen
		m.held = false
	}
}

func (m *Mutex) Lock() {
	w := sim.W
	if w == nil {
		m.real.Lock()
		return
	}
	sim.Y("sync.Mutex.Lock")
	m.fix(w)
	if m.held {
		w.Count("sync.mutex_contended")
		sim.Block("sync.Mutex.Lock wait", func() bool { return !m.held })
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	w := sim.W
	if w == nil {
		return m.real.TryLock()
	}
	sim.Y("sync.Mutex.TryLock")
	m.fix(w)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	w := sim.W
	if w == nil {
		m.real.Unlock()
		return
	}
	m.fix(w)
	if !m.held && !w.Killing() {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	sim.Y("sync.Mutex.Unlock")
}

type RWMutex struct {
	real    rsync.RWMutex
	writer  bool
	wwait   int
	readers int
	gen     int
}

func (m *RWMutex) fix(w *sim.World) {
	if m.gen != w.Gen {
		m.gen = w.Gen
		m.writer, m.readers, m.wwait = false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	w := sim.W
	if w == nil {
		m.real.Lock()
		return
	}
	sim.Y("sync.RWMutex.Lock")
	m.fix(w)
	if m.writer || m.readers > 0 {
		m.wwait++
		sim.Block("sync.RWMutex.Lock wait", func() bool { return !m.writer && m.readers == 0 })
		m.wwait--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	w := sim.W
	if w == nil {
		return m.real.TryLock()
	}
	m.fix(w)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	w := sim.W
	if w == nil {
		m.real.Unlock()
		return
	}
	m.fix(w)
	if !m.writer && !w.Killing() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	sim.Y("sync.RWMutex.Unlock")
}

func (m *RWMutex) RLock() {
	w := sim.W
	if w == nil {
		m.real.RLock()
		return
	}
	sim.Y("sync.RWMutex.RLock")
	m.fix(w)
	// A pending writer blocks new readers, as in the real one.
	if m.writer || m.wwait > 0 {
		sim.Block("sync.RWMutex.RLock wait", func() bool { return !m.writer && m.wwait == 0 })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	w := sim.W
	if w == nil {
		return m.real.TryRLock()
	}
	m.fix(w)
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	w := sim.W
	if w == nil {
		m.real.RUnlock()
		return
	}
	m.fix(w)
	if m.readers <= 0 && !w.Killing() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	sim.Y("sync.RWMutex.RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	real rsync.WaitGroup
	n    int
	gen  int
}

func (g *WaitGroup) fix(w *sim.World) {
	if g.gen != w.Gen {
		g.gen = w.Gen
		g.n = 0
	}
}

func (g *WaitGroup) Add(d int) {
	w := sim.W
	if w == nil {
		g.real.Add(d)
		return
	}
	g.fix(w)
	g.n += d
	if g.n < 0 && !w.Killing() {
		panic("sync: negative WaitGroup counter")
	}
	sim.Y("sync.WaitGroup.Add")
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	w := sim.W
	if w == nil {
		g.real.Wait()
		return
	}
	sim.Y("sync.WaitGroup.Wait")
	g.fix(w)
	if g.n > 0 {
		sim.Block("sync.WaitGroup.Wait wait", func() bool { return g.n == 0 })
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		sim.Y("sync.WaitGroup.Go")
		defer g.Done()
		f()
	}()
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	wait []*bool
	real *rsync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if sim.W == nil {
		panic("ssync.Cond outside a world")
	}
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	sim.Block("sync.Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}

// Pool may, like the real one, return any item put into it, or none, and may
// drop any item. Which of these happens is drawn from the tape.
type Pool struct {
	New   func() any
	items []any
	gen   int
	real  rsync.Pool
}

func (p *Pool) fix(w *sim.World) {
	if p.gen != w.Gen {
		p.gen = w.Gen
		p.items = nil
	}
}

func (p *Pool) Get() any {
	w := sim.W
	if w == nil {
		if x := p.real.Get(); x != nil {
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	sim.Y("sync.Pool.Get")
	p.fix(w)
	if n := len(p.items); n > 0 {
		k := n - 1
		switch w.Weighted("pool", 12, 4, 1) {
		case 1:
			k = w.Draw("pool", n)
		case 2:
			k = -1
			w.Count("fault.pool_miss")
		}
		if k >= 0 {
			x := p.items[k]
			p.items = append(p.items[:k:k], p.items[k+1:]...)
			w.Count("sync.pool_reuse")
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	w := sim.W
	if w == nil {
		p.real.Put(x)
		return
	}
	p.fix(w)
	if w.Chance("pool", 1, 16) {
		w.Count("fault.pool_drop")
	} else {
		p.items = append(p.items, x)
	}
	sim.Y("sync.Pool.Put")
}
