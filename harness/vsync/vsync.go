// Package vsync stands in for package sync in the instrumented build: the
// same types, modelled on the scheduler of verif/vsched. Outside a controlled
// execution they behave like the real ones.
package vsync

import (
	"sync"

	"verif/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct {
	real   sync.Mutex
	locked bool
	hb     [1]byte
}

type mwait Mutex

//go:norace
func (m *mwait) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		m.locked = true
		return
	}
	vsched.P()
	vsched.Block("a mutex", (*mwait)(m))
	m.locked = true
	vsched.Acquire(&m.hb[0])
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		ok := m.real.TryLock()
		if ok {
			m.locked = true
		}
		return ok
	}
	vsched.P()
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acquire(&m.hb[0])
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if !vsched.Active() {
		m.locked = false
		m.real.Unlock()
		return
	}
	vsched.P()
	vsched.Release(&m.hb[0])
	m.locked = false
	vsched.P()
}

// RWMutex prefers waiting writers, like the real one.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	r, wait int
	hbw     [1]byte
	hbr     [1]byte
}

type wwait RWMutex
type rwait RWMutex

//go:norace
func (m *wwait) Ready() bool { return !m.w && m.r == 0 }

//go:norace
func (m *rwait) Ready() bool { return !m.w && m.wait == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		m.w = true
		return
	}
	vsched.P()
	m.wait++
	vsched.Block("a write lock", (*wwait)(m))
	m.wait--
	m.w = true
	vsched.Acquire(&m.hbw[0])
	vsched.Acquire(&m.hbr[0])
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		ok := m.real.TryLock()
		if ok {
			m.w = true
		}
		return ok
	}
	vsched.P()
	if !(*wwait)(m).Ready() {
		return false
	}
	m.w = true
	vsched.Acquire(&m.hbw[0])
	vsched.Acquire(&m.hbr[0])
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	if !vsched.Active() {
		m.w = false
		m.real.Unlock()
		return
	}
	vsched.P()
	vsched.Release(&m.hbw[0])
	m.w = false
	vsched.P()
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.P()
	vsched.Block("a read lock", (*rwait)(m))
	m.r++
	vsched.Acquire(&m.hbw[0])
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.P()
	if !(*rwait)(m).Ready() {
		return false
	}
	m.r++
	vsched.Acquire(&m.hbw[0])
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.P()
	vsched.ReleaseMerge(&m.hbr[0])
	m.r--
	vsched.P()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool always hands out what was put last: the schedule of the real pool that
// exposes reuse the most.
type Pool struct {
	New   func() any
	items []any
	real  sync.Mutex
	hb    [1]byte
}

//go:norace
func (p *Pool) Get() any {
	vsched.P()
	if !vsched.Active() {
		p.real.Lock()
		defer p.real.Unlock()
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		vsched.Acquire(&p.hb[0])
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	vsched.P()
	if x == nil {
		return
	}
	if !vsched.Active() {
		p.real.Lock()
		defer p.real.Unlock()
	}
	vsched.ReleaseMerge(&p.hb[0])
	p.items = append(p.items, x)
	vsched.P()
}

type WaitGroup struct {
	real sync.WaitGroup
	n    int
	hb   [1]byte
}

type gwait WaitGroup

//go:norace
func (w *gwait) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	vsched.P()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.ReleaseMerge(&w.hb[0])
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Block("a wait group", (*gwait)(w))
	vsched.Acquire(&w.hb[0])
}

// Cond wakes in the order of waiting.
type Cond struct {
	L    Locker
	real *sync.Cond
	seq  int
	go_  int
	hb   [1]byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	me := c.seq
	c.seq++
	c.L.Unlock()
	vsched.Block("a condition", &cwait{c, me})
	vsched.Acquire(&c.hb[0])
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	vsched.P()
	if c.go_ < c.seq {
		c.go_++
	}
	vsched.ReleaseMerge(&c.hb[0])
}

//go:norace
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	vsched.P()
	c.go_ = c.seq
	vsched.ReleaseMerge(&c.hb[0])
}

type cwait struct {
	c  *Cond
	me int
}

//go:norace
func (w *cwait) Ready() bool { return w.c.go_ > w.me }
