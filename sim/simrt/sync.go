package simrt

import "runtime"

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	q      []*G
}

func (m *Mutex) Lock() {
	g := cur
	if g == nil {
		m.locked = true
		return
	}
	if g.killed {
		return
	}
	P()
	for m.locked {
		m.q = append(m.q, g)
		g.reason = "lock"
		g.waitMu = m
		S.block(g)
		g.waitMu = nil
	}
	m.locked = true
	Hot()
}

func (m *Mutex) TryLock() bool {
	if Dead() {
		return true
	}
	P()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if Dead() {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	for len(m.q) > 0 {
		g := m.q[0]
		m.q = m.q[1:]
		if g.killed || !g.blocked || g.waitMu != m {
			continue
		}
		S.ready(g)
		break
	}
	Hot()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       []*G
}

func (m *RWMutex) wakeAll() {
	q := m.q
	m.q = nil
	for _, g := range q {
		S.ready(g)
	}
}

func (m *RWMutex) Lock() {
	g := cur
	if g == nil {
		m.w = true
		return
	}
	if g.killed {
		return
	}
	P()
	m.wwait++
	for m.w || m.readers > 0 {
		m.q = append(m.q, g)
		g.reason = "lock"
		S.block(g)
	}
	m.wwait--
	m.w = true
}

func (m *RWMutex) Unlock() {
	if Dead() {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wakeAll()
	P()
}

func (m *RWMutex) RLock() {
	g := cur
	if g == nil {
		m.readers++
		return
	}
	if g.killed {
		return
	}
	P()
	for m.w || m.wwait > 0 {
		m.q = append(m.q, g)
		g.reason = "rlock"
		S.block(g)
	}
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if Dead() {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wakeAll()
	P()
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*G
}

func (w *WaitGroup) Add(d int) {
	if Dead() {
		return
	}
	P()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, g := range q {
			S.ready(g)
		}
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	g := cur
	if g == nil {
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	P()
	for w.n > 0 {
		w.q = append(w.q, g)
		g.reason = "waitgroup"
		S.block(g)
	}
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*condW
}

type condW struct {
	g  *G
	ok bool
}

func (c *Cond) Wait() {
	g := cur
	if g == nil || g.killed {
		runtime.Goexit()
	}
	w := &condW{g: g}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.ok {
		g.reason = "cond"
		S.block(g)
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if Dead() {
		return
	}
	P()
	if len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		w.ok = true
		S.ready(w.g)
	}
}

func (c *Cond) Broadcast() {
	if Dead() {
		return
	}
	P()
	q := c.q
	c.q = nil
	for _, w := range q {
		w.ok = true
		S.ready(w.g)
	}
}
