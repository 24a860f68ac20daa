package sync

import (
	"simrt"
	rs "sync"
)

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	WaitGroup = simrt.WaitGroup
	Once      = simrt.Once
	Cond      = simrt.Cond
)

func NewCond(l rs.Locker) *Cond { return &Cond{L: l} }

type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if !simrt.Dead() {
		p.s = append(p.s, x)
	}
}

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { simrt.P(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.P()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) Clear() { m.m = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.P()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.P()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { simrt.P(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.P()
	x, ok := m.m[k]
	m.Store(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.P()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.P()
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range simrt.Keys(m.m) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
