package simrt

import (
	"runtime"
	"unsafe"
)

// Channels: the real channel holds the buffer and the closed state; parked
// goroutines wait in simulated queues.

type hq struct {
	recvq, sendq []*selWait2
}

type selWait struct {
	g     *G
	fired bool
	idx   int
}

type selWait2 struct {
	w   *selWait
	idx int
	op  Op
}

var chans map[uintptr]*hq

// Op is one case of a select.
type Op interface {
	ptr() uintptr
	try() bool
	isSend() bool
	closed() bool
}

// RecvOp is a receive.
type RecvOp[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SendOp is a send.
type SendOp[T any] struct {
	ch chan<- T
	v  T
}

func (o *RecvOp[T]) ptr() uintptr { return *(*uintptr)(unsafe.Pointer(&o.ch)) }
func (o *SendOp[T]) ptr() uintptr { return *(*uintptr)(unsafe.Pointer(&o.ch)) }
func (o *RecvOp[T]) isSend() bool { return false }
func (o *SendOp[T]) isSend() bool { return true }

// Get2 returns the received value.
func (o *RecvOp[T]) Get2() (T, bool) { return o.V, o.OK }

// NewRecv and NewSend prepare select cases.
func NewRecv[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }
func NewSend[T any](ch chan<- T) func(v T) *SendOp[T] {
	return func(v T) *SendOp[T] { return &SendOp[T]{ch: ch, v: v} }
}

func popWaiter(q *[]*selWait2) *selWait2 {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.w.fired {
			return w
		}
	}
	return nil
}

func (o *SendOp[T]) try() bool {
	if o.ch == nil {
		return false
	}
	h := chans[o.ptr()]
	if h != nil && len(o.ch) == 0 {
		if w := popWaiter(&h.recvq); w != nil {
			r, ok := w.op.(*RecvOp[T])
			if !ok {
				panic(HarnessPanic("channel op type mismatch"))
			}
			r.V, r.OK = o.v, true
			w.fire()
			return true
		}
	}
	select {
	case o.ch <- o.v: // panics if closed, as it should
		return true
	default:
		return false
	}
}

func (o *RecvOp[T]) try() bool {
	if o.ch == nil {
		return false
	}
	h := chans[o.ptr()]
	select {
	case v, ok := <-o.ch:
		o.V, o.OK = v, ok
		if ok && h != nil {
			if w := popWaiter(&h.sendq); w != nil {
				s := w.op.(*SendOp[T])
				s.ch <- s.v // there is room now
				w.fire()
			}
		}
		return true
	default:
	}
	if h != nil && cap(o.ch) == 0 {
		if w := popWaiter(&h.sendq); w != nil {
			s := w.op.(*SendOp[T])
			o.V, o.OK = s.v, true
			w.fire()
			return true
		}
	}
	return false
}

// fire completes the waiting select w with this case.
func (w *selWait2) fire() {
	w.w.fired = true
	w.w.idx = w.idx
	S.ready(w.w.g)
}

// ready tells, without side effects, whether the op could proceed.
func opReady(o Op) bool {
	// A side-effect-free probe needs the channel's state only.
	switch {
	case o.ptr() == 0:
		return false
	}
	return probe(o)
}

type prober interface{ probe() bool }

func probe(o Op) bool { return o.(prober).probe() }

func hasWaiter(q []*selWait2) bool {
	for _, w := range q {
		if !w.w.fired {
			return true
		}
	}
	return false
}

func (o *SendOp[T]) probe() bool {
	if len(o.ch) < cap(o.ch) {
		return true
	}
	if h := chans[o.ptr()]; h != nil && hasWaiter(h.recvq) {
		return true
	}
	_, c := closedSet[o.ptr()]
	return c
}

func (o *RecvOp[T]) probe() bool {
	if len(o.ch) > 0 {
		return true
	}
	if h := chans[o.ptr()]; h != nil && hasWaiter(h.sendq) {
		return true
	}
	return o.closed()
}

// closed: nothing can be in the way of a non-blocking receive from an empty
// channel but an open channel, since no real goroutine is ever parked on it.
func (o *RecvOp[T]) closed() bool {
	if len(o.ch) > 0 {
		return false
	}
	select {
	case <-o.ch:
		return true
	default:
		return false
	}
}

func (o *SendOp[T]) closed() bool {
	_, c := closedSet[o.ptr()]
	return c
}

// closedSet holds the channels closed in this run (and keeps them alive, so an
// address is not reused).
var closedSet = map[uintptr]any{}

// Select executes a select statement and returns the index of the chosen case;
// with a default and nothing ready it returns len(ops).
func Select(hasDefault bool, ops ...Op) int {
	g := cur
	if g == nil {
		panic(HarnessPanic("select outside of a simulated goroutine"))
	}
	if g.killed {
		if hasDefault {
			g.deadOps++
			if g.deadOps < 10000 {
				return len(ops)
			}
		}
		runtime.Goexit()
	}
	P()
	var rdy [8]int
	r := rdy[:0]
	for i, o := range ops {
		if opReady(o) {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			S.Stat.Selects++
			k = ChooseP(KSelect, len(r), 1-1/float64(len(r)))
		}
		if !ops[r[k]].try() {
			panic(HarnessPanic("ready channel op failed"))
		}
		return r[k]
	}
	if hasDefault {
		return len(ops)
	}
	w := &selWait{g: g, idx: -1}
	n := 0
	for i, o := range ops {
		p := o.ptr()
		if p == 0 {
			continue
		}
		h := chans[p]
		if h == nil {
			h = &hq{}
			chans[p] = h
		}
		sw := &selWait2{w: w, idx: i, op: o}
		if o.isSend() {
			h.sendq = append(h.sendq, sw)
		} else {
			h.recvq = append(h.recvq, sw)
		}
		n++
	}
	g.waitSel = w
	g.spins = 0
	g.reason = "select"
	if len(ops) == 1 {
		if ops[0].isSend() {
			g.reason = "send"
		} else {
			g.reason = "recv"
		}
	}
	S.block(g)
	g.waitSel = nil
	for _, o := range ops {
		cleanup(o.ptr())
	}
	if w.idx == -2 { // woken by close: retry
		for i, o := range ops {
			if o.ptr() != 0 && o.closed() {
				o.try() // receive of zero value, or panic for send
				return i
			}
		}
		panic(HarnessPanic("woken by close but nothing closed"))
	}
	return w.idx
}

func cleanup(p uintptr) {
	h := chans[p]
	if h == nil {
		return
	}
	h.recvq = compact(h.recvq)
	h.sendq = compact(h.sendq)
	if len(h.recvq) == 0 && len(h.sendq) == 0 {
		delete(chans, p)
	}
}

func compact(q []*selWait2) []*selWait2 {
	o := q[:0]
	for _, w := range q {
		if !w.w.fired {
			o = append(o, w)
		}
	}
	for i := len(o); i < len(q); i++ {
		q[i] = nil
	}
	return o
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	o := &RecvOp[T]{ch: ch}
	Select(false, o)
	return o.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	o := &RecvOp[T]{ch: ch}
	Select(false, o)
	return o.V, o.OK
}

// Send is ch <- v, as Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Dead() {
			return
		}
		Select(false, &SendOp[T]{ch: ch, v: v})
	}
}

// TrySend is a non-blocking send from any context.
func TrySend[T any](ch chan<- T, v T) bool {
	return (&SendOp[T]{ch: ch, v: v}).try()
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Dead() {
		return
	}
	P()
	closeNow(ch)
}

func closeNow[T any](ch chan<- T) {
	close(ch)
	p := *(*uintptr)(unsafe.Pointer(&ch))
	closedSet[p] = ch
	h := chans[p]
	if h == nil {
		return
	}
	for _, q := range [][]*selWait2{h.recvq, h.sendq} {
		for _, w := range q {
			if !w.w.fired {
				w.w.fired = true
				w.w.idx = -2
				S.ready(w.w.g)
			}
		}
	}
	delete(chans, p)
}

// CloseNow closes from any context without yielding.
func CloseNow[T any](ch chan T) { closeNow[T](ch) }

// KeepAlive defeats unused warnings in generated code.
func KeepAlive(...any) {}
