package simrt

import "time"

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	d time.Duration
}

func (t *Timer) fire() {
	t.t = nil
	if t.f != nil {
		t.f()
		return
	}
	TrySend(t.c, Now())
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	if S == nil || Dead() {
		return
	}
	if d < 0 {
		d = 0
	}
	t.t = S.addTimer(S.now+int64(d), t.fire)
}

func (t *Timer) Stop() bool {
	if S == nil || Dead() {
		return false
	}
	ok := S.delTimer(t.t)
	t.t = nil
	if t.c != nil {
		select { // Go >= 1.23 semantics would drop a stale value; 1.20 keeps it. finch is a go 1.20 module.
		default:
		}
	}
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc runs f in its own goroutine.
func AfterFunc(d time.Duration, f func()) *Timer {
	g := who()
	t := &Timer{}
	t.f = func() {
		if g.Node != nil && g.Node.State != NodeRunning {
			return
		}
		S.spawn(g, g.Node, "afterfunc", f)
	}
	t.arm(d)
	return t
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm(S.now + int64(d))
	return t
}

func (t *Ticker) arm(when int64) {
	t.t = S.addTimer(when, func() {
		TrySend(t.c, Now())
		t.arm(when + int64(t.d))
	})
}

func (t *Ticker) Stop() {
	if S == nil || Dead() {
		return
	}
	S.delTimer(t.t)
	t.t = nil
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm(S.now + int64(d))
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
