package simrt

import (
	"context"
	"time"
)

type cctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx // ordered, for determinism
	deadline time.Time
	hasDL    bool
	timer    *timer
	pc       *cctx // parent cancelCtx, if any
	after    []*afterReg
}

type afterReg struct {
	f    func()
	done bool
}

type keyT struct{}

var ctxKey keyT

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Value(k any) any {
	if k == ctxKey {
		return c
	}
	return c.parent.Value(k)
}
func (c *cctx) String() string { return "simctx" }

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey).(*cctx); ok && p != nil {
		c.pc = p
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if e := parent.Err(); e != nil {
		c.cancel(e, e)
	}
	return c
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil || Dead() {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.timer != nil && S != nil {
		S.delTimer(c.timer)
		c.timer = nil
	}
	CloseNow(c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
	for _, a := range c.after {
		if !a.done {
			a.done = true
			g := who()
			S.spawn(g, g.Node, "ctxafter", a.f)
		}
	}
	c.after = nil
	if c.pc != nil {
		p := c.pc
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { P(); c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { P(); c.cancel(context.Canceled, e) }
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, func() { P(); c.cancel(context.Canceled, nil) }
	}
	c.deadline, c.hasDL = d, true
	dur := d.Sub(Now())
	if dur <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
		return c, func() {}
	}
	if c.err == nil && S != nil && !Dead() {
		c.timer = S.addTimer(S.now+int64(dur), func() { c.timer = nil; c.cancel(context.DeadlineExceeded, cause) })
	}
	return c, func() { P(); c.cancel(context.Canceled, nil) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

func CtxCause(c context.Context) error {
	if p, ok := c.Value(ctxKey).(*cctx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	p, ok := ctx.Value(ctxKey).(*cctx)
	if !ok || p == nil {
		return func() bool { return true }
	}
	a := &afterReg{f: f}
	if p.err != nil {
		a.done = true
		Go(f)
		return func() bool { return false }
	}
	p.after = append(p.after, a)
	return func() bool {
		if a.done {
			return false
		}
		a.done = true
		return true
	}
}

type withoutCancel struct{ c context.Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == ctxKey {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(p context.Context) context.Context { return withoutCancel{p} }

// CancelNow cancels a context made here from system context (harness).
func CancelNow(ctx context.Context, err error) {
	if p, ok := ctx.Value(ctxKey).(*cctx); ok && p != nil {
		p.cancel(err, nil)
	}
}
