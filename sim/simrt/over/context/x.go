package context

import (
	rc "context"
	"simrt"
	"time"
)

func WithCancel(p rc.Context) (rc.Context, rc.CancelFunc)           { return simrt.WithCancel(p) }
func WithCancelCause(p rc.Context) (rc.Context, rc.CancelCauseFunc) { return simrt.WithCancelCause(p) }
func WithDeadline(p rc.Context, d time.Time) (rc.Context, rc.CancelFunc) {
	return simrt.WithDeadline(p, d)
}
func WithDeadlineCause(p rc.Context, d time.Time, c error) (rc.Context, rc.CancelFunc) {
	return simrt.WithDeadlineCause(p, d, c)
}
func WithTimeout(p rc.Context, d time.Duration) (rc.Context, rc.CancelFunc) {
	return simrt.WithTimeout(p, d)
}
func WithTimeoutCause(p rc.Context, d time.Duration, c error) (rc.Context, rc.CancelFunc) {
	return simrt.WithTimeoutCause(p, d, c)
}
func Cause(c rc.Context) error                            { return simrt.CtxCause(c) }
func AfterFunc(c rc.Context, f func()) (stop func() bool) { return simrt.CtxAfterFunc(c, f) }
func WithoutCancel(p rc.Context) rc.Context               { return simrt.WithoutCancel(p) }
