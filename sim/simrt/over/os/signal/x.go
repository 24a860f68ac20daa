package signal

import (
	rc "context"
	"os"
	"simrt"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	var l []any
	for _, s := range sig {
		l = append(l, s)
	}
	simrt.HandleSignal(func(s any) { simrt.TrySend(c, s.(os.Signal)) }, l)
}
func Stop(c chan<- os.Signal)   { simrt.ResetSignals() }
func Reset(sig ...os.Signal)    { simrt.ResetSignals() }
func Ignore(sig ...os.Signal) {
	var l []any
	for _, s := range sig {
		l = append(l, s)
	}
	simrt.HandleSignal(func(any) {}, l)
}
func NotifyContext(p rc.Context, sig ...os.Signal) (rc.Context, rc.CancelFunc) {
	ctx, cancel := simrt.WithCancel(p)
	var l []any
	for _, s := range sig {
		l = append(l, s)
	}
	simrt.HandleSignal(func(s any) { simrt.CancelNow(ctx, rc.Canceled) }, l)
	return ctx, func() { simrt.ResetSignals(); cancel() }
}
