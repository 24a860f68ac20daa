package time

import (
	"simrt"
	rt "time"
)

type (
	Timer  = simrt.Timer
	Ticker = simrt.Ticker
)

func Now() rt.Time                               { return simrt.Now() }
func Since(t rt.Time) rt.Duration                { return simrt.Now().Sub(t) }
func Until(t rt.Time) rt.Duration                { return t.Sub(simrt.Now()) }
func Sleep(d rt.Duration)                        { simrt.Sleep(d) }
func After(d rt.Duration) <-chan rt.Time         { return simrt.After(d) }
func AfterFunc(d rt.Duration, f func()) *Timer   { return simrt.AfterFunc(d, f) }
func NewTimer(d rt.Duration) *Timer              { return simrt.NewTimer(d) }
func NewTicker(d rt.Duration) *Ticker            { return simrt.NewTicker(d) }
func Tick(d rt.Duration) <-chan rt.Time          { return simrt.Tick(d) }
