package runtime

import (
	rr "runtime"
	"simrt"
)

func Gosched()           { simrt.Yield() }
func NumCPU() int        { return 4 }
func NumGoroutine() int  { return 10 }
func GOMAXPROCS(int) int { return 4 }
func Goexit()            { rr.Goexit() }
