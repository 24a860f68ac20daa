package pprof

import "io"

func StartCPUProfile(w io.Writer) error  { return nil }
func StopCPUProfile()                    {}
func WriteHeapProfile(w io.Writer) error { return nil }
