package rand

import (
	rr "math/rand/v2"
	"simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.RandU64() }

var g = rr.New(src{})

func Int() int                        { return g.Int() }
func IntN(n int) int                  { return g.IntN(n) }
func Int64() int64                    { return g.Int64() }
func Int64N(n int64) int64            { return g.Int64N(n) }
func Int32() int32                    { return g.Int32() }
func Int32N(n int32) int32            { return g.Int32N(n) }
func Uint32() uint32                  { return g.Uint32() }
func Uint32N(n uint32) uint32         { return g.Uint32N(n) }
func Uint64() uint64                  { return g.Uint64() }
func Uint64N(n uint64) uint64         { return g.Uint64N(n) }
func UintN(n uint) uint               { return g.UintN(n) }
func Float64() float64                { return g.Float64() }
func Float32() float32                { return g.Float32() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
func NormFloat64() float64            { return g.NormFloat64() }
func ExpFloat64() float64             { return g.ExpFloat64() }
