package rand

import (
	rr "math/rand"
	"simrt"
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.RandU64() >> 1) }
func (src) Uint64() uint64 { return simrt.RandU64() }
func (src) Seed(int64)     {}

var g = rr.New(src{})

func Seed(int64)                       {}
func Int63() int64                     { return g.Int63() }
func Uint32() uint32                   { return g.Uint32() }
func Uint64() uint64                   { return g.Uint64() }
func Int31() int32                     { return g.Int31() }
func Int() int                         { return g.Int() }
func Int63n(n int64) int64             { return g.Int63n(n) }
func Int31n(n int32) int32             { return g.Int31n(n) }
func Intn(n int) int                   { return g.Intn(n) }
func Float64() float64                 { return g.Float64() }
func Float32() float32                 { return g.Float32() }
func Perm(n int) []int                 { return g.Perm(n) }
func Shuffle(n int, f func(i, j int))  { g.Shuffle(n, f) }
func Read(p []byte) (int, error)       { return rr.New(src{}).Read(p) }
func NormFloat64() float64             { return g.NormFloat64() }
func ExpFloat64() float64              { return g.ExpFloat64() }

// source is like rand.NewSource: not safe for use by several goroutines, so it
// can be interrupted between reading and writing its state. Overlapping uses
// return the same value.
type source struct{ x uint64 }

func NewSource(seed int64) rr.Source { return &source{uint64(seed)} }

func (s *source) Uint64() uint64 {
	x := s.x
	simrt.Hot()
	simrt.P()
	simrt.P()
	s.x = x + 0x9e3779b97f4a7c15
	z := s.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *source) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *source) Seed(seed int64) { s.x = uint64(seed) }
