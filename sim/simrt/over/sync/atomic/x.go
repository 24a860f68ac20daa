// Package atomic has the operations of sync/atomic with scheduling points.
package atomic

import (
	"simrt"
	rs "sync/atomic"
	"unsafe"
)

func LoadInt32(p *int32) int32 { simrt.Hot(); v := rs.LoadInt32(p); simrt.Hot(); return v }
func StoreInt32(p *int32, v int32) {
	simrt.Hot()
	if !simrt.Dead() {
		rs.StoreInt32(p, v)
	}
	simrt.Hot()
}
func AddInt32(p *int32, d int32) int32  { simrt.Hot(); v := rs.AddInt32(p, d); simrt.Hot(); return v }
func SwapInt32(p *int32, n int32) int32 { simrt.Hot(); v := rs.SwapInt32(p, n); simrt.Hot(); return v }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Hot()
	v := rs.CompareAndSwapInt32(p, o, n)
	simrt.Hot()
	return v
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(n int32) int32             { return SwapInt32(&x.v, n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64 { simrt.Hot(); v := rs.LoadInt64(p); simrt.Hot(); return v }
func StoreInt64(p *int64, v int64) {
	simrt.Hot()
	if !simrt.Dead() {
		rs.StoreInt64(p, v)
	}
	simrt.Hot()
}
func AddInt64(p *int64, d int64) int64  { simrt.Hot(); v := rs.AddInt64(p, d); simrt.Hot(); return v }
func SwapInt64(p *int64, n int64) int64 { simrt.Hot(); v := rs.SwapInt64(p, n); simrt.Hot(); return v }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Hot()
	v := rs.CompareAndSwapInt64(p, o, n)
	simrt.Hot()
	return v
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(n int64) int64             { return SwapInt64(&x.v, n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32 { simrt.Hot(); v := rs.LoadUint32(p); simrt.Hot(); return v }
func StoreUint32(p *uint32, v uint32) {
	simrt.Hot()
	if !simrt.Dead() {
		rs.StoreUint32(p, v)
	}
	simrt.Hot()
}
func AddUint32(p *uint32, d uint32) uint32 {
	simrt.Hot()
	v := rs.AddUint32(p, d)
	simrt.Hot()
	return v
}
func SwapUint32(p *uint32, n uint32) uint32 {
	simrt.Hot()
	v := rs.SwapUint32(p, n)
	simrt.Hot()
	return v
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Hot()
	v := rs.CompareAndSwapUint32(p, o, n)
	simrt.Hot()
	return v
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(n uint32) uint32            { return SwapUint32(&x.v, n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64 { simrt.Hot(); v := rs.LoadUint64(p); simrt.Hot(); return v }
func StoreUint64(p *uint64, v uint64) {
	simrt.Hot()
	if !simrt.Dead() {
		rs.StoreUint64(p, v)
	}
	simrt.Hot()
}
func AddUint64(p *uint64, d uint64) uint64 {
	simrt.Hot()
	v := rs.AddUint64(p, d)
	simrt.Hot()
	return v
}
func SwapUint64(p *uint64, n uint64) uint64 {
	simrt.Hot()
	v := rs.SwapUint64(p, n)
	simrt.Hot()
	return v
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Hot()
	v := rs.CompareAndSwapUint64(p, o, n)
	simrt.Hot()
	return v
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(n uint64) uint64            { return SwapUint64(&x.v, n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr { simrt.Hot(); v := rs.LoadUintptr(p); simrt.Hot(); return v }
func StoreUintptr(p *uintptr, v uintptr) {
	simrt.Hot()
	if !simrt.Dead() {
		rs.StoreUintptr(p, v)
	}
	simrt.Hot()
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	simrt.Hot()
	v := rs.AddUintptr(p, d)
	simrt.Hot()
	return v
}
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	simrt.Hot()
	v := rs.SwapUintptr(p, n)
	simrt.Hot()
	return v
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Hot()
	v := rs.CompareAndSwapUintptr(p, o, n)
	simrt.Hot()
	return v
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&x.v, n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.Hot(); v := *p; simrt.Hot(); return v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Hot(); *p = v; simrt.Hot() }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	simrt.Hot()
	v := *p
	*p = n
	simrt.Hot()
	return v
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Hot()
	ok := *p == o
	if ok {
		*p = n
	}
	simrt.Hot()
	return ok
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { simrt.Hot(); v := x.v; simrt.Hot(); return v }
func (x *Pointer[T]) Store(v *T)   { simrt.Hot(); x.v = v; simrt.Hot() }
func (x *Pointer[T]) Swap(n *T) *T { simrt.Hot(); v := x.v; x.v = n; simrt.Hot(); return v }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.Hot()
	ok := x.v == o
	if ok {
		x.v = n
	}
	simrt.Hot()
	return ok
}

type Bool struct{ v bool }

func (x *Bool) Load() bool       { simrt.Hot(); v := x.v; simrt.Hot(); return v }
func (x *Bool) Store(v bool)     { simrt.Hot(); x.v = v; simrt.Hot() }
func (x *Bool) Swap(n bool) bool { simrt.Hot(); v := x.v; x.v = n; simrt.Hot(); return v }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.Hot()
	ok := x.v == o
	if ok {
		x.v = n
	}
	simrt.Hot()
	return ok
}

type Value struct{ v any }

func (x *Value) Load() any      { simrt.Hot(); v := x.v; simrt.Hot(); return v }
func (x *Value) Store(v any)    { simrt.Hot(); x.v = v; simrt.Hot() }
func (x *Value) Swap(n any) any { simrt.Hot(); v := x.v; x.v = n; simrt.Hot(); return v }
func (x *Value) CompareAndSwap(o, n any) bool {
	simrt.Hot()
	ok := x.v == o
	if ok {
		x.v = n
	}
	simrt.Hot()
	return ok
}
