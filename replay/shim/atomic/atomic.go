// Package atomic stands in for the standard package in scheduled runs: every
// operation is preceded by a point where another task may run.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"verif/replay/shim/sched"
)

type Pointer[T any] struct {
	_ [0]*T
	p ra.Pointer[T]
}

func (x *Pointer[T]) Load() *T     { sched.Yield(); return x.p.Load() }
func (x *Pointer[T]) Store(v *T)   { sched.Yield(); x.p.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { sched.Yield(); return x.p.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) (swapped bool) {
	sched.Yield()
	return x.p.CompareAndSwap(o, n)
}

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { sched.Yield(); return x.v.Load() }
func (x *Value) Store(v any)                  { sched.Yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { sched.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { sched.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { sched.Yield(); return ra.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { sched.Yield(); ra.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Yield()
	return ra.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Yield()
	return ra.CompareAndSwapPointer(a, o, n)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt32(a *int32) int32          { sched.Yield(); return ra.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { sched.Yield(); ra.StoreInt32(a, v) }
func AddInt32(a *int32, d int32) int32  { sched.Yield(); return ra.AddInt32(a, d) }
func SwapInt32(a *int32, v int32) int32 { sched.Yield(); return ra.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	sched.Yield()
	return ra.CompareAndSwapInt32(a, o, n)
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadInt64(a *int64) int64          { sched.Yield(); return ra.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { sched.Yield(); ra.StoreInt64(a, v) }
func AddInt64(a *int64, d int64) int64  { sched.Yield(); return ra.AddInt64(a, d) }
func SwapInt64(a *int64, v int64) int64 { sched.Yield(); return ra.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	sched.Yield()
	return ra.CompareAndSwapInt64(a, o, n)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint32(a *uint32) uint32           { sched.Yield(); return ra.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { sched.Yield(); ra.StoreUint32(a, v) }
func AddUint32(a *uint32, d uint32) uint32  { sched.Yield(); return ra.AddUint32(a, d) }
func SwapUint32(a *uint32, v uint32) uint32 { sched.Yield(); return ra.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	sched.Yield()
	return ra.CompareAndSwapUint32(a, o, n)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUint64(a *uint64) uint64           { sched.Yield(); return ra.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { sched.Yield(); ra.StoreUint64(a, v) }
func AddUint64(a *uint64, d uint64) uint64  { sched.Yield(); return ra.AddUint64(a, d) }
func SwapUint64(a *uint64, v uint64) uint64 { sched.Yield(); return ra.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	sched.Yield()
	return ra.CompareAndSwapUint64(a, o, n)
}
