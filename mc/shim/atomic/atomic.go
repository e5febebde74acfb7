// Package atomic replaces the standard package in the code under test when it's run by the scheduler
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/lyraproj/dgo/verif/shim/sched"
)

type always struct{}

func (always) Enabled(int, int) bool { return true }

func pt(p unsafe.Pointer, read bool) { sched.Point(p, always{}, 0, read) }

func LoadInt32(p *int32) int32          { pt(unsafe.Pointer(p), true); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pt(unsafe.Pointer(p), false); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p), false); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapInt32(p, o, v)
}
func AddInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p), false); return atomic.AddInt32(p, v) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }
func (x *Int32) Add(v int32) int32              { return AddInt32(&x.v, v) }

func LoadInt64(p *int64) int64          { pt(unsafe.Pointer(p), true); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pt(unsafe.Pointer(p), false); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p), false); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapInt64(p, o, v)
}
func AddInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p), false); return atomic.AddInt64(p, v) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }
func (x *Int64) Add(v int64) int64              { return AddInt64(&x.v, v) }

func LoadUint32(p *uint32) uint32     { pt(unsafe.Pointer(p), true); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { pt(unsafe.Pointer(p), false); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p), false)
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AddUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p), false)
	return atomic.AddUint32(p, v)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }
func (x *Uint32) Add(v uint32) uint32             { return AddUint32(&x.v, v) }

func LoadUint64(p *uint64) uint64     { pt(unsafe.Pointer(p), true); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { pt(unsafe.Pointer(p), false); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p), false)
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AddUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p), false)
	return atomic.AddUint64(p, v)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }
func (x *Uint64) Add(v uint64) uint64             { return AddUint64(&x.v, v) }

func LoadUintptr(p *uintptr) uintptr     { pt(unsafe.Pointer(p), true); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p), false); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), false)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AddUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), false)
	return atomic.AddUintptr(p, v)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { return AddUintptr(&x.v, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p), true)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(p), false)
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p), false)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	pt(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, v bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(v)) }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}              { pt(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Value) Store(v interface{})            { pt(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { pt(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v interface{}) bool {
	pt(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, v)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pt(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pt(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	pt(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, v)
}
