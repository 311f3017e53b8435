// Package atomic is the simulated stand-in for sync/atomic.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"fsim/simrt"
)

func ld[T any](p *T) { simrt.AtomicLoad(unsafe.Pointer(p), unsafe.Sizeof(*p)) }
func st[T any](p *T) { simrt.AtomicStore(unsafe.Pointer(p), unsafe.Sizeof(*p)) }
func rw[T any](p *T) { simrt.AtomicRMW(unsafe.Pointer(p), unsafe.Sizeof(*p)) }

func LoadInt32(p *int32) int32                      { ld(p); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { st(p); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { rw(p); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool { rw(p); return real.CompareAndSwapInt32(p, a, b) }
func AddInt32(p *int32, d int32) int32              { rw(p); return real.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32              { rw(p); return real.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32               { rw(p); return real.OrInt32(p, m) }

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64                      { ld(p); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { st(p); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { rw(p); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool { rw(p); return real.CompareAndSwapInt64(p, a, b) }
func AddInt64(p *int64, d int64) int64              { rw(p); return real.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64              { rw(p); return real.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64               { rw(p); return real.OrInt64(p, m) }

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32           { ld(p); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { st(p); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { rw(p); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	rw(p)
	return real.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { rw(p); return real.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { rw(p); return real.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { rw(p); return real.OrUint32(p, m) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64           { ld(p); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { st(p); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { rw(p); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	rw(p)
	return real.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { rw(p); return real.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { rw(p); return real.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { rw(p); return real.OrUint64(p, m) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr            { ld(p); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { st(p); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { rw(p); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	rw(p)
	return real.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { rw(p); return real.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { rw(p); return real.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { rw(p); return real.OrUintptr(p, m) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ld(p); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { st(p); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rw(p)
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	rw(p)
	return real.CompareAndSwapPointer(p, a, b)
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(b bool)                  { StoreUint32(&x.v, b32(b)) }
func (x *Bool) Swap(b bool) bool              { return SwapUint32(&x.v, b32(b)) != 0 }
func (x *Bool) CompareAndSwap(a, b bool) bool { return CompareAndSwapUint32(&x.v, b32(a), b32(b)) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(p *T)   { StorePointer(&x.v, unsafe.Pointer(p)) }
func (x *Pointer[T]) Swap(p *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(p))) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(a), unsafe.Pointer(b))
}

// Value is atomic.Value.
type Value struct{ v real.Value }

func (x *Value) Load() any                    { ld(&x.v); return x.v.Load() }
func (x *Value) Store(v any)                  { st(&x.v); x.v.Store(v) }
func (x *Value) Swap(v any) any               { rw(&x.v); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { rw(&x.v); return x.v.CompareAndSwap(a, b) }
