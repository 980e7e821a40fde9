// Package atomic is the controlled replacement of sync/atomic: a scheduling
// point before every operation, which is then the real one.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

func pt(p unsafe.Pointer, w bool) {
	if !mc.Live() {
		return
	}
	mc.Point("atomic")
	o := mc.ObjAt(p)
	if w {
		mc.TouchW(o)
	} else {
		mc.TouchR(o)
	}
}

func AddInt32(p *int32, d int32) int32  { pt(unsafe.Pointer(p), true); return ra.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { pt(unsafe.Pointer(p), false); return ra.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pt(unsafe.Pointer(p), true); ra.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p), true); return ra.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { pt(unsafe.Pointer(p), true); return ra.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { pt(unsafe.Pointer(p), true); return ra.OrInt32(p, m) }

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32        { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Int32) Store(v int32)      { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32  { pt(unsafe.Pointer(x), true); return x.v.Add(d) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) And(m int32) int32 { pt(unsafe.Pointer(x), true); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { pt(unsafe.Pointer(x), true); return x.v.Or(m) }

func AddInt64(p *int64, d int64) int64  { pt(unsafe.Pointer(p), true); return ra.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { pt(unsafe.Pointer(p), false); return ra.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pt(unsafe.Pointer(p), true); ra.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p), true); return ra.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { pt(unsafe.Pointer(p), true); return ra.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { pt(unsafe.Pointer(p), true); return ra.OrInt64(p, m) }

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64        { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Int64) Store(v int64)      { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64  { pt(unsafe.Pointer(x), true); return x.v.Add(d) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) And(m int64) int64 { pt(unsafe.Pointer(x), true); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { pt(unsafe.Pointer(x), true); return x.v.Or(m) }

func AddUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p), true); return ra.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { pt(unsafe.Pointer(p), false); return ra.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(unsafe.Pointer(p), true); ra.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(unsafe.Pointer(p), true); return ra.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 { pt(unsafe.Pointer(p), true); return ra.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { pt(unsafe.Pointer(p), true); return ra.OrUint32(p, m) }

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32         { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32  { pt(unsafe.Pointer(x), true); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) And(m uint32) uint32 { pt(unsafe.Pointer(x), true); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { pt(unsafe.Pointer(x), true); return x.v.Or(m) }

func AddUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p), true); return ra.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { pt(unsafe.Pointer(p), false); return ra.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(unsafe.Pointer(p), true); ra.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(unsafe.Pointer(p), true); return ra.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 { pt(unsafe.Pointer(p), true); return ra.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { pt(unsafe.Pointer(p), true); return ra.OrUint64(p, m) }

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64         { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64  { pt(unsafe.Pointer(x), true); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) And(m uint64) uint64 { pt(unsafe.Pointer(x), true); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { pt(unsafe.Pointer(x), true); return x.v.Or(m) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p), true)
	return ra.AddUintptr(p, d)
}
func LoadUintptr(p *uintptr) uintptr     { pt(unsafe.Pointer(p), false); return ra.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p), true); ra.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), true)
	return ra.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	pt(unsafe.Pointer(p), true)
	return ra.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) uintptr { pt(unsafe.Pointer(p), true); return ra.OrUintptr(p, m) }

type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr          { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { pt(unsafe.Pointer(x), true); return x.v.Add(d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) And(m uintptr) uintptr { pt(unsafe.Pointer(x), true); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { pt(unsafe.Pointer(x), true); return x.v.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p), false)
	return ra.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(p), true)
	ra.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p), true)
	return ra.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p), true)
	return ra.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool       { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Bool) Store(v bool)     { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v ra.Value }

func (x *Value) Load() any      { pt(unsafe.Pointer(x), false); return x.v.Load() }
func (x *Value) Store(v any)    { pt(unsafe.Pointer(x), true); x.v.Store(v) }
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x), true); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	pt(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
