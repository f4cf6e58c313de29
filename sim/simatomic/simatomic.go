// Package simatomic stands for sync/atomic in instrumented code: the real
// operations (which the race detector knows), each after a yield.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

// AddInt32 and friends stand for the functions of sync/atomic.
func AddInt32(p *int32, d int32) int32  { simrt.Hot(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { simrt.Hot(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.Hot(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.Hot(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Hot()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { simrt.Hot(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { simrt.Hot(); return atomic.OrInt32(p, m) }

// Int32 stands for atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { simrt.Hot(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { simrt.Hot(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { simrt.Hot(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { simrt.Hot(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { simrt.Hot(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { simrt.Hot(); return x.v.Or(m) }

// AddInt64 and friends stand for the functions of sync/atomic.
func AddInt64(p *int64, d int64) int64  { simrt.Hot(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { simrt.Hot(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.Hot(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.Hot(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Hot()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { simrt.Hot(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { simrt.Hot(); return atomic.OrInt64(p, m) }

// Int64 stands for atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { simrt.Hot(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { simrt.Hot(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { simrt.Hot(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { simrt.Hot(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { simrt.Hot(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { simrt.Hot(); return x.v.Or(m) }

// AddUint32 and friends stand for the functions of sync/atomic.
func AddUint32(p *uint32, d uint32) uint32  { simrt.Hot(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { simrt.Hot(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.Hot(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.Hot(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Hot()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 { simrt.Hot(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { simrt.Hot(); return atomic.OrUint32(p, m) }

// Uint32 stands for atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.Hot(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { simrt.Hot(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { simrt.Hot(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { simrt.Hot(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { simrt.Hot(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { simrt.Hot(); return x.v.Or(m) }

// AddUint64 and friends stand for the functions of sync/atomic.
func AddUint64(p *uint64, d uint64) uint64  { simrt.Hot(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { simrt.Hot(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.Hot(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.Hot(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Hot()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 { simrt.Hot(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { simrt.Hot(); return atomic.OrUint64(p, m) }

// Uint64 stands for atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.Hot(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { simrt.Hot(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { simrt.Hot(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { simrt.Hot(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { simrt.Hot(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { simrt.Hot(); return x.v.Or(m) }

// AddUintptr and friends stand for the functions of sync/atomic.
func AddUintptr(p *uintptr, d uintptr) uintptr  { simrt.Hot(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { simrt.Hot(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.Hot(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.Hot(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Hot()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { simrt.Hot(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { simrt.Hot(); return atomic.OrUintptr(p, m) }

// Uintptr stands for atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { simrt.Hot(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { simrt.Hot(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { simrt.Hot(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { simrt.Hot(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { simrt.Hot(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { simrt.Hot(); return x.v.Or(m) }

// LoadPointer and friends stand for the functions of sync/atomic.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.Hot(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.Hot(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.Hot()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Hot()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool stands for atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { simrt.Hot(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { simrt.Hot(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { simrt.Hot(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }

// Pointer stands for atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.Hot(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { simrt.Hot(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { simrt.Hot(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }

// Value stands for atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { simrt.Hot(); return x.v.Load() }
func (x *Value) Store(v any)                  { simrt.Hot(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { simrt.Hot(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { simrt.Hot(); return x.v.CompareAndSwap(o, n) }
