// Package vatomic stands in for package sync/atomic under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	sched "vsa/internal/verifsched"
)

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sched.Point("Load"); return x.v.Load() }
func (x *Int64) Store(n int64)                  { sched.Point("Store"); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { sched.Point("Add"); return x.v.Add(n) }
func (x *Int64) Swap(n int64) int64             { sched.Point("Swap"); return x.v.Swap(n) }
func (x *Int64) And(n int64) int64              { sched.Point("And"); return x.v.And(n) }
func (x *Int64) Or(n int64) int64               { sched.Point("Or"); return x.v.Or(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Point("CAS"); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sched.Point("Load"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { sched.Point("Store"); atomic.StoreInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { sched.Point("Add"); return atomic.AddInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { sched.Point("Swap"); return atomic.SwapInt64(p, n) }
func AndInt64(p *int64, n int64) int64  { sched.Point("And"); return atomic.AndInt64(p, n) }
func OrInt64(p *int64, n int64) int64   { sched.Point("Or"); return atomic.OrInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { sched.Point("Load"); return x.v.Load() }
func (x *Uint64) Store(n uint64)       { sched.Point("Store"); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64  { sched.Point("Add"); return x.v.Add(n) }
func (x *Uint64) Swap(n uint64) uint64 { sched.Point("Swap"); return x.v.Swap(n) }
func (x *Uint64) And(n uint64) uint64  { sched.Point("And"); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64   { sched.Point("Or"); return x.v.Or(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	sched.Point("CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { sched.Point("Load"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { sched.Point("Store"); atomic.StoreUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { sched.Point("Add"); return atomic.AddUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { sched.Point("Swap"); return atomic.SwapUint64(p, n) }
func AndUint64(p *uint64, n uint64) uint64  { sched.Point("And"); return atomic.AndUint64(p, n) }
func OrUint64(p *uint64, n uint64) uint64   { sched.Point("Or"); return atomic.OrUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sched.Point("Load"); return x.v.Load() }
func (x *Int32) Store(n int32)                  { sched.Point("Store"); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { sched.Point("Add"); return x.v.Add(n) }
func (x *Int32) Swap(n int32) int32             { sched.Point("Swap"); return x.v.Swap(n) }
func (x *Int32) And(n int32) int32              { sched.Point("And"); return x.v.And(n) }
func (x *Int32) Or(n int32) int32               { sched.Point("Or"); return x.v.Or(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Point("CAS"); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { sched.Point("Load"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { sched.Point("Store"); atomic.StoreInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { sched.Point("Add"); return atomic.AddInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { sched.Point("Swap"); return atomic.SwapInt32(p, n) }
func AndInt32(p *int32, n int32) int32  { sched.Point("And"); return atomic.AndInt32(p, n) }
func OrInt32(p *int32, n int32) int32   { sched.Point("Or"); return atomic.OrInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { sched.Point("Load"); return x.v.Load() }
func (x *Uint32) Store(n uint32)       { sched.Point("Store"); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32  { sched.Point("Add"); return x.v.Add(n) }
func (x *Uint32) Swap(n uint32) uint32 { sched.Point("Swap"); return x.v.Swap(n) }
func (x *Uint32) And(n uint32) uint32  { sched.Point("And"); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32   { sched.Point("Or"); return x.v.Or(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	sched.Point("CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { sched.Point("Load"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { sched.Point("Store"); atomic.StoreUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { sched.Point("Add"); return atomic.AddUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { sched.Point("Swap"); return atomic.SwapUint32(p, n) }
func AndUint32(p *uint32, n uint32) uint32  { sched.Point("And"); return atomic.AndUint32(p, n) }
func OrUint32(p *uint32, n uint32) uint32   { sched.Point("Or"); return atomic.OrUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { sched.Point("Load"); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)        { sched.Point("Store"); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr  { sched.Point("Add"); return x.v.Add(n) }
func (x *Uintptr) Swap(n uintptr) uintptr { sched.Point("Swap"); return x.v.Swap(n) }
func (x *Uintptr) And(n uintptr) uintptr  { sched.Point("And"); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr   { sched.Point("Or"); return x.v.Or(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	sched.Point("CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr            { sched.Point("Load"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { sched.Point("Store"); atomic.StoreUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { sched.Point("Add"); return atomic.AddUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { sched.Point("Swap"); return atomic.SwapUintptr(p, n) }
func AndUintptr(p *uintptr, n uintptr) uintptr  { sched.Point("And"); return atomic.AndUintptr(p, n) }
func OrUintptr(p *uintptr, n uintptr) uintptr   { sched.Point("Or"); return atomic.OrUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.Point("Load"); return x.v.Load() }
func (x *Bool) Store(b bool)                  { sched.Point("Store"); x.v.Store(b) }
func (x *Bool) Swap(b bool) bool              { sched.Point("Swap"); return x.v.Swap(b) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Point("CAS"); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { sched.Point("Load"); return x.v.Load() }
func (x *Pointer[T]) Store(p *T)   { sched.Point("Store"); x.v.Store(p) }
func (x *Pointer[T]) Swap(p *T) *T { sched.Point("Swap"); return x.v.Swap(p) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	sched.Point("CAS")
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sched.Point("Load"); return x.v.Load() }
func (x *Value) Store(a any)                  { sched.Point("Store"); x.v.Store(a) }
func (x *Value) Swap(a any) any               { sched.Point("Swap"); return x.v.Swap(a) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Point("CAS"); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { sched.Point("Load"); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sched.Point("Store")
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Point("Swap")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Point("CAS")
	return atomic.CompareAndSwapPointer(p, o, n)
}
