// Package vatomic replaces sync/atomic in instrumented copies: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"
	"verif/vsched"
)

func y() { vsched.Yield() }

func LoadInt32(p *int32) int32                         { y(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { y(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { y(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { y(); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { y(); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { y(); atomic.StoreInt32(p, v); y() }
func StoreInt64(p *int64, v int64)                     { y(); atomic.StoreInt64(p, v); y() }
func StoreUint32(p *uint32, v uint32)                  { y(); atomic.StoreUint32(p, v); y() }
func StoreUint64(p *uint64, v uint64)                  { y(); atomic.StoreUint64(p, v); y() }
func StoreUintptr(p *uintptr, v uintptr)               { y(); atomic.StoreUintptr(p, v); y() }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v); y() }
func AddInt32(p *int32, d int32) int32                 { y(); defer y(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { y(); defer y(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { y(); defer y(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { y(); defer y(); return atomic.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { y(); defer y(); return atomic.AddUintptr(p, d) }
func SwapInt32(p *int32, v int32) int32                { y(); defer y(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { y(); defer y(); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { y(); defer y(); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { y(); defer y(); return atomic.SwapUint64(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	defer y()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y()
	defer y()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y()
	defer y()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	defer y()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	defer y()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	defer y()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { y(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { y(); x.v.Store(n); y() }
func (x *Int32) Swap(n int32) int32             { y(); defer y(); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { y(); defer y(); return x.v.Add(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { y(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { y(); x.v.Store(n); y() }
func (x *Int64) Swap(n int64) int64             { y(); defer y(); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { y(); defer y(); return x.v.Add(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { y(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { y(); x.v.Store(n); y() }
func (x *Uint32) Swap(n uint32) uint32            { y(); defer y(); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { y(); defer y(); return x.v.Add(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { y(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { y(); x.v.Store(n); y() }
func (x *Uint64) Swap(n uint64) uint64            { y(); defer y(); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { y(); defer y(); return x.v.Add(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { y(); x.v.Store(n); y() }
func (x *Bool) Swap(n bool) bool              { y(); defer y(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(n any)                  { y(); x.v.Store(n); y() }
func (x *Value) Swap(n any) any               { y(); defer y(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { y(); x.v.Store(n); y() }
func (x *Pointer[T]) Swap(n *T) *T                { y(); defer y(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }
