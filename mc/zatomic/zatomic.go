// Package zatomic stands for package sync/atomic in instrumented code. Each
// operation is a point where another thread may go on.
package zatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/hangulize/hangulize/internal/verifmc/sched"
)

func y() { sched.Yield() }

func AddInt32(p *int32, d int32) int32                 { y(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { y(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { y(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { y(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32                         { y(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { y(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { y(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { y(); return atomic.LoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { y(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { y(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { y(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { y(); atomic.StoreUint64(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { y(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { y(); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { y(); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { y(); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool    { y(); return atomic.CompareAndSwapInt32(p, a, b) }
func CompareAndSwapInt64(p *int64, a, b int64) bool    { y(); return atomic.CompareAndSwapInt64(p, a, b) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	y()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	y()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	y()
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { y(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { y(); return x.v.CompareAndSwap(a, b) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { y(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { y(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { y(); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32              { y(); return x.v.Add(d) }
func (x *Int32) CompareAndSwap(a, b int32) bool { y(); return x.v.CompareAndSwap(a, b) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { y(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { y(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { y(); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64              { y(); return x.v.Add(d) }
func (x *Int64) CompareAndSwap(a, b int64) bool { y(); return x.v.CompareAndSwap(a, b) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { y(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { y(); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32             { y(); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { y(); return x.v.CompareAndSwap(a, b) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { y(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { y(); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64             { y(); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { y(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { y(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(v any)                  { y(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { y(); return x.v.CompareAndSwap(a, b) }
