// Package zzatomic stands in for package sync/atomic in native replays of
// schedules: before an operation another thread of the harness may run.
package zzatomic

import (
	"sync/atomic"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { sym.SchedPoint(); return x.v.Load() }
func (x *Bool) Store(v bool)     { sym.SchedPoint(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	sym.SchedPoint()
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { sym.SchedPoint(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { sym.SchedPoint(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	sym.SchedPoint()
	return x.v.CompareAndSwap(o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sym.SchedPoint(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sym.SchedPoint(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Int32) Add(v int32) int32              { sym.SchedPoint(); return x.v.Add(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sym.SchedPoint(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { sym.SchedPoint(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sym.SchedPoint(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sym.SchedPoint(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { sym.SchedPoint(); return atomic.AddInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sym.SchedPoint()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sym.SchedPoint(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sym.SchedPoint(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Int64) Add(v int64) int64              { sym.SchedPoint(); return x.v.Add(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sym.SchedPoint(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sym.SchedPoint(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sym.SchedPoint(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sym.SchedPoint(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { sym.SchedPoint(); return atomic.AddInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sym.SchedPoint()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sym.SchedPoint(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sym.SchedPoint(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { sym.SchedPoint(); return x.v.Add(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sym.SchedPoint(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { sym.SchedPoint(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sym.SchedPoint(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sym.SchedPoint(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { sym.SchedPoint(); return atomic.AddUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sym.SchedPoint()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sym.SchedPoint(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sym.SchedPoint(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { sym.SchedPoint(); return x.v.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { sym.SchedPoint(); return x.v.Add(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sym.SchedPoint(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { sym.SchedPoint(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sym.SchedPoint(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sym.SchedPoint(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { sym.SchedPoint(); return atomic.AddUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sym.SchedPoint()
	return atomic.CompareAndSwapUint64(p, o, n)
}
