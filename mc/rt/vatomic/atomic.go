//go:build go1.21

// Package vatomic replaces sync/atomic.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/milosgajdos/netscrape/verifmc/vs"
)

func LoadInt32(p *int32) int32          { vs.AtomicPoint(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vs.AtomicPoint(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vs.AtomicPoint(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { vs.AtomicPoint(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32 { vs.AtomicPoint(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { vs.AtomicPoint(); return atomic.OrInt32(p, m) }

type Int32 struct{ a atomic.Int32 }

func (x *Int32) Load() int32                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Int32) Store(v int32)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Int32) Swap(v int32) int32             { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { vs.AtomicPoint(); return x.a.Add(d) }
func (x *Int32) And(m int32) int32              { vs.AtomicPoint(); return x.a.And(m) }
func (x *Int32) Or(m int32) int32               { vs.AtomicPoint(); return x.a.Or(m) }

func LoadInt64(p *int64) int64          { vs.AtomicPoint(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vs.AtomicPoint(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vs.AtomicPoint(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { vs.AtomicPoint(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64 { vs.AtomicPoint(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { vs.AtomicPoint(); return atomic.OrInt64(p, m) }

type Int64 struct{ a atomic.Int64 }

func (x *Int64) Load() int64                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Int64) Store(v int64)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Int64) Swap(v int64) int64             { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { vs.AtomicPoint(); return x.a.Add(d) }
func (x *Int64) And(m int64) int64              { vs.AtomicPoint(); return x.a.And(m) }
func (x *Int64) Or(m int64) int64               { vs.AtomicPoint(); return x.a.Or(m) }

func LoadUint32(p *uint32) uint32           { vs.AtomicPoint(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vs.AtomicPoint(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vs.AtomicPoint(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { vs.AtomicPoint(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { vs.AtomicPoint(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { vs.AtomicPoint(); return atomic.OrUint32(p, m) }

type Uint32 struct{ a atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Uint32) Store(v uint32)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { vs.AtomicPoint(); return x.a.Add(d) }
func (x *Uint32) And(m uint32) uint32             { vs.AtomicPoint(); return x.a.And(m) }
func (x *Uint32) Or(m uint32) uint32              { vs.AtomicPoint(); return x.a.Or(m) }

func LoadUint64(p *uint64) uint64           { vs.AtomicPoint(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vs.AtomicPoint(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vs.AtomicPoint(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { vs.AtomicPoint(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { vs.AtomicPoint(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { vs.AtomicPoint(); return atomic.OrUint64(p, m) }

type Uint64 struct{ a atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Uint64) Store(v uint64)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { vs.AtomicPoint(); return x.a.Add(d) }
func (x *Uint64) And(m uint64) uint64             { vs.AtomicPoint(); return x.a.And(m) }
func (x *Uint64) Or(m uint64) uint64              { vs.AtomicPoint(); return x.a.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { vs.AtomicPoint(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vs.AtomicPoint(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vs.AtomicPoint(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vs.AtomicPoint(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { vs.AtomicPoint(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { vs.AtomicPoint(); return atomic.OrUintptr(p, m) }

type Uintptr struct{ a atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { vs.AtomicPoint(); return x.a.Load() }
func (x *Uintptr) Store(v uintptr)        { vs.AtomicPoint(); x.a.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vs.AtomicPoint()
	return x.a.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { vs.AtomicPoint(); return x.a.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr { vs.AtomicPoint(); return x.a.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { vs.AtomicPoint(); return x.a.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vs.AtomicPoint(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.AtomicPoint(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.AtomicPoint()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.AtomicPoint()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ a atomic.Bool }

func (x *Bool) Load() bool                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Bool) Store(v bool)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Bool) Swap(v bool) bool              { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }

type Pointer[T any] struct{ a atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vs.AtomicPoint(); return x.a.Load() }
func (x *Pointer[T]) Store(v *T)                  { vs.AtomicPoint(); x.a.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vs.AtomicPoint(); return x.a.CompareAndSwap(o, n) }

type Value struct{ a atomic.Value }

func (x *Value) Load() interface{}              { vs.AtomicPoint(); return x.a.Load() }
func (x *Value) Store(v interface{})            { vs.AtomicPoint(); x.a.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { vs.AtomicPoint(); return x.a.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	vs.AtomicPoint()
	return x.a.CompareAndSwap(o, n)
}
