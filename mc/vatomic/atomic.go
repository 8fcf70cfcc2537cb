// Package vatomic replaces package sync/atomic in the checked program.
package vatomic

import (
	"unsafe"

	"vmc/vs"
)

// Int32 is atomic.Int32.
type Int32 struct {
	a vs.Atom
	v int32
}

func (x *Int32) Load() int32   { x.a.Load(); return x.v }
func (x *Int32) Store(v int32) { x.a.Store(); x.v = v }
func (x *Int32) Swap(v int32) int32 {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Int32) Add(d int32) int32 { x.a.Store(); x.v += d; return x.v }
func (x *Int32) And(d int32) int32 { x.a.Store(); o := x.v; x.v &= d; return o }
func (x *Int32) Or(d int32) int32  { x.a.Store(); o := x.v; x.v |= d; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadInt32(p *int32) int32     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StoreInt32(p *int32, v int32) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapInt32(p *int32, v int32) int32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func AddInt32(p *int32, d int32) int32 { vs.AtomFor(unsafe.Pointer(p)).Store(); *p += d; return *p }
func AndInt32(p *int32, d int32) int32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p &= d
	return o
}
func OrInt32(p *int32, d int32) int32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p |= d
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Int64 is atomic.Int64.
type Int64 struct {
	a vs.Atom
	v int64
}

func (x *Int64) Load() int64   { x.a.Load(); return x.v }
func (x *Int64) Store(v int64) { x.a.Store(); x.v = v }
func (x *Int64) Swap(v int64) int64 {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Int64) Add(d int64) int64 { x.a.Store(); x.v += d; return x.v }
func (x *Int64) And(d int64) int64 { x.a.Store(); o := x.v; x.v &= d; return o }
func (x *Int64) Or(d int64) int64  { x.a.Store(); o := x.v; x.v |= d; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadInt64(p *int64) int64     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StoreInt64(p *int64, v int64) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapInt64(p *int64, v int64) int64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func AddInt64(p *int64, d int64) int64 { vs.AtomFor(unsafe.Pointer(p)).Store(); *p += d; return *p }
func AndInt64(p *int64, d int64) int64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p &= d
	return o
}
func OrInt64(p *int64, d int64) int64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p |= d
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uint32 is atomic.Uint32.
type Uint32 struct {
	a vs.Atom
	v uint32
}

func (x *Uint32) Load() uint32   { x.a.Load(); return x.v }
func (x *Uint32) Store(v uint32) { x.a.Store(); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Uint32) Add(d uint32) uint32 { x.a.Store(); x.v += d; return x.v }
func (x *Uint32) And(d uint32) uint32 { x.a.Store(); o := x.v; x.v &= d; return o }
func (x *Uint32) Or(d uint32) uint32  { x.a.Store(); o := x.v; x.v |= d; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUint32(p *uint32) uint32     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StoreUint32(p *uint32, v uint32) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func AddUint32(p *uint32, d uint32) uint32 { vs.AtomFor(unsafe.Pointer(p)).Store(); *p += d; return *p }
func AndUint32(p *uint32, d uint32) uint32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p &= d
	return o
}
func OrUint32(p *uint32, d uint32) uint32 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uint64 is atomic.Uint64.
type Uint64 struct {
	a vs.Atom
	v uint64
}

func (x *Uint64) Load() uint64   { x.a.Load(); return x.v }
func (x *Uint64) Store(v uint64) { x.a.Store(); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Uint64) Add(d uint64) uint64 { x.a.Store(); x.v += d; return x.v }
func (x *Uint64) And(d uint64) uint64 { x.a.Store(); o := x.v; x.v &= d; return o }
func (x *Uint64) Or(d uint64) uint64  { x.a.Store(); o := x.v; x.v |= d; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUint64(p *uint64) uint64     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StoreUint64(p *uint64, v uint64) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func AddUint64(p *uint64, d uint64) uint64 { vs.AtomFor(unsafe.Pointer(p)).Store(); *p += d; return *p }
func AndUint64(p *uint64, d uint64) uint64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p &= d
	return o
}
func OrUint64(p *uint64, d uint64) uint64 {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uintptr is atomic.Uintptr.
type Uintptr struct {
	a vs.Atom
	v uintptr
}

func (x *Uintptr) Load() uintptr   { x.a.Load(); return x.v }
func (x *Uintptr) Store(v uintptr) { x.a.Store(); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Uintptr) Add(d uintptr) uintptr { x.a.Store(); x.v += d; return x.v }
func (x *Uintptr) And(d uintptr) uintptr { x.a.Store(); o := x.v; x.v &= d; return o }
func (x *Uintptr) Or(d uintptr) uintptr  { x.a.Store(); o := x.v; x.v |= d; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadUintptr(p *uintptr) uintptr     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StoreUintptr(p *uintptr, v uintptr) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	*p += d
	return *p
}
func AndUintptr(p *uintptr, d uintptr) uintptr {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p &= d
	return o
}
func OrUintptr(p *uintptr, d uintptr) uintptr {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p |= d
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Bool is atomic.Bool.
type Bool struct {
	a vs.Atom
	v bool
}

func (x *Bool) Load() bool   { x.a.Load(); return x.v }
func (x *Bool) Store(v bool) { x.a.Store(); x.v = v }
func (x *Bool) Swap(v bool) bool {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	a vs.Atom
	v *T
}

func (x *Pointer[T]) Load() *T   { x.a.Load(); return x.v }
func (x *Pointer[T]) Store(v *T) { x.a.Store(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

// Value is atomic.Value.
type Value struct {
	a vs.Atom
	v any
}

func (x *Value) Load() any { x.a.Load(); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.a.Store()
	x.v = v
}
func (x *Value) Swap(v any) any {
	x.a.Store()
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	x.a.Store()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vs.AtomFor(unsafe.Pointer(p)).Load(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vs.AtomFor(unsafe.Pointer(p)).Store(); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.AtomFor(unsafe.Pointer(p)).Store()
	if *p != o {
		return false
	}
	*p = n
	return true
}
