//go:build !vsym

package vrt

import "unsafe"

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[T integer] struct{ v T }

func (x *num[T]) Load() T    { return load(&x.v) }
func (x *num[T]) Store(v T)  { store(&x.v, v) }
func (x *num[T]) Swap(v T) T { return swap(&x.v, v) }
func (x *num[T]) Add(d T) T  { return add(&x.v, d) }
func (x *num[T]) And(d T) T  { o := x.v; x.v &= d; both(unsafe.Pointer(x)); point(); return o }
func (x *num[T]) Or(d T) T   { o := x.v; x.v |= d; both(unsafe.Pointer(x)); point(); return o }
func (x *num[T]) CompareAndSwap(o, n T) bool {
	return cas(&x.v, o, n)
}

func both(p unsafe.Pointer) {
	acquire(p)
	release(p)
}

type (
	Int32   struct{ num[int32] }
	Int64   struct{ num[int64] }
	Uint32  struct{ num[uint32] }
	Uint64  struct{ num[uint64] }
	Uintptr struct{ num[uintptr] }
)

// Bool mirrors atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { return load(&x.v) }
func (x *Bool) Store(v bool)     { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return cas(&x.v, o, n)
}

// Value mirrors atomic.Value.
type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { acquire(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v interface{}) { x.v = v; release(unsafe.Pointer(x)) }

// Pointer mirrors atomic.Pointer.
type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T     { return load(&x.p) }
func (x *Pointer[T]) Store(v *T)   { store(&x.p, v) }
func (x *Pointer[T]) Swap(v *T) *T { return swap(&x.p, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return cas(&x.p, o, n)
}

func load[T comparable](p *T) T     { v := *p; acquire(unsafe.Pointer(p)); point(); return v }
func store[T comparable](p *T, v T) { *p = v; release(unsafe.Pointer(p)); point() }
func add[T integer](p *T, d T) T    { *p += d; v := *p; both(unsafe.Pointer(p)); point(); return v }
func swap[T comparable](p *T, v T) T {
	o := *p
	*p = v
	both(unsafe.Pointer(p))
	point()
	return o
}
func cas[T comparable](p *T, o, n T) (ok bool) {
	if ok = *p == o; ok {
		*p = n
		both(unsafe.Pointer(p))
	} else {
		acquire(unsafe.Pointer(p))
	}
	point()
	return
}

func LoadInt32(p *int32) int32                      { return load(p) }
func LoadInt64(p *int64) int64                      { return load(p) }
func LoadUint32(p *uint32) uint32                   { return load(p) }
func LoadUint64(p *uint64) uint64                   { return load(p) }
func StoreInt32(p *int32, v int32)                  { store(p, v) }
func StoreInt64(p *int64, v int64)                  { store(p, v) }
func StoreUint32(p *uint32, v uint32)               { store(p, v) }
func StoreUint64(p *uint64, v uint64)               { store(p, v) }
func AddInt32(p *int32, v int32) int32              { return add(p, v) }
func AddInt64(p *int64, v int64) int64              { return add(p, v) }
func AddUint32(p *uint32, v uint32) uint32          { return add(p, v) }
func AddUint64(p *uint64, v uint64) uint64          { return add(p, v) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32         { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64         { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	return cas(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	return cas(p, o, n)
}
