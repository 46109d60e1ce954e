// Package simatomic is sync/atomic under the simulator: every operation is one
// indivisible step, a scheduling point and a release/acquire edge.
package simatomic

import (
	"unsafe"

	"crunchsim/rt"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func sync[T any](p *T, write bool) { rt.AtomicPoint(unsafe.Pointer(p), unsafe.Sizeof(*p), write) }

func load[T any](p *T) T { sync(p, false); return *p }
func store[T any](p *T, v T) {
	sync(p, true)
	*p = v
}
func swap[T any](p *T, v T) T {
	sync(p, true)
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	sync(p, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}
func add[T integer](p *T, d T) T { sync(p, true); *p += d; return *p }
func and[T integer](p *T, m T) T { sync(p, true); o := *p; *p &= m; return o }
func or[T integer](p *T, m T) T  { sync(p, true); o := *p; *p |= m; return o }

func LoadInt32(p *int32) int32                      { return load(p) }
func StoreInt32(p *int32, v int32)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }
func AddInt32(p *int32, d int32) int32              { return add(p, d) }
func AndInt32(p *int32, m int32) int32              { return and(p, m) }
func OrInt32(p *int32, m int32) int32               { return or(p, m) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return load(&x.v) }
func (x *Int32) Store(v int32)                  { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return swap(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return cas(&x.v, o, n) }
func (x *Int32) Add(d int32) int32              { return add(&x.v, d) }
func (x *Int32) And(m int32) int32              { return and(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return or(&x.v, m) }

func LoadInt64(p *int64) int64                      { return load(p) }
func StoreInt64(p *int64, v int64)                  { store(p, v) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }
func AddInt64(p *int64, d int64) int64              { return add(p, d) }
func AndInt64(p *int64, m int64) int64              { return and(p, m) }
func OrInt64(p *int64, m int64) int64               { return or(p, m) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return load(&x.v) }
func (x *Int64) Store(v int64)                  { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return swap(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return cas(&x.v, o, n) }
func (x *Int64) Add(d int64) int64              { return add(&x.v, d) }
func (x *Int64) And(m int64) int64              { return and(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return or(&x.v, m) }

func LoadUint32(p *uint32) uint32                      { return load(p) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AndUint32(p *uint32, m uint32) uint32             { return and(p, m) }
func OrUint32(p *uint32, m uint32) uint32              { return or(p, m) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return load(&x.v) }
func (x *Uint32) Store(v uint32)                  { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return swap(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&x.v, o, n) }
func (x *Uint32) Add(d uint32) uint32             { return add(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return and(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return or(&x.v, m) }

func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func AndUint64(p *uint64, m uint64) uint64             { return and(p, m) }
func OrUint64(p *uint64, m uint64) uint64              { return or(p, m) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return load(&x.v) }
func (x *Uint64) Store(v uint64)                  { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return swap(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&x.v, o, n) }
func (x *Uint64) Add(d uint64) uint64             { return add(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return and(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return or(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr                      { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr            { return and(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr             { return or(p, m) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return swap(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return cas(&x.v, o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return add(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return and(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return or(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

type Value struct{ v any }

func (x *Value) Load() any                    { return load(&x.v) }
func (x *Value) Store(v any)                  { store(&x.v, v) }
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool { return cas(&x.v, o, n) }
