// Package atomic stands in for sync/atomic: every operation is one step of vs.
// Code generated by tools; the typed values wrap the functions.
package atomic

import (
	"unsafe"

	"skipmapverif/vs"
)

func chk(p unsafe.Pointer) {
	if unsafe.Sizeof(uintptr(0)) == 4 && uintptr(p)&7 != 0 {
		panic("unaligned 64-bit atomic operation")
	}
}

func LoadInt32(addr *int32) int32 {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 4)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func StoreInt32(addr *int32, val int32) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func SwapInt32(addr *int32, new int32) int32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func CompareAndSwapInt32(addr *int32, old, new int32) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func AddInt32(addr *int32, delta int32) int32 {
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func AndInt32(addr *int32, mask int32) int32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func OrInt32(addr *int32, mask int32) int32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}
func LoadInt64(addr *int64) int64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func StoreInt64(addr *int64, val int64) {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func SwapInt64(addr *int64, new int64) int64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func CompareAndSwapInt64(addr *int64, old, new int64) bool {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func AddInt64(addr *int64, delta int64) int64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func AndInt64(addr *int64, mask int64) int64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func OrInt64(addr *int64, mask int64) int64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}
func LoadUint32(addr *uint32) uint32 {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 4)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func StoreUint32(addr *uint32, val uint32) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func SwapUint32(addr *uint32, new uint32) uint32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func CompareAndSwapUint32(addr *uint32, old, new uint32) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func AddUint32(addr *uint32, delta uint32) uint32 {
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 4)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func AndUint32(addr *uint32, mask uint32) uint32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func OrUint32(addr *uint32, mask uint32) uint32 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 4)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}
func LoadUint64(addr *uint64) uint64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func StoreUint64(addr *uint64, val uint64) {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func SwapUint64(addr *uint64, new uint64) uint64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func CompareAndSwapUint64(addr *uint64, old, new uint64) bool {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func AddUint64(addr *uint64, delta uint64) uint64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func AndUint64(addr *uint64, mask uint64) uint64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func OrUint64(addr *uint64, mask uint64) uint64 {
	chk(unsafe.Pointer(addr))
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}
func LoadUintptr(addr *uintptr) uintptr {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func StoreUintptr(addr *uintptr, val uintptr) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func SwapUintptr(addr *uintptr, new uintptr) uintptr {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func CompareAndSwapUintptr(addr *uintptr, old, new uintptr) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func AddUintptr(addr *uintptr, delta uintptr) uintptr {
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func AndUintptr(addr *uintptr, mask uintptr) uintptr {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func OrUintptr(addr *uintptr, mask uintptr) uintptr {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(uintptr(v)), true)
	return v
}
func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(uintptr(val)), true)
	vs.Wrote()
}
func SwapPointer(addr *unsafe.Pointer, new unsafe.Pointer) unsafe.Pointer {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(uintptr(new)), true)
	vs.Wrote()
	return old
}
func CompareAndSwapPointer(addr *unsafe.Pointer, old, new unsafe.Pointer) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(uintptr(new)), false)
		return false
	}
	*addr = new
	vs.Note(uint64(uintptr(new)), true)
	vs.Wrote()
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return LoadInt32(&x.v) }
func (x *Int32) Store(val int32)                    { StoreInt32(&x.v, val) }
func (x *Int32) Swap(new int32) int32               { return SwapInt32(&x.v, new) }
func (x *Int32) CompareAndSwap(old, new int32) bool { return CompareAndSwapInt32(&x.v, old, new) }
func (x *Int32) Add(delta int32) int32              { return AddInt32(&x.v, delta) }
func (x *Int32) And(mask int32) int32               { return AndInt32(&x.v, mask) }
func (x *Int32) Or(mask int32) int32                { return OrInt32(&x.v, mask) }

func tLoadInt64(addr *int64) int64 {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func tStoreInt64(addr *int64, val int64) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func tSwapInt64(addr *int64, new int64) int64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func tCompareAndSwapInt64(addr *int64, old, new int64) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func tAddInt64(addr *int64, delta int64) int64 {
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func tAndInt64(addr *int64, mask int64) int64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func tOrInt64(addr *int64, mask int64) int64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return tLoadInt64(&x.v) }
func (x *Int64) Store(val int64)                    { tStoreInt64(&x.v, val) }
func (x *Int64) Swap(new int64) int64               { return tSwapInt64(&x.v, new) }
func (x *Int64) CompareAndSwap(old, new int64) bool { return tCompareAndSwapInt64(&x.v, old, new) }
func (x *Int64) Add(delta int64) int64              { return tAddInt64(&x.v, delta) }
func (x *Int64) And(mask int64) int64               { return tAndInt64(&x.v, mask) }
func (x *Int64) Or(mask int64) int64                { return tOrInt64(&x.v, mask) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                        { return LoadUint32(&x.v) }
func (x *Uint32) Store(val uint32)                    { StoreUint32(&x.v, val) }
func (x *Uint32) Swap(new uint32) uint32              { return SwapUint32(&x.v, new) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { return CompareAndSwapUint32(&x.v, old, new) }
func (x *Uint32) Add(delta uint32) uint32             { return AddUint32(&x.v, delta) }
func (x *Uint32) And(mask uint32) uint32              { return AndUint32(&x.v, mask) }
func (x *Uint32) Or(mask uint32) uint32               { return OrUint32(&x.v, mask) }

func tLoadUint64(addr *uint64) uint64 {
	vs.Point(vs.KLoad, unsafe.Pointer(addr), 8)
	v := *addr
	vs.Note(uint64(v), true)
	return v
}
func tStoreUint64(addr *uint64, val uint64) {
	vs.Point(vs.KStore, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return
	}
	*addr = val
	vs.Note(uint64(val), true)
	vs.Wrote()
}
func tSwapUint64(addr *uint64, new uint64) uint64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return old
}
func tCompareAndSwapUint64(addr *uint64, old, new uint64) bool {
	vs.Point(vs.KCas, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return true
	}
	if *addr != old {
		vs.Note(uint64(new), false)
		return false
	}
	*addr = new
	vs.Note(uint64(new), true)
	vs.Wrote()
	return true
}
func tAddUint64(addr *uint64, delta uint64) uint64 {
	vs.Point(vs.KAdd, unsafe.Pointer(addr), 8)
	if vs.Aborting() {
		return *addr
	}
	*addr += delta
	vs.Note(uint64(*addr), true)
	vs.Wrote()
	return *addr
}
func tAndUint64(addr *uint64, mask uint64) uint64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr &= mask
	vs.Wrote()
	return old
}
func tOrUint64(addr *uint64, mask uint64) uint64 {
	vs.Point(vs.KSwap, unsafe.Pointer(addr), 8)
	old := *addr
	if vs.Aborting() {
		return old
	}
	*addr |= mask
	vs.Wrote()
	return old
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                        { return tLoadUint64(&x.v) }
func (x *Uint64) Store(val uint64)                    { tStoreUint64(&x.v, val) }
func (x *Uint64) Swap(new uint64) uint64              { return tSwapUint64(&x.v, new) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { return tCompareAndSwapUint64(&x.v, old, new) }
func (x *Uint64) Add(delta uint64) uint64             { return tAddUint64(&x.v, delta) }
func (x *Uint64) And(mask uint64) uint64              { return tAndUint64(&x.v, mask) }
func (x *Uint64) Or(mask uint64) uint64               { return tOrUint64(&x.v, mask) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                        { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(val uintptr)                    { StoreUintptr(&x.v, val) }
func (x *Uintptr) Swap(new uintptr) uintptr             { return SwapUintptr(&x.v, new) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { return CompareAndSwapUintptr(&x.v, old, new) }
func (x *Uintptr) Add(delta uintptr) uintptr            { return AddUintptr(&x.v, delta) }
func (x *Uintptr) And(mask uintptr) uintptr             { return AndUintptr(&x.v, mask) }
func (x *Uintptr) Or(mask uintptr) uintptr              { return OrUintptr(&x.v, mask) }

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool         { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(val bool)     { StoreUint32(&x.v, b32(val)) }
func (x *Bool) Swap(new bool) bool { return SwapUint32(&x.v, b32(new)) != 0 }
func (x *Bool) CompareAndSwap(old, new bool) bool {
	return CompareAndSwapUint32(&x.v, b32(old), b32(new))
}

type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T       { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(val *T)   { StorePointer(&x.v, unsafe.Pointer(val)) }
func (x *Pointer[T]) Swap(new *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(new))) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
}

type Value struct{ v any }

func (x *Value) Load() any {
	vs.Point(vs.KLoad, unsafe.Pointer(x), 16)
	return x.v
}
func (x *Value) Store(val any) {
	if val == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	vs.Point(vs.KStore, unsafe.Pointer(x), 16)
	if vs.Aborting() {
		return
	}
	x.v = val
	vs.Wrote()
}
func (x *Value) Swap(new any) any {
	vs.Point(vs.KSwap, unsafe.Pointer(x), 16)
	old := x.v
	if vs.Aborting() {
		return old
	}
	x.v = new
	vs.Wrote()
	return old
}
func (x *Value) CompareAndSwap(old, new any) bool {
	vs.Point(vs.KCas, unsafe.Pointer(x), 16)
	if vs.Aborting() {
		return true
	}
	if x.v != old {
		return false
	}
	x.v = new
	vs.Wrote()
	return true
}
