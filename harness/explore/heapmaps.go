package main

import (
	"fmt"
	"strings"
	"unsafe"
	"weak"

	skipmap "skipmapverif/impl"
	"skipmapverif/maps"
)

type number interface {
	~int | ~int64 | ~int32 | ~uint | ~uint64 | ~uint32
}

func heapNum[K number](name, file string, h func() *heap[K]) maps.Variant {
	return maps.Variant{Name: name, File: file, Value: "*obj", New: func(nk int, seed int64) maps.API {
		m := h()
		m.tracker = newTracker()
		m.key = func(k int) K { return K(k) }
		m.rank = func(k K) int { return int(k) }
		return m
	}}
}

func freshString(k int) string { return strings.Clone(fmt.Sprintf("%040d", k)) }

func heapStr(name, file string, h func() *heap[string]) maps.Variant {
	return maps.Variant{Name: name, File: file, Value: "*obj", New: func(nk int, seed int64) maps.API {
		m := h()
		m.tracker = newTracker()
		m.key = freshString
		m.rank = func(s string) (k int) { fmt.Sscanf(s, "%d", &k); return }
		m.alive = func(s string) func() bool {
			w := weak.Make(unsafe.StringData(s))
			return func() bool { return w.Value() != nil }
		}
		return m
	}}
}

// hkey is a key that is compared by what it points to.
type hkey struct {
	k   int
	pad [5]int
}

func heapPtr(name, file string, h func() *heap[*hkey]) maps.Variant {
	return maps.Variant{Name: name, File: file, Value: "*obj", New: func(nk int, seed int64) maps.API {
		m := h()
		m.tracker = newTracker()
		m.key = func(k int) *hkey { return &hkey{k: k} }
		m.rank = func(k *hkey) int { return k.k }
		m.alive = func(k *hkey) func() bool {
			w := weak.Make(k)
			return func() bool { return w.Value() != nil }
		}
		return m
	}}
}

// heapMaps is one instantiation per generated file with values (and keys,
// where the type allows) on the heap.
func heapMaps() []maps.Variant {
	return []maps.Variant{
		heapNum("NewInt[*obj]", "gen_int.go", func() *heap[int] { return &heap[int]{m: skipmap.NewInt[*obj]()} }),
		heapNum("NewIntDesc[*obj]", "gen_intdesc.go", func() *heap[int] { return &heap[int]{m: skipmap.NewIntDesc[*obj]()} }),
		heapNum("NewInt64[*obj]", "gen_int64.go", func() *heap[int64] { return &heap[int64]{m: skipmap.NewInt64[*obj]()} }),
		heapNum("NewInt64Desc[*obj]", "gen_int64desc.go", func() *heap[int64] { return &heap[int64]{m: skipmap.NewInt64Desc[*obj]()} }),
		heapNum("NewInt32[*obj]", "gen_int32.go", func() *heap[int32] { return &heap[int32]{m: skipmap.NewInt32[*obj]()} }),
		heapNum("NewInt32Desc[*obj]", "gen_int32desc.go", func() *heap[int32] { return &heap[int32]{m: skipmap.NewInt32Desc[*obj]()} }),
		heapNum("NewUint64[*obj]", "gen_uint64.go", func() *heap[uint64] { return &heap[uint64]{m: skipmap.NewUint64[*obj]()} }),
		heapNum("NewUint64Desc[*obj]", "gen_uint64desc.go", func() *heap[uint64] { return &heap[uint64]{m: skipmap.NewUint64Desc[*obj]()} }),
		heapNum("NewUint32[*obj]", "gen_uint32.go", func() *heap[uint32] { return &heap[uint32]{m: skipmap.NewUint32[*obj]()} }),
		heapNum("NewUint32Desc[*obj]", "gen_uint32desc.go", func() *heap[uint32] { return &heap[uint32]{m: skipmap.NewUint32Desc[*obj]()} }),
		heapNum("NewUint[*obj]", "gen_uint.go", func() *heap[uint] { return &heap[uint]{m: skipmap.NewUint[*obj]()} }),
		heapNum("NewUintDesc[*obj]", "gen_uintdesc.go", func() *heap[uint] { return &heap[uint]{m: skipmap.NewUintDesc[*obj]()} }),
		heapStr("NewString[*obj]", "gen_string.go", func() *heap[string] { return &heap[string]{m: skipmap.NewString[*obj]()} }),
		heapStr("NewStringDesc[*obj]", "gen_stringdesc.go", func() *heap[string] { return &heap[string]{m: skipmap.NewStringDesc[*obj]()} }),
		heapStr("New[string,*obj]", "gen_ordered.go", func() *heap[string] { return &heap[string]{m: skipmap.New[string, *obj]()} }),
		heapStr("NewDesc[string,*obj]", "gen_ordereddesc.go", func() *heap[string] { return &heap[string]{m: skipmap.NewDesc[string, *obj]()} }),
		heapPtr("NewFunc[*hkey,*obj]", "gen_func.go", func() *heap[*hkey] {
			return &heap[*hkey]{m: skipmap.NewFunc[*hkey, *obj](func(a, b *hkey) bool {
				if a == nil || b == nil {
					return a == nil && b != nil
				}
				return a.k < b.k
			})}
		}),
	}
}
