// Package maps gives every constructor of skipmap one shape: keys are codes
// rank + Rep*rep (the rank-th key of a pool in the map's order, in one of its
// equivalent representations), values are positive numbers.
package maps

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	skipmap "skipmapverif/impl"
)

// Rep separates rank and representation in a key code.
const Rep = 1 << 22

// API is a map of any key and value type seen through codes.
type API interface {
	Store(k, v int)
	Load(k int) (int, bool)
	Delete(k int) bool
	LoadAndDelete(k int) (int, bool)
	LoadOrStore(k, v int) (int, bool)
	LoadOrStoreLazy(k int, f func() int) (int, bool)
	Range(f func(k, v int) bool)
	Len() int
}

// Variant is one constructor with one value type.
type Variant struct {
	Name  string
	File  string
	Value string
	Reps  bool                         // some keys have several representations
	Max   int                          // largest pool, 0: any
	Canon func(v int) int              // the value code that comes back
	New   func(nk int, seed int64) API // a new map over a pool of nk keys
}

// RepsOf is the number of representations of the key of rank k.
func (v *Variant) RepsOf(m API, k int) int { return m.(interface{ reps(int) int }).reps(k) }

type smap[K, V any] interface {
	Store(K, V)
	Load(K) (V, bool)
	Delete(K) bool
	LoadAndDelete(K) (V, bool)
	LoadOrStore(K, V) (V, bool)
	LoadOrStoreLazy(K, func() V) (V, bool)
	Range(func(K, V) bool)
	Len() int
}

// Codec translates value codes.
type Codec[V any] struct {
	Name string
	Enc  func(int) V
	Dec  func(V) int
}

type ad[K, V any] struct {
	m    smap[K, V]
	pool [][]K
	same func(a, b K) bool
	c    *Codec[V]
}

func (a *ad[K, V]) to(k int) K {
	rank, rep := k%Rep, k/Rep
	p := a.pool[rank-1]
	return p[rep%len(p)]
}

// Layout chooses the keys of large pools: 0 random ones, otherwise keys a
// fixed distance apart.
var Layout int

func lattice[K any](nk int, key func(i int) K) [][]K {
	out := make([][]K, nk)
	for i := range out {
		out[i] = []K{key(i)}
	}
	return out
}

// Blind spares Range the search for the codes of keys.
var Blind bool

// from finds the code of a key handed back by the map, 0 if it is none of ours.
func (a *ad[K, V]) from(key K) int {
	if Blind {
		return 0
	}
	if len(a.pool) > 8 {
		if ks, ok := any(a.pool).([][]int); ok {
			k := any(key).(int)
			asc := len(ks) < 2 || ks[0][0] < ks[len(ks)-1][0]
			i := sort.Search(len(ks), func(i int) bool { return asc && ks[i][0] >= k || !asc && ks[i][0] <= k })
			if i < len(ks) && ks[i][0] == k {
				return i + 1
			}
			return 0
		}
	}
	for i, p := range a.pool {
		for j := range p {
			if a.same(p[j], key) {
				return i + 1 + j*Rep
			}
		}
	}
	return 0
}

func (a *ad[K, V]) val(v V, ok bool) (int, bool) {
	if !ok {
		var zero V
		if a.c.Dec(v) != a.c.Dec(zero) {
			return -1, false // absent, yet not the zero value
		}
		return 0, false
	}
	return a.c.Dec(v), true
}

func (a *ad[K, V]) Store(k, v int)                  { a.m.Store(a.to(k), a.c.Enc(v)) }
func (a *ad[K, V]) Load(k int) (int, bool)          { return a.val(a.m.Load(a.to(k))) }
func (a *ad[K, V]) Delete(k int) bool               { return a.m.Delete(a.to(k)) }
func (a *ad[K, V]) LoadAndDelete(k int) (int, bool) { return a.val(a.m.LoadAndDelete(a.to(k))) }
func (a *ad[K, V]) LoadOrStore(k, v int) (int, bool) {
	x, ok := a.m.LoadOrStore(a.to(k), a.c.Enc(v))
	return a.c.Dec(x), ok
}
func (a *ad[K, V]) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	x, ok := a.m.LoadOrStoreLazy(a.to(k), func() V { return a.c.Enc(f()) })
	return a.c.Dec(x), ok
}
func (a *ad[K, V]) Range(f func(k, v int) bool) {
	a.m.Range(func(k K, v V) bool { return f(a.from(k), a.c.Dec(v)) })
}
func (a *ad[K, V]) Len() int { return a.m.Len() }

func (a *ad[K, V]) reps(k int) int { return len(a.pool[k-1]) }

func mk[K, V any](name, file string, c *Codec[V], ctor func() smap[K, V], pool func(nk int, rng *rand.Rand) [][]K, same func(a, b K) bool) Variant {
	probe := pool(3, rand.New(rand.NewSource(1)))
	reps := false
	for _, p := range probe {
		reps = reps || len(p) > 1
	}
	size := 0
	cache := map[any][][]K{}
	var zero K
	switch any(zero).(type) {
	case int8, uint8:
		size = 200
	}
	return Variant{Name: name, File: file, Value: c.Name, Reps: reps, Max: size, Canon: func(v int) int {
		if v == 0 {
			return 0
		}
		return c.Dec(c.Enc(v))
	}, New: func(nk int, seed int64) API {
		type at struct {
			nk   int
			seed int64
		}
		p, ok := cache[at{nk, seed}]
		if !ok {
			if len(cache) > 300 {
				clear(cache)
			}
			p = pool(nk, rand.New(rand.NewSource(seed)))
			for i, rs := range p { // drop representations that are the same key value
				n := 0
				for j := range rs {
					dup := false
					for _, r := range rs[:n] {
						dup = dup || same(r, rs[j])
					}
					if !dup {
						rs[n] = rs[j]
						n++
					}
				}
				p[i] = rs[:n]
			}
			cache[at{nk, seed}] = p
		}
		return &ad[K, V]{m: ctor(), pool: p, same: same, c: c}
	}}
}

// ------------------------------- key pools --------------------------------

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func pick[K any](nk int, rng *rand.Rand, special []K, less func(a, b K) bool, random func() K) []K {
	var ks []K
	has := func(k K) bool {
		for _, x := range ks {
			if !less(x, k) && !less(k, x) {
				return true
			}
		}
		return false
	}
	if nk > 64 { // large pools: sort and drop duplicates instead
		for len(ks) < nk {
			ks = append(ks, special...)
			for len(ks) < 2*nk {
				ks = append(ks, random())
			}
			sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
			n := 0
			for i := range ks {
				if i == 0 || less(ks[n-1], ks[i]) {
					ks[n] = ks[i]
					n++
				}
			}
			ks = ks[:n]
		}
		drop := map[int]bool{}
		for _, i := range rng.Perm(len(ks))[:len(ks)-nk] {
			drop[i] = true
		}
		n := 0
		for i, k := range ks {
			if !drop[i] {
				ks[n] = k
				n++
			}
		}
		return ks[:n]
	}
	perm := rng.Perm(len(special))
	for _, i := range perm {
		if len(ks) < nk && rng.Intn(4) > 0 {
			if !has(special[i]) {
				ks = append(ks, special[i])
			}
		}
	}
	for len(ks) < nk {
		if k := random(); !has(k) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	return ks
}

func single[K any](ks []K) [][]K {
	out := make([][]K, len(ks))
	for i, k := range ks {
		out[i] = []K{k}
	}
	return out
}

func reverse[K any](p [][]K) [][]K {
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func ints[K integer](desc bool) func(int, *rand.Rand) [][]K {
	return func(nk int, rng *rand.Rand) [][]K {
		if nk > 64 && Layout > 0 {
			step := []int{1, 4096, 48}[Layout-1]
			ks := lattice(nk, func(i int) K { return K(1 + i*step) })
			if desc {
				reverse(ks)
			}
			return ks
		}
		var zero K
		min, max := zero, zero-1
		if max < 0 { // signed
			min = K(1)
			for min<<1 != 0 {
				min <<= 1
			}
			max = min - 1
		}
		var half K = max/2 + 1
		sp := []K{min, min + 1, max, max - 1, 0, 1, 2, 3, 100, zero - 1, zero - 2, half, half - 1, half + 1, max / 3}
		ks := single(pick(nk, rng, sp, func(a, b K) bool { return a < b }, func() K {
			k := K(rng.Uint64())
			if rng.Intn(2) == 0 {
				k %= 50
			}
			return k
		}))
		if desc {
			reverse(ks)
		}
		return ks
	}
}

func strs[K ~string](desc bool) func(int, *rand.Rand) [][]K {
	sp := []K{"", "\x00", "\x00\x00", "a", "a\x00", "aa", "ab", "b", "A", "0", "\xff", "\xff\xff", "\xc3\x28", "ä", "世界", "abcdefgh", "abcdefghi", "abcdefgg", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", " "}
	return func(nk int, rng *rand.Rand) [][]K {
		if nk > 64 && Layout > 0 {
			f := []string{"%07d", "user/%07d/profile", "%07d000000"}[Layout-1]
			ks := lattice(nk, func(i int) K { return K(fmt.Sprintf(f, i)) })
			if desc {
				reverse(ks)
			}
			return ks
		}
		ks := single(pick(nk, rng, sp, func(a, b K) bool { return a < b }, func() K {
			b := make([]byte, rng.Intn(12))
			for i := range b {
				b[i] = byte("ab\x00\xffz"[rng.Intn(5)])
			}
			return K(b)
		}))
		if desc {
			reverse(ks)
		}
		return ks
	}
}

type float interface{ ~float32 | ~float64 }

func bits32(b uint32) float64 { return float64(math.Float32frombits(b)) }

// floats: NaN (of several payloads and signs) is the first key in both
// directions, the two zeros are one key.
func floats[K float](desc bool) func(int, *rand.Rand) [][]K {
	negZero := K(math.Copysign(0, -1))
	is32 := K(1)+K(1e-10) == K(1)
	tiny, huge := K(math.SmallestNonzeroFloat64), K(0)
	if is32 {
		tiny, huge = K(math.SmallestNonzeroFloat32), K(math.MaxFloat32)
	} else {
		h := math.MaxFloat64
		huge = K(h)
	}
	inf := K(math.Inf(1))
	sp := []K{-inf, -huge, -1.5, -1, -tiny, 0, tiny, 1, 1.5, 2, huge, inf, 1e10, 1 + 1e-6}
	return func(nk int, rng *rand.Rand) [][]K {
		n := nk
		nan := rng.Intn(3) > 0
		if nan {
			n--
		}
		ks := single(pick(n, rng, sp, func(a, b K) bool { return a < b }, func() K { return K(rng.NormFloat64()) }))
		for i := range ks {
			if ks[i][0] == 0 {
				ks[i] = []K{0, negZero}
			}
		}
		if desc {
			reverse(ks)
		}
		if nan {
			nans := []K{K(math.NaN()), K(math.Float64frombits(0xfff8000000000000)), K(math.Float64frombits(0x7ff8000000000123))}
			ks = append([][]K{nans}, ks...)
		}
		return ks
	}
}

func eq[K comparable](a, b K) bool { return a == b }

func eqFloat[K float](a, b K) bool {
	if a != a || b != b {
		if a == a || b == b {
			return false
		}
	}
	return math.Float64bits(float64(a)) == math.Float64bits(float64(b))
}

// FK is a key of NewFunc maps: ordered by A only.
type FK struct{ A, Tag int }

// Less counts the comparisons of the keys of NewFunc maps.
var Less int

func fks(nk int, rng *rand.Rand) [][]FK {
	var out [][]FK
	for _, a := range ints[int](false)(nk, rng) {
		out = append(out, []FK{{a[0], 0}, {a[0], 1}, {a[0], 2}})
	}
	return out
}

// strings compared without regard to ASCII case, longest first
func foldLess(a, b string) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i]|0x20, b[i]|0x20
		if x != y {
			return x < y
		}
	}
	return false
}

func foldKeys(nk int, rng *rand.Rand) [][]string {
	ks := pick(nk, rng, []string{"A", "b", "ab", "", "Zz", "abc"}, foldLess, func() string {
		b := make([]byte, rng.Intn(9))
		for i := range b {
			b[i] = byte('A' + rng.Intn(4))
		}
		return string(b)
	})
	out := make([][]string, len(ks))
	for i, k := range ks {
		out[i] = []string{k}
		l := []byte(k)
		for j := range l {
			l[j] |= 0x20
		}
		if string(l) != k {
			out[i] = append(out[i], string(l))
		} else if len(k) > 0 {
			for j := range l {
				l[j] &^= 0x20
			}
			out[i] = append(out[i], string(l))
		}
	}
	return out
}

type (
	myInt    int
	myString string
	myFloat  float64
)

// Typed lists the constructors of one concrete type each.
func Typed[V any](c *Codec[V]) []Variant {
	return []Variant{
		mk("NewInt", "gen_int.go", c, func() smap[int, V] { return skipmap.NewInt[V]() }, ints[int](false), eq[int]),
		mk("NewIntDesc", "gen_intdesc.go", c, func() smap[int, V] { return skipmap.NewIntDesc[V]() }, ints[int](true), eq[int]),
		mk("NewInt64", "gen_int64.go", c, func() smap[int64, V] { return skipmap.NewInt64[V]() }, ints[int64](false), eq[int64]),
		mk("NewInt64Desc", "gen_int64desc.go", c, func() smap[int64, V] { return skipmap.NewInt64Desc[V]() }, ints[int64](true), eq[int64]),
		mk("NewInt32", "gen_int32.go", c, func() smap[int32, V] { return skipmap.NewInt32[V]() }, ints[int32](false), eq[int32]),
		mk("NewInt32Desc", "gen_int32desc.go", c, func() smap[int32, V] { return skipmap.NewInt32Desc[V]() }, ints[int32](true), eq[int32]),
		mk("NewUint64", "gen_uint64.go", c, func() smap[uint64, V] { return skipmap.NewUint64[V]() }, ints[uint64](false), eq[uint64]),
		mk("NewUint64Desc", "gen_uint64desc.go", c, func() smap[uint64, V] { return skipmap.NewUint64Desc[V]() }, ints[uint64](true), eq[uint64]),
		mk("NewUint32", "gen_uint32.go", c, func() smap[uint32, V] { return skipmap.NewUint32[V]() }, ints[uint32](false), eq[uint32]),
		mk("NewUint32Desc", "gen_uint32desc.go", c, func() smap[uint32, V] { return skipmap.NewUint32Desc[V]() }, ints[uint32](true), eq[uint32]),
		mk("NewUint", "gen_uint.go", c, func() smap[uint, V] { return skipmap.NewUint[V]() }, ints[uint](false), eq[uint]),
		mk("NewUintDesc", "gen_uintdesc.go", c, func() smap[uint, V] { return skipmap.NewUintDesc[V]() }, ints[uint](true), eq[uint]),
		mk("NewString", "gen_string.go", c, func() smap[string, V] { return skipmap.NewString[V]() }, strs[string](false), eq[string]),
		mk("NewStringDesc", "gen_stringdesc.go", c, func() smap[string, V] { return skipmap.NewStringDesc[V]() }, strs[string](true), eq[string]),
	}
}

// Generic lists the generic constructors with typical key types.
func Generic[V any](c *Codec[V]) []Variant {
	return []Variant{
		mk("New[int]", "gen_ordered.go", c, func() smap[int, V] { return skipmap.New[int, V]() }, ints[int](false), eq[int]),
		mk("NewDesc[string]", "gen_ordereddesc.go", c, func() smap[string, V] { return skipmap.NewDesc[string, V]() }, strs[string](true), eq[string]),
		mk("NewFunc[FK]", "gen_func.go", c, func() smap[FK, V] { return skipmap.NewFunc[FK, V](func(a, b FK) bool { Less++; return a.A < b.A }) }, fks, eq[FK]),
	}
}

// Floats lists the constructors whose keys may be NaN.
func Floats[V any](c *Codec[V]) []Variant {
	return []Variant{
		mk("NewFloat64", "gen_func.go", c, func() smap[float64, V] { return skipmap.NewFloat64[V]() }, floats[float64](false), eqFloat[float64]),
		mk("NewFloat64Desc", "gen_func.go", c, func() smap[float64, V] { return skipmap.NewFloat64Desc[V]() }, floats[float64](true), eqFloat[float64]),
		mk("NewFloat32", "gen_func.go", c, func() smap[float32, V] { return skipmap.NewFloat32[V]() }, floats[float32](false), eqFloat[float32]),
		mk("NewFloat32Desc", "gen_func.go", c, func() smap[float32, V] { return skipmap.NewFloat32Desc[V]() }, floats[float32](true), eqFloat[float32]),
		mk("New[float64]", "gen_ordered.go", c, func() smap[float64, V] { return skipmap.New[float64, V]() }, floats[float64](false), eqFloat[float64]),
		mk("NewDesc[float64]", "gen_ordereddesc.go", c, func() smap[float64, V] { return skipmap.NewDesc[float64, V]() }, floats[float64](true), eqFloat[float64]),
		mk("New[float32]", "gen_ordered.go", c, func() smap[float32, V] { return skipmap.New[float32, V]() }, floats[float32](false), eqFloat[float32]),
		mk("NewDesc[myFloat]", "gen_ordereddesc.go", c, func() smap[myFloat, V] { return skipmap.NewDesc[myFloat, V]() }, floats[myFloat](true), eqFloat[myFloat]),
	}
}

// Others lists further instantiations of the generic constructors.
func Others[V any](c *Codec[V]) []Variant {
	return []Variant{
		mk("New[string]", "gen_ordered.go", c, func() smap[string, V] { return skipmap.New[string, V]() }, strs[string](false), eq[string]),
		mk("New[myString]", "gen_ordered.go", c, func() smap[myString, V] { return skipmap.New[myString, V]() }, strs[myString](false), eq[myString]),
		mk("NewDesc[int]", "gen_ordereddesc.go", c, func() smap[int, V] { return skipmap.NewDesc[int, V]() }, ints[int](true), eq[int]),
		mk("NewDesc[myInt]", "gen_ordereddesc.go", c, func() smap[myInt, V] { return skipmap.NewDesc[myInt, V]() }, ints[myInt](true), eq[myInt]),
		mk("New[int8]", "gen_ordered.go", c, func() smap[int8, V] { return skipmap.New[int8, V]() }, ints[int8](false), eq[int8]),
		mk("NewDesc[uint8]", "gen_ordereddesc.go", c, func() smap[uint8, V] { return skipmap.NewDesc[uint8, V]() }, ints[uint8](true), eq[uint8]),
		mk("New[int16]", "gen_ordered.go", c, func() smap[int16, V] { return skipmap.New[int16, V]() }, ints[int16](false), eq[int16]),
		mk("NewDesc[uint16]", "gen_ordereddesc.go", c, func() smap[uint16, V] { return skipmap.NewDesc[uint16, V]() }, ints[uint16](true), eq[uint16]),
		mk("New[uintptr]", "gen_ordered.go", c, func() smap[uintptr, V] { return skipmap.New[uintptr, V]() }, ints[uintptr](false), eq[uintptr]),
		mk("New[uint64]", "gen_ordered.go", c, func() smap[uint64, V] { return skipmap.New[uint64, V]() }, ints[uint64](false), eq[uint64]),
		mk("NewFunc[fold]", "gen_func.go", c, func() smap[string, V] { return skipmap.NewFunc[string, V](foldLess) }, foldKeys, eq[string]),
		mk("NewFunc[rev]", "gen_func.go", c, func() smap[int32, V] { return skipmap.NewFunc[int32, V](func(a, b int32) bool { return a > b }) }, ints[int32](true), eq[int32]),
	}
}

// ------------------------------- value types -------------------------------

var Ints = &Codec[int]{"int", func(i int) int { return i }, func(v int) int { return v }}

type Big struct {
	A [9]int
	S string
}

var (
	big = &Codec[Big]{"struct", func(i int) Big {
		b := Big{S: string(rune('a' + i%26))}
		for j := range b.A {
			b.A[j] = i * (j + 1)
		}
		return b
	}, func(b Big) int {
		for j := range b.A {
			if b.A[j] != b.A[0]*(j+1) {
				return -1
			}
		}
		return b.A[0]
	}}
	anys = &Codec[any]{"any", func(i int) any {
		switch i % 4 {
		case 0:
			return i
		case 1:
			return string(rune(i))
		case 2:
			return &[1]int{i}
		}
		if i == 3 {
			return nil
		}
		return uint8(i)
	}, func(v any) int {
		switch x := v.(type) {
		case nil:
			return 3
		case int:
			return x
		case string:
			return int([]rune(x)[0])
		case *[1]int:
			return x[0]
		case uint8:
			return int(x)
		}
		return -1
	}}
	ptrs = &Codec[*int]{"*int", func(i int) *int {
		if i == 5 {
			return nil
		}
		return &i
	}, func(p *int) int {
		if p == nil {
			return 5
		}
		return *p
	}}
	bytes = &Codec[uint8]{"uint8", func(i int) uint8 { return uint8(i) }, func(v uint8) int { return int(v) }}
	empty = &Codec[struct{}]{"struct{}", func(i int) struct{} { return struct{}{} }, func(struct{}) int { return 1 }}
)

// Core is one instantiation per generated file, values int.
func Core() []Variant { return append(Typed(Ints), Generic(Ints)...) }

// All is every instantiation.
func All() []Variant {
	vs := append(Core(), Floats(Ints)...)
	vs = append(vs, Others(Ints)...)
	vs = append(vs, Generic(big)...)
	vs = append(vs, Generic(anys)...)
	vs = append(vs, Generic(ptrs)...)
	vs = append(vs, Generic(bytes)...)
	vs = append(vs, Generic(empty)...)
	vs = append(vs, Typed(anys)...)
	return vs
}
