// Package fastrand stands in for zhangyunhao116/fastrand: every draw is the
// scheduler's choice, so tower heights are inputs. A draw that means "one
// level more" yields 0, any other draw the largest number of the range.
package fastrand

import "skipmapverif/vs"

func u64(max uint64) uint64 {
	if vs.Free != nil { // draws are random
		if max+1 == 0 {
			return vs.Free()
		}
		return vs.Free() % (max + 1)
	}
	if vs.Draw() {
		return 0
	}
	return max
}

func Int() int                { return int(u64(uint64(^uint(0) >> 1))) }
func Int31() int32            { return int32(u64(1<<31 - 1)) }
func Int63() int64            { return int64(u64(1<<63 - 1)) }
func Int63n(n int64) int64    { return int64(u64(uint64(n - 1))) }
func Int31n(n int32) int32    { return int32(u64(uint64(n - 1))) }
func Intn(n int) int          { return int(u64(uint64(n - 1))) }
func Float64() float64        { return float64(u64(1<<53-1)) / (1 << 53) }
func Float32() float32        { return float32(u64(1<<24-1)) / (1 << 24) }
func Uintn(n uint) uint       { return uint(u64(uint64(n - 1))) }
func Uint32n(n uint32) uint32 { return uint32(u64(uint64(n - 1))) }
func Uint64n(n uint64) uint64 { return u64(n - 1) }
func Uint() uint              { return uint(u64(uint64(^uint(0)))) }
func Uint32() uint32          { return uint32(u64(1<<32 - 1)) }
func Uint64() uint64          { return u64(1<<64 - 1) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u64(255))
	}
	return len(p), nil
}
func Shuffle(n int, swap func(i, j int)) {}
func Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}
