// Package runtime stands in for runtime where code only yields.
package runtime

import (
	"runtime"

	"skipmapverif/vs"
)

const (
	GOARCH   = runtime.GOARCH
	GOOS     = runtime.GOOS
	Compiler = runtime.Compiler
)

type MemStats = runtime.MemStats

func Gosched()                    { vs.Point(vs.KUser, nil, 0) }
func GC()                         {}
func NumCPU() int                 { return runtime.NumCPU() }
func GOMAXPROCS(n int) int        { return runtime.GOMAXPROCS(0) }
func NumGoroutine() int           { return runtime.NumGoroutine() }
func KeepAlive(x any)             { runtime.KeepAlive(x) }
func SetFinalizer(obj, final any) { runtime.SetFinalizer(obj, final) }
func ReadMemStats(m *MemStats)    { runtime.ReadMemStats(m) }
