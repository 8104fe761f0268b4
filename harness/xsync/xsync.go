// Package sync stands in for sync: locks are steps of the scheduler vs.
package sync

import (
	"sync"
	"unsafe"

	"skipmapverif/vs"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is a deterministic pool, emptied before each execution (and where the
// garbage collector runs).
type Pool struct {
	noCopy noCopy
	New    func() any
	items  []any
	known  bool
}

type noCopy struct{}

func (p *Pool) Put(x any) {
	vs.Point(vs.KUser, unsafe.Pointer(p), 0)
	if vs.Aborting() || x == nil {
		return
	}
	if !p.known {
		p.known = true
		vs.OnReset(func() { p.items = nil })
	}
	p.items = append(p.items, x)
	vs.Mark(vs.KPut, word(x), 0)
	vs.Wrote()
}

func (p *Pool) Get() any {
	vs.Point(vs.KUser, unsafe.Pointer(p), 0)
	if n := len(p.items); n > 0 && !vs.Aborting() {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		vs.Mark(vs.KGet, word(x), 0)
		vs.Wrote()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// word is the data word of an interface.
func word(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }

type Mutex struct{ held bool }

func (m *Mutex) CanLock(bool) bool { return !m.held }

func (m *Mutex) Lock() {
	vs.LockPoint(m, true, unsafe.Pointer(m))
	if vs.Aborting() {
		return
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	vs.Point(vs.KTryLock, unsafe.Pointer(m), 0)
	if m.held || vs.Aborting() {
		vs.Note(0, false)
		return false
	}
	m.held = true
	vs.Note(0, true)
	return true
}

func (m *Mutex) Unlock() {
	vs.Point(vs.KUnlock, unsafe.Pointer(m), 0)
	if vs.Aborting() {
		return
	}
	if !m.held {
		vs.Fail("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) CanLock(write bool) bool { return !m.w && (!write || m.r == 0) }
func (m *RWMutex) Lock() {
	vs.LockPoint(m, true, unsafe.Pointer(m))
	if vs.Aborting() {
		return
	}
	m.w = true
}
func (m *RWMutex) RLock() {
	vs.LockPoint(m, false, unsafe.Pointer(m))
	if vs.Aborting() {
		return
	}
	m.r++
}
func (m *RWMutex) TryLock() bool {
	vs.Point(vs.KTryLock, unsafe.Pointer(m), 0)
	if !m.CanLock(true) || vs.Aborting() {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	vs.Point(vs.KTryLock, unsafe.Pointer(m), 0)
	if !m.CanLock(false) || vs.Aborting() {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) Unlock() {
	vs.Point(vs.KUnlock, unsafe.Pointer(m), 0)
	if vs.Aborting() {
		return
	}
	if !m.w {
		vs.Fail("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RUnlock() {
	vs.Point(vs.KUnlock, unsafe.Pointer(m), 0)
	if vs.Aborting() {
		return
	}
	if m.r == 0 {
		vs.Fail("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
