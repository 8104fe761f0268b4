// Package vs runs a few threads one step at a time. A thread is a coroutine;
// every operation of the shim packages (xatomic, xsync, xrand is not one) on
// shared memory is one step: the thread announces the step (Point), gives
// control back to the scheduler and performs the step when it is resumed.
//
// Outside of a controlled execution (setup, sequential probes) the shims act
// directly; a lock that could only be taken by waiting forever, and a loop
// that never ends, end the call with a panic of type Stuck.
package vs

import (
	"fmt"
	"iter"
	"math/bits"
	"unsafe"
)

type Kind uint8

const (
	KNone Kind = iota
	KLoad
	KStore
	KCas
	KAdd
	KSwap
	KLock
	KUnlock
	KTryLock
	KUser
	KRead // plain accesses, and events of the harness: no steps
	KWrite
	KSpawn // Val: the thread
	KPut   // something goes into a pool
	KGet
)

var kindNames = [...]string{"none", "load", "store", "cas", "add", "swap", "lock", "unlock", "trylock", "user", "read", "write", "spawn", "put", "get"}

func (k Kind) String() string { return kindNames[k] }

// Lockable is a lock of xsync seen by the scheduler.
type Lockable interface{ CanLock(write bool) bool }

// Stuck is the panic value of a call that cannot finish.
type Stuck struct{ Why string }

func (s Stuck) Error() string { return "stuck: " + s.Why }

// abort unwinds the threads of an execution that is given up.
type abort struct{}

// IsAbort reports whether a recovered panic value is the scheduler's own.
func IsAbort(v any) bool { _, ok := v.(abort); return ok }

// StepRec is one performed step, kept when Sched.Record is set.
type StepRec struct {
	T    int
	K    Kind
	Addr unsafe.Pointer
	Size int
	Val  uint64
	OK   bool
	Site string
}

type Thread struct {
	ID     int
	next   func() (struct{}, bool)
	stop   func()
	yield  func(struct{}) bool
	Kind   Kind           // pending step
	Addr   unsafe.Pointer // its location
	size   int
	lock   Lockable // pending lock, if any
	wlock  bool
	done   bool
	spin   int    // steps since anyone changed memory
	OnStep func() // called once when the next step is performed
	draws  draws  // of the level generator
	Steps  int    // steps performed
}

// Sched is one execution.
type Sched struct {
	Threads  []*Thread
	Cur      *Thread
	Total    int
	Record   bool
	Races    bool // record plain accesses too
	Log      []StepRec
	aborting bool
	Writes   int
	Panic    any // panic that escaped a thread's body
	PanicT   int
}

// S is the current execution, nil outside of one.
var S *Sched

// Uncontrolled state: the level to draw, and a bound on the steps of a call.
var (
	soloDraws = draws{height: 1}
	SoloSteps int
	SoloMax   = 200000
	soloHold  = map[Lockable]int{}
)

// Free makes the draws of the level generator random if it is set.
var Free func() uint64

func cur() *Thread {
	if S == nil {
		return nil
	}
	return S.Cur
}

// Point announces a step and waits until the scheduler lets it happen.
func Point(k Kind, addr unsafe.Pointer, size int) {
	t := cur()
	if t == nil {
		solo()
		return
	}
	t.lock = nil
	t.pause(k, addr, size)
}

func solo() {
	SoloSteps++
	if SoloSteps > SoloMax {
		SoloSteps = 0
		panic(Stuck{"a call does not finish although nothing else runs"})
	}
}

// BeginSolo is called before each uncontrolled call.
func BeginSolo(level int) { SoloSteps = 0; soloDraws = draws{height: level} }

func (t *Thread) pause(k Kind, addr unsafe.Pointer, size int) {
	s := S
	if s.aborting {
		return
	}
	t.Kind, t.Addr, t.size = k, addr, size
	if !t.yield(struct{}{}) {
		s.aborting = true
		s.Cur = t
		panic(abort{})
	}
	t.Steps++
	t.spin++
	if s.Record {
		s.Log = append(s.Log, StepRec{T: t.ID, K: k, Addr: addr, Size: size})
	}
	if t.OnStep != nil {
		f := t.OnStep
		t.OnStep = nil
		f()
	}
}

// Note records the outcome of the step just performed.
func Note(val uint64, ok bool) {
	if S != nil && S.Record && len(S.Log) > 0 {
		l := &S.Log[len(S.Log)-1]
		l.Val, l.OK = val, ok
	}
}

// Wrote tells that the step changed shared memory (locks do not count).
func Wrote() {
	if S != nil {
		S.Writes++
		for _, t := range S.Threads {
			t.spin = 0
		}
	}
}

// LockPoint waits until l can be taken. In an uncontrolled call it panics if
// that can never happen.
func LockPoint(l Lockable, write bool, addr unsafe.Pointer) {
	t := cur()
	if t == nil {
		solo()
		if !l.CanLock(write) {
			panic(Stuck{"a lock is held although nothing else runs"})
		}
		return
	}
	t.lock, t.wlock = l, write
	t.pause(KLock, addr, 0)
	t.lock = nil
}

// Reset empties the pools of the code under test.
func Reset() {
	for _, f := range resets {
		f()
	}
}

var resets []func()

// OnReset registers what Reset does.
func OnReset(f func()) { resets = append(resets, f) }

func Aborting() bool { return S != nil && S.aborting }

// Fail ends the execution with a run-time error of the code under test.
func Fail(msg string) {
	if Aborting() {
		return
	}
	panic(fmt.Errorf("%s", msg))
}

// A draws hands out the towers of the nodes a call inserts: the first two have
// the height asked for, the later ones (of code that draws until it likes the
// outcome) follow the ruler sequence, in which every height comes up again and
// again.
type draws struct {
	height int // asked for
	n      int // towers finished
	got    int // levels of the current tower beyond the first
}

func (d *draws) draw() bool {
	want := d.height
	if d.n >= 2 {
		want = 1 + bits.TrailingZeros(uint(d.n-1))
	}
	if d.got+1 < want {
		d.got++
		return true
	}
	d.got = 0
	d.n++
	return false
}

// Draw is one draw of the level generator: true means one level more.
func Draw() bool {
	if t := cur(); t != nil {
		return t.draws.draw()
	}
	solo()
	return soloDraws.draw()
}

// SetLevel sets the height drawn by the current thread's next insertion.
func SetLevel(n int) {
	if t := cur(); t != nil {
		t.draws = draws{height: n}
		return
	}
	soloDraws = draws{height: n}
}

// SoloTowers is the number of towers drawn since BeginSolo.
func SoloTowers() int { return soloDraws.n }

// OnStep arranges for f to be called when the current thread performs its
// next step (immediately in an uncontrolled call).
func OnStep(f func()) {
	if t := cur(); t != nil {
		t.OnStep = f
		return
	}
	f()
}

// FlushOnStep calls a function given to OnStep that no step has triggered.
func FlushOnStep() {
	if t := cur(); t != nil && t.OnStep != nil {
		f := t.OnStep
		t.OnStep = nil
		f()
	}
}

// Spawn adds a thread to the execution.
func (s *Sched) Spawn(body func()) *Thread {
	t := &Thread{ID: len(s.Threads) + 1, draws: draws{height: 1}}
	s.Threads = append(s.Threads, t)
	seq := func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil && !IsAbort(r) && !s.aborting {
				s.Panic, s.PanicT = r, t.ID
			}
		}()
		body()
	}
	t.next, t.stop = iter.Pull(iter.Seq[struct{}](seq))
	return t
}

// Go is what a go statement of the code under test becomes.
func Go(f func()) {
	if S == nil || S.Cur == nil {
		f()
		return
	}
	if S.aborting {
		return
	}
	s, me := S, S.Cur
	t := s.Spawn(f)
	Mark(KSpawn, nil, uint64(t.ID))
	s.Resume(t)
	s.Cur = me
}

// Resume runs t up to its next step; false when it has finished.
func (s *Sched) Resume(t *Thread) bool {
	s.Cur = t
	s.Total++
	_, ok := t.next()
	s.Cur = nil
	if !ok {
		t.done = true
	}
	return ok
}

func (t *Thread) Done() bool { return t.done }
func (t *Thread) Spin() int  { return t.spin }
func (t *Thread) Enabled() bool {
	return !t.done && (t.lock == nil || t.lock.CanLock(t.wlock))
}

// Close ends the execution and unwinds unfinished threads.
func (s *Sched) Close() {
	s.aborting = true
	for _, t := range s.Threads {
		if !t.done {
			s.Cur = t
			t.stop()
			t.done = true
		}
	}
	s.Cur = nil
	S = nil
}

func access(k Kind, p unsafe.Pointer, n uintptr, site string) {
	if S == nil || !S.Races || S.Cur == nil || S.aborting || n == 0 {
		return
	}
	S.Log = append(S.Log, StepRec{T: S.Cur.ID, K: k, Addr: p, Size: int(n), Site: site})
}

// R tells of a plain read of *p.
func R[T any](p *T, site string) *T {
	if S != nil {
		access(KRead, unsafe.Pointer(p), unsafe.Sizeof(*p), site)
	}
	return p
}

// W tells of a plain write to *p.
func W[T any](p *T, site string) *T {
	if S != nil {
		access(KWrite, unsafe.Pointer(p), unsafe.Sizeof(*p), site)
	}
	return p
}

// New tells that *p has just been made.
func New[T any](p *T) *T {
	if S != nil {
		access(KWrite, unsafe.Pointer(p), unsafe.Sizeof(*p), "new")
	}
	return p
}

// Mark records an event that is not a step.
func Mark(k Kind, p unsafe.Pointer, val uint64) {
	if S != nil && S.Races && S.Cur != nil && !S.aborting {
		S.Log = append(S.Log, StepRec{T: S.Cur.ID, K: k, Addr: p, Size: 1, Val: val, OK: true})
	}
}
