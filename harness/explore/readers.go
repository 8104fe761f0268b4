package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"weak"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

// ------------------------- readers never wait (C08) ------------------------

// stepCap is more than the specification lets a reader take (StepBound).
func stepCap(nk int) int { return 2 * 12 * (nk + 18) }

func isReader(kind string) bool { return kind == "load" || kind == "range" || kind == "len" }

// readers explores sc with its first thread reduced to reading calls:
// every other goroutine is suspended forever at every point of a schedule, and
// others make whole updates between the reader's steps.
func (x *explorer) readers(sc *Scenario, v *maps.Variant, budget int) {
	cp := *sc
	cp.Prog = append([][]Op(nil), sc.Prog...)
	var rd []Op
	for _, o := range sc.Prog[0] {
		if mineOnly || isReader(o.Kind) {
			o.Nest, o.Stop, o.Boom = nil, 0, 0
			rd = append(rd, o)
		}
	}
	if len(rd) == 0 {
		rd = []Op{{Kind: "range"}}
	}
	cp.Prog[0] = rd
	sc = &cp
	if x.prop == "C19" && !drawsAsExpected(v) {
		sc = sc.flat()
	}
	x.scen++
	n := len(sc.Prog)
	used := 0
	for _, o := range perms(n) {
		r := x.frozen(sc, v, &pct{order: o}, 1<<30)
		used++
		for at := 0; at <= len(r.sched) && used < budget/2 && !x.over(); at++ {
			x.frozen(sc, v, &pct{order: o}, at)
			used++
		}
	}
	for used < budget && !x.over() {
		used++
		if used%8 == 0 {
			x.pressed(sc, v, x.rng.Int63())
			used += 7
			continue
		}
		q := &pct{order: x.rng.Perm(n)}
		at := 0
		for k := x.rng.Intn(4); k >= 0; k-- {
			at += x.rng.Intn(14 << x.rng.Intn(3))
			q.at = append(q.at, at)
			q.to = append(q.to, x.rng.Intn(n))
		}
		x.frozen(sc, v, q, x.rng.Intn(40<<x.rng.Intn(3)))
	}
}

var expected = map[string]bool{}

// drawsAsExpected tells whether the towers of v have the heights asked for, as
// far as draws can tell: an insertion that asks for one level draws one tower.
func drawsAsExpected(v *maps.Variant) bool {
	ok, known := expected[v.Name]
	if !known {
		func() {
			defer func() { recover() }()
			r := newRun(&Scenario{NK: 1, Init: []InitNode{{1, 1, 1}}}, v)
			ok = r.setup() && vs.SoloTowers() == 1
		}()
		expected[v.Name] = ok
	}
	return ok
}

// alone suspends everybody but thread 0.
type alone struct {
	Policy
	at int
}

func (p *alone) Pick(r *Run, s *vs.Sched, cand []int, last int) int {
	if r.steps >= p.at {
		return -1
	}
	return p.Policy.Pick(r, s, cand, last)
}

// frozen runs sc under p for at steps and the reader alone from there.
func (x *explorer) frozen(sc *Scenario, v *maps.Variant, p Policy, at int) *Run {
	mode := fmt.Sprintf("reader-freeze:%d", at)
	x.current.Store(&Case{Sc: sc, Var: v.Name, Mode: mode, Prop: x.prop})
	r := newRun(sc, v)
	if r.setup() {
		r.freeze(p, at)
	}
	x.finish(sc, v, r, mode)
	return r
}

func (r *Run) freeze(p Policy, at int) {
	s := &vs.Sched{}
	vs.S = s
	defer s.Close()
	r.spawn(s)
	last := -1
	var cand []int
	for r.steps < at && !s.Threads[0].Done() {
		cand = cand[:0]
		for i, t := range s.Threads {
			if t.Enabled() && t.Spin() < 500 {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			break
		}
		last = p.Pick(r, s, cand, last)
		r.sched = append(r.sched, int8(last))
		r.steps++
		s.Resume(s.Threads[last])
		if s.Panic != nil {
			return
		}
	}
	t := s.Threads[0]
	limit := t.Steps + stepCap(r.sc.NK)*len(r.sc.Prog[0])
	for !t.Done() {
		if !t.Enabled() {
			r.stick("a reader waits for a suspended goroutine")
			return
		}
		if t.Steps > limit {
			r.stick("a reader keeps running while all others are suspended")
			return
		}
		s.Resume(t)
		if s.Panic != nil {
			return
		}
	}
}

func (r *Run) spawn(s *vs.Sched) {
	for i := range r.sc.Prog {
		prog := r.sc.Prog[i]
		s.Spawn(func() {
			for j := range prog {
				r.do(&prog[j])
			}
		})
	}
	for i := 0; i < len(s.Threads); i++ {
		s.Resume(s.Threads[i])
	}
}

// pressed runs the reader while another goroutine completes updates between
// any two of its steps.
func (x *explorer) pressed(sc *Scenario, v *maps.Variant, seed int64) {
	mode := fmt.Sprintf("reader-press:%d", seed)
	x.current.Store(&Case{Sc: sc, Var: v.Name, Mode: mode, Prop: x.prop})
	r := newRun(sc, v)
	if r.setup() {
		r.press(seed)
	}
	x.finish(sc, v, r, mode)
}

func (r *Run) press(seed int64) {
	rng := rand.New(rand.NewSource(seed))
	s := &vs.Sched{}
	vs.S = s
	defer s.Close()
	rd := s.Spawn(func() {
		for j := range r.sc.Prog[0] {
			r.do(&r.sc.Prog[0][j])
		}
	})
	opsDone, quit := 0, false
	nk := r.sc.NK
	focus := 1 + rng.Intn(nk)
	mode := rng.Intn(4)
	// steady: one update every so many steps, and nothing ever changes in that
	steady := rng.Intn(2) == 0
	var others []int // keys the reader does not look up
	if steady {
		mode = rng.Intn(6)
		for k := 1; k <= nk; k++ {
			mine := false
			for _, o := range r.sc.Prog[0] {
				mine = mine || o.K == k
			}
			if !mine {
				others = append(others, k)
			}
		}
		if len(others) == 0 {
			others = []int{focus}
		}
		if rng.Intn(2) == 0 {
			focus = others[rng.Intn(len(others))]
		}
	}
	all := make([]int, nk)
	for i := range all {
		all[i] = 1 + i
	}
	if mineOnly { // the others have keys of their own
		all = all[:0]
		for k := 1; k <= nk; k++ {
			if k != r.sc.Prog[0][0].K && len(r.sc.Others) == 0 {
				all = append(all, k)
			}
		}
		if all = append(all, r.sc.Others...); len(all) == 0 {
			return
		}
		others, focus = all, all[rng.Intn(len(all))]
	}
	step := 0
	next := func() (string, int) {
		step++
		k := focus
		if rng.Intn(5) == 0 {
			k = all[rng.Intn(len(all))]
		}
		switch mode {
		case 0: // keep replacing one mapping
			return []string{"del", "store"}[step%2], focus
		case 1: // keep overwriting
			return "store", k
		case 2:
			return []string{"del", "store", "lad", "los"}[step%4], k
		case 4: // fill the map and empty it again
			i := step % (2 * len(others))
			return []string{"store", "del"}[i/len(others)], others[i%len(others)]
		case 5:
			i := step % (2 * len(all))
			return []string{"los", "lad"}[i/len(all)], all[i%len(all)]
		}
		return updK[rng.Intn(len(updK))], all[rng.Intn(len(all))]
	}
	adv := s.Spawn(func() {
		for !quit {
			kind, k := next()
			if len(r.sc.Others) > 0 {
				vs.SetLevel(r.sc.Prog[0][0].Lvl) // no more than the first thread's
			} else {
				vs.SetLevel([]int{1, 1, 2, 3, 4, 5}[rng.Intn(6)])
			}
			switch kind {
			case "store":
				r.m.Store(k, 60+step%60)
			case "los":
				r.m.LoadOrStore(k, 60+step%60)
			case "lazy":
				r.m.LoadOrStoreLazy(k, func() int { return 60 + step%60 })
			case "del":
				r.m.Delete(k)
			case "lad":
				r.m.LoadAndDelete(k)
			}
			opsDone++
		}
	})
	s.Resume(rd)
	s.Resume(adv)
	gap := 1 + rng.Intn(3)
	if steady {
		gap = 1 + rng.Intn(16)
	}
	limit := stepCap(nk)
	start, open := 0, 0
	for !rd.Done() {
		// whole updates by the other goroutine
		want := opsDone + 1
		if !steady {
			want += rng.Intn(2)
		}
		for n := 0; opsDone < want && !adv.Done() && adv.Enabled() && n < 600; n++ {
			s.Resume(adv)
			if s.Panic != nil {
				return
			}
		}
		for i := 0; i < gap && !rd.Done(); i++ {
			if !rd.Enabled() { // let the lock's holder go on
				break
			}
			s.Resume(rd)
			if s.Panic != nil {
				return
			}
		}
		if !steady && rng.Intn(20) == 0 {
			gap = 1 + rng.Intn(3)
		}
		if !steady && rng.Intn(40) == 0 {
			mode, focus = rng.Intn(4), all[rng.Intn(len(all))]
		}
		// how long has the current call been running
		if n := len(r.ev); n > 0 {
			last := 0
			for i := n - 1; i >= 0; i-- {
				if r.ev[i].E == eCall {
					last = r.ev[i].O
					break
				}
				if r.ev[i].E == eRet {
					break
				}
			}
			if last == 0 || last != open {
				open, start = last, rd.Steps
			} else if rd.Steps-start > limit {
				r.why = "a reader keeps running while others update the map"
				r.log(Ev{E: eSteps, O: open, V: rd.Steps - start})
				return
			}
		}
		if rd.Steps == 0 && !rd.Enabled() && !adv.Enabled() {
			return
		}
		if !rd.Enabled() && !adv.Enabled() {
			r.stick("a reader waits for a lock")
			return
		}
	}
	quit = true
}

func (x *explorer) replayReader(c *Case, v *maps.Variant) {
	kind, arg, _ := strings.Cut(strings.TrimPrefix(c.Mode, "reader-"), ":")
	var n int64
	fmt.Sscan(arg, &n)
	if kind == "press" {
		x.pressed(c.Sc, v, n)
		return
	}
	x.frozen(c.Sc, v, &replay{c.Sched}, len(c.Sched))
}

// ----------------------- nothing is retained (C13) -------------------------

type obj struct {
	code int
	pad  [5]int
}

// tracker knows every value object and key instance given to one map.
type tracker struct {
	vals map[int][]weak.Pointer[obj]
	keys map[int][]func() bool
}

// heap is a map of freshly allocated keys and values.
type heap[K any] struct {
	*tracker
	m interface {
		Store(K, *obj)
		Load(K) (*obj, bool)
		Delete(K) bool
		LoadAndDelete(K) (*obj, bool)
		LoadOrStore(K, *obj) (*obj, bool)
		LoadOrStoreLazy(K, func() *obj) (*obj, bool)
		Range(func(K, *obj) bool)
		Len() int
	}
	key   func(k int) K
	alive func(K) func() bool
	rank  func(K) int
}

func (h *heap[K]) k(k int) K {
	x := h.key(k)
	if h.alive != nil {
		h.keys[k] = append(h.keys[k], h.alive(x))
	}
	return x
}

func (h *heap[K]) v(v int) *obj {
	o := &obj{code: v}
	h.vals[v] = append(h.vals[v], weak.Make(o))
	return o
}

func code(o *obj, ok bool) (int, bool) {
	if o == nil {
		return 0, ok
	}
	return o.code, ok
}

func (h *heap[K]) Store(k, v int)                   { h.m.Store(h.k(k), h.v(v)) }
func (h *heap[K]) Load(k int) (int, bool)           { return code(h.m.Load(h.k(k))) }
func (h *heap[K]) Delete(k int) bool                { return h.m.Delete(h.k(k)) }
func (h *heap[K]) LoadAndDelete(k int) (int, bool)  { return code(h.m.LoadAndDelete(h.k(k))) }
func (h *heap[K]) LoadOrStore(k, v int) (int, bool) { return code(h.m.LoadOrStore(h.k(k), h.v(v))) }
func (h *heap[K]) LoadOrStoreLazy(k int, f func() int) (int, bool) {
	return code(h.m.LoadOrStoreLazy(h.k(k), func() *obj { return h.v(f()) }))
}
func (h *heap[K]) Range(f func(k, v int) bool) {
	h.m.Range(func(k K, o *obj) bool { v, _ := code(o, true); return f(h.rank(k), v) })
}
func (h *heap[K]) Len() int { return h.m.Len() }

// retained tells what is alive; the garbage collector must have run.
func (t *tracker) retained(nk int) []Ev {
	var out []Ev
	for v := 1; v < 300; v++ {
		for _, w := range t.vals[v] {
			if w.Value() != nil {
				out = append(out, Ev{E: eRetain, V: v})
				break
			}
		}
	}
	for k := 1; k <= nk; k++ {
		n := 0
		for _, f := range t.keys[k] {
			if f() {
				n++
			}
		}
		if n > 0 {
			out = append(out, Ev{E: eKeys, K: k, V: n})
		}
	}
	return out
}

type held struct {
	sc *Scenario
	v  *maps.Variant
	r  *Run
}

func (x *explorer) retention(sc *Scenario, v *maps.Variant, budget int) {
	x.scenario(sc, v, budget)
}

// keep holds a finished execution until the next collection.
func (x *explorer) keep(sc *Scenario, v *maps.Variant, r *Run) {
	x.held = append(x.held, held{sc, v, r})
	if len(x.held) >= 250 {
		x.collect()
	}
}

func (x *explorer) collect() {
	vs.Reset()
	runtime.GC()
	runtime.GC()
	for _, h := range x.held {
		t := h.r.m.(interface{ tr() *tracker }).tr()
		for _, e := range t.retained(h.sc.NK) {
			e.probe = true
			h.r.ev = append(h.r.ev, e)
		}
		runtime.KeepAlive(h.r.m)
		x.finish(h.sc, h.v, h.r, "retain")
	}
	x.held = x.held[:0]
}

func (t *tracker) tr() *tracker { return t }

func newTracker() *tracker {
	return &tracker{map[int][]weak.Pointer[obj]{}, map[int][]func() bool{}}
}

func (x *explorer) replayRetention(c *Case, v *maps.Variant) {
	r := newRun(c.Sc, v)
	done := r.setup()
	if done {
		done, _ = r.concurrent(&replay{c.Sched}, false)
	}
	if done && x.pl.probe != "" {
		r.solo(r.probeOps(x.pl.probe))
	}
	if done {
		x.keep(c.Sc, v, r)
		x.collect()
		return
	}
	x.finish(c.Sc, v, r, "retain")
}
