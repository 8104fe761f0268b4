package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

// Event codes, the same numbers as in the specification (TraceMon).
const (
	eCall   = 1  // o kind k v
	eRet    = 2  // o ok v
	eVisit  = 3  // o k v, ok: the callback asked to stop
	eFunc   = 4  // the lazy function starts
	eGot    = 5  // the lazy function returns v
	eAbort  = 6  // the call ends with the panic of its callback
	eRaise  = 7  // the callback panics
	eStuck  = 8  // the call can never finish
	eCrash  = 9  // the call failed with a run-time error
	eSteps  = 10 // the call performed v steps of its own
	eRetain = 11 // the value v is alive
	eKeys   = 12 // v instances of key k are alive
)

var kindCode = map[string]int{"store": 1, "load": 2, "del": 3, "lad": 4, "los": 5, "lazy": 6, "range": 7, "len": 8}

// Ev is one observable event.
type Ev struct {
	E, O, Kind, K, V int
	OK               bool
	W                bool // the result is not looked at
	probe            bool
}

// Run is one execution of a scenario on a real map.
type Run struct {
	sc     *Scenario
	m      maps.API
	ev     []Ev
	ops    int
	kinds  []string // of op ids
	opT    []int    // of op ids: the thread (0: none)
	probe  bool
	sched  []int8
	steps  int
	stuck  bool
	why    string
	nextV  int
	races  bool
	picked int // decisions with more than one candidate
}

type userPanic struct{ o int }
type crashed struct{}

func (r *Run) log(e Ev) {
	if vs.Aborting() {
		return
	}
	e.probe = r.probe
	r.ev = append(r.ev, e)
}

func (r *Run) do(op *Op) (ok bool) {
	r.ops++
	id := r.ops
	r.kinds = append(r.kinds, op.Kind)
	boomed, called := false, false
	s := vs.S
	var t *vs.Thread
	start := 0
	if s != nil {
		t = s.Cur
		r.opT = append(r.opT, t.ID)
		vs.SetLevel(op.Lvl)
	} else {
		r.opT = append(r.opT, 0)
		vs.BeginSolo(op.Lvl)
	}
	vs.OnStep(func() {
		called = true
		if t != nil {
			start = t.Steps - 1
		}
		r.log(Ev{E: eCall, O: id, Kind: kindCode[op.Kind], K: op.K, V: op.V})
	})
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if vs.IsAbort(x) || vs.Aborting() {
			panic(x)
		}
		if !called {
			vs.FlushOnStep()
		}
		if u, is := x.(userPanic); is && u.o == id && boomed {
			r.log(Ev{E: eAbort, O: id})
			ok = true
			return
		}
		if _, is := x.(crashed); is {
			panic(x)
		}
		if st, is := x.(vs.Stuck); is {
			r.why = st.Why
			r.log(Ev{E: eStuck, O: id})
		} else {
			r.why = fmt.Sprint(x)
			r.log(Ev{E: eCrash, O: id})
		}
		panic(crashed{})
	}()
	nested := func(at int) {
		for i := range op.Nest {
			if op.Nest[i].At == at {
				r.do(&op.Nest[i].Op)
			}
		}
	}
	ret := Ev{E: eRet, O: id}
	if op.Kind == "store" || op.Kind == "los" {
		payload(vs.KWrite, op.V)
	}
	switch op.Kind {
	case "store":
		r.m.Store(op.K, op.V)
		ret.OK = true
	case "load":
		ret.V, ret.OK = r.m.Load(op.K)
	case "del":
		ret.OK = r.m.Delete(op.K)
	case "lad":
		ret.V, ret.OK = r.m.LoadAndDelete(op.K)
	case "los":
		ret.V, ret.OK = r.m.LoadOrStore(op.K, op.V)
	case "lazy":
		n := 0
		ret.V, ret.OK = r.m.LoadOrStoreLazy(op.K, func() int {
			r.log(Ev{E: eFunc, O: id})
			vs.Point(vs.KUser, nil, 0)
			n++
			nested(n)
			if op.Boom == n {
				boomed = true
				r.log(Ev{E: eRaise, O: id})
				panic(userPanic{id})
			}
			r.log(Ev{E: eGot, O: id, V: op.V})
			payload(vs.KWrite, op.V)
			return op.V
		})
	case "range":
		n := 0
		r.m.Range(func(k, v int) bool {
			n++
			stop := op.Stop == n
			payload(vs.KRead, v)
			r.log(Ev{E: eVisit, O: id, K: k, V: v, OK: stop})
			if n > 10*(r.sc.NK+50) {
				panic(vs.Stuck{Why: "Range visits keys without end"})
			}
			nested(n)
			if op.Boom == n {
				boomed = true
				r.log(Ev{E: eRaise, O: id})
				panic(userPanic{id})
			}
			return !stop
		})
		ret.OK = true
	case "len":
		ret.V, ret.OK = r.m.Len(), true
	}
	vs.FlushOnStep()
	if op.Kind != "len" {
		payload(vs.KRead, ret.V)
	}
	if t != nil && countSteps && (isReader(op.Kind) || mineOnly && t.ID == 1) {
		r.log(Ev{E: eSteps, O: id, V: t.Steps - start})
	}
	r.log(ret)
	return true
}

// mineOnly: the first thread has keys of its own (C18)
var countSteps, watchRaces, mineOnly bool

// Policy picks the next thread among cand; last is the one that ran before
// (0-based indices, -1 if none).
type Policy interface {
	Pick(r *Run, s *vs.Sched, cand []int, last int) int
}

const (
	fairAfter = 6000
	fairMax   = 60000
)

func spinLimit(sc *Scenario) int {
	n := 45
	for _, p := range sc.Prog {
		for i := range p {
			if p[i].Lvl > 5 {
				n = 160
			}
		}
	}
	for _, i := range sc.Init {
		if i.Lvl > 5 {
			n = 160
		}
	}
	return n
}

func newRun(sc *Scenario, v *maps.Variant) *Run {
	vs.Reset()
	r := &Run{sc: sc, m: v.New(sc.NK, sc.Seed), nextV: 50, races: watchRaces}
	return r
}

// setup fills the map; false if that already fails.
func (r *Run) setup() (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			r.why = "setup: " + fmt.Sprint(x)
			r.stuck = true
			ok = false
		}
	}()
	for _, in := range r.sc.Init {
		vs.BeginSolo(in.Lvl)
		r.m.Store(in.K, in.V)
	}
	return true
}

// concurrent runs the programs under p; true if every call returned.
func (r *Run) concurrent(p Policy, record bool) (bool, *vs.Sched) {
	s := &vs.Sched{Record: record, Races: record && r.races}
	vs.S = s
	defer s.Close()
	r.spawn(s)
	limit, patience, most := spinLimit(r.sc), fairAfter, fairMax
	if r.sc.Name == "crowd" {
		limit, patience, most = 20*(r.sc.NK+20), 10*patience, 10*most
	}
	last, fair := -1, 0
	var rr *rand.Rand // fair, but in no fixed rhythm: whoever waits by trying meets every moment
	burst := 0
	var cand, en []int
	for {
		cand, en = cand[:0], en[:0]
		all := true
		for i, t := range s.Threads {
			if t.Done() {
				continue
			}
			all = false
			if t.Enabled() {
				en = append(en, i)
				if t.Spin() < limit {
					cand = append(cand, i)
				}
			}
		}
		if all {
			break
		}
		if len(en) == 0 {
			r.stick("all goroutines wait for locks")
			return false, s
		}
		var pick int
		if len(cand) == 0 || s.Total > patience {
			if fair++; fair == 1 {
				rr = rand.New(rand.NewSource(1))
			}
			if fair > most {
				r.stick("goroutines keep running without getting anywhere")
				return false, s
			}
			if burst--; burst < 0 || last < 0 || !s.Threads[last].Enabled() {
				burst = []int{0, 0, 0, 1, 3, 10, 40}[rr.Intn(7)]
				pick = en[rr.Intn(len(en))]
			} else {
				pick = last
			}
		} else if len(cand) == 1 {
			pick = cand[0]
			p.Pick(r, s, cand, last)
		} else {
			pick = p.Pick(r, s, cand, last)
			if pick < 0 {
				return false, s // the policy ends the execution
			}
		}
		r.sched = append(r.sched, int8(pick))
		r.steps++
		last = pick
		s.Resume(s.Threads[pick])
		if s.Panic != nil {
			if _, is := s.Panic.(crashed); !is {
				panic(s.Panic) // a fault of the harness
			}
			return false, s
		}
	}
	return true, s
}

// stick logs that the running calls can never finish.
func (r *Run) stick(why string) {
	r.stuck = true
	r.why = why
	if vs.S != nil { // calls that wait at their first step have been made
		for _, t := range vs.S.Threads {
			if f := t.OnStep; f != nil && !t.Done() && !t.Enabled() {
				t.OnStep = nil
				f()
			}
		}
	}
	open := map[int]bool{}
	for _, e := range r.ev {
		switch e.E {
		case eCall:
			open[e.O] = true
		case eRet, eAbort, eCrash:
			delete(open, e.O)
		}
	}
	var ids []int
	for o := range open {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		r.log(Ev{E: eStuck, O: o})
	}
	if len(ids) == 0 { // stuck before the first step of a call
		r.log(Ev{E: eStuck, O: 0})
	}
}

// solo runs calls sequentially; false if one of them cannot finish.
func (r *Run) solo(ops []Op) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(crashed); !is {
				panic(x)
			}
			r.stuck = true
			ok = false
		}
	}()
	r.probe = true
	for i := range ops {
		r.do(&ops[i])
	}
	return true
}

func (r *Run) v() int { r.nextV++; return r.nextV }

func (r *Run) probeOps(kind string) []Op {
	var out []Op
	each := func(kind string, lvl int) {
		for k := 1; k <= r.sc.NK; k++ {
			o := Op{Kind: kind, K: k, Lvl: lvl}
			if kind == "store" || kind == "los" || kind == "lazy" {
				o.V = r.v()
				if lvl == 0 {
					o.Lvl = 1 + k%4
				}
			}
			out = append(out, o)
		}
	}
	one := func(kind string) { out = append(out, Op{Kind: kind}) }
	for _, w := range strings.Fields(kind) {
		switch w {
		case "range", "len":
			one(w)
		default:
			each(w, 0)
		}
	}
	return out
}

// ------------------------------- policies ---------------------------------

// pct follows a priority order of the threads, except that at given steps it
// switches to a given thread, which then has the highest priority.
type pct struct {
	order []int
	at    []int // ascending step numbers
	to    []int
	i     int
}

func (p *pct) Pick(r *Run, s *vs.Sched, cand []int, last int) int {
	n := r.steps
	for p.i < len(p.at) && p.at[p.i] <= n {
		t := p.to[p.i]
		p.i++
		no := make([]int, 0, len(p.order)+1)
		no = append(no, t)
		for _, o := range p.order {
			if o != t {
				no = append(no, o)
			}
		}
		p.order = no
	}
	if last >= 0 && !s.Threads[last].Done() && s.Threads[last].Enabled() && !has(cand, last) {
		// last runs in circles: everyone else first
		no := make([]int, 0, len(p.order))
		for _, o := range p.order {
			if o != last {
				no = append(no, o)
			}
		}
		p.order = append(no, last)
	}
	for _, o := range p.order {
		for _, c := range cand {
			if c == o {
				if len(cand) > 1 {
					r.picked++
				}
				return o
			}
		}
	}
	return cand[0] // a thread the code itself started
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// replay follows a recorded schedule, then the lowest thread.
type replay struct{ sched []int8 }

func (p *replay) Pick(r *Run, s *vs.Sched, cand []int, last int) int {
	if r.steps < len(p.sched) {
		w := int(p.sched[r.steps])
		for _, c := range cand {
			if c == w {
				return w
			}
		}
	}
	for _, c := range cand {
		if c == last {
			return c
		}
	}
	return cand[0]
}

// uniform picks at random, staying with the running thread most of the time.
type uniform struct {
	rng  *rand.Rand
	stay int
}

func (p *uniform) Pick(r *Run, s *vs.Sched, cand []int, last int) int {
	if p.rng.Intn(100) < p.stay {
		for _, c := range cand {
			if c == last {
				return c
			}
		}
	}
	return cand[p.rng.Intn(len(cand))]
}
