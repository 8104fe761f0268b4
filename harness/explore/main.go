// Command explore runs scenarios on the real maps under controlled schedules
// and writes the distinct histories it sees. It judges nothing: the histories
// are judged by the specification (spec/TraceMon.tla).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

// Case is one history with what is needed to see it again.
type Case struct {
	Hist  json.RawMessage `json:"h"`
	Sc    *Scenario       `json:"sc"`
	Var   string          `json:"var"`
	Sched []int8          `json:"sched"`
	Mode  string          `json:"mode,omitempty"`
	Why   string          `json:"why,omitempty"`
	Prop  string          `json:"prop"`
	Sus   bool            `json:"sus,omitempty"`   // ask the specification first
	First bool            `json:"first,omitempty"` // likewise
	Calls int             `json:"calls,omitempty"` // without those that probe the result
	Sites []string        `json:"sites,omitempty"`
}

type explorer struct {
	prop     string
	pl       *plan
	rng      *rand.Rand
	seen     map[uint64]struct{}
	out      *bufio.Writer
	distinct int
	suspects int
	unknown  int
	events   int // in the other histories written
	maxev    int
	execs    int64
	steps    int64
	scen     int
	byVar    map[string]int64
	deadline time.Time
	preempt  [8]int64
	current  atomic.Value // *Case, for the watchdog
	held     []held
	crowds   int
	most     int // crowds at most
}

var progress atomic.Int64

func (x *explorer) over() bool {
	return time.Now().After(x.deadline) || x.suspects > 3000
}

// one performs a single execution and hands its history over.
func (x *explorer) one(sc *Scenario, v *maps.Variant, p Policy, mode string) *Run {
	x.current.Store(&Case{Sc: sc, Var: v.Name, Mode: mode, Prop: x.prop})
	r := newRun(sc, v)
	done := r.setup()
	var s *vs.Sched
	if done {
		done, s = r.concurrent(p, x.prop == "C16")
	}
	if x.prop == "C16" {
		x.races(sc, v, r, s)
		return r
	}
	if done && x.pl.probe != "" {
		r.solo(r.probeOps(x.pl.probe))
	}
	if x.prop == "C13" && done {
		x.keep(sc, v, r)
	} else {
		x.finish(sc, v, r, mode)
	}
	return r
}

func (x *explorer) finish(sc *Scenario, v *maps.Variant, r *Run, mode string) {
	progress.Add(1)
	x.execs++
	x.steps += int64(r.steps)
	x.byVar[v.Name]++
	evs := project(x.prop, r)
	if evs == nil {
		return
	}
	if !perKey[x.prop] {
		x.emit(sc, v, r, mode, evs, sc.Init, sc.NK)
		return
	}
	// The keys of a map are independent as far as point operations go, and
	// linearizability is local: one history per key.
	for k := 1; k <= sc.NK; k++ {
		mine := map[int]bool{}
		var sub []Ev
		touched := false
		for _, e := range evs {
			if e.E == eCall && e.K == k {
				mine[e.O] = true
				touched = touched || !e.probe
			}
			if mine[e.O] || e.E == eKeys && e.K == k || e.E == eRetain && offered(sub, sc.Init, k, e.V) {
				if e.K != 0 {
					e.K = 1
				}
				sub = append(sub, e)
			}
		}
		if !touched && x.prop != "C13" {
			continue
		}
		var init []InitNode
		for _, in := range sc.Init {
			if in.K == k {
				in.K = 1
				init = append(init, in)
			}
		}
		x.emit(sc, v, r, mode, sub, init, 1)
	}
}

var perKey = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C13": true}

// offered tells whether v is a value some call offered for key k.
func offered(evs []Ev, init []InitNode, k, v int) bool {
	for _, in := range init {
		if in.K == k && in.V == v {
			return true
		}
	}
	for _, e := range evs {
		if e.E == eCall && e.V == v {
			return true
		}
	}
	return false
}

func (x *explorer) emit(sc *Scenario, v *maps.Variant, r *Run, mode string, evs []Ev, init []InitNode, nk int) {
	m0, evs := normal(evs, init, nk)
	if sc.Name == "crowd" && nk > 1 && vague(evs) {
		return
	}
	h := hash(nk, m0, evs)
	if _, ok := x.seen[h]; ok {
		return
	}
	x.seen[h] = struct{}{}
	x.distinct++
	sus, known := suspicious(nk, m0, evs)
	if sus {
		x.suspects++
		if x.suspects > 3000 {
			return
		}
	} else {
		x.events += len(evs)
		if x.events > x.maxev {
			return
		}
	}
	if !known {
		x.unknown++
	}
	c := Case{Sus: sus, First: sc.Name == "crowd" && !known, Calls: calls(evs), Hist: encode(nk, m0, evs), Sc: sc, Var: v.Name, Sched: r.sched, Mode: mode, Why: r.why, Prop: x.prop}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	x.out.Write(b)
	x.out.WriteByte('\n')
}

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// scenario explores schedules of sc: every order of the threads, every single
// preemption of those, then two and more preemptions, all of them if they fit
// into the budget and a random selection otherwise.
func (x *explorer) scenario(sc *Scenario, v *maps.Variant, budget int) {
	x.scen++
	n := len(sc.Prog)
	used := 0
	if len(sc.Sched) > 0 {
		s := make([]int8, len(sc.Sched))
		for i, t := range sc.Sched {
			s[i] = int8(t)
		}
		x.one(sc, v, &replay{s}, "")
		used++
	}
	type base struct {
		order []int
		sched []int8
	}
	var bases []base
	for _, o := range perms(n) {
		r := x.one(sc, v, &pct{order: o}, "")
		used++
		bases = append(bases, base{o, append([]int8(nil), r.sched...)})
	}
	if n == 1 {
		return
	}
	type pre struct {
		b     int
		at    int
		to    int
		sched []int8
	}
	var ones []pre
	for b, bs := range bases {
		for i := 0; i < len(bs.sched); i++ {
			for t := 0; t < n; t++ {
				if int(bs.sched[i]) != t {
					ones = append(ones, pre{b: b, at: i, to: t})
				}
			}
		}
	}
	x.rng.Shuffle(len(ones), func(i, j int) { ones[i], ones[j] = ones[j], ones[i] })
	limit1 := budget * 2 / 3
	for i := range ones {
		if used >= limit1 && i < len(ones) || x.over() {
			break
		}
		o := &ones[i]
		r := x.one(sc, v, &pct{order: bases[o.b].order, at: []int{o.at}, to: []int{o.to}}, "")
		o.sched = append([]int8(nil), r.sched...)
		used++
		x.preempt[1]++
	}
	// two preemptions: all pairs, if they fit
	pairs := 0
	for i := range ones {
		if ones[i].sched == nil {
			pairs = budget
			break
		}
		pairs += (len(ones[i].sched) - ones[i].at - 1) * (n - 1)
	}
	if pairs <= budget-used {
		for i := range ones {
			o := &ones[i]
			for j := o.at + 1; j < len(o.sched); j++ {
				for t := 0; t < n; t++ {
					if int(o.sched[j]) == t {
						continue
					}
					if x.over() {
						return
					}
					x.one(sc, v, &pct{order: bases[o.b].order, at: []int{o.at, j}, to: []int{o.to, t}}, "")
					used++
					x.preempt[2]++
				}
			}
		}
	}
	for used < budget && !x.over() {
		var p Policy
		d := 2 + x.rng.Intn(5)
		b := bases[x.rng.Intn(len(bases))]
		if x.rng.Intn(6) == 0 {
			p = &uniform{rng: rand.New(rand.NewSource(x.rng.Int63())), stay: 50 + x.rng.Intn(45)}
			d = 7
		} else {
			if d > 3 && x.rng.Intn(2) == 0 {
				d = 2
			}
			q := &pct{order: b.order}
			at := x.rng.Intn(len(b.sched))
			for k := 0; k < d; k++ {
				q.at = append(q.at, at)
				q.to = append(q.to, x.rng.Intn(n))
				if x.rng.Intn(3) == 0 {
					at += 1 + x.rng.Intn(4)
				} else {
					at += 1 + x.rng.Intn(len(b.sched))
				}
			}
			p = q
		}
		x.one(sc, v, p, "")
		used++
		x.preempt[d]++
	}
}

func main() {
	prop := flag.String("prop", "C01", "property")
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Int("worker", 0, "index of this worker")
	of := flag.Int("of", 1, "number of workers")
	secs := flag.Float64("secs", 5, "seconds")
	budget := flag.Int("budget", 600, "executions per scenario")
	maxev := flag.Int("max", 300000, "events to write at most in histories that look fine")
	focus := flag.String("focus", "", "files to give more weight, comma separated")
	outf := flag.String("out", "", "output file")
	directed := flag.String("directed", "", "file with scenarios to run first")
	rep := flag.String("replay", "", "case file to replay")
	rescan := flag.String("rescan", "", "case file whose scenario to explore again")
	conf := flag.Int("conform", 0, "write this many executions step by step, for TraceImpl")
	dump := flag.Bool("steps", false, "with -replay: print the steps")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if *rep != "" {
		replayCase(*rep, *dump)
		return
	}
	if *conf > 0 {
		conform(*conf, *seed*1000+int64(*worker), *outf)
		return
	}
	x := &explorer{prop: *prop, pl: planFor(*prop), rng: rand.New(rand.NewSource(*seed*1000 + int64(*worker))),
		seen: map[uint64]struct{}{}, maxev: *maxev, byVar: map[string]int64{},
		deadline: time.Now().Add(time.Duration(*secs * float64(time.Second))), most: int(3 * *secs)}
	if x.pl == nil {
		fmt.Fprintln(os.Stderr, "no plan for", *prop)
		os.Exit(3)
	}
	countSteps, watchRaces, mineOnly = *prop == "C08" || *prop == "C18", *prop == "C16", *prop == "C18" || *prop == "C19"
	f := os.Stdout
	if *outf != "" {
		var err error
		if f, err = os.Create(*outf); err != nil {
			panic(err)
		}
	}
	x.out = bufio.NewWriterSize(f, 1<<20)
	go watchdog(x, *outf)

	vars := maps.Core()
	if *prop == "C13" {
		vars = heapMaps()
	}
	if *prop == "C12" {
		vars = append(vars, maps.Floats(maps.Ints)...)
	}
	// the order in which variants are used: files in focus more often
	var order []int
	foc := map[string]bool{}
	for _, s := range strings.Split(*focus, ",") {
		foc[s] = true
	}
	nf := 0
	for i := range vars {
		if foc[vars[i].File] {
			nf++
		}
	}
	for i := range vars {
		n := 1
		if nf > 0 && foc[vars[i].File] {
			n = 1 + len(vars)/nf
		}
		for ; n > 0; n-- {
			order = append(order, i)
		}
	}
	x.rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	next := 0
	variant := func() *maps.Variant { next++; return &vars[order[next%len(order)]] }

	run := x.scenario
	if *prop == "C08" || mineOnly {
		run = x.readers
	}
	if *prop == "C13" {
		run = x.retention
	}
	if *rescan != "" {
		var c Case
		b, err := os.ReadFile(*rescan)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		x.deadline = time.Now().Add(time.Hour)
		run(c.Sc, findVariant(c.Var), 20000)
		return
	}
	if *directed != "" {
		var ds []*Scenario
		b, err := os.ReadFile(*directed)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &ds); err != nil {
			panic(err)
		}
		i := 0
		for _, d := range ds {
			for _, d := range alike(d) {
				if !bears(*prop, d) {
					continue
				}
				for vi := range vars {
					if i++; i%*of == *worker && !x.over() {
						run(d, &vars[vi], 40)
					}
				}
			}
		}
	}
	// systematic scenarios in a random order, interleaved with random ones
	sys := x.pl.sys
	srng := rand.New(rand.NewSource(*seed))
	srng.Shuffle(len(sys), func(i, j int) { sys[i], sys[j] = sys[j], sys[i] })
	si := *worker
	for !x.over() {
		if si < len(sys) {
			run(sys[si], variant(), *budget)
			si += *of
		}
		sc := x.pl.prof.random(x.rng)
		if *prop == "C18" {
			sc.own(x.rng)
		}
		if *prop == "C19" {
			sc = farApart(x.rng)
		}
		run(sc, variant(), *budget)
		if crowdFor(*prop) {
			for i := 0; i < 2; i++ {
				x.crowd(variant())
			}
		}
	}
	if len(x.held) > 0 {
		x.collect()
	}
	x.out.Flush()
	f.Close()
	st := map[string]any{"execs": x.execs, "steps": x.steps, "scenarios": x.scen, "distinct": x.distinct, "crowds": x.crowds, "suspects": x.suspects, "unknown": x.unknown,
		"systematic": len(sys), "systematic_done": min(si, len(sys)), "by_variant": x.byVar, "preemptions": x.preempt}
	b, _ := json.Marshal(st)
	fmt.Println(string(b))
}

// alike gives the scenario with each operation replaced by every other one of
// its class: their algorithms take almost the same steps.
func alike(d *Scenario) []*Scenario {
	out := []*Scenario{d}
	classes := [][]string{{"store", "los", "lazy"}, {"del", "lad"}}
	for t := range d.Prog {
		for i := range d.Prog[t] {
			for _, c := range classes {
				if !has2(c, d.Prog[t][i].Kind) {
					continue
				}
				for _, s := range out {
					for _, k := range c {
						if k == d.Prog[t][i].Kind {
							continue
						}
						n := *s
						n.Prog = nil
						for _, p := range s.Prog {
							n.Prog = append(n.Prog, append([]Op(nil), p...))
						}
						n.Prog[t][i].Kind = k
						out = append(out, &n)
					}
				}
			}
		}
	}
	return out
}

func has2(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// bears tells whether a scenario is one of those in which prop is judged.
func bears(prop string, d *Scenario) bool {
	uses := func(kinds ...string) bool {
		for _, p := range d.Prog {
			for _, o := range p {
				for _, k := range kinds {
					if o.Kind == k {
						return true
					}
				}
			}
		}
		return false
	}
	switch prop {
	case "C01", "C14":
		return !uses("range", "len")
	case "C02":
		return uses("los", "lazy")
	case "C03":
		return uses("del", "lad")
	case "C04":
		return uses("lazy")
	case "C05":
		return uses("range")
	case "C06":
		return uses("len")
	case "C07", "C09", "C13", "C16":
		return true
	}
	return false // C08 and C12 have scenarios of their own kind
}

// watchdog ends the process when an execution makes no progress at all (a
// loop without any shared step), leaving the case in <out>.hang.
func watchdog(x *explorer, out string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if n := progress.Load(); n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > 40*time.Second {
			if c, ok := x.current.Load().(*Case); ok && out != "" {
				if s := vs.S; s != nil && s.Cur != nil {
					cc := *c
					cc.Why = fmt.Sprint("no step any more by goroutine ", s.Cur.ID)
					c = &cc
				}
				b, _ := json.Marshal(c)
				os.WriteFile(out+".hang", b, 0o644)
			}
			x.out.Flush()
			fmt.Fprintln(os.Stderr, "no progress")
			os.Exit(7)
		}
	}
}

func findVariant(name string) *maps.Variant {
	vars := append(append(maps.Core(), maps.Floats(maps.Ints)...), heapMaps()...)
	for i := range vars {
		if vars[i].Name == name {
			return &vars[i]
		}
	}
	panic("no variant " + name)
}

// replayCase repeats the execution of a case and prints its history.
func replayCase(file string, steps bool) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	x := &explorer{prop: c.Prop, pl: planFor(c.Prop), seen: map[uint64]struct{}{}, byVar: map[string]int64{}, maxev: 1 << 30,
		out: bufio.NewWriter(os.Stdout), rng: rand.New(rand.NewSource(1))}
	countSteps, watchRaces, mineOnly = c.Prop == "C08" || c.Prop == "C18", c.Prop == "C16", c.Prop == "C18" || c.Prop == "C19"
	v := findVariant(c.Var)
	switch {
	case strings.HasPrefix(c.Mode, "reader"):
		x.replayReader(&c, v)
	case c.Mode == "retain":
		x.replayRetention(&c, v)
	default:
		r := newRun(c.Sc, v)
		done := r.setup()
		var s *vs.Sched
		if done {
			done, s = r.concurrent(&replay{c.Sched}, steps || c.Prop == "C16")
		}
		if done && x.pl.probe != "" {
			r.solo(r.probeOps(x.pl.probe))
		}
		if steps && s != nil {
			for _, l := range s.Log {
				fmt.Fprintf(os.Stderr, "%d %s %x val=%d ok=%v\n", l.T, l.K, uintptr(l.Addr), l.Val, l.OK)
			}
		}
		if c.Prop == "C16" {
			x.races(c.Sc, v, r, s)
		} else {
			x.finish(c.Sc, v, r, c.Mode)
		}
	}
	x.out.Flush()
}

func seedOf(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
	}
	return int64(h.Sum64() >> 1)
}
