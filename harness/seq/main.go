// Command seq runs sequences of calls on maps of every constructor and writes
// the distinct histories it sees. It judges nothing: the histories are judged
// by the specification (spec/SeqMon.tla).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strings"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

// Op is one call: on map M (0 or 1), of kind Kind (1 store, 2 load, 3 delete,
// 4 load-and-delete, 5 load-or-store, 6 the lazy one, 7 range, 8 len), key
// rank K in representation R, value V (for range: the visit at which the
// callback stops), tower height L.
type Op struct{ M, Kind, K, R, V, L int }

// Prog is one sequence.
type Prog struct {
	NK   int   `json:"nk"`
	Seed int64 `json:"seed"` // selects the keys
	Ops  []Op  `json:"ops"`
}

// Case is one history: events are
// [map, kind, k, rep, v, ok, result, runs of the function, visits...]
// with visits as triples k, rep, v; kind 9: the call failed or hung.
type Case struct {
	Hist struct {
		NK int     `json:"nk"`
		M0 []int   `json:"m0"`
		Ev [][]int `json:"ev"`
	} `json:"h"`
	Var  string `json:"var"`
	Prog *Prog  `json:"prog"`
	Why  string `json:"why,omitempty"`
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func run(v *maps.Variant, p *Prog) (evs [][]int, why string) {
	vs.Reset()
	var ms [2]maps.API
	get := func(i int) maps.API {
		if ms[i] == nil {
			ms[i] = v.New(p.NK, p.Seed)
		}
		return ms[i]
	}
	var cur []int
	defer func() {
		if x := recover(); x != nil {
			why = fmt.Sprint(x)
			cur = append([]int{}, cur[:5]...)
			evs = append(evs, append([]int{cur[0], 9}, 0, 0, 0, 0, 0, 0))
		}
	}()
	for i := range p.Ops {
		o := &p.Ops[i]
		cur = []int{o.M, o.Kind, o.K, 0, 0}
		m := get(o.M)
		rep := 0
		if o.K > 0 {
			rep = o.R % v.RepsOf(m, o.K)
		}
		k := o.K + rep*maps.Rep
		val := v.Canon(o.V)
		vs.BeginSolo(o.L)
		ev := []int{o.M, o.Kind, o.K, rep, 0, 0, 0, 0}
		set := func(ok bool, r int) { ev[5], ev[6] = b2i(ok), r }
		switch o.Kind {
		case 1:
			ev[4] = val
			m.Store(k, o.V)
			ev[5] = 1
		case 2:
			r, ok := m.Load(k)
			set(ok, r)
		case 3:
			ev[5] = b2i(m.Delete(k))
		case 4:
			r, ok := m.LoadAndDelete(k)
			set(ok, r)
		case 5:
			ev[4] = val
			r, ok := m.LoadOrStore(k, o.V)
			set(ok, r)
		case 6:
			ev[4] = val
			n := 0
			r, ok := m.LoadOrStoreLazy(k, func() int { n++; return o.V })
			set(ok, r)
			ev[7] = n
		case 7:
			ev[4] = o.V
			n := 0
			m.Range(func(k, v int) bool {
				ev = append(ev, k%maps.Rep, k/maps.Rep, v)
				n++
				if n > 3*p.NK+10 {
					panic("Range visits keys without end")
				}
				return n != o.V
			})
			ev[5] = 1
		case 8:
			ev[5], ev[6] = 1, m.Len()
		}
		evs = append(evs, ev)
	}
	return evs, ""
}

var (
	out      *bufio.Writer
	seen     = map[uint64]struct{}{}
	execs    int
	calls    int
	distinct int
	byVar    = map[string]int{}
	curf     *os.File
)

func one(v *maps.Variant, p *Prog) {
	if curf != nil { // what is running, should the process die
		b, _ := json.Marshal(Case{Var: v.Name + "/" + v.Value, Prog: p})
		b = append(b, '\n')
		curf.Truncate(int64(len(b)))
		curf.WriteAt(b, 0)
	}
	evs, why := run(v, p)
	execs++
	calls += len(evs)
	byVar[v.Name+"/"+v.Value]++
	h := fnv.New64a()
	var buf [4]byte
	put := func(x int) {
		buf[0], buf[1], buf[2], buf[3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		h.Write(buf[:])
	}
	put(p.NK)
	for _, e := range evs {
		put(len(e))
		for _, x := range e {
			put(x)
		}
	}
	if _, ok := seen[h.Sum64()]; ok {
		return
	}
	seen[h.Sum64()] = struct{}{}
	distinct++
	c := Case{Var: v.Name + "/" + v.Value, Prog: p, Why: why}
	c.Hist.NK, c.Hist.M0, c.Hist.Ev = p.NK, []int{}, evs
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.WriteByte('\n')
}

// probe asks every key and the whole map.
func probe(nk, m int) []Op {
	var ops []Op
	for k := 1; k <= nk; k++ {
		ops = append(ops, Op{M: m, Kind: 2, K: k})
	}
	return append(ops, Op{M: m, Kind: 7}, Op{M: m, Kind: 8})
}

// alphabet is every call on nk keys with the given representations and heights.
func alphabet(nk, reps int, heights []int) []Op {
	var as []Op
	for k := 1; k <= nk; k++ {
		for r := 0; r < reps; r++ {
			for _, kind := range []int{1, 5, 6} {
				for _, l := range heights {
					as = append(as, Op{Kind: kind, K: k, R: r, L: l})
				}
			}
			as = append(as, Op{Kind: 3, K: k, R: r}, Op{Kind: 4, K: k, R: r})
		}
		as = append(as, Op{Kind: 2, K: k, R: reps - 1})
	}
	return append(as, Op{Kind: 7}, Op{Kind: 7, V: 1}, Op{Kind: 8})
}

// exhaustive lists every sequence of n calls.
func exhaustive(nk, reps, n int, heights []int, f func(*Prog, int)) {
	as := alphabet(nk, reps, heights)
	idx := make([]int, n)
	count := 0
	for {
		p := &Prog{NK: nk, Seed: int64(count % 13)}
		for i, a := range idx {
			o := as[a]
			if o.Kind == 1 || o.Kind == 5 || o.Kind == 6 {
				o.V = i + 1
			}
			p.Ops = append(p.Ops, o)
		}
		p.Ops = append(p.Ops, probe(nk, 0)...)
		f(p, count)
		count++
		i := n - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(as) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// random makes one long sequence.
func random(rng *rand.Rand, nk, n, reps int) *Prog {
	p := &Prog{NK: nk, Seed: rng.Int63n(1000)}
	ins := 20 + rng.Intn(60) // percent of insertions among updates
	hot := 1 + rng.Intn(nk)
	maxv := 200
	tall := rng.Intn(3)
	two := rng.Intn(2)
	order := rng.Intn(3)
	next := 0
	for i := 0; i < n; i++ {
		o := Op{M: 0}
		if two == 1 && rng.Intn(3) == 0 {
			o.M = 1
		}
		switch order {
		case 0:
			o.K = 1 + rng.Intn(nk)
		case 1: // in order, so that towers are built from one end
			next++
			o.K = 1 + next%nk
		case 2:
			next++
			o.K = nk - next%nk
		}
		if rng.Intn(3) == 0 {
			o.K = hot
		}
		if rng.Intn(10) == 0 {
			hot = 1 + rng.Intn(nk)
		}
		o.R = rng.Intn(reps)
		o.L = 1
		for o.L < 40 && rng.Intn(2) == 0 {
			o.L++
		}
		if tall == 1 && rng.Intn(4) == 0 {
			o.L = []int{15, 16, 17, 40, 5, 4}[rng.Intn(6)]
		}
		switch x := rng.Intn(100); {
		case x < 12:
			o.Kind = 2
		case x < 15:
			o.Kind, o.K, o.R = 8, 0, 0
		case x < 16 || nk <= 64 && x < 18:
			o.Kind, o.K, o.R = 7, 0, 0
			if rng.Intn(2) == 0 {
				o.V = 1 + rng.Intn(nk)
			}
		default:
			if rng.Intn(100) < ins {
				o.Kind = []int{1, 1, 5, 6}[rng.Intn(4)]
				o.V = 1 + rng.Intn(maxv)
			} else {
				o.Kind = 3 + rng.Intn(2)
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if nk <= 64 {
		p.Ops = append(p.Ops, probe(nk, 0)...)
		p.Ops = append(p.Ops, probe(nk, 1)...)
	} else {
		p.Ops = append(p.Ops, Op{Kind: 7}, Op{Kind: 8})
	}
	return p
}

func main() {
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Int("worker", 0, "index of this worker")
	of := flag.Int("of", 1, "number of workers")
	reps := flag.Int("reps", 1, "representations of a key to use")
	depth := flag.Int("depth", 3, "length of the exhaustive sequences")
	deep := flag.Int("deep", 0, "percent of the exhaustive sequences one call longer")
	nrand := flag.Int("random", 200, "random sequences per variant")
	large := flag.Int("large", 1, "large random sequences per variant")
	only := flag.Bool("reponly", false, "only variants whose keys have several representations")
	core := flag.Bool("core", false, "only the core variants")
	outf := flag.String("out", "", "output file")
	rep := flag.String("replay", "", "case to replay")
	flag.Parse()
	all := maps.All()
	out = bufio.NewWriterSize(os.Stdout, 1<<20)
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			panic(err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		for i := range all {
			if all[i].Name+"/"+all[i].Value == c.Var {
				one(&all[i], c.Prog)
				break
			}
		}
		out.Flush()
		return
	}
	f, err := os.Create(*outf)
	if err != nil {
		panic(err)
	}
	if curf, err = os.Create(*outf + ".cur"); err != nil {
		panic(err)
	}
	out = bufio.NewWriterSize(f, 1<<20)
	var vars []*maps.Variant
	for i := range all {
		if *only && !all[i].Reps {
			continue
		}
		if *core && i >= 17 {
			continue
		}
		vars = append(vars, &all[i])
	}
	n := 0
	share := func() bool { n++; return n%*of == *worker }
	progs := 0
	rng := rand.New(rand.NewSource(*seed))
	for vi, v := range vars {
		nr := *reps
		if !v.Reps {
			nr = 1
		}
		_ = vi
		if share() {
			exhaustive(2, nr, *depth-b2i(nr > 2), []int{1, 4, 16}, func(p *Prog, i int) { progs++; one(v, p) })
		}
		if *deep > 0 && share() {
			r := rand.New(rand.NewSource(*seed + int64(vi)))
			exhaustive(2, 1, *depth+1, []int{2}, func(p *Prog, i int) {
				if r.Intn(100) < *deep {
					progs++
					one(v, p)
				}
			})
		}
	}
	// the same random programs on every variant
	sizes := [][2]int{{3, 40}, {5, 60}, {8, 60}, {1, 30}, {20, 100}, {64, 300}}
	for i := 0; i < *nrand; i++ {
		s := sizes[i%len(sizes)]
		if i%len(sizes) == 5 && i%4 != 1 {
			s = sizes[0]
		}
		p := random(rng, s[0], s[1], *reps)
		for _, v := range vars {
			if v.Max > 0 && p.NK > v.Max {
				continue
			}
			if share() {
				one(v, p)
			}
		}
	}
	for i := 0; i < *large; i++ {
		p := random(rng, 1000, 2500, *reps)
		for _, v := range vars {
			if v.Max > 0 && p.NK > v.Max || strings.HasSuffix(v.Value, "t8") {
				continue
			}
			if share() {
				one(v, p)
			}
		}
	}
	out.Flush()
	f.Close()
	curf.Close()
	os.Remove(*outf + ".cur")
	b, _ := json.Marshal(map[string]any{"execs": execs, "calls": calls, "distinct": distinct, "by_variant": byVar})
	fmt.Println(string(b))
}
