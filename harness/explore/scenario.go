package main

import (
	"encoding/json"
	"math/rand"
)

// Op is one call of a program.
type Op struct {
	Kind string `json:"kind"`           // store load del lad los lazy range len
	K    int    `json:"k,omitempty"`    // rank of the key
	V    int    `json:"v,omitempty"`    // value offered
	Lvl  int    `json:"lvl,omitempty"`  // tower height drawn, if the call draws one
	Stop int    `json:"stop,omitempty"` // Range: the callback stops at this visit (0: never)
	Boom int    `json:"boom,omitempty"` // the callback panics at this visit (lazy: 1)
	Nest []Nest `json:"nest,omitempty"` // calls made by the callback
}

// Nest is a call made by a callback at one of its visits.
type Nest struct {
	At int `json:"at"`
	Op Op  `json:"op"`
}

type InitNode struct {
	K   int `json:"k"`
	V   int `json:"v"`
	Lvl int `json:"lvl"`
}

// Scenario is a program for several threads on a map with given contents.
type Scenario struct {
	NK   int        `json:"nk"`
	Init []InitNode `json:"init"`
	Prog [][]Op     `json:"prog"`
	Seed int64      `json:"seed"` // selects the keys behind the ranks
	Name string     `json:"name,omitempty"`
	// Others, if present, are the keys that threads other than the first use.
	Others []int `json:"others,omitempty"`
	// Sched, if present, is a schedule to try first (threads, one per step).
	Sched []int `json:"sched,omitempty"`
}

func (s *Scenario) String() string { b, _ := json.Marshal(s); return string(b) }

// Profile shapes random scenarios.
type Profile struct {
	Weights  map[string]int
	First    map[string]int // weights for the first op of thread 1 (the focus)
	Threads  [2]int
	Ops      [2]int
	NK       [2]int
	Nest     int // percent of callbacks with nested calls
	NestW    map[string]int
	LazyNest bool
	Boom     int // percent of callbacks that panic
	Stop     int // percent of Ranges that stop early
	Long     int // calls of a single thread
	Tall     int // percent of towers of height 16 and above
}

func choose(rng *rand.Rand, w map[string]int) string {
	kinds := []string{"store", "load", "del", "lad", "los", "lazy", "range", "len"}
	n := 0
	for _, k := range kinds {
		n += w[k]
	}
	n = rng.Intn(n)
	for _, k := range kinds {
		if n -= w[k]; n < 0 {
			return k
		}
	}
	panic("unreachable")
}

func (p *Profile) level(rng *rand.Rand) int {
	if rng.Intn(100) < p.Tall {
		return []int{16, 17, 15, 5, 40}[rng.Intn(5)]
	}
	return []int{1, 1, 1, 2, 2, 2, 3, 3, 4, 5}[rng.Intn(10)]
}

func between(rng *rand.Rand, r [2]int) int { return r[0] + rng.Intn(r[1]-r[0]+1) }

type gen struct {
	p     *Profile
	rng   *rand.Rand
	v     int
	focus int
	nk    int
}

func (g *gen) key() int {
	if g.rng.Intn(100) < 60 {
		return g.focus
	}
	if g.rng.Intn(100) < 70 { // a neighbour
		k := g.focus + 1 - 2*g.rng.Intn(2)
		if k >= 1 && k <= g.nk {
			return k
		}
	}
	return 1 + g.rng.Intn(g.nk)
}

func (g *gen) op(kind string, depth int) Op {
	o := Op{Kind: kind}
	if kind != "range" && kind != "len" {
		o.K = g.key()
	}
	if kind == "store" || kind == "los" || kind == "lazy" {
		g.v++
		o.V = g.v
		o.Lvl = g.p.level(g.rng)
	}
	if kind == "range" && g.rng.Intn(100) < g.p.Stop {
		o.Stop = 1 + g.rng.Intn(2)
	}
	if depth == 0 && (kind == "range" || kind == "lazy" && g.p.LazyNest) && g.rng.Intn(100) < g.p.Nest {
		n := 1 + g.rng.Intn(3)
		for i := 0; i < n; i++ {
			w := g.p.NestW
			if kind == "lazy" {
				w = map[string]int{"load": 3, "range": 2, "len": 1}
			}
			at := 1
			if kind == "range" {
				at = 1 + g.rng.Intn(3)
			}
			o.Nest = append(o.Nest, Nest{at, g.op(choose(g.rng, w), depth+1)})
		}
	}
	if (kind == "range" || kind == "lazy") && depth == 0 && g.rng.Intn(100) < g.p.Boom {
		o.Boom = 1
		if kind == "range" {
			o.Boom = 1 + g.rng.Intn(2)
		}
		o.Stop = 0
	}
	return o
}

func (p *Profile) random(rng *rand.Rand) *Scenario {
	g := &gen{p: p, rng: rng, nk: between(rng, p.NK)}
	s := &Scenario{NK: g.nk, Seed: int64(rng.Intn(8))}
	g.focus = 1 + rng.Intn(g.nk)
	if g.nk >= 3 && rng.Intn(3) > 0 {
		g.focus = 2
	}
	for k := 1; k <= g.nk; k++ {
		if rng.Intn(100) < 50 {
			g.v++
			s.Init = append(s.Init, InitNode{k, g.v, p.level(rng)})
		}
	}
	rng.Shuffle(len(s.Init), func(i, j int) { s.Init[i], s.Init[j] = s.Init[j], s.Init[i] })
	nt := between(rng, p.Threads)
	for t := 0; t < nt; t++ {
		n := between(rng, p.Ops)
		if nt >= 3 && n > 2 {
			n = 2
		}
		if nt == 1 && p.Long > 0 {
			n = p.Long
		}
		var ops []Op
		for i := 0; i < n; i++ {
			w := p.Weights
			if t == 0 && i == 0 && p.First != nil {
				w = p.First
			}
			ops = append(ops, g.op(choose(rng, w), 0))
		}
		s.Prog = append(s.Prog, ops)
	}
	return s
}

// systematic lists every pair of calls on one key or on neighbouring keys,
// the second call followed by one more, over contents with and without the
// key and for short and tall towers.
func systematic(first, second, follow []string, after ...string) []*Scenario {
	var out []*Scenario
	seed := int64(0)
	for _, a := range first {
		for _, b := range second {
			for fi, f := range append(append([]string{""}, follow...), after...) {
				for _, present := range []int{0, 1, 3} { // height of the key's tower, 0: absent
					for _, lv := range [][2]int{{1, 2}, {3, 1}, {2, 5}} {
						for _, kb := range []int{2, 1, 3} {
							if kb != 2 && (f != "" && f != "len" && f != "range" || present == 1) {
								continue
							}
							s := &Scenario{NK: 3, Seed: seed % 8}
							seed++
							v := 0
							rem := b == "del" || b == "lad"
							if kb != 1 || present == 0 || rem {
								v++
								s.Init = append(s.Init, InitNode{1, v, 2})
							}
							if present > 0 {
								v++
								s.Init = append(s.Init, InitNode{2, v, present})
							}
							if kb != 3 || rem {
								v++
								s.Init = append(s.Init, InitNode{3, v, 3})
							}
							mk := func(kind string, k, lvl int) Op {
								o := Op{Kind: kind, K: k}
								switch kind {
								case "store", "los", "lazy":
									v++
									o.V, o.Lvl = v, lvl
								case "range", "len":
									o.K = 0
								}
								return o
							}
							s.Prog = [][]Op{{mk(a, 2, lv[0])}, {mk(b, kb, lv[1])}}
							if f != "" {
								who := 1
								if fi > len(follow) {
									who = 0
								}
								s.Prog[who] = append(s.Prog[who], mk(f, 2, lv[0]))
							}
							out = append(out, s)
						}
					}
				}
			}
		}
	}
	return out
}

// own gives the first thread a key that no one else touches and calls that
// change nothing but its value, or nothing at all (C18).
func (s *Scenario) own(rng *rand.Rand) {
	k := 1 + rng.Intn(s.NK)
	present := false
	for _, in := range s.Init {
		present = present || in.K == k
	}
	kinds := []string{"del", "lad", "load"}
	if present {
		kinds = []string{"store", "los", "lazy", "store", "los", "lazy", "load"}
	}
	var ops []Op
	for n := 1 + rng.Intn(3); n > 0; n-- {
		o := Op{Kind: kinds[rng.Intn(len(kinds))], K: k}
		if o.Kind == "store" || o.Kind == "los" || o.Kind == "lazy" {
			o.V, o.Lvl = 40+n, 1+rng.Intn(5)
		}
		ops = append(ops, o)
	}
	s.Prog[0] = ops
	for t := 1; t < len(s.Prog); t++ {
		for i := range s.Prog[t] {
			o := &s.Prog[t][i]
			if o.K == k {
				if o.K++; o.K > s.NK || o.K > 2 && rng.Intn(2) == 0 {
					o.K = k - 1
				}
				if o.K == 0 {
					o.K = k + 1
				}
			}
			o.Nest = nil
		}
	}
	if len(s.Prog) == 1 {
		s.Prog = append(s.Prog, []Op{{Kind: "store", K: 1 + k%s.NK, V: 61, Lvl: 2}})
	}
}

// private lists calls on a key of their own against updates of its neighbours.
func private() []*Scenario {
	var out []*Scenario
	for _, a := range []string{"store", "los", "lazy", "del", "lad"} {
		for _, b := range []string{"store", "los", "lazy", "del", "lad"} {
			for _, f := range []string{"", "store", "del"} {
				for _, kb := range []int{1, 3} {
					for _, lv := range [][2]int{{1, 1}, {3, 1}, {1, 3}, {5, 5}} {
						s := &Scenario{NK: 3, Seed: int64(len(out) % 8)}
						v := 0
						mk := func(kind string, k, lvl int) Op {
							o := Op{Kind: kind, K: k}
							if kind != "del" && kind != "lad" {
								v++
								o.V, o.Lvl = v, lvl
							}
							return o
						}
						if a != "del" && a != "lad" {
							v++
							s.Init = append(s.Init, InitNode{2, v, lv[0]})
						}
						if b == "del" || b == "lad" {
							v++
							s.Init = append(s.Init, InitNode{kb, v, lv[1]})
						}
						if len(out)%3 > 0 {
							v++
							s.Init = append(s.Init, InitNode{4 - kb, v, 2})
						}
						s.Prog = [][]Op{{mk(a, 2, 1+len(out)%3)}, {mk(b, kb, lv[1])}}
						if f != "" {
							s.Prog[1] = append(s.Prog[1], mk(f, kb, lv[1]))
						}
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

// far is a map of nine keys: 4 to 6 stay there and have towers at least as tall
// as any that is inserted or removed, so that the updates of 1 to 3 and those
// of 7 to 9 have nothing to do with each other (C19). The first thread uses
// one side (low or not), the others the other.
type far struct {
	*Scenario
	mine, others []int // keys
	low          bool  // all towers that come and go have one level
}

func newFar(left, low bool, h int, seed int64) *far {
	f := &far{Scenario: &Scenario{NK: 9, Seed: seed}, mine: []int{1, 2, 3}, others: []int{7, 8, 9}, low: low}
	if !low {
		h = 40
	} else { // beyond them there is a taller one
		f.Init = append(f.Init, InitNode{1, 31, 40})
		f.mine = f.mine[1:]
	}
	if !left {
		f.mine, f.others = f.others, f.mine
	}
	f.Others = f.others
	for k := 4; k <= 6; k++ {
		f.Init = append(f.Init, InitNode{k, 30 + k, h})
	}
	return f
}

func (f *far) lvl(l int) int {
	if f.low {
		return 1
	}
	return l
}

func (f *far) there(k, lvl int) { f.Init = append(f.Init, InitNode{k, 30 + k, f.lvl(lvl)}) }

func (f *far) update(t int, kind string, k, lvl int) {
	for len(f.Prog) <= t {
		f.Prog = append(f.Prog, nil)
	}
	o := Op{Kind: kind, K: k}
	if kind != "del" && kind != "lad" {
		o.V, o.Lvl = 10*t+len(f.Prog[t])+1, f.lvl(lvl)
	}
	f.Prog[t] = append(f.Prog[t], o)
}

// farApart is a random scenario of updates on both sides.
func farApart(rng *rand.Rand) *Scenario {
	f := newFar(rng.Intn(2) == 0, rng.Intn(2) == 0, 1+rng.Intn(3), rng.Int63())
	for _, k := range append(append([]int(nil), f.mine...), f.others...) {
		if rng.Intn(2) == 0 {
			f.there(k, 1+rng.Intn(3))
		}
	}
	rng.Shuffle(len(f.Init), func(i, j int) { f.Init[i], f.Init[j] = f.Init[j], f.Init[i] })
	for t := 1 + rng.Intn(3); t >= 0; t-- {
		keys := f.others
		if t == 0 {
			keys = f.mine
		}
		for n := 1 + rng.Intn(3); n > 0; n-- {
			f.update(t, updK[rng.Intn(len(updK))], keys[rng.Intn(len(keys))], 1+rng.Intn(3))
		}
	}
	return f.Scenario
}

// apart lists pairs of updates that really insert or remove, one on each side.
func apart() []*Scenario {
	var out []*Scenario
	for _, a := range updK {
		for _, b := range updK {
			for way := 0; way < 8; way++ {
				for _, lv := range [][2]int{{1, 1}, {3, 1}, {1, 3}, {3, 3}} {
					f := newFar(way&1 > 0, way&2 > 0, 1+2*(way>>2), int64(len(out)%8))
					if f.low && lv[0]+lv[1] > 2 {
						continue
					}
					ka, kb := f.mine[1], f.others[1]
					if a == "del" || a == "lad" {
						f.there(ka, lv[0])
					}
					if b == "del" || b == "lad" {
						f.there(kb, lv[1])
					}
					if way&4 > 0 { // neighbours
						f.there(f.mine[0], 1)
						f.there(f.others[0], 2)
					}
					f.update(0, a, ka, lv[0])
					f.update(1, b, kb, lv[1])
					out = append(out, f.Scenario)
				}
			}
		}
	}
	return out
}

// flat makes all towers of a scenario equally tall.
func (s *Scenario) flat() *Scenario {
	c := *s
	c.Init = append([]InitNode(nil), s.Init...)
	for i := range c.Init {
		c.Init[i].Lvl = 1
	}
	c.Prog = nil
	for _, p := range s.Prog {
		p = append([]Op(nil), p...)
		for i := range p {
			p[i].Lvl = min(p[i].Lvl, 1)
		}
		c.Prog = append(c.Prog, p)
	}
	return &c
}
