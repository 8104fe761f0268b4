package main

import (
	"math/rand"

	"skipmapverif/maps"
)

// Crowds: few executions with many keys and many calls, for behaviour that
// depends on how large the map is or on how much happens during one call (a
// buffer that fills up, a batch, a count of tries, a snapshot of a size).

func (x *explorer) crowd(v *maps.Variant) {
	if x.crowds >= x.most {
		return
	}
	sc := x.pl.prof.crowd(x.rng, x.prop)
	n := len(sc.Prog)
	var ps []Policy
	if n == 1 {
		ps = append(ps, &pct{order: []int{0}})
	} else {
		// one thread is stopped in the middle of things while the others run
		for i := 0; i < 2; i++ {
			p := &pct{order: x.rng.Perm(n)}
			at := 0
			for k := 1 + x.rng.Intn(4); k > 0; k-- {
				at += 1 + x.rng.Intn(80)
				p.at, p.to = append(p.at, at), append(p.to, x.rng.Intn(n))
			}
			ps = append(ps, p)
		}
		ps = append(ps, &uniform{rng: rand.New(rand.NewSource(x.rng.Int63())), stay: 60 + x.rng.Intn(39)})
	}
	for _, p := range ps {
		if x.over() {
			return
		}
		x.crowds++
		x.one(sc, v, p, "")
	}
}

// crowdFor tells whether a property has crowds.
func crowdFor(prop string) bool {
	return prop != "C08" && prop != "C18" && prop != "C19" && prop != "C13" && prop != "C16"
}

func (p *Profile) crowd(rng *rand.Rand, prop string) *Scenario {
	q := *p
	q.Tall, q.Stop, q.Boom = 2, 4, 4
	g := &gen{p: &q, rng: rng, nk: []int{20, 40, 70, 70, 110, 160}[rng.Intn(6)]}
	g.focus = 1 + rng.Intn(g.nk)
	s := &Scenario{NK: g.nk, Seed: int64(rng.Intn(3)), Name: "crowd"}
	full := []int{10, 50, 50, 90}[rng.Intn(4)]
	for k := 1; k <= g.nk; k++ {
		if rng.Intn(100) < full {
			g.v++
			s.Init = append(s.Init, InitNode{k, g.v, p.level(rng)})
		}
	}
	rng.Shuffle(len(s.Init), func(i, j int) { s.Init[i], s.Init[j] = s.Init[j], s.Init[i] })
	// bursts of calls: of all kinds at random, or a sweep with one kind over a
	// part of the keys, in random or ascending or descending order
	burst := func(n int, w map[string]int) []Op {
		lo, hi := 1, g.nk
		switch rng.Intn(4) {
		case 0:
			lo = 1 + rng.Intn(g.nk)
		case 1:
			hi = 1 + rng.Intn(g.nk)
		}
		var ops []Op
		if rng.Intn(2) == 0 {
			kind := []string{"store", "los", "lazy", "store", "del", "lad"}[rng.Intn(6)]
			if full >= 90 { // mostly away what is there, mostly add what is not
				kind = []string{"del", "lad", "del", "lad", "store"}[rng.Intn(5)]
			} else if full <= 10 {
				kind = []string{"store", "los", "lazy", "del"}[rng.Intn(4)]
			}
			keys := rng.Perm(hi - lo + 1)
			dir := rng.Intn(3)
			skip := []int{0, 0, 10, 50}[rng.Intn(4)]
			for i := range keys {
				k := lo + keys[i]
				if dir == 1 {
					k = lo + i
				} else if dir == 2 {
					k = hi - i
				}
				if rng.Intn(100) < skip {
					continue
				}
				o := g.op(kind, 1)
				o.K = k
				ops = append(ops, o)
			}
			return ops
		}
		for i := 0; i < n; i++ {
			kind := choose(rng, w)
			if kind == "range" && i > 0 && rng.Intn(6) > 0 {
				kind = "len"
			}
			o := g.op(kind, 1)
			if o.K > 0 {
				o.K = lo + rng.Intn(hi-lo+1)
			}
			ops = append(ops, o)
		}
		return ops
	}
	size := func() int { return []int{5, 20, 40, 80, 120}[rng.Intn(5)] }
	w := p.Weights
	lead := ""
	if p.First != nil {
		lead = choose(rng, p.First)
	}
	nt := 1 + rng.Intn(3)
	if lead == "range" && rng.Intn(3) > 0 {
		nt = 1 // everything happens in the callback
	}
	if nt == 1 && lead != "range" {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		if t == 0 && lead == "range" {
			o := g.op("range", 1)
			if nt == 1 || prop == "C12" {
				nw := map[string]int{"store": 4, "del": 3, "lad": 2, "los": 3, "lazy": 1, "load": 1}
				for b := 1 + rng.Intn(2); b > 0; b-- {
					at := 1
					if rng.Intn(2) == 0 {
						at = 1 + rng.Intn(1+len(s.Init))
					}
					for _, c := range burst(size(), nw) {
						o.Nest = append(o.Nest, Nest{at, c})
					}
				}
			}
			ops = append(ops, o)
		} else {
			if t == 0 && lead != "" {
				ops = append(ops, g.op(lead, 1))
			}
			ops = append(ops, burst(size(), w)...)
		}
		s.Prog = append(s.Prog, ops)
	}
	return s
}
