package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"

	"skipmapverif/maps"
)

// conform writes n random executions with every step performed, for
// comparison with the model of the algorithm (spec/TraceImpl.tla).
func conform(n int, seed int64, out string) {
	rng := rand.New(rand.NewSource(seed))
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	all := map[string]int{"store": 3, "load": 1, "del": 3, "lad": 2, "los": 2, "lazy": 2, "range": 1, "len": 1}
	prof := &Profile{Weights: all, Threads: [2]int{2, 3}, Ops: [2]int{1, 2}, NK: [2]int{1, 4}, Stop: 30, Tall: 5}
	vars := maps.Core()
	byVar := map[string]int{}
	steps := 0
	for i := 0; i < n; i++ {
		sc := prof.random(rng)
		v := &vars[rng.Intn(len(vars))]
		r := newRun(sc, v)
		if !r.setup() {
			continue
		}
		p := &pct{order: rng.Perm(len(sc.Prog))}
		at := 0
		for d := rng.Intn(8); d > 0; d-- {
			at += 1 + rng.Intn(25)
			p.at = append(p.at, at)
			p.to = append(p.to, rng.Intn(len(sc.Prog)))
		}
		done, s := r.concurrent(p, true)
		if !done {
			continue
		}
		byVar[v.Name]++
		type rec map[string]any
		type seq []any
		capped := func(l int) int { return min(max(l, 1), 16) }
		init := seq{}
		for _, x := range sc.Init {
			init = append(init, rec{"k": x.K, "v": x.V, "lvl": capped(x.Lvl)})
		}
		prog := seq{}
		for _, p := range sc.Prog {
			ops := seq{}
			for _, o := range p {
				ops = append(ops, rec{"kind": o.Kind, "k": o.K, "v": o.V, "lvl": capped(o.Lvl), "stop": o.Stop})
			}
			prog = append(prog, ops)
		}
		st := seq{}
		for _, l := range s.Log {
			k := l.K.String()
			if l.Size > 0 {
				k += fmt.Sprint(l.Size)
			}
			st = append(st, seq{l.T, k})
		}
		steps += len(st)
		name := map[int]int{}
		nth := map[int]int{}
		for id, t := range r.opT {
			nth[t]++
			name[id+1] = t*100 + nth[t]
		}
		ev := seq{}
		for _, e := range r.ev {
			o := name[e.O]
			switch e.E {
			case eCall:
				ev = append(ev, seq{"c", o, r.kinds[e.O-1], e.K, e.V})
			case eRet:
				ev = append(ev, seq{"r", o, e.OK, e.V})
			case eVisit:
				ev = append(ev, seq{"v", o, e.K, e.V, e.OK})
			case eFunc:
				ev = append(ev, seq{"f", o})
			case eGot:
				ev = append(ev, seq{"g", o, e.V})
			}
		}
		b, err := json.Marshal(rec{"sc": rec{"init": init, "prog": prog}, "steps": st, "events": ev})
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
	b, _ := json.Marshal(map[string]any{"executions": n, "steps": steps, "by_variant": byVar})
	fmt.Println(string(b))
}
