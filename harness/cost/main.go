// Command cost counts the steps (operations on shared memory) that calls take
// on growing maps whose tower heights come from the code's own generator fed
// with random bits. One history per map and insertion order, for
// spec/CostMon.tla: events <<kind, calls, steps>>; kind 1 inserts new keys,
// 9 removes keys; the others leave the number of keys as it is. For 10 (Range)
// the second number counts keys. Kinds from 20 on count calls of the given
// comparison function instead of steps.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

type Case struct {
	H     hist   `json:"h"`
	Var   string `json:"var"`
	Order string `json:"order"`
	Seed  int64  `json:"seed"`
	Size  int    `json:"size"`
	Why   string `json:"why,omitempty"`
}

type hist struct {
	NK int      `json:"nk"`
	M0 []int    `json:"m0"`
	Ev [][7]int `json:"ev"`
}

// the insertions are Store calls, or los or lazy ones
var orders = []string{"ascending", "descending los", "random lazy", "zigzag", "every 2nd", "every 4th", "every 16th",
	"random", "random los", "ascending lazy", "ascending los"}

// ranks lists n of the 2n ranks (the odd ones) in the order of insertion.
func ranks(order string, n int, rng *rand.Rand) []int {
	out := make([]int, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, 2*i+1)
	}
	kind, _, _ := strings.Cut(order, " ")
	switch kind {
	case "descending":
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case "random":
		rng.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	case "zigzag":
		z := make([]int, 0, n)
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			z = append(z, out[i])
			if i < j {
				z = append(z, out[j])
			}
		}
		out = z
	}
	return out
}

func measure(v *maps.Variant, order string, size int, seed int64) (c Case) {
	c = Case{Var: v.Name, Order: order, Seed: seed, Size: size, H: hist{NK: size, M0: []int{0}}}
	rng := rand.New(rand.NewSource(seed))
	bits := rand.New(rand.NewSource(seed + 77))
	vs.Free = bits.Uint64
	vs.SoloMax = 1 << 40
	maps.Blind = true
	defer func() {
		vs.Free = nil
		if x := recover(); x != nil {
			c.Why = fmt.Sprint(x)
			c.H.Ev = append(c.H.Ev, [7]int{8, 1, 0})
		}
	}()
	maps.Layout = int(seed % 4)
	m := v.New(2*size+2, seed%4)
	_, kind, _ := strings.Cut(order, " ")
	insert := func(k, v int) {
		switch kind {
		case "los":
			m.LoadOrStore(k, v)
		case "lazy":
			m.LoadOrStoreLazy(k, func() int { return v })
		default:
			m.Store(k, v)
		}
	}
	rs := ranks(order, size, rng)
	slow := false
	batch := func(kind, n int, f func(i int)) {
		if slow {
			return
		}
		total, less := 0, maps.Less
		for i := 0; i < n; i++ {
			vs.BeginSolo(1)
			f(i)
			total += vs.SoloSteps
			if total > 500*(i+1)+100000 { // no need to wait for the rest
				n, slow = i+1, true
			}
		}
		c.H.Ev = append(c.H.Ev, [7]int{kind, n, total})
		if maps.Less > less {
			c.H.Ev = append(c.H.Ev, [7]int{kind + 20, n, maps.Less - less})
		}
	}
	probes := func(have []int) {
		p := 400
		some := func() int { return have[rng.Intn(len(have))] }
		batch(2, p, func(int) { m.Load(some()) })
		batch(2, p, func(int) { m.Load(some() + 1) }) // absent
		batch(3, p, func(int) { m.Store(some(), 7) })
		batch(4, p, func(int) { m.LoadOrStore(some(), 7) })
		batch(5, p, func(int) { m.LoadOrStoreLazy(some(), func() int { return 7 }) })
		batch(6, p, func(int) { m.Delete(some() + 1) }) // absent
		batch(7, 3, func(int) { m.Len() })
		if !slow {
			vs.BeginSolo(1)
			n := 0
			m.Range(func(int, int) bool { n++; return true })
			c.H.Ev = append(c.H.Ev, [7]int{10, max(n, 1), vs.SoloSteps})
		}
		// remove keys and put them back
		perm := rng.Perm(len(have))
		if len(perm) > p {
			perm = perm[:p]
		}
		half := len(perm) / 2
		batch(9, half, func(i int) { m.Delete(have[perm[i]]) })
		batch(9, len(perm)-half, func(i int) { m.LoadAndDelete(have[perm[half+i]]) })
		third := len(perm) / 3
		batch(1, third, func(i int) { m.LoadOrStore(have[perm[i]], 8) })
		batch(1, third, func(i int) { m.LoadOrStoreLazy(have[perm[third+i]], func() int { return 8 }) })
		batch(1, len(perm)-2*third, func(i int) { m.Store(have[perm[2*third+i]], 8) })
	}
	done, every, churn := 0, 0, 0
	fmt.Sscanf(order, "every %d", &every)
	if every > 0 {
		size /= 8
	}
	quiet := func(count int, f func()) {
		vs.BeginSolo(1)
		f()
		if churn += vs.SoloSteps * count; vs.SoloSteps > 20000 {
			slow = true
		}
	}
	for n := 256; ; n *= 2 {
		n = min(n, size)
		ins := rs[done:n]
		if every > 1 {
			// all but every so many of the keys inserted go away again
			for i, k := range ins {
				pos := i >> 10 % every // the same for a thousand keys
				for j := 0; j < every && !slow; j++ {
					if j == pos {
						quiet(1, func() { m.Store(k, i+1) })
					} else {
						quiet(0, func() { m.Store(k+1, 1); m.Delete(k + 1) })
					}
				}
			}
			c.H.Ev = append(c.H.Ev, [7]int{1, len(ins), churn})
			churn = 0
		} else {
			batch(1, len(ins), func(i int) { insert(ins[i], i+1) })
		}
		done = n
		probes(rs[:done])
		if n == size {
			break
		}
	}
	// shrink: most keys go away, in another order
	gone := rng.Perm(size)
	batch(9, size-256, func(i int) { m.Delete(rs[gone[i]]) })
	var left []int
	for _, i := range gone[size-256:] {
		left = append(left, rs[i])
	}
	probes(left)
	return
}

func main() {
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Int("worker", 0, "index of this worker")
	of := flag.Int("of", 1, "number of workers")
	size := flag.Int("size", 1<<14, "keys")
	outf := flag.String("out", "", "output file")
	rep := flag.String("replay", "", "case to repeat")
	flag.Parse()
	vars := append(maps.Core(), maps.Floats(maps.Ints)...)
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			panic(err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			panic(err)
		}
		for i := range vars {
			if vars[i].Name == c.Var {
				b, _ := json.Marshal(measure(&vars[i], c.Order, c.Size, c.Seed))
				fmt.Println(string(b))
			}
		}
		return
	}
	f, err := os.Create(*outf)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	n, calls, steps := 0, 0, 0
	by := map[string]int{}
	for i := range vars {
		for j, o := range orders {
			if (i*len(orders)+j)%*of != *worker {
				continue
			}
			c := measure(&vars[i], o, *size, *seed*1000+int64(i*len(orders)+j))
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.WriteByte('\n')
			n++
			by[c.Var]++
			for _, e := range c.H.Ev {
				calls += e[1]
				steps += e[2]
			}
		}
	}
	w.Flush()
	f.Close()
	b, _ := json.Marshal(map[string]any{"maps": n, "calls": calls, "steps": steps, "by_variant": by})
	fmt.Println(string(b))
}
