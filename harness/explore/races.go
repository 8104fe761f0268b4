package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"unsafe"

	"skipmapverif/maps"
	"skipmapverif/vs"
)

// The memory accesses of one execution, for spec/RaceMon.tla: only memory that
// two goroutines touch and not all of them just read. Events are <<kind,
// goroutine, place>>.
const (
	aRead    = 1 // plain
	aWrite   = 2
	aLoad    = 3 // atomic; LOAD also for a compare-and-swap that fails
	aStore   = 4
	aRMW     = 5
	aAcquire = 6 // taking a lock, taking something out of a pool
	aRelease = 7 // giving a lock back, putting something into a pool
	aSpawn   = 8 // place: the new goroutine
)

type acc struct {
	kind, t int
	lo, hi  uintptr
	space   int // 0 memory, 1 locks, 2 pooled things, 3 payloads
	site    string
}

const (
	spMem = iota
	spLock
	spPool
	spPay
)

func accesses(log []vs.StepRec) []acc {
	out := make([]acc, 0, len(log))
	for i := range log {
		l := &log[i]
		lo := uintptr(l.Addr)
		a := acc{t: l.T, lo: lo, hi: lo + uintptr(l.Size), site: l.Site}
		switch l.K {
		case vs.KRead:
			a.kind = aRead
		case vs.KWrite:
			a.kind = aWrite
		case vs.KLoad:
			a.kind = aLoad
		case vs.KStore:
			a.kind = aStore
		case vs.KCas:
			a.kind = aLoad
			if l.OK {
				a.kind = aRMW
			}
		case vs.KAdd, vs.KSwap:
			a.kind = aRMW
		case vs.KLock, vs.KUnlock, vs.KTryLock:
			if l.K == vs.KTryLock && !l.OK {
				continue
			}
			a.kind, a.space, a.hi = aAcquire, spLock, lo+1
			if l.K == vs.KUnlock {
				a.kind = aRelease
			}
		case vs.KPut, vs.KGet:
			a.kind, a.space, a.hi = aAcquire, spPool, lo+1
			if l.K == vs.KPut {
				a.kind = aRelease
			}
		case vs.KSpawn:
			a.kind, a.lo = aSpawn, uintptr(l.Val)
		default:
			continue
		}
		if l.Site == "payload" {
			a.space, a.lo, a.hi = spPay, uintptr(l.Val), uintptr(l.Val)+1
		}
		if a.kind == aSpawn || a.hi > a.lo {
			out = append(out, a)
		}
	}
	return out
}

// raceHistory reduces the accesses to those that matter and numbers the
// places and goroutines in the order of their appearance.
func raceHistory(log []vs.StepRec) (nt, nl int, ev [][7]int, sites []string) {
	as := accesses(log)
	writers := map[uintptr]int{}
	for _, a := range as {
		if a.space == spPay && a.kind == aWrite {
			writers[a.lo]++
		}
	}
	// cut the memory into segments that no access covers partly
	type pt struct {
		space int
		at    uintptr
	}
	cuts := map[int][]uintptr{}
	for _, a := range as {
		if a.kind != aSpawn {
			cuts[a.space] = append(cuts[a.space], a.lo, a.hi)
		}
	}
	for s, c := range cuts {
		sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
		k := 0
		for i := range c {
			if i == 0 || c[i] != c[k-1] {
				c[k] = c[i]
				k++
			}
		}
		cuts[s] = c[:k]
	}
	segs := func(a *acc, f func(pt)) {
		c := cuts[a.space]
		i := sort.Search(len(c), func(i int) bool { return c[i] >= a.lo })
		for ; i < len(c) && c[i] < a.hi; i++ {
			f(pt{a.space, c[i]})
		}
	}
	type use struct {
		first  int
		shared bool
		write  bool
	}
	uses := map[pt]*use{}
	for i := range as {
		a := &as[i]
		if a.kind == aSpawn {
			continue
		}
		segs(a, func(p pt) {
			u := uses[p]
			if u == nil {
				u = &use{first: a.t}
				uses[p] = u
			}
			u.shared = u.shared || u.first != a.t
			u.write = u.write || a.kind != aRead && a.kind != aLoad && a.kind != aAcquire
		})
	}
	ids, thr := map[pt]int{}, map[int]int{}
	th := func(t int) int {
		if thr[t] == 0 {
			thr[t] = len(thr) + 1
		}
		return thr[t]
	}
	type key struct {
		kind, t, loc int
	}
	done := map[key]int{} // plain accesses already told, at which release of t
	rel := map[int]int{}
	for i := range as {
		a := &as[i]
		if a.kind == aSpawn {
			ev = append(ev, [7]int{aSpawn, th(a.t), th(int(a.lo))})
			sites = append(sites, "")
			rel[a.t]++
			continue
		}
		segs(a, func(p pt) {
			u := uses[p]
			if !u.shared || !u.write || a.space == spPay && writers[p.at] != 1 {
				return
			}
			if ids[p] == 0 {
				ids[p] = len(ids) + 1
			}
			e := [7]int{a.kind, th(a.t), ids[p]}
			if a.kind == aRead || a.kind == aWrite {
				k := key{a.kind, a.t, ids[p]}
				if n, ok := done[k]; ok && n == rel[a.t] {
					return
				}
				done[k] = rel[a.t]
			} else if a.kind == aStore || a.kind == aRMW || a.kind == aRelease {
				rel[a.t]++
			}
			ev = append(ev, e)
			s := a.site
			if s == "" {
				s = [...]string{"", "", "", "atomic load", "atomic store", "atomic update", "acquire", "release"}[a.kind]
			}
			sites = append(sites, s)
		})
	}
	return len(thr), len(ids), ev, sites
}

// racy is the same reading as RaceMon's, to choose what to ask first.
func racy(nt, nl int, ev [][7]int) int {
	type vc [8]int
	if nt > 7 {
		return -1
	}
	var c [8]vc
	for t := range c {
		c[t][t] = 1
	}
	l := make([]vc, nl+1)
	last := make([][5]vc, nl+1) // by kind of access (1..4), then goroutine
	join := func(a *vc, b *vc) {
		for i := range a {
			a[i] = max(a[i], b[i])
		}
	}
	for i, e := range ev {
		k, t, p := e[0], e[1], e[2]
		var against []int
		cl := 0
		switch k {
		case aRead:
			against, cl = []int{2, 4}, 1
		case aWrite:
			against, cl = []int{1, 2, 3, 4}, 2
		case aLoad:
			against, cl = []int{2}, 3
		case aStore, aRMW:
			against, cl = []int{1, 2}, 4
		}
		if cl != 0 {
			for _, a := range against {
				for u := range c {
					if u != t && last[p][a][u] > c[t][u] {
						return i
					}
				}
			}
			last[p][cl][t] = c[t][t]
		}
		switch k {
		case aLoad, aAcquire:
			join(&c[t], &l[p])
		case aStore:
			l[p] = c[t]
			c[t][t]++
		case aRMW:
			join(&c[t], &l[p])
			l[p] = c[t]
			c[t][t]++
		case aRelease:
			join(&l[p], &c[t])
			c[t][t]++
		case aSpawn:
			join(&c[p], &c[t])
			c[t][t]++
		}
	}
	return -1
}

func (x *explorer) races(sc *Scenario, v *maps.Variant, r *Run, s *vs.Sched) {
	progress.Add(1)
	x.execs++
	x.steps += int64(r.steps)
	x.byVar[v.Name]++
	if s == nil {
		return
	}
	nt, nl, ev, sites := raceHistory(s.Log)
	if len(ev) == 0 {
		return
	}
	h := hashInts(ev)
	if _, ok := x.seen[h]; ok {
		return
	}
	x.seen[h] = struct{}{}
	x.distinct++
	i := racy(nt, nl, ev)
	if i >= 0 {
		x.suspects++
		if x.suspects > 3000 {
			return
		}
	} else {
		x.events += len(ev)
		if x.events > x.maxev {
			return
		}
	}
	hb, _ := json.Marshal(struct {
		NK int      `json:"nk"`
		M0 []int    `json:"m0"`
		Ev [][7]int `json:"ev"`
	}{(nl + 15) / 16 * 16, []int{max(nt, 3)}, ev})
	c := Case{Sus: i >= 0, Hist: hb, Sc: sc, Var: v.Name, Sched: r.sched, Prop: x.prop}
	if i >= 0 {
		c.Sites = sites
		for j := i - 1; j >= 0; j-- {
			if ev[j][2] == ev[i][2] && ev[j][1] != ev[i][1] && ev[j][0] != aSpawn && ev[i][0] != aSpawn {
				c.Why = fmt.Sprintf("%s against %s", sites[i], sites[j])
				break
			}
		}
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	x.out.Write(b)
	x.out.WriteByte('\n')
}

// payload records that the current goroutine wrote, or read, what value v
// stands for.
func payload(k vs.Kind, v int) {
	if s := vs.S; s != nil && s.Races && s.Cur != nil && v > 0 && !vs.Aborting() {
		s.Log = append(s.Log, vs.StepRec{T: s.Cur.ID, K: k, Addr: unsafe.Pointer(s), Size: 1, Val: uint64(v), Site: "payload"})
	}
}
