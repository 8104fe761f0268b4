package main

import (
	"encoding/json"
	"hash/fnv"
	"sort"
)

// project keeps the part of a history that one property speaks about:
// results that do not matter are marked unseen, lazy insertions become plain
// ones where the run of the function does not matter.
func project(prop string, r *Run) []Ev {
	kind := func(o int) string {
		if o < 1 || o > len(r.kinds) {
			return ""
		}
		return r.kinds[o-1]
	}
	lazyAsLos := prop == "C01" || prop == "C02" || prop == "C03" || prop == "C05" || prop == "C06" || prop == "C07" || prop == "C09" || prop == "C13" || prop == "C18" || prop == "C19"
	crowd := r.sc.Name == "crowd" && prop == "C07"
	out := make([]Ev, 0, len(r.ev))
	for _, e := range r.ev {
		k := kind(e.O)
		if lazyAsLos && (e.E == eFunc || e.E == eGot) {
			continue
		}
		if lazyAsLos && e.E == eCall && e.Kind == kindCode["lazy"] {
			e.Kind = kindCode["los"]
		}
		switch prop {
		case "C01", "C02", "C03", "C04", "C05", "C06":
			// that a call hangs or crashes is for C07, C09, C10 and C12 to say
			if e.E == eStuck || e.E == eCrash {
				return out
			}
		case "C07":
			if !e.probe && (e.E == eStuck || e.E == eCrash) {
				return nil
			}
			// what a reader saw meanwhile is for C01, C05 and C06
			if !e.probe && isReader(k) && !(crowd && k == "load") {
				continue
			}
		case "C13":
			if e.E == eStuck || e.E == eCrash {
				return nil
			}
			if !e.probe && isReader(k) {
				continue
			}
		case "C18", "C19": // only the calls of the first thread
			if e.O < 1 || e.O > len(r.opT) || r.opT[e.O-1] != 1 || e.E == eFunc || e.E == eGot {
				continue
			}
			if e.E == eCrash {
				return out
			}
		case "C08": // only the reader's own calls
			if k != "load" && k != "range" && k != "len" || e.E == eVisit {
				continue
			}
			if e.E == eCrash {
				return out
			}
		}
		if e.E == eRet {
			switch prop {
			case "C02":
				e.W = k != "los" && k != "lazy"
			case "C03":
				e.W = k != "del" && k != "lad" && !e.probe
			case "C04":
				e.W = k != "lazy" && !e.probe
			case "C07", "C13":
				e.W = !e.probe
			case "C08", "C09", "C18", "C19":
				e.W = true
			}
			if crowd { // many calls with unknown results would allow too many maps
				e.W = false
			}
			if e.W {
				e.OK, e.V = false, 0
			}
		}
		out = append(out, e)
	}
	if prop == "C09" {
		return completion(out)
	}
	return out
}

// completion keeps which calls returned and which did not, one call after the
// other: the order is of no consequence for that.
func completion(evs []Ev) []Ev {
	type call struct {
		e   Ev
		end Ev
	}
	at := map[int]int{}
	var calls []call
	for _, e := range evs {
		switch e.E {
		case eCall:
			at[e.O] = len(calls)
			calls = append(calls, call{e: e})
		case eRet, eStuck, eCrash:
			if i, ok := at[e.O]; ok {
				calls[i].end = e
			} else {
				calls = append(calls, call{end: e})
			}
		}
	}
	sort.SliceStable(calls, func(i, j int) bool {
		a, b := calls[i], calls[j]
		if (a.end.E == eRet) != (b.end.E == eRet) {
			return a.end.E == eRet
		}
		if a.e.Kind != b.e.Kind {
			return a.e.Kind < b.e.Kind
		}
		return a.e.K < b.e.K
	})
	var out []Ev
	bad := false
	for _, c := range calls {
		bad = bad || c.end.E != eRet
	}
	for _, c := range calls {
		if bad && c.end.E == eRet && c.e.probe {
			continue
		}
		if !bad && c.e.probe {
			continue
		}
		if c.e.E == eCall {
			out = append(out, c.e)
		}
		if c.end.E != 0 {
			out = append(out, c.end)
		}
	}
	return out
}

// normal renames calls and values in the order of their appearance and orders
// calls made between the same two other events.
func normal(evs []Ev, init []InitNode, nk int) (m0 []int, out []Ev) {
	plain := true
	for _, e := range evs {
		if e.E == eCall && e.Kind >= kindCode["range"] {
			plain = false
		}
	}
	if plain {
		for i := 0; i < len(evs); {
			j := i
			for j < len(evs) && evs[j].E == eCall {
				j++
			}
			if j > i+1 {
				run := evs[i:j]
				sort.SliceStable(run, func(a, b int) bool {
					if run[a].Kind != run[b].Kind {
						return run[a].Kind < run[b].Kind
					}
					return run[a].K < run[b].K
				})
			}
			if j == i {
				j++
			}
			i = j
		}
	}
	m0 = make([]int, nk)
	vals := map[int]int{0: 0, -1: -1}
	val := func(v int) int {
		if n, ok := vals[v]; ok {
			return n
		}
		n := len(vals) - 1
		vals[v] = n
		return n
	}
	byKey := make([]int, nk+1)
	for _, in := range init {
		byKey[in.K] = in.V
	}
	for k := 1; k <= nk; k++ {
		if byKey[k] != 0 {
			m0[k-1] = val(byKey[k])
		}
	}
	ids := map[int]int{}
	kinds := map[int]int{}
	for _, e := range evs {
		if e.E == eCall {
			ids[e.O] = len(ids) + 1
			kinds[e.O] = e.Kind
		}
		k := kinds[e.O]
		if n, ok := ids[e.O]; ok {
			e.O = n
		} else {
			e.O = 0
		}
		switch e.E {
		case eSteps, eKeys:
		case eRet:
			if k != kindCode["len"] {
				e.V = val(e.V)
			}
		default:
			e.V = val(e.V)
		}
		out = append(out, e)
	}
	return m0, out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func encode(nk int, m0 []int, evs []Ev) []byte {
	flat := make([][7]int, len(evs))
	for i, e := range evs {
		flat[i] = [7]int{e.E, e.O, e.Kind, e.K, e.V, b2i(e.OK), b2i(e.W)}
	}
	b, _ := json.Marshal(struct {
		NK int      `json:"nk"`
		M0 []int    `json:"m0"`
		Ev [][7]int `json:"ev"`
	}{nk, m0, flat})
	return b
}

func hashInts(ev [][7]int) uint64 {
	h := fnv.New64a()
	for _, e := range ev {
		h.Write([]byte{byte(e[0]), byte(e[1]), byte(e[2]), byte(e[2] >> 8)})
	}
	return h.Sum64()
}

func hash(nk int, m0 []int, evs []Ev) uint64 {
	h := fnv.New64a()
	var buf [8]byte
	put := func(xs ...int) {
		for _, x := range xs {
			buf[0], buf[1] = byte(x), byte(x>>8)
			h.Write(buf[:2])
		}
	}
	put(nk)
	put(m0...)
	for _, e := range evs {
		put(e.E, e.O, e.Kind, e.K, e.V, b2i(e.OK)+2*b2i(e.W))
	}
	return h.Sum64()
}

// calls is the number of the last call that is no probe.
func calls(evs []Ev) int {
	n := 0
	for _, e := range evs {
		if e.E == eCall && !e.probe {
			n = max(n, e.O)
		}
	}
	return n
}

// vague tells whether too many pairs of calls of a history may have happened
// in either order without their results telling: the number of maps that are
// possible doubles with each.
func vague(evs []Ev) bool {
	store := kindCode["store"]
	open := map[int]*Ev{}
	n := 0
	for i := range evs {
		e := &evs[i]
		switch e.E {
		case eCall:
			if isReader(kindName(e.Kind)) {
				continue
			}
			for _, o := range open {
				if o.K == e.K && (o.Kind == store || e.Kind == store) {
					n++
				}
			}
			open[e.O] = e
		case eRet:
			delete(open, e.O)
		}
	}
	return n > 8
}

func kindName(code int) string {
	for n, c := range kindCode {
		if c == code {
			return n
		}
	}
	return ""
}
