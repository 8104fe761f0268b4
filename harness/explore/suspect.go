package main

// A quick reading of a history, used only to choose which histories the
// specification (spec/TraceMon.tla) is asked about first when there are more
// than it can judge in the time given. It follows spec/MapOps.tla; the verdict
// is the specification's.

const (
	maxKeys = 6
	maxPend = 8
)

type pend struct {
	on, lin, ok bool
	eff         int8
	v           int16
	seen        [maxKeys + 1]uint64
	ls          uint64
}

type conf struct {
	m [maxKeys + 1]int16
	p [maxPend]pend
}

type opInfo struct {
	id, kind, k, v int
	last, f        int
	stop           bool
}

type watcher struct {
	nk   int
	info [maxPend]opInfo // id 0: free
}

// suspicious tells whether the history seems not to be one of the map;
// known is false if it cannot tell.
func suspicious(nk int, m0 []int, evs []Ev) (sus, known bool) {
	if nk > maxKeys {
		return false, false
	}
	w := &watcher{nk: nk}
	var c conf
	for i, v := range m0 {
		c.m[i+1] = int16(v)
	}
	set := map[conf]struct{}{c: {}}
	for i := range evs {
		e := &evs[i]
		s := w.slot(e.O)
		switch e.E {
		case eCall:
			s = w.slot(0)
		case eRetain, eKeys:
			s = 0
		}
		if s < 0 {
			return e.E != eCall, e.E != eCall // unknown call, or too many at once
		}
		if e.V > 62 && e.E != eSteps && e.E != eKeys {
			return false, false
		}
		if !w.wellFormed(e, s) {
			return true, true
		}
		if e.E != eCall && e.E != eGot && e.E != eRaise && e.E != eSteps {
			w.closure(set)
			if len(set) > 20000 {
				return false, false
			}
		}
		next := map[conf]struct{}{}
		info := w.info
		for c := range set {
			w.info = info
			if w.after(&c, e, s) {
				next[c] = struct{}{}
			}
		}
		w.info = info
		w.infoAfter(e, s)
		if len(next) == 0 {
			return true, true
		}
		set = next
	}
	return false, true
}

func (w *watcher) slot(id int) int {
	for i := range w.info {
		if w.info[i].id == id {
			return i
		}
	}
	return -1
}

func (w *watcher) empty() bool {
	for i := range w.info {
		if w.info[i].id != 0 {
			return false
		}
	}
	return true
}

func (w *watcher) wellFormed(e *Ev, s int) bool {
	in := &w.info[s]
	switch e.E {
	case eCall:
		return w.slot(e.O) < 0
	case eRet:
		return in.f != 1 && in.f != 3
	case eRaise:
		return in.kind == 7 || in.kind == 6 && in.f == 1
	case eAbort:
		return in.f == 3
	case eSteps:
		return true
	case eRetain, eKeys:
		return w.empty()
	case eVisit:
		return in.kind == 7 && !in.stop && in.f == 0 && e.K > in.last
	case eFunc:
		return in.kind == 6 && in.f == 0
	case eGot:
		return in.f == 1
	}
	return false
}

func (w *watcher) infoAfter(e *Ev, s int) {
	in := &w.info[s]
	switch e.E {
	case eCall:
		*in = opInfo{id: e.O, kind: e.Kind, k: e.K, v: e.V}
	case eRet, eAbort:
		*in = opInfo{}
	case eVisit:
		in.last, in.stop = e.K, e.OK
	case eFunc:
		in.f = 1
	case eGot:
		in.f, in.v = 2, e.V
	case eRaise:
		in.f = 3
	}
}

func isIns(k int) bool { return k == 1 || k == 5 || k == 6 }
func isRem(k int) bool { return k == 3 || k == 4 }

func (w *watcher) refresh(c *conf) {
	any := false
	for i := range w.info {
		any = any || w.info[i].id != 0 && w.info[i].kind >= 7
	}
	if !any {
		return
	}
	n, linIns, linRem, unIns, unRem := 0, 0, 0, 0, 0
	for k := 1; k <= w.nk; k++ {
		if c.m[k] != 0 {
			n++
		}
	}
	for i := range c.p {
		if !c.p[i].on {
			continue
		}
		if c.p[i].lin {
			if c.p[i].eff == 1 {
				linIns++
			}
			if c.p[i].eff == -1 {
				linRem++
			}
		} else if isIns(w.info[i].kind) {
			unIns++
		} else if isRem(w.info[i].kind) {
			unRem++
		}
	}
	for i := range c.p {
		if !c.p[i].on {
			continue
		}
		switch w.info[i].kind {
		case 7:
			for k := 1; k <= w.nk; k++ {
				c.p[i].seen[k] |= 1 << uint(c.m[k])
			}
		case 8:
			for x := max(0, n-linIns-unRem); x <= n+linRem+unIns && x < 64; x++ {
				c.p[i].ls |= 1 << uint(x)
			}
		}
	}
}

func (w *watcher) reserved(c *conf, except, k int) bool {
	for j := range c.p {
		if j != except && c.p[j].on && w.info[j].k == k && w.info[j].f != 0 && !c.p[j].lin {
			return true
		}
	}
	return false
}

func (w *watcher) closure(set map[conf]struct{}) {
	var work []conf
	for c := range set {
		work = append(work, c)
	}
	for len(work) > 0 && len(set) <= 20000 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		for i := range c.p {
			in := &w.info[i]
			if !c.p[i].on || c.p[i].lin || in.kind >= 7 {
				continue
			}
			cur := c.m[in.k]
			if in.kind == 6 && (cur != 0 && in.f != 0 || cur == 0 && in.f != 2) {
				continue
			}
			if isIns(in.kind) && cur == 0 && w.reserved(&c, i, in.k) {
				continue
			}
			d := c
			q := &d.p[i]
			q.lin, q.ok, q.v = true, cur != 0, 0
			next := cur
			switch in.kind {
			case 1:
				next, q.ok = int16(in.v), true
			case 2:
				q.v = cur
			case 3:
				next = 0
			case 4:
				next, q.v = 0, cur
			case 5, 6:
				q.v = cur
				if cur == 0 {
					next, q.v = int16(in.v), int16(in.v)
				}
			}
			if cur == 0 && next != 0 {
				q.eff = 1
			} else if cur != 0 && next == 0 {
				q.eff = -1
			}
			d.m[in.k] = next
			w.refresh(&d)
			if _, ok := set[d]; !ok {
				set[d] = struct{}{}
				work = append(work, d)
			}
		}
	}
}

// after changes c to what follows e, false if e cannot happen in c.
func (w *watcher) after(c *conf, e *Ev, s int) bool {
	in := w.info[s]
	p := &c.p[s]
	switch e.E {
	case eRet:
		switch in.kind {
		case 7:
			if !in.stop && !e.W {
				for k := in.last + 1; k <= w.nk; k++ {
					if p.seen[k]&1 == 0 {
						return false
					}
				}
			}
		case 8:
			if !e.W && (e.V < 0 || e.V > 63 || p.ls>>uint(e.V)&1 == 0) {
				return false
			}
		default:
			if !p.lin || !e.W && (p.ok != e.OK || int(p.v) != e.V) {
				return false
			}
		}
	case eAbort:
		if p.lin {
			return false
		}
	case eVisit:
		if e.K < 1 || e.K > w.nk || e.V <= 0 || p.seen[e.K]>>uint(e.V)&1 == 0 {
			return false
		}
		for k := in.last + 1; k < e.K; k++ {
			if p.seen[k]&1 == 0 {
				return false
			}
		}
	case eFunc:
		if p.lin || c.m[in.k] != 0 || w.reserved(c, s, in.k) {
			return false
		}
	case eSteps:
		if e.V > 12*(w.nk+18) {
			return false
		}
	case eRetain:
		for k := 1; k <= w.nk; k++ {
			if e.V != 0 && int(c.m[k]) == e.V {
				return true
			}
		}
		return false
	case eKeys:
		return e.V <= b2i(c.m[e.K] != 0)
	}
	w.infoAfter(e, s)
	switch e.E {
	case eCall:
		*p = pend{on: true}
	case eRet, eAbort:
		*p = pend{}
	}
	w.refresh(c)
	return true
}
