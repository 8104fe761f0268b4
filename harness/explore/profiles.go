package main

var (
	upd     = map[string]int{"store": 4, "del": 3, "lad": 3, "los": 3, "lazy": 2}
	updRead = map[string]int{"store": 4, "del": 3, "lad": 3, "los": 3, "lazy": 2, "load": 2, "range": 1}
	points  = map[string]int{"store": 4, "load": 4, "del": 3, "lad": 3, "los": 3, "lazy": 2}
	mixed   = map[string]int{"store": 4, "load": 2, "del": 3, "lad": 3, "los": 3, "lazy": 2, "range": 3, "len": 2}
	insK    = []string{"store", "los", "lazy"}
	remK    = []string{"del", "lad"}
	updK    = []string{"store", "los", "lazy", "del", "lad"}
	ptK     = []string{"store", "load", "los", "lazy", "del", "lad"}
)

// plan is what one property's exploration consists of.
type plan struct {
	prof  Profile
	sys   []*Scenario
	probe string
}

func planFor(prop string) *plan {
	base := Profile{Weights: points, Threads: [2]int{2, 3}, Ops: [2]int{1, 3}, NK: [2]int{1, 4}, Tall: 6}
	switch prop {
	case "C01", "C14":
		return &plan{base, systematic(ptK, ptK, ptK, "load", "lad"), "load"}
	case "C16":
		base.Weights = mixed
		all := append([]string{"range", "len"}, ptK...)
		return &plan{base, systematic(all, updK, updK), ""}
	case "C02":
		base.First = map[string]int{"los": 1, "lazy": 1}
		return &plan{base, systematic([]string{"los", "lazy"}, updK, []string{"los", "lazy", "lad"}, "load", "lad"), "los"}
	case "C03":
		base.First = map[string]int{"del": 1, "lad": 1}
		return &plan{base, systematic(remK, updK, []string{"del", "lad", "store"}, "load", "del"), "load lad"}
	case "C04":
		base.First = map[string]int{"lazy": 1}
		base.Weights = map[string]int{"store": 3, "load": 1, "del": 3, "lad": 2, "los": 3, "lazy": 6}
		return &plan{base, systematic([]string{"lazy"}, updK, []string{"lazy", "lad", "load"}, "load", "lad"), "load"}
	case "C05":
		base.First = map[string]int{"range": 1}
		base.Weights = map[string]int{"store": 4, "del": 3, "lad": 3, "los": 3, "lazy": 1, "range": 3, "load": 2}
		base.Stop = 15
		base.NK = [2]int{2, 4}
		return &plan{base, append(systematic([]string{"range"}, updK, []string{"store", "del", "lad", "range"}, "load", "lad", "range"), systematic(updK, updK, nil, "range")...), "range"}
	case "C06":
		base.First = map[string]int{"len": 1}
		base.Weights = map[string]int{"store": 4, "del": 3, "lad": 3, "los": 3, "lazy": 1, "len": 5}
		return &plan{base, append(systematic([]string{"len"}, updK, []string{"del", "lad", "len"}), systematic(updK, updK, nil, "len")...), "len load"}
	case "C07":
		base.Weights = updRead
		base.Threads = [2]int{2, 4}
		return &plan{base, systematic(append([]string{"load"}, updK...), updK, updK), "len range load los len lad range len load store range len del len range"}
	case "C08":
		base.Weights = upd
		base.First = map[string]int{"load": 3, "range": 3, "len": 1}
		base.NK = [2]int{1, 5}
		return &plan{base, systematic([]string{"load", "range", "len"}, updK, []string{"del", "store"}), ""}
	case "C18":
		base.Weights = upd
		base.NK = [2]int{2, 5}
		return &plan{base, private(), ""}
	case "C19":
		return &plan{base, apart(), ""}
	case "C09":
		base.Weights = map[string]int{"store": 4, "del": 4, "lad": 3, "los": 3, "lazy": 2, "load": 1, "range": 1}
		base.Threads = [2]int{2, 4}
		base.NK = [2]int{1, 5}
		base.Tall = 10
		return &plan{base, systematic(updK, updK, updK), "los lad"}
	case "C12":
		base.First = map[string]int{"range": 3, "lazy": 2}
		base.Weights = mixed
		base.NestW = mixed
		base.Nest = 80
		base.LazyNest = true
		base.Boom = 40
		base.Stop = 10
		base.Threads = [2]int{1, 2}
		base.NK = [2]int{2, 5}
		return &plan{base, nil, "load store load los del len range lazy lad len"}
	case "C13":
		base.Weights = updRead
		base.Threads = [2]int{1, 3}
		base.NK = [2]int{1, 4}
		base.Long = 12
		return &plan{base, systematic(append([]string{"load"}, updK...), updK, remK), "load"}
	}
	return nil
}
