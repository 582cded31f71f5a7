package main

import "fmt"

func init() {
	regScenario(&Scenario{name: "db", gen: genDB, exec: dbExec, check: dbCheck, kinds: dbKinds})
}

var dbDomains = [][]int{{2, 2}, {2, 3}, {3, 2}, {4, 4}, {1, 4}, {5, 1}, {2, 3, 2}, {3, 2, 4}, {2, 2, 1}, {1, 1}, {7, 3}}
var dbBig = [][]int{{16, 16}, {8, 24}, {6, 5, 7}}
var dbHuge = [][]int{{32, 33}, {40, 40}, {12, 10, 11}}
var dbNames = []string{"conc", "phi", "eta1", "A b", "f,g", "x'y", "ψ", "na\"me", "Conc", "field_with_a_rather_long_name"}
var tsKeys = []string{"energy", "peak", "avg size", "k'1", "std\"dev", "T,max"}

// mismatch of a domain: same number of nodes, or one is a slice of the other
func otherDomain(r *RNG, d []int) []int {
	switch r.Intn(5) {
	case 0:
		if len(d) == 2 && d[0] != d[1] {
			return []int{d[1], d[0]}
		}
		if len(d) == 2 {
			return []int{d[0], d[1], 1 + r.Range(1, 2)}
		}
		return []int{d[0], d[1], d[2] + 1}
	case 1:
		if len(d) == 2 {
			return []int{d[0], d[1], 2}
		}
		return []int{d[0], d[1]}
	case 2:
		return []int{d[0] + 1, d[1]}
	case 3:
		return []int{d[0] * d[1], 1}
	}
	return pick(r, dbDomains)
}

func genDB(r *RNG, prop string, thorough bool) *Plan {
	pr := &Program{}
	dom := pick(r, dbDomains)
	if r.Bool(0.06) {
		dom = pick(r, dbBig)
	}
	if r.Bool(map[bool]float64{true: 0.02, false: 0.005}[thorough]) {
		dom = pick(r, dbHuge)
	}
	cli := prop == "C06" || prop == "C07"
	mism := prop == "C04" && r.Bool(0.5) || !cli && prop != "C04" && r.Bool(0.05)
	n := 0
	var writers []int
	steps := map[int][]int{}
	ncom := map[int]bool{}
	keySerial := 0
	shared, many := r.Bool(0.4), cli && r.Bool(0.1)
	nph := 1 + r.Intn(3)
	if cli {
		nph = 1 + r.Intn(2)
	}
	plain := prop == "C07" || prop == "C06"
	newWriter := func(nops int, recov bool) ProcProg {
		p := ProcProg{Kind: "writer", Dom: dom, Opt: map[string]int{"style": r.Intn(8), "close": r.Intn(2)}}
		if plain {
			p.Opt["style"] = r.Intn(2)
		}
		if prop == "C18" && r.Bool(0.2) {
			p.Opt["oneconn"] = 1
		}
		if !recov && r.Bool(0.3) {
			p.Opt["tolerant"] = 1
		}
		mixed, fewer := r.Bool(0.2), r.Bool(0.2)
		again := !plain && r.Bool(0.2) // attributes are set several times
		if shared {                    // several simulations use the same attributes
			keySerial = 0
		}
		if mism && !recov && r.Bool(0.4) {
			p.Dom = otherDomain(r, dom)
		}
		id := n
		n++
		nf := 1 + r.Intn(3)
		p.S = nil
		for len(p.S) < nf {
			x := pick(r, dbNames)
			dup := false
			for _, y := range p.S {
				dup = dup || x == y
			}
			if !dup {
				p.S = append(p.S, x)
			}
		}
		if nf == 2 && r.Bool(0.2) {
			p.S = pick(r, [][]string{{"conc", "Conc"}, {"Conc", "conc"}, {"c", "C"}})
		}
		ep := 0
		if r.Bool(0.2) {
			ep = r.Intn(1000)
		}
		stride := 1
		if r.Bool(0.2) {
			stride = 1 + r.Intn(10)
		}
		var epochs []int
		next := func() int {
			e := ep
			ep += stride
			if mixed { // steps are stored in any order
				for again := true; again; {
					e = r.Intn(40)
					again = false
					for _, x := range epochs {
						again = again || x == e
					}
				}
			}
			epochs = append(epochs, e)
			return e
		}
		tsStep := 0
		for k := 0; k < nops; k++ {
			x := r.Intn(100)
			switch prop {
			case "C06":
				if x >= 70 {
					x = r.Intn(60)
				}
			case "C07":
				if x < 40 && r.Bool(0.7) {
					x = 45 + r.Intn(40)
				}
			case "C04":
				if x > 50 {
					x = 0
				}
			}
			switch {
			case x < 40:
				if plain && prop == "C06" || r.Bool(0.85) {
					o := Op{K: "save", N: []int{next()}}
					if fewer {
						o.N = append(o.N, 1+r.Intn(nf)) // only some of the fields
					}
					p.Ops = append(p.Ops, o)
				} else {
					// through the solver: plain field names only
					p.S = []string{"conc", "eta"}[:1+r.Intn(2)]
					p.Opt["style"] &= 3
					c := 1 + r.Intn(2)
					if mixed && ep < 100 {
						ep = 100
					}
					e := ep
					for i := 0; i < c; i++ {
						epochs = append(epochs, e+i)
					}
					ep = e + c
					p.Ops = append(p.Ops, Op{K: "solve", N: []int{e, c}})
				}
			case x < 60:
				o := Op{K: "ts", N: []int{tsStep}}
				tsStep += 1 + r.Intn(3)
				if r.Bool(0.8) {
					o.S = pickKeys(r, tsKeys, 1+r.Intn(3))
				}
				if r.Bool(0.05) && !plain {
					o.S = nil // empty map
				}
				p.Ops = append(p.Ops, o)
			case x < 72:
				o := Op{K: "attr"}
				num := r.Intn(4)
				if again {
					keySerial = 0
				}
				if many {
					num = r.Intn(24)
				}
				for i := num; i >= 0; i-- {
					keySerial++
					o.S = append(o.S, attrKey(shared, r, keySerial))
				}
				p.Ops = append(p.Ops, o)
			case x < 82:
				o := Op{K: "text", N: []int{r.Intn(6)}}
				if prop == "C07" {
					o.N[0] = 0
				}
				for i := r.Intn(3); i >= 0; i-- {
					keySerial++
					o.S = append(o.S, attrKey(shared, r, keySerial))
				}
				p.Ops = append(p.Ops, o)
			case x < 88:
				if prop == "C07" && ncom[id] {
					continue
				}
				ncom[id] = true
				o := Op{K: "comment", N: []int{r.Intn(6)}}
				p.Ops = append(p.Ops, o)
			case x < 96:
				if plain {
					continue
				}
				ws := append(append([]int(nil), writers...), id)
				t := pick(r, ws)
				es := steps[t]
				if t == id {
					es = epochs
				}
				if r.Bool(0.4) || len(es) == 0 {
					p.Ops = append(p.Ops, Op{K: "loadlast", N: []int{t}})
				} else {
					p.Ops = append(p.Ops, Op{K: "load", N: []int{t, pick(r, es)}})
				}
			default:
				p.Ops = append(p.Ops, Op{K: "sleep", N: []int{r.Range(1, 1500)}})
			}
		}
		writers = append(writers, id)
		steps[id] = epochs
		return p
	}
	newReader := func() ProcProg {
		p := ProcProg{Kind: "reader", Opt: map[string]int{}}
		n++
		for k := 1 + r.Intn(5); k > 0; k-- {
			t := pick(r, writers)
			x := r.Intn(10)
			if prop == "C05" {
				x = r.Intn(7)
			}
			if prop == "C01" || prop == "C02" {
				x = 3 + r.Intn(7)
			}
			switch {
			case x < 3 && len(steps[t]) > 0:
				p.Ops = append(p.Ops, Op{K: "load", N: []int{t, pick(r, steps[t])}})
			case x < 5:
				p.Ops = append(p.Ops, Op{K: "loadlast", N: []int{t}})
			case x < 6:
				p.Ops = append(p.Ops, Op{K: "sleep", N: []int{r.Range(1, 200)}})
			default:
				p.Ops = append(p.Ops, Op{K: "peek", S: []string{pick(r, []string{"fields", "fields", "timeseries", "simAttributes", "simTextAttributes", "comments"})}})
			}
		}
		return p
	}
	newCLI := func() ProcProg {
		p := ProcProg{Kind: "cli", Opt: map[string]int{"argstyle": r.Intn(1 << 20)}}
		if r.Bool(0.3) {
			p.Opt["stale"] = 1 + r.Intn(2)
		}
		n++
		t := -1
		if len(writers) > 0 && r.Bool(0.8) {
			t = pick(r, writers)
		}
		step := 0
		if t >= 0 && len(steps[t]) > 0 {
			step = pick(r, steps[t])
		}
		if r.Bool(0.15) {
			step = -1
		}
		var op Op
		if prop == "C06" || (prop != "C07" && r.Bool(0.4)) {
			switch r.Intn(4) {
			case 0, 1:
				op = Op{K: "export-ts", N: []int{t}}
			case 2:
				op = Op{K: "export-fd", N: []int{t, step}}
			case 3:
				op = Op{K: "export-all", N: []int{t}}
			}
		} else {
			switch k := pick(r, []string{"comment-new", "comment-new", "comment-show", "comment-all", "attr", "attr-unique", "attr-name", "info", "list-id", "list-comment", "time"}); k {
			case "comment-new":
				if t < 0 && len(writers) > 0 {
					t = pick(r, writers)
				}
				if t < 0 {
					op = Op{K: "info"}
				} else {
					op = Op{K: k, N: []int{t, 0, pick(r, []int{0, 1, 3, 5})}}
				}
			case "comment-show":
				if t < 0 {
					k = "comment-all"
				}
				op = Op{K: k, N: []int{t}}
			case "attr":
				op = Op{K: k, N: []int{t}}
			case "attr-name":
				key := "a1"
				if keySerial > 0 {
					key = pick(r, allKeys(pr))
				}
				op = Op{K: k, N: []int{t}, S: []string{key}}
			case "list-id", "list-comment":
				op = Op{K: k, N: []int{-1, pick(r, []int{20, 20, 1, 2})}}
			case "time":
				op = Op{K: k, N: []int{t}}
			default:
				op = Op{K: k, N: []int{-1}}
			}
		}
		switch op.K {
		case "attr", "attr-name", "time", "comment-show", "comment-new":
			if r.Bool(0.12) { // a simulation that does not exist
				p.Opt["nosim"] = 1 + pick(r, []int{0, 0, 1, 77})
			}
		}
		p.Ops = []Op{op}
		return p
	}
	for ph := 0; ph < nph; ph++ {
		var procs []ProcProg
		nw := 1 + r.Intn(3)
		switch prop {
		case "C03":
			nw = 2 + r.Intn(3)
		case "C06", "C07":
			nw = 1 + r.Intn(2)
		}
		maxops := 5
		for i := 0; i < nw; i++ {
			k := 1 + r.Intn(maxops)
			if cli {
				k = 2 + r.Intn(4)
			}
			procs = append(procs, newWriter(k, false))
		}
		pr.Phases = append(pr.Phases, procs)
		if !cli && r.Bool(0.6) {
			for i := 1 + r.Intn(2); i > 0; i-- {
				procs = append(procs, newReader())
			}
		}
		if cli {
			for i := 1 + r.Intn(3); i > 0; i-- {
				procs = append(procs, newCLI())
			}
		}
		pr.Phases[len(pr.Phases)-1] = procs
	}
	if cli {
		// what is stored is then looked at in peace
		var procs []ProcProg
		for i := 1 + r.Intn(4); i > 0; i-- {
			procs = append(procs, newCLI())
		}
		pr.Phases = append(pr.Phases, procs)
	}
	if !mism && r.Bool(0.6) {
		w := newWriter(2, true)
		w.Opt["recover"] = 1
		w.Opt["nofault"] = 1
		w.Ops = append([]Op{{K: "save", N: []int{5000}}}, w.Ops...)
		w.Ops = append(w.Ops, Op{K: "load", N: []int{n - 1, 5000}})
		pr.Phases = append(pr.Phases, []ProcProg{w})
	}
	plan := &Plan{Program: pr, Clock: genClock(r)}
	if prop == "C03" && r.Bool(0.6) {
		plan.Clock.Gran = pick(r, []int64{1e9, 1e6, 15625000, 60e9})
		if r.Bool(0.5) {
			plan.Clock.Skew = nil
		}
	}
	return plan
}

func attrKey(shared bool, r *RNG, serial int) string {
	if shared { // some names differ by little
		return fmt.Sprintf([]string{"key%d", "KEY%d", "key%%%d", "ke_%d"}[serial%4], serial/4)
	}
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("a%d", serial)
	case 1:
		return fmt.Sprintf("k'%d", serial)
	}
	return fmt.Sprintf("key%d", serial)
}

func allKeys(pr *Program) []string {
	out := []string{"missing"}
	for _, ph := range pr.Phases {
		for _, p := range ph {
			for _, o := range p.Ops {
				if o.K == "attr" || o.K == "text" {
					out = append(out, o.S...)
				}
			}
		}
	}
	return out
}

func pickKeys(r *RNG, from []string, n int) []string {
	var out []string
	for len(out) < n {
		x := pick(r, from)
		dup := false
		for _, y := range out {
			dup = dup || x == y
		}
		if !dup {
			out = append(out, x)
		}
	}
	return out
}

func dbKinds(prop, site string) []string {
	switch site {
	case "vfs.open":
		return []string{"cantopen", "kill", "stall", "power"}
	case "vfs.read":
		return []string{"ioerr", "ioerr", "kill", "stall"}
	case "vfs.write":
		return []string{"ioerr", "full", "torn", "kill", "power", "tornpower", "stall"}
	case "vfs.sync":
		return []string{"ioerr", "kill", "power", "stall"}
	case "vfs.trunc", "vfs.size", "vfs.access":
		return []string{"ioerr", "kill"}
	case "vfs.lock":
		return []string{"ioerr", "kill", "stall", "power"}
	case "vfs.unlock":
		return []string{"kill", "stall", "power"}
	case "vfs.delete":
		return []string{"ioerr", "kill", "power", "stall"}
	case "op", "between":
		return []string{"kill", "clock", "stall", "power"}
	case allocSite:
		return []string{"nomem"}
	case "fft.pre", "fft.post":
		return []string{"kill"}
	case "sleep", "vfs.sleep":
		return []string{"kill", "clock"}
	}
	if prop == "C06" || prop == "C07" {
		switch site {
		case "os.open":
			return []string{"eacces", "emfile", "enospc", "kill"}
		case "os.write":
			return []string{"enospc", "eio", "torn", "kill"}
		case "os.close":
			return []string{"eio", "kill"}
		}
	}
	return nil
}
