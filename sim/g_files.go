package main

import "fmt"

var fileNames = []string{"conc", "phi", "eta1", "Conc", "field_a", "x", "field a", "fielda", "x-y", "x.y"}
var prefixes = []string{"run", "out/sim", "data_1", "a", "run_a"}

func genFiles(r *RNG, prop string, thorough bool) *Plan {
	pr := &Program{}
	nph := 1 + r.Intn(3)
	id := 0
	next := map[string]int{} // next epoch per prefix
	info := map[string]ProcProg{}
	var saved []string
	var csvs []string
	used := map[string]bool{}
	serial := 0
	newName := func(ext string) string {
		serial++
		return fmt.Sprintf("%sf%d.%s", pick(r, []string{"", "out/"}), serial, ext)
	}
	for ph := 0; ph < nph; ph++ {
		var procs []ProcProg
		busy := map[string]bool{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			if (prop == "C09" && r.Bool(0.25)) || (prop == "C08" && r.Bool(0.12)) {
				// a command
				p := ProcProg{Kind: "cli", Dom: []int{1, 1}, S: []string{"cli"}, Opt: map[string]int{"stale": r.Intn(3)}}
				if prop == "C09" {
					serial++
					p.Ops = []Op{{K: "energy", S: []string{fmt.Sprintf("in_%d.json", serial)}, N: []int{r.Intn(2) * r.Intn(4), 0}, U: []uint64{r.U64()}}}
				} else {
					p.Ops = []Op{{K: "tmpl", S: []string{newName("json")}}}
				}
				procs = append(procs, p)
				id++
				continue
			}
			pre := pick(r, prefixes)
			if busy[pre] {
				continue
			}
			busy[pre] = true
			p, known := info[pre]
			if !known {
				p = ProcProg{Kind: "sim", Dom: pick(r, dbDomains)}
				if r.Bool(0.1) {
					p.Dom = pick(r, dbBig)
				}
				if thorough && r.Bool(0.1) || r.Bool(0.012) {
					p.Dom = pick(r, append(dbHuge, []int{70, 61}, []int{17, 16, 16}))
				}
				p.S = append([]string{pre}, pickKeys(r, fileNames, 1+r.Intn(3))...)
				next[pre] = r.Intn(2) * r.Intn(12)
				if r.Bool(0.2) {
					next[pre] = pick(r, []int{97, 254, 998, 9999, 65534, 1234567})
				}
			}
			p.Opt = map[string]int{"style": pick(r, []int{0, 1, 0, 1, 2, 3, 4, 5, 6})}
			if r.Bool(0.25) {
				p.Opt["stale"] = 1 + r.Intn(3)
			}
			p.Ops = nil
			bin := r.Intn(8)
			for j := 1 + r.Intn(5); j > 0; j-- {
				x := r.Intn(100)
				switch prop {
				case "C09":
					x = 60 + r.Intn(40)
					if r.Bool(0.3) {
						x = r.Intn(30)
					}
				case "C10":
					x = r.Intn(62)
				case "C17":
					x = 50 + r.Intn(6)
				case "C08":
					if x >= 50 && x < 56 || x > 75 {
						x = r.Intn(50)
					}
				}
				e := next[pre]
				switch {
				case x < 10:
					p.Ops = append(p.Ops, Op{K: "f64", N: []int{e}})
					next[pre] = e + 1
					for _, f := range p.S[1:] {
						saved = append(saved, fmt.Sprintf("%s_%s_%d.bin", pre, f, e))
					}
				case x < 17:
					p.Ops = append(p.Ops, Op{K: "u8", N: []int{e}})
					next[pre] = e + 1
				case x < 26:
					p.Ops = append(p.Ops, Op{K: "csv", N: []int{e}})
					csvs = append(csvs, fmt.Sprintf("%s_%d.csv", pre, e))
					next[pre] = e + 1
				case x < 34:
					c := 1 + r.Intn(4)
					p.Ops = append(p.Ops, Op{K: "solve", N: []int{e, c, r.Intn(2)}, S: pickKeys(r, []string{"f64", "u8", "csv"}, 1+r.Intn(3))})
					next[pre] = e + c
				case x < 37:
					n := newName("bin")
					p.Ops = append(p.Ops, Op{K: pick(r, []string{"sf", "real"}), N: []int{pick(r, []int{0, 1, 2, 7, 64, 600, 2000, 9000})}, S: []string{n}})
					saved = append(saved, n)
				case x < 41:
					n := newName("csv")
					p.Ops = append(p.Ops, Op{K: "scsv", S: []string{n}})
					csvs = append(csvs, n)
				case x < 45:
					p.Ops = append(p.Ops, Op{K: "grid", S: []string{newName("txt")}})
				case x < 50:
					p.Ops = append(p.Ops, Op{K: "orient", S: []string{newName("csv")}})
				case x < 54:
					p.Ops = append(p.Ops, Op{K: "log", S: []string{pre + ".log"}, N: []int{1 + r.Intn(4), r.Intn(2)}})
				case x < 56:
					p.Ops = append(p.Ops, Op{K: "sddsolve", S: []string{pre + ".log"}, N: []int{1 + r.Intn(4), r.Intn(2)}})
				case x < 62:
					n := r.Intn(min(e, 20) + 2)
					if r.Bool(0.2) {
						n = 0
					}
					p.Ops = append(p.Ops, Op{K: "xdmf", N: []int{n}, S: []string{fmt.Sprintf("%s%d.xdmf", pre, r.Intn(2))}})
				case x < 72:
					if len(saved) > 0 && r.Bool(0.6) {
						p.Ops = append(p.Ops, Op{K: "lf64", S: []string{pick(r, saved)}, N: []int{-1}})
					} else {
						serial++
						p.Ops = append(p.Ops, Op{K: "lf64", S: []string{fmt.Sprintf("in_%d.bin", serial)}, N: []int{pick(r, []int{0, 0, 1, 1, 9}), pick(r, []int{0, 1, 5, 100, 1500, 8200})}, U: []uint64{r.U64()}})
					}
				default:
					if len(csvs) > 0 && r.Bool(0.4) {
						p.Ops = append(p.Ops, Op{K: "lcsv", S: []string{pick(r, csvs)}, N: []int{-1}})
					} else {
						serial++
						p.Ops = append(p.Ops, Op{K: "lcsv", S: []string{fmt.Sprintf("in_%d.csv", serial)}, N: []int{pick(r, []int{0, 0, 1, 2, 3, 4, 9}), pick(r, []int{0, 1, 5, 40, 300, 2500}), 1 + r.Intn(3)}, U: []uint64{r.U64()}})
					}
				}
				_ = bin
			}
			used[pre] = true
			info[pre] = p
			procs = append(procs, p)
			id++
		}
		pr.Phases = append(pr.Phases, procs)
	}
	return &Plan{Program: pr}
}
