package main

import (
	"math"
	"strings"
)

var solveDomains = [][]int{{2, 2}, {3, 2}, {2, 3}, {4, 4}, {5, 3}, {3, 5}, {4, 6}, {8, 4}, {2, 3, 2}, {3, 3, 3}, {4, 2, 3}, {2, 2, 5}, {3, 4, 2}}
var smallDomains = [][]int{{2, 2}, {3, 2}, {2, 3}, {4, 4}, {5, 3}, {2, 3, 2}, {4, 2, 3}}
var solveBig = [][]int{{16, 16}, {12, 20}, {6, 8, 7}}
var solveFields = [][]string{{"conc", "eta", "phase"}, {"w", "solute", "W"}, {"phi", "eta1", "temp"}, {"x", "conc", "B"}, {"c", "n", "u"}, {"c_0", "c", "c_1"}}

// solveScalars sort before, between and after the fields
// and contain the names of operators and fields
var solveScalars = []string{"gam", "mob", "kap", "Diff", "zz", "LAMBDA", "OVERLAP", "concM", "nu_c", "Kx", "dphi"}

type solveGen struct {
	r      *RNG
	prop   string
	p      *ProcProg
	nscal  int
	eqOps  []int
	neg    bool
	linear bool // terms that conserve the total
}

func fbits(v float64) uint64 { return math.Float64bits(v) }

func (g *solveGen) add(op Op) { g.p.Ops = append(g.p.Ops, op) }

// term adds a random plain term to equation eq
func (g *solveGen) term(eq int) {
	r := g.r
	nf := len(g.p.S)
	n := make([]int, 11)
	n[0] = eq
	n[1] = 1
	if r.Bool(0.4) {
		n[1] = -1
	}
	if r.Bool(0.75) {
		n[3] = 1 + r.Intn(g.nscal)
	}
	if r.Bool(0.15) {
		n[4] = 1 + r.Intn(g.nscal)
	}
	x := r.Intn(10)
	if g.prop == "C19" || g.prop == "C11" {
		x = r.Intn(11)
	}
	if g.linear {
		x = pick(r, []int{0, 1, 2, 7, 8, 9})
	}
	switch x {
	case 0, 1: // diffusion
		n[1], n[2] = 1, 1
		n[5+eq] = 1
	case 2: // fourth order
		n[1], n[2] = -1, 2
		if g.p.Opt["stepper"] < 2 && r.Bool(0.1) {
			n[2] = pick(r, []int{6, 10})
		}
		n[5+eq] = 1
	case 3: // linear in the field itself
		n[5+eq] = 1
	case 4: // linear in some field
		n[5+r.Intn(nf)] = 1
	case 5, 6: // product or power
		for k := 1 + r.Intn(2); k >= 0; k-- {
			n[5+r.Intn(nf)] += 1
		}
		if r.Bool(0.3) {
			n[5+r.Intn(nf)]++
		}
	case 7: // Laplacian of a power or of another field
		n[2] = 1
		n[5+r.Intn(nf)] = 1 + r.Intn(3)
	case 8: // Laplacian of a product
		n[2] = 1 + r.Intn(2)
		n[5+r.Intn(nf)]++
		n[5+r.Intn(nf)]++
	case 10: // the same at all nodes
		n[3] = 1 + r.Intn(g.nscal)
	case 9:
		n[2] = pick(r, []int{1, 1, 2, 3, 4})
		n[5+r.Intn(nf)] = 1
		if n[2]%2 == 0 {
			n[1] = -1
		}
		if n[2] > 2 && n[3] == 0 {
			n[3] = 1
		}
	}
	if g.p.Opt["stepper"] == 2 {
		// the nonlinear solver shall converge
		if n[2] > 1 {
			n[2] = 1
		}
		if n[2] == 1 {
			n[1] = 1
		}
		n[3] = 1
	}
	// powers of the coefficients and ways of writing the same term
	for j := 0; j < 2; j++ {
		if r.Bool(0.2) {
			n[8+j] = pick(r, []int{2, 2, 3, 10, 15})
			if g.neg && n[8+j] >= 10 {
				n[8+j] = 2
			}
		}
	}
	if r.Bool(0.3) {
		n[10] = r.Intn(1024)
	}
	if g.prop == "C19" && g.p.Opt["stepper"] < 2 && (x >= 5 && x <= 8 || x < 2) && r.Bool(0.08) {
		n[5+r.Intn(nf)] = pick(r, []int{15, 25, 11})
	}
	g.add(Op{K: "t", N: n})
}

// builtinKinds are the terms that gopf provides
var builtinKinds = []string{"hess", "hess", "wlap", "divgrad", "divgrad", "advec", "charge", "pairc", "pairx", "ideal", "idealf", "nvp", "gsq", "gsq2", "elast", "visc", "visc", "vol"}

// style draws how a user term or function is written and which Laplacians act on it
func (g *solveGen) style(op Op) {
	r := g.r
	switch op.K {
	case "pimp", "pexp", "pmix":
		if op.K != "pimp" {
			op.N[6] = r.Intn(2)
		}
		if op.K != "pexp" {
			op.N[8] = r.Intn(2)
		}
		if r.Bool(0.35) && g.p.Opt["stepper"] < 2 {
			op.N[5] = r.Intn(len(userLaps))
			if userLaps[op.N[5]].pow%2 == 1 && op.K != "pexp" {
				op.N[1] = -1 // the linear part shall be stable
			}
		}
	case "wlap", "divgrad", "advec", "charge", "pairx", "gsq2":
		if r.Bool(0.15) {
			op.N[5] = r.Intn(3)
		}
	case "func", "lapfunc", "idealf", "nvp":
		if r.Bool(0.6) {
			op.N[7] = 1 + r.Intn(g.nscal)
			if r.Bool(0.3) {
				op.N[8] = pick(r, []int{2, 3, 10})
				if g.neg && op.N[8] >= 10 {
					op.N[8] = 2
				}
			}
		}
		if op.K == "lapfunc" && g.p.Opt["stepper"] < 2 {
			op.N[5] = pick(r, []int{0, 0, 0, 1, 2})
		}
		op.N[10] = r.Intn(512)
	}
}

func genSolveProc(r *RNG, prop string, thorough, chain bool) ProcProg {
	p := ProcProg{Kind: "calc", Opt: map[string]int{}}
	g := &solveGen{r: r, prop: prop, p: &p}
	p.Dom = pick(r, solveDomains)
	if r.Bool(0.04) || thorough && r.Bool(0.05) {
		p.Dom = pick(r, solveBig)
	}
	nf := 1 + r.Intn(3)
	if prop == "C19" && nf == 1 && r.Bool(0.5) {
		nf = 2
	}
	p.S = pickKeys(r, pick(r, solveFields), nf)
	if r.Bool(0.25) {
		p.Opt["eqorder"] = 1 + r.Intn(2)
	}
	o := p.Opt
	o["init"] = r.Intn(1000)
	o["dt"] = r.Intn(4)
	st := pick(r, []int{0, 0, 0, 1, 1, 1, 2, 3})
	switch prop {
	case "C16":
		st = pick(r, []int{0, 0, 0, 1, 1, 1, 2})
	case "C19":
		st = pick(r, []int{0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 2})
	case "C20":
		st = pick(r, []int{0, 1})
	case "C15":
		st = pick(r, []int{0, 0, 1, 1, 2})
	case "C22":
		st = 3
	}
	o["stepper"] = st
	if st == 3 && (prop == "C22" || r.Bool(0.5)) {
		o["sdd"] = r.Intn(1000)
		if r.Bool(0.25) {
			o["sddused"] = 1
		}
	}
	if st == 2 {
		p.Dom = pick(r, smallDomains)
		if nf > 2 {
			nf = 2
			p.S = p.S[:2]
		}
		o["dt"] = pick(r, []int{0, 2})
	}
	if st < 2 {
		if r.Bool(0.15) {
			o["filter"] = 1 + r.Intn(3)
		}
		if st == 0 && o["filter"] == 0 {
			o["default"] = r.Intn(2)
		}
	}
	if (prop == "C19" || prop == "C20") && st < 2 {
		delete(o, "filter")
		if r.Bool(0.2) {
			o["cfilter"] = 1 + r.Intn(3)
		} else if r.Bool(0.07) {
			o["filter"] = 1 + r.Intn(4)
		}
	}
	if r.Bool(0.3) {
		o["start"] = r.Intn(20)
	}
	g.nscal = 1 + r.Intn(3)
	neg := false // a fractional power of a negative coefficient is not real
	for _, n := range pickKeys(r, solveScalars, g.nscal) {
		v := 0.02 + 0.3*r.Float()
		if r.Bool(0.15) {
			v = -v
			neg = true
		}
		g.add(Op{K: "scal", S: []string{n}, U: []uint64{fbits(v)}})
	}
	g.neg = neg
	if r.Bool(0.3) {
		o["volneg"] = 1
	}
	u := func() []uint64 { return []uint64{fbits(0.05 + 0.4*r.Float())} }
	sign := func() int { return 1 - 2*r.Intn(2) }
	if prop == "C20" && st == 0 && r.Bool(0.2) {
		// every field has at most one term of noise
		o["noise"] = 1
		delete(o, "filter")
		delete(o, "cfilter")
		for f := range p.S {
			if r.Bool(0.6) {
				g.term(f)
			}
			if r.Bool(0.8) {
				k := pick(r, []string{"white", "cons", "cons"})
				g.add(Op{K: k, N: []int{f, sign()}, U: []uint64{fbits(pick(r, []float64{0.01, 0.1, 1, 4}))}})
			}
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			g.add(Op{K: "solve", N: []int{1 + r.Intn(4), 1 + r.Intn(pick(r, []int{6, 6, 40}))}})
		}
		return p
	}
	if prop == "C16" {
		g.linear = true
		o["conserve"] = 1
		if r.Bool(0.2) && st == 0 {
			// one step of pure noise
			o["uniform"], o["modes"] = 1, 1
			o["filter"] = 0
			p.S = p.S[:1]
			g.add(Op{K: "cons", N: []int{0, 1}, U: u()})
			g.add(Op{K: "solve", N: []int{1, 1}})
			return p
		}
		for f := range p.S {
			for k := r.Intn(3); k >= 0; k-- {
				g.term(f)
			}
			if r.Bool(0.5) && st < 2 {
				g.add(Op{K: "cons", N: []int{f, 1}, U: u()})
			}
			if r.Bool(0.3) {
				op := Op{K: "lapfunc", N: []int{f, sign(), r.Intn(3), 0, 0, 0, 0, 0, 0, 0, 0}, U: u()}
				g.style(op)
				g.add(op)
			}
			if r.Bool(0.15) && st < 2 {
				g.add(Op{K: "visc", N: []int{f, 1}, U: u()})
			}
			if r.Bool(0.15) && st < 2 {
				g.add(Op{K: "hess", N: []int{f, 1}, U: u()})
			}
		}
	} else {
		for f := range p.S {
			for k := r.Intn(3); k >= 0; k-- {
				g.term(f)
			}
		}
		extra := r.Intn(3)
		kinds := []string{"func", "lapfunc", "src", "mod", "gsq", "visc", "hess", "vol", "white", "cons", "pimp", "pexp", "pmix"}
		switch prop {
		case "C12":
			for k := 1 + r.Intn(3); k > 0; k-- {
				op := Op{K: pick(r, []string{"pimp", "pexp", "pmix"}), N: []int{r.Intn(nf), sign(), 0, 0, 0, 0, 0, 0, 0, 0, 0}, U: u()}
				g.style(op)
				g.add(op)
			}
		case "C13":
			if chain { // the random numbers of an interrupted calculation are gone
				kinds = []string{"func", "lapfunc", "src", "mod", "gsq", "visc", "pimp", "pexp", "pmix"}
			}
		case "C15":
			extra = 2 + r.Intn(4)
		case "C20":
			kinds = builtinKinds
			extra = 1 + r.Intn(3)
			o["shift"] = r.Intn(2)
		case "C19":
			kinds = []string{"func", "lapfunc", "src", "src", "mod", "gsq", "visc", "pimp", "pexp", "pmix"}
			extra = 1 + r.Intn(3)
		}
		switch prop {
		case "C11", "C12", "C13", "C14", "C15":
			if st < 2 && r.Bool(0.35) {
				kinds = append(append([]string{}, kinds...), builtinKinds...)
			}
		}
		if st == 2 || st == 3 {
			kinds = []string{"func", "lapfunc", "src", "pimp", "pexp", "pmix"}
		}
		for ; extra > 0; extra-- {
			k := pick(r, kinds)
			op := Op{K: k, N: []int{r.Intn(nf), sign(), r.Intn(6), r.Intn(6), r.Intn(6), 0, 0, 0, 0, 0, 0}, U: u()}
			if k == "src" && r.Bool(0.4) {
				op.N[5] = r.Intn(512)
			}
			if k == "visc" || k == "pimp" || k == "pmix" || k == "hess" {
				op.N[1] = 1
			}
			if k == "vol" && (st != 0 && prop == "C20" || prop == "C13" && chain) {
				continue
			}
			if k == "elast" && (st != 0 || prop == "C13") {
				continue
			}
			g.style(op)
			g.add(op)
		}
	}
	maxE, maxS := 4, 4
	if st == 2 {
		maxE, maxS = 2, 2
	}
	if thorough {
		maxE, maxS = maxE+2, maxS+2
	}
	nmon := 0
	set := map[bool]float64{true: 0.3, false: 0.07}[prop == "C19"]
	for k := 1 + r.Intn(3); k > 0; k-- {
		for r.Bool(0.5) {
			g.add(Op{K: "cb"})
		}
		for r.Bool(0.45) && nmon < 4 {
			nmon++
			g.add(Op{K: "mon", N: []int{r.Intn(nf), r.Intn(64), r.Intn(2), r.Intn(4) / 3}})
		}
		if r.Bool(set) {
			var sc []Op
			for _, op := range p.Ops {
				if op.K == "scal" {
					sc = append(sc, op)
				}
			}
			op := pick(r, sc)
			v := fldVal(op.U[0])
			g.add(Op{K: "setscal", S: []string{op.S[0]}, U: []uint64{fbits(v * pick(r, []float64{0.5, 0.25, 1.5, 0}))}})
		}
		if prop == "C22" && r.Bool(0.15) {
			g.add(Op{K: "orient", N: []int{r.Intn(1000)}})
		}
		switch {
		case r.Bool(0.2):
			g.add(Op{K: "prop", N: []int{r.Intn(maxS + 1)}})
		default:
			if r.Bool(0.25) {
				g.add(Op{K: "epoch", N: []int{pick(r, []int{r.Intn(50), r.Intn(50), r.Intn(50), -r.Intn(4)})}})
			}
			e, s := r.Intn(maxE+1), 1+r.Intn(maxS)
			if r.Bool(0.05) {
				s = 0
			}
			g.add(Op{K: "solve", N: []int{e, s}})
		}
		if r.Bool(0.3) {
			g.add(Op{K: "json"})
		}
	}
	return p
}

// badTerms are right hand sides without a meaning. a: the field of the equation,
// b: another field
var badTerms = []string{
	"foo", "D*foo", "D*LAP foo", "foo*a", "D*foo*a^2", "D*foo*b", "A", "Foo*LAP a",
	"2*a", "2.0*LAP a", "0.5*a*b", "-3*b", "a/D", "LAP a/D", "D*a/b", "(a + b)*D", "D*(a+b)", "D*(a)", "LAP(a)", "exp(a)",
	"b*LAP a", "a*LAP a", "D*b*LAP a", "a^2*LAP b", "LAP a*LAP b", "b*LAP FUNC", "LAP a*LAP a",
	"FUNC*a", "FUNC*b", "D*FUNC*a", "a*FUNC", "FUNC*FUNC", "FUNC^2", "D*FUNC^2", "LAP FUNC*b",
	"D*IMP", "IMP*a", "IMP*IMP", "IMP^2", "D*EXP", "EXP*b", "EXP^2", "MIX*a", "D*MIX", "E^2*MIX", "LAP^3 EXP",
	"a^b", "a^x", "a^D", "D*a^b", "b^E", "LAP a^D", "a^", "D*a^", "a^-1", "b^-2", "a^.5", "D^foo*a", "D^a*b", "a^2^x",
	"LAP^D a", "LAP^1.5 a", "LAP^-1 a", "LAP^x b", "LAP^a b",
	"LAP", "D*LAP", "LAP*LAP", "LAP*LAP a*LAP", "D*LAP^2", "LAP^2",
	"a b", "D a", "D*a E", "a;b", "a,b", "D*a = b", "nabla a", "grad(a)", "lap a", "Lap a", "d a", "%", "D:a", "a\u00b2", "a'",
}

var badEqs = []string{"da/dt D*a", "da/dt", "", "a = D*a", "da = D*a", "da/dx = D*a", "D*a", "dadt = D*a", "= D*a", "da/dt == D*a", "da/dt = D*a = E*b", "Da/dt = D*a"}

// genRefuse is a process that uses an equation without a meaning
func genRefuse(r *RNG) ProcProg {
	p := ProcProg{Kind: "refuse", Opt: map[string]int{"stepper": r.Intn(2), "init": r.Intn(1000)}}
	p.Dom = pick(r, smallDomains)
	p.S = pickKeys(r, pick(r, [][]string{{"conc", "eta", "phase"}, {"w", "solute", "W"}, {"c", "n", "u"}, {"c_0", "c", "c_1"}}), 2)
	sub := func(t string) string {
		// the letters a and b that stand alone
		out := []byte{}
		word := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
		for i := 0; i < len(t); i++ {
			alone := (i == 0 || !word(t[i-1])) && (i+1 == len(t) || !word(t[i+1]))
			switch {
			case t[i] == 'a' && alone:
				out = append(out, p.S[0]...)
			case t[i] == 'b' && alone:
				out = append(out, p.S[1]...)
			default:
				out = append(out, t[i])
			}
		}
		return string(out)
	}
	var eq string
	if r.Bool(0.1) {
		eq = strings.ReplaceAll(strings.ReplaceAll(sub(pick(r, badEqs)), "da/", "d"+p.S[0]+"/"), "Da/", "D"+p.S[0]+"/")
	} else {
		terms := []string{sub(pick(r, badTerms))}
		for k := r.Intn(3); k > 0; k-- {
			terms = append(terms, sub(pick(r, []string{"D*a", "E*LAP a", "D*E*b", "a^3", "b*a", "IMP", "EXP", "FUNC", "MIX"})))
			if r.Bool(0.5) {
				j := len(terms) - 1
				terms[0], terms[j] = terms[j], terms[0]
			}
		}
		eq = "d" + p.S[0] + "/dt = "
		for i, t := range terms {
			switch {
			case r.Bool(0.4) && i == 0:
				eq += "-"
			case i > 0 && r.Bool(0.5):
				eq += " - "
			case i > 0:
				eq += " + "
			}
			eq += t
		}
	}
	p.Ops = []Op{{K: "bad", S: []string{eq}}}
	return p
}

func genSolver(r *RNG, prop string, thorough bool) *Plan {
	pr := &Program{}
	if prop == "C13" && r.Bool(0.6) {
		// checkpoint chains: run, interrupted restarts, undisturbed restart
		var chains []ProcProg
		for k := 1 + r.Intn(2); k > 0; k-- {
			var p ProcProg
			for {
				p = genSolveProc(r, prop, thorough, true)
				if p.Opt["stepper"] != 3 && p.Opt["filter"]*p.Opt["stepper"] < 4 {
					break
				}
			}
			p.Opt["ckpt"] = len(chains) + 1
			p.Opt["epochs"] = 2 + r.Intn(4)
			p.Opt["nsteps"] = 1 + r.Intn(3)
			if p.Opt["stepper"] == 2 {
				p.Opt["epochs"], p.Opt["nsteps"] = 2+r.Intn(2), 1
			}
			var ops []Op
			for _, op := range p.Ops {
				if isModelOp(op.K) {
					ops = append(ops, op)
				}
			}
			p.Ops = ops
			chains = append(chains, p)
		}
		n := 2 + r.Intn(2)
		for ph := 0; ph < n; ph++ {
			var procs []ProcProg
			for _, c := range chains {
				q := c
				q.Opt = map[string]int{}
				for k, v := range c.Opt {
					q.Opt[k] = v
				}
				if ph > 0 {
					q.Opt["restart"] = 1
				}
				if ph == n-1 {
					q.Opt["nofault"] = 1
				}
				procs = append(procs, q)
			}
			pr.Phases = append(pr.Phases, procs)
		}
		return &Plan{Program: pr, PointGap: genGap(r)}
	}
	nph := 1
	if r.Bool(0.2) {
		nph = 2
	}
	for ; nph > 0; nph-- {
		k := 1
		if prop == "C14" {
			k = 2 + r.Intn(3)
		} else if r.Bool(0.25) {
			k = 2
		}
		var procs []ProcProg
		for ; k > 0; k-- {
			procs = append(procs, genSolveProc(r, prop, thorough, false))
		}
		if prop == "C19" && r.Bool(0.3) {
			procs = append(procs, genRefuse(r))
		}
		if prop == "C14" && r.Bool(0.25) {
			// the same calculation twice
			procs[1] = procs[0]
		} else if prop == "C14" && r.Bool(0.5) || (prop == "C19" || prop == "C20") && r.Bool(0.15) {
			// calculations that differ in one thing only
			t := twin(r, procs[0])
			if prop == "C14" {
				procs[1] = t
			} else {
				procs = append(procs, t)
			}
		}
		pr.Phases = append(pr.Phases, procs)
	}
	return &Plan{Program: pr, PointGap: genGap(r)}
}

// genGap draws how often a calculation is interrupted between two statements
func genGap(r *RNG) int { return pick(r, []int{0, 30, 200, 2000, 20000}) }

// twin is the same calculation with one difference
func twin(r *RNG, p ProcProg) ProcProg {
	q := p
	q.Opt = map[string]int{}
	for k, v := range p.Opt {
		q.Opt[k] = v
	}
	q.S = append([]string{}, p.S...)
	q.Dom = append([]int{}, p.Dom...)
	q.Ops = nil
	for _, op := range p.Ops {
		op.N, op.S, op.U = append([]int{}, op.N...), append([]string{}, op.S...), append([]uint64{}, op.U...)
		q.Ops = append(q.Ops, op)
	}
	var withU, terms []int
	for i, op := range q.Ops {
		if len(op.U) > 0 {
			withU = append(withU, i)
		}
		if isModelOp(op.K) && op.K != "scal" {
			terms = append(terms, i)
		}
	}
	same := func() bool { // all sides are equal
		for _, d := range q.Dom {
			if d != q.Dom[0] {
				return false
			}
		}
		return true
	}
	switch k := r.Intn(8); {
	case k < 3 && !same(): // another shape with the same number of nodes
		for j := 0; j < 3; j++ {
			a, b := r.Intn(len(q.Dom)), r.Intn(len(q.Dom))
			q.Dom[a], q.Dom[b] = q.Dom[b], q.Dom[a]
		}
		if q.Dom[0] == p.Dom[0] {
			q.Dom[0], q.Dom[len(q.Dom)-1] = q.Dom[len(q.Dom)-1], q.Dom[0]
		}
	case k < 4:
		q.Opt["dt"] = (q.Opt["dt"] + 1) % 4
		if q.Opt["stepper"] == 2 {
			q.Opt["dt"] = 2 - p.Opt["dt"]
		}
	case k < 5:
		q.Opt["init"]++
	case k < 6 && len(terms) > 0:
		i := pick(r, terms)
		q.Ops = append(q.Ops[:i], q.Ops[i+1:]...)
	case len(withU) > 0:
		i := pick(r, withU)
		q.Ops[i].U[0] = fbits(0.5 * fldVal(q.Ops[i].U[0]))
	}
	return q
}
