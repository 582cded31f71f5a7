package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// RunResult is what one simulated execution produced
type RunResult struct {
	Viol     []Violation
	Hash     uint64
	Rec      []Preempt
	Sites    []siteCount
	Fired    map[string]int
	Switches int
	Steps    int
	SimNs    int64
	Probes   map[string]int
	Ops      int
	Acked    int
	Overrun  bool
	Points   int64
	Trace    []string
}

var anyProp = os.Getenv("SIM_ANY") != "" // development: report violations of other properties, too
var scratchRoot string
var runCounter int
var runSerial int64 // watched by the watchdog
var runStarted int64

// runPlan is one simulated execution; it is a pure function of the plan (and the code)
func runPlan(plan *Plan, search, tracing bool) *RunResult {
	sc := scenarios[plan.Scenario]
	if sc == nil {
		fatal("unknown scenario %q", plan.Scenario)
	}
	// The simulated processes use relative paths: their working directory is the
	// scratch directory of this worker, emptied before every run.
	cleanScratch()
	dir := scratchRoot
	runCounter++
	s := newSim(plan, search, dir)
	s.tracing = tracing
	theSim = s
	sqlite3.SimResetRandom()
	atomic.StoreInt64(&runStarted, time.SimRealNow().UnixNano())
	st := sc.exec(s)
	atomic.StoreInt64(&runStarted, 0)
	s.active = false
	s.quietPhase(func() {})
	viol := sc.check(s, st)
	theSim = nil
	runtime.SimMapOff()
	res := &RunResult{
		Viol: viol, Hash: s.hash, Rec: s.rec, Sites: s.siteCounts(), Fired: s.fired, Switches: s.switches,
		Steps: s.steps, SimNs: s.now, Probes: s.probes, Overrun: s.overrun, Trace: s.trace, Points: s.points,
	}
	for _, h := range s.hist {
		if h.Kind == "inv" {
			res.Ops++
		}
		if h.Kind == "ret" {
			res.Acked++
		}
	}
	cleanScratch()
	return res
}

// initScratch creates the scratch directory of this process and makes it the working directory
func initScratch() {
	base := "/dev/shm"
	if fi, err := os.Stat(base); err != nil || !fi.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, fmt.Sprintf("gopfsim-%d-", os.Getpid()))
	if err != nil {
		fatal("%v", err)
	}
	scratchRoot = d
	if err := os.Mkdir(filepath.Join(d, "home"), 0755); err != nil {
		fatal("%v", err)
	}
	if err := os.Mkdir(filepath.Join(d, "w"), 0755); err != nil {
		fatal("%v", err)
	}
	os.Setenv("HOME", filepath.Join(d, "home"))
	if err := os.Chdir(filepath.Join(d, "w")); err != nil {
		fatal("%v", err)
	}
}

func removeScratch() {
	if strings.Contains(scratchRoot, "gopfsim-") {
		os.Chdir("/")
		os.RemoveAll(scratchRoot)
	}
}

func cleanScratch() {
	if !strings.Contains(scratchRoot, "gopfsim-") {
		fatal("no scratch directory")
	}
	w := filepath.Join(scratchRoot, "w")
	es, err := os.ReadDir(w)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range es {
		os.RemoveAll(filepath.Join(w, e.Name()))
	}
}

func (s *Sim) quietPhase(fn func()) {
	s.disk.quiet = true
	fn()
}

func violOf(vs []Violation, prop string) *Violation {
	for i := range vs {
		if vs[i].Prop == prop || anyProp {
			return &vs[i]
		}
	}
	return nil
}

// caseStats accumulates what a batch of cases covered
type caseStats struct {
	Cases    int            `json:"cases"`
	Runs     int            `json:"runs"`
	Faulty   int            `json:"faulty_runs"`
	Ops      int            `json:"ops"`
	Acked    int            `json:"acked"`
	Steps    int            `json:"steps"`
	Switches int            `json:"switches"`
	SimNs    int64          `json:"sim_ns"`
	Fired    map[string]int `json:"fired"`
	Planned  map[string]int `json:"planned"`
	Probes   map[string]int `json:"probes"`
	Hashes   []uint64       `json:"hashes"`
	Samples  []string       `json:"samples"`
	Other    map[string]int `json:"other"`
	Overruns int            `json:"overruns"`
	MaxStmts int64          `json:"max_stmts"` // statements of gopf in the longest execution
}

func newCaseStats() *caseStats {
	return &caseStats{Fired: map[string]int{}, Planned: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}}
}

func (c *caseStats) merge(o *caseStats) {
	c.Cases += o.Cases
	c.Runs += o.Runs
	c.Faulty += o.Faulty
	c.Ops += o.Ops
	c.Acked += o.Acked
	c.Steps += o.Steps
	c.Switches += o.Switches
	c.SimNs += o.SimNs
	c.Overruns += o.Overruns
	if o.MaxStmts > c.MaxStmts {
		c.MaxStmts = o.MaxStmts
	}
	for k, v := range o.Fired {
		c.Fired[k] += v
	}
	for k, v := range o.Planned {
		c.Planned[k] += v
	}
	for k, v := range o.Probes {
		c.Probes[k] += v
	}
	for k, v := range o.Other {
		c.Other[k] += v
	}
	c.Hashes = append(c.Hashes, o.Hashes...)
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, o.Samples...)
	}
}

func (c *caseStats) add(plan *Plan, r *RunResult, prop string) {
	c.Runs++
	if len(plan.Faults) > 0 {
		c.Faulty++
	}
	c.Ops += r.Ops
	c.Acked += r.Acked
	c.Steps += r.Steps
	c.Switches += r.Switches
	c.SimNs += r.SimNs
	if r.Points > c.MaxStmts {
		c.MaxStmts = r.Points
	}
	n := 0
	for k, v := range r.Fired {
		c.Fired[k] += v
		n += v
	}
	for _, f := range plan.Faults {
		c.Planned[f.Kind]++
	}
	for k, v := range r.Probes {
		c.Probes[k] += v
	}
	if r.Overrun {
		c.Overruns++
	}
	if r.Switches > 0 || n > 0 {
		c.Hashes = append(c.Hashes, r.Hash)
	}
	for _, v := range r.Viol {
		if v.Prop != prop {
			c.Other[v.Prop]++
		}
	}
}

func genPlan(prop string, seed uint64, idx int, thorough bool) *Plan {
	pd := props[prop]
	r := newRNG(seed, hashStr(prop), uint64(idx))
	scn := pd.scenarios[r.Intn(len(pd.scenarios))]
	plan := scenarios[scn].gen(r, prop, thorough)
	plan.Property = prop
	plan.Scenario = scn
	plan.Seed = r.U64()
	plan.Case = idx
	if plan.MapSeed == 0 {
		plan.MapSeed = r.U64() | 1
	}
	if plan.Clock.Start == 0 {
		plan.Clock = genClock(r)
	}
	return plan
}

func genClock(r *RNG) ClockCfg {
	c := ClockCfg{Start: 1700000000e9 + int64(r.Intn(100000000))*1e9 + int64(r.Intn(1000000000))}
	switch r.Intn(6) {
	case 0:
		c.Gran = 1e9 // readings tie for a second
	case 1:
		c.Gran = 1e6
	case 2:
		c.Gran = 15625000 // 64 Hz
	case 3:
		for i := 0; i < 8; i++ {
			c.Skew = append(c.Skew, int64(r.Intn(7200)-3600)*1e9)
		}
	}
	if r.Intn(6) == 0 {
		// shortly before a change of day or month
		c.Start = 1709251199e9 - int64(r.Intn(2))*86400*1e9 + int64(r.Intn(1000000000))
	}
	if r.Intn(4) == 0 {
		c.Slow = 2e6
	}
	return c
}

// weight of a class of operations in the choice of a fault
func weight(s siteCount) int {
	if s.Site == allocSite {
		return 1 + s.N/20
	}
	return s.N
}

// drawFaults places faults on operations that the fault-free run performed
func drawFaults(r *RNG, prop string, sc *Scenario, sites []siteCount) []Fault {
	type cand struct {
		s     siteCount
		kinds []string
	}
	var cs []cand
	total := 0
	for _, s := range sites {
		if k := sc.kinds(prop, s.Site); len(k) > 0 {
			cs = append(cs, cand{s, k})
			total += weight(s)
		}
	}
	if total == 0 {
		return nil
	}
	n := 1
	if r.Bool(0.35) {
		n = 1 + r.Intn(4)
	}
	var out []Fault
	for i := 0; i < n; i++ {
		var c cand
		if r.Bool(0.5) { // per operation
			x := r.Intn(total)
			for _, q := range cs {
				if x < weight(q.s) {
					c = q
					break
				}
				x -= weight(q.s)
			}
		} else { // per site: rare sites get their share
			c = cs[r.Intn(len(cs))]
		}
		f := Fault{Proc: c.s.Proc, Site: c.s.Site, Nth: r.Intn(c.s.N), Kind: pick(r, c.kinds)}
		f.Arg = int64(r.U64() >> 2)
		switch f.Kind {
		case "stall":
			f.Arg = int64(pick(r, []int{1, 50, 900, 4000, 9000})) * 1e6
		case "clock":
			f.Arg = int64(r.Intn(7200)-3600) * 1e9
			if r.Bool(0.3) {
				f.Arg = -int64(r.Intn(3000)) * 1e6
			}
		case "kill", "power", "torn", "tornpower":
		default:
			if r.Bool(0.3) { // the condition persists for a while
				f.Count = pick(r, []int{2, 3, 10, 1000000})
			}
		}
		out = append(out, f)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Proc < out[j].Proc })
	return out
}

// Found is a violation together with the plan that shows it
type Found struct {
	Plan *Plan
	Viol Violation
	Res  *RunResult
}

// runCase explores one generated workload: a fault-free execution under a random
// schedule, then executions under faults placed inside the operations it performed.
func runCase(prop string, seed uint64, idx int, thorough bool, st *caseStats) *Found {
	pd := props[prop]
	plan := genPlan(prop, seed, idx, thorough)
	sc := scenarios[plan.Scenario]
	st.Cases++
	res := runPlan(plan, true, false)
	st.add(plan, res, prop)
	if st.Cases == 1 && len(st.Samples) == 0 {
		st.Samples = append(st.Samples, describe(plan, res))
	}
	if v := violOf(res.Viol, prop); v != nil {
		return found(plan, res, v)
	}
	sites := faultable(plan.Program, res.Sites)
	for k := 0; k < pd.faultRuns; k++ {
		r := newRNG(seed, hashStr(prop), uint64(idx), uint64(k), 0xfa17)
		p2 := *plan
		p2.Seed = r.U64()
		p2.Faults = drawFaults(r, prop, sc, sites)
		if len(p2.Faults) == 0 && k > 1 {
			break
		}
		res := runPlan(&p2, true, false)
		st.add(&p2, res, prop)
		if k == 0 && st.Cases <= 2 {
			st.Samples = append(st.Samples, describe(&p2, res))
		}
		if v := violOf(res.Viol, prop); v != nil {
			return found(&p2, res, v)
		}
	}
	return nil
}

// faultable drops the processes that run after all faults have ended
func faultable(pr *Program, sites []siteCount) []siteCount {
	safe := map[int]bool{}
	id := 0
	for _, ph := range pr.Phases {
		for _, p := range ph {
			if p.Opt["nofault"] == 1 {
				safe[id] = true
			}
			id++
		}
	}
	var out []siteCount
	for _, s := range sites {
		if !safe[s.Proc] {
			out = append(out, s)
		}
	}
	return out
}

func found(plan *Plan, res *RunResult, v *Violation) *Found {
	p := *plan
	p.Property = v.Prop
	p.Preempts = append([]Preempt(nil), res.Rec...)
	return &Found{Plan: &p, Viol: *v, Res: res}
}

func describe(p *Plan, r *RunResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "scenario=%s case=%d seed=%#x", p.Scenario, p.Case, p.Seed)
	for i, ph := range p.Program.Phases {
		fmt.Fprintf(&b, " phase%d[", i)
		for j, q := range ph {
			if j > 0 {
				b.WriteString(" | ")
			}
			fmt.Fprintf(&b, "%s%v:", q.Kind, q.Dom)
			for _, o := range q.Ops {
				fmt.Fprintf(&b, " %s", o.K)
				if len(o.N) > 0 && len(o.N) < 5 {
					fmt.Fprintf(&b, "%v", o.N)
				}
			}
		}
		b.WriteString("]")
	}
	fmt.Fprintf(&b, " faults=%v preempts=%d -> steps=%d ops=%d acked=%d sim=%.3fs hash=%016x", p.Faults, len(r.Rec), r.Steps, r.Ops, r.Acked, float64(r.SimNs)/1e9, r.Hash)
	if b.Len() > 1500 {
		return b.String()[:1500]
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// minimisation
// ---------------------------------------------------------------------------

// minimise shrinks program, faults and schedule while the same oracle still fails
func minimise(f *Found, budget time.Duration) *Found {
	deadline := time.SimRealNow().Add(budget)
	best := f
	runs := 0
	try := func(p *Plan) bool {
		if time.SimRealNow().After(deadline) || runs > 1500 {
			return false
		}
		runs++
		res := runPlan(p, false, false)
		for i := range res.Viol {
			v := res.Viol[i]
			if v.Prop == f.Viol.Prop && v.Oracle == f.Viol.Oracle {
				best = &Found{Plan: p, Viol: v, Res: res}
				return true
			}
		}
		return false
	}
	// first: does the recorded plan reproduce at all?
	p0 := *f.Plan
	if !try(&p0) {
		return nil
	}
	changed := true
	for round := 0; changed && round < 6; round++ {
		changed = false
		// processes
		for ph := 0; ph < len(best.Plan.Program.Phases); ph++ {
			for i := len(best.Plan.Program.Phases[ph]) - 1; i >= 0; i-- {
				if len(best.Plan.Program.Phases[ph][i].Ops) == 0 {
					continue
				}
				p := *best.Plan
				p.Program = p.Program.clone()
				p.Program.Phases[ph][i].Ops = nil // keep the process so that numbering is unchanged
				if try(&p) {
					changed = true
				}
			}
		}
		// operations
		for ph := 0; ph < len(best.Plan.Program.Phases); ph++ {
			for i := range best.Plan.Program.Phases[ph] {
				for k := len(best.Plan.Program.Phases[ph][i].Ops) - 1; k >= 0; k-- {
					p := *best.Plan
					p.Program = p.Program.clone()
					ops := p.Program.Phases[ph][i].Ops
					if k >= len(ops) {
						continue
					}
					p.Program.Phases[ph][i].Ops = append(append([]Op(nil), ops[:k]...), ops[k+1:]...)
					if try(&p) {
						changed = true
					}
				}
			}
		}
		// faults
		for k := len(best.Plan.Faults) - 1; k >= 0; k-- {
			if k >= len(best.Plan.Faults) {
				continue
			}
			p := *best.Plan
			p.Faults = append(append([]Fault(nil), best.Plan.Faults[:k]...), best.Plan.Faults[k+1:]...)
			if try(&p) {
				changed = true
			} else if best.Plan.Faults[k].Count > 1 {
				p := *best.Plan
				p.Faults = append([]Fault(nil), best.Plan.Faults...)
				p.Faults[k].Count = 0
				if try(&p) {
					changed = true
				}
			}
		}
		// schedule: remove chunks of preemptions
		n := 1
		for len(best.Plan.Preempts) > 0 && n <= len(best.Plan.Preempts) {
			sz := (len(best.Plan.Preempts) + n - 1) / n
			any := false
			for i := 0; i < len(best.Plan.Preempts); {
				end := i + sz
				if end > len(best.Plan.Preempts) {
					end = len(best.Plan.Preempts)
				}
				p := *best.Plan
				p.Preempts = append(append([]Preempt(nil), best.Plan.Preempts[:i]...), best.Plan.Preempts[end:]...)
				if try(&p) {
					any = true
					changed = true
				} else {
					i = end
				}
				if time.SimRealNow().After(deadline) {
					return best
				}
			}
			if sz == 1 {
				break
			}
			if !any {
				n *= 2
			} else if n > 1 {
				n--
			}
		}
		if time.SimRealNow().After(deadline) {
			break
		}
	}
	return best
}

func fatal(format string, args ...interface{}) {
	if s := theSim; s != nil {
		s.active = false
	}
	fmt.Fprintf(os.Stderr, "simcheck: "+format+"\n", args...)
	os.Exit(3)
}
