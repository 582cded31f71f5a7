package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type jobResult struct {
	Stats   *caseStats `json:"stats"`
	Plan    *Plan      `json:"plan,omitempty"`
	Viol    *Violation `json:"viol,omitempty"`
	Raw     *Plan      `json:"raw,omitempty"` // not minimised
	Recheck int        `json:"recheck"`
	Differ  int        `json:"differ"`
	Trace   []string   `json:"trace,omitempty"`
	From    int        `json:"from"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check ID quick|thorough | replay FILE | props")
		os.Exit(2)
	}
	if os.Args[1] != "check" && os.Args[1] != "props" {
		fixEnv()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "alone":
		aloneMain()
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2], true))
	case "hashes":
		hashes(os.Args[2:])
	case "props":
		for _, id := range propOrder {
			fmt.Println(id, props[id].quick, props[id].thorough, props[id].title)
		}
	default:
		os.Exit(2)
	}
}

// fixEnv gives the process the environment of the simulated machine
func fixEnv() {
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	tz := ":" + filepath.Join(filepath.Dir(self), "tz")
	if os.Getenv("TZ") == tz {
		return
	}
	env := []string{"TZ=" + tz, "PATH=/usr/bin:/bin", "HOME=/nonexistent", "LANG=C", "SIM_VERIF=" + verifDir(), "GOTRACEBACK=all", "SIM_TRACE=" + os.Getenv("SIM_TRACE"), "SIM_ANY=" + os.Getenv("SIM_ANY")}
	fatal("exec: %v", syscall.Exec(self, os.Args, env))
}

func setupProcess() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(-1)
	initScratch()
	initVFS()
	installHooks()
	go watchdog()
	warmup()
}

// watchdog ends the process (with an error, never a violation) when a run makes
// no progress in real time
func watchdog() {
	for {
		ts := syscall.Timespec{Sec: 1}
		syscall.Nanosleep(&ts, nil)
		if t := atomic.LoadInt64(&runStarted); t != 0 && time.SimRealNow().UnixNano()-t > 90e9 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			syscall.Write(2, []byte("simcheck: watchdog: run does not end\n"))
			syscall.Write(2, buf[:n])
			syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		}
	}
}

// warmup fills caches of the runtime and the libraries, so that the first run of a
// process behaves as the later ones
func warmup() {
	for _, sc := range []string{"db", "files", "solver"} {
		if s := scenarios[sc]; s != nil {
			plan := s.gen(newRNG(77), "", false)
			plan.Scenario = sc
			plan.Seed = 7
			plan.MapSeed = 7
			if plan.Clock.Start == 0 {
				plan.Clock = ClockCfg{Start: 1700000000e9}
			}
			runPlan(plan, false, false)
		}
	}
}

// worker: prop tier seed from to
func worker(a []string) {
	prop, tier := a[0], a[1]
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	from, _ := strconv.Atoi(a[3])
	to, _ := strconv.Atoi(a[4])
	setupProcess()
	out := &jobResult{Stats: newCaseStats(), From: from}
	for i := from; i < to; i++ {
		if f := runCase(prop, seed, i, tier == "thorough", out.Stats); f != nil {
			m := minimise(f, 25*time.Second)
			raw := *f.Plan
			raw.Expect = &Expect{Oracle: f.Viol.Oracle, Message: f.Viol.Msg, Hash: fmt.Sprintf("%016x", f.Res.Hash)}
			out.Raw = &raw
			if m == nil {
				m = f
			}
			p := *m.Plan
			p.Expect = &Expect{Oracle: m.Viol.Oracle, Message: m.Viol.Msg, Hash: fmt.Sprintf("%016x", m.Res.Hash)}
			out.Plan = &p
			out.Viol = &m.Viol
			break
		}
		if i == from {
			// determinism: the recorded plan must give the same execution again
			pl := genPlan(prop, seed, i, tier == "thorough")
			a := runPlan(pl, true, false)
			p2 := *pl
			p2.Preempts = a.Rec
			b := runPlan(&p2, false, false)
			out.Recheck++
			if a.Hash != b.Hash {
				out.Differ++
			}
		}
	}
	b, err := json.Marshal(out)
	if err != nil {
		fatal("%v", err)
	}
	removeScratch()
	os.Stdout.Write(b)
	os.Stdout.Write([]byte("\n"))
	os.Exit(0)
}

// hashes prop seed n: prints the execution hashes (for the determinism tests)
func hashes(a []string) {
	prop := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	n, _ := strconv.Atoi(a[2])
	setupProcess()
	var out bytes.Buffer
	for i := 0; i < n; i++ {
		st := newCaseStats()
		pl := genPlan(prop, seed, i, false)
		res := runPlan(pl, true, false)
		st.add(pl, res, prop)
		fmt.Fprintf(&out, "%d %016x", i, res.Hash)
		for k := 0; k < 2; k++ {
			r := newRNG(seed, hashStr(prop), uint64(i), uint64(k), 0xfa17)
			p2 := *pl
			p2.Seed = r.U64()
			p2.Faults = drawFaults(r, prop, scenarios[pl.Scenario], faultable(pl.Program, res.Sites))
			dbg := os.Getenv("SIM_TRACE") != ""
			r2 := runPlan(&p2, true, dbg)
			fmt.Fprintf(&out, " %016x", r2.Hash)
			p3 := p2
			p3.Preempts = r2.Rec
			r3 := runPlan(&p3, false, dbg)
			if r3.Hash != r2.Hash {
				if dbg {
					for i := range r2.Trace {
						if i >= len(r3.Trace) || r2.Trace[i] != r3.Trace[i] {
							for j := i - 8; j < i+8; j++ {
								if j >= 0 && j < len(r2.Trace) && j < len(r3.Trace) {
									fmt.Fprintf(&out, "   %-50s | %s\n", r2.Trace[j], r3.Trace[j])
								}
							}
							break
						}
					}
				}
				fmt.Fprintf(&out, " REPLAY-DIFFERS(%016x) %v", r3.Hash, p2.Faults)
			}
		}
		fmt.Fprintln(&out)
	}
	removeScratch()
	os.Stdout.Write(out.Bytes())
}

// replay runs a replay file; exit 1 if the violation is reproduced
func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var plan Plan
	if err := json.Unmarshal(b, &plan); err != nil {
		fatal("%v", err)
	}
	setupProcess()
	if plan.Sequence != nil {
		return replaySequence(&plan)
	}
	res := runPlan(&plan, false, true)
	removeScratch()
	if verbose {
		for _, l := range res.Trace {
			fmt.Println(l)
		}
	}
	fmt.Printf("event hash %016x", res.Hash)
	if plan.Expect != nil {
		fmt.Printf(" (recorded %s)", plan.Expect.Hash)
	}
	fmt.Println()
	for _, v := range res.Viol {
		if v.Prop == plan.Property {
			fmt.Printf("REPRODUCED property=%s oracle=%s: %s\n", v.Prop, v.Oracle, v.Msg)
		}
	}
	for _, v := range res.Viol {
		if v.Prop == plan.Property && (plan.Expect == nil || v.Oracle == plan.Expect.Oracle) {
			if plan.Expect != nil && plan.Expect.Hash != fmt.Sprintf("%016x", res.Hash) {
				fmt.Println("the same violation, but the execution differs from the recorded one")
				return 4
			}
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// replaySequence repeats a number of cases one after the other in this process
func replaySequence(plan *Plan) int {
	q := plan.Sequence
	if plan.Expect != nil && plan.Expect.Oracle == "crash" {
		fmt.Println("the program shall crash now")
	}
	for i := q.From; i < q.To; i++ {
		f := runCase(plan.Property, q.Seed, i, q.Tier == "thorough", newCaseStats())
		fmt.Printf("case %d: violation %v\n", i, f != nil)
		if f == nil {
			continue
		}
		if i == q.To-1 && (plan.Expect == nil || plan.Expect.Oracle == f.Viol.Oracle) {
			removeScratch()
			fmt.Printf("REPRODUCED property=%s oracle=%s: %s\n", f.Viol.Prop, f.Viol.Oracle, f.Viol.Msg)
			return 1
		}
		break
	}
	removeScratch()
	fmt.Println("not reproduced")
	return 0
}

// crashes of the Go runtime that the code under test causes
var crashMarks = []string{"stack overflow", "goroutine stack exceeds", "all goroutines are asleep", "unexpected signal", "concurrent map", "SIGSEGV", "makeslice: len out of range"}

func crashed(out string) string {
	for _, m := range crashMarks {
		if strings.Contains(out, m) {
			return m
		}
	}
	return ""
}

// tryReplay runs a replay file in a fresh process. It tells if it shows the violation.
func tryReplay(self, name string, oracle string) bool {
	c := exec.Command(self, "replay", name)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	if ee, y := err.(*exec.ExitError); y {
		cleanupScratch(c.Process.Pid)
		if oracle == "crash" {
			return ee.ExitCode() != 0 && crashed(out.String()) != ""
		}
		return ee.ExitCode() == 1
	}
	return false
}

func writePlan(name string, pl *Plan) error {
	b, _ := json.MarshalIndent(pl, "", " ")
	return os.WriteFile(name, b, 0644)
}

// sequence looks for the shortest sequence of cases that shows a violation which a
// single execution in a fresh process does not show
func sequence(self, name, prop, tier string, seed uint64, from, to int, ex *Expect) bool {
	good := false
	for back := 1; ; back *= 3 {
		f := to - back
		if f < from {
			f = from
		}
		pl := &Plan{Property: prop, Sequence: &Sequence{tier, seed, f, to}, Expect: ex}
		if writePlan(name, pl) != nil {
			return false
		}
		if tryReplay(self, name, ex.Oracle) && tryReplay(self, name, ex.Oracle) {
			good = true
			break
		}
		if f == from {
			break
		}
	}
	return good
}

// ---------------------------------------------------------------------------
// check
// ---------------------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("SIM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type known struct {
	prop, oracle, match, text string
	hit                       bool
}

// loadKnown reads the findings that are recorded and not repaired:
// finding: property=C01 oracle=NAME match=TEXT | description
func loadKnown(prop string) []*known {
	var out []*known
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		k := &known{prop: prop}
		parts := strings.SplitN(l, "|", 2)
		if len(parts) == 2 {
			k.text = strings.TrimSpace(parts[1])
		}
		if i := strings.Index(parts[0], "match="); i >= 0 {
			k.match = strings.TrimSpace(parts[0][i+6:])
			parts[0] = parts[0][:i]
		}
		for _, w := range strings.Fields(parts[0]) {
			if strings.HasPrefix(w, "oracle=") {
				k.oracle = w[7:]
			}
		}
		out = append(out, k)
	}
	return out
}

func check(prop, tier string) int {
	pd := props[prop]
	if pd == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", prop)
		return 2
	}
	start := time.Now()
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	fmt.Printf("property=%s tier=%s seed=%d\n", prop, tier, seed)
	n := pd.quick
	cap := 420 * time.Second
	if tier == "thorough" {
		n = pd.thorough
		cap = 3 * time.Hour
	}
	if v := os.Getenv("SIM_CASES"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	batch := 80 / (pd.faultRuns + 2)
	if batch < 1 {
		batch = 1
	}
	type job struct{ from, to int }
	jobs := make(chan job, n/batch+2)
	for i := 0; i < n; i += batch {
		e := i + batch
		if e > n {
			e = n
		}
		jobs <- job{i, e}
	}
	close(jobs)
	nw := runtime.NumCPU()
	if v := os.Getenv("SIM_WORKERS"); v != "" {
		nw, _ = strconv.Atoi(v)
	}
	var mu sync.Mutex
	total := newCaseStats()
	recheck, differ := 0, 0
	var finds []*jobResult
	var errs []string
	var crashes []int
	crashMsg := ""
	skipped := 0
	var stop int32
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if atomic.LoadInt32(&stop) != 0 || time.Since(start) > cap {
					mu.Lock()
					skipped += j.to - j.from
					mu.Unlock()
					continue
				}
				var r *jobResult
				var err error
				for attempt := 0; attempt < 2; attempt++ {
					r, err = runJob(self, prop, tier, seed, j.from, j.to)
					if err == nil {
						break
					}
				}
				mu.Lock()
				if m := crashText(err); m != "" {
					crashes = append(crashes, j.from, j.to)
					crashMsg = m
					atomic.StoreInt32(&stop, 1)
				} else if err != nil {
					errs = append(errs, fmt.Sprintf("cases %d-%d: %v", j.from, j.to, err))
				} else {
					total.merge(r.Stats)
					recheck += r.Recheck
					differ += r.Differ
					if r.Viol != nil {
						finds = append(finds, r)
						if len(finds) >= 2 {
							atomic.StoreInt32(&stop, 1)
						}
					}
				}
				mu.Unlock()
				if len(errs) > 4 {
					atomic.StoreInt32(&stop, 1)
				}
				if err == nil && r.Viol != nil {
					atomic.StoreInt32(&stop, 1)
				}
			}
		}()
	}
	wg.Wait()
	kn := loadKnown(prop)
	code := 0
	nviol := 0
	rdir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(rdir, 0755)
	var unconfirmed []string
	for _, f := range finds {
		if k := matchKnown(kn, f.Viol); k != nil {
			k.hit = true
			continue
		}
		path := ""
		for i, pl := range []*Plan{f.Plan, f.Raw} {
			if pl == nil {
				continue
			}
			name := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", prop, f.Viol.Oracle, seed, pl.Case))
			if i == 1 {
				name = strings.TrimSuffix(name, ".json") + "-full.json"
			}
			if err := writePlan(name, pl); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			if tryReplay(self, name, "") && tryReplay(self, name, "") {
				path = name
				break
			}
		}
		if path == "" && f.Raw != nil {
			name := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d-seq.json", prop, f.Raw.Expect.Oracle, seed, f.Raw.Case))
			if sequence(self, name, prop, tier, seed, f.From, f.Raw.Case+1, f.Raw.Expect) {
				path = name
				f.Viol = &Violation{prop, f.Raw.Expect.Oracle, f.Raw.Expect.Message}
			}
		}
		if path == "" {
			unconfirmed = append(unconfirmed, f.Viol.Oracle+": "+f.Viol.Msg)
			continue
		}
		nviol++
		code = 1
		fmt.Printf("violated oracle %s: %s\n", f.Viol.Oracle, f.Viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		if nviol >= 1 {
			break
		}
	}
	if nviol == 0 && len(crashes) > 0 {
		ex := &Expect{Oracle: "crash", Message: crashMsg}
		name := filepath.Join(rdir, fmt.Sprintf("%s-crash-%d-%d.json", prop, seed, crashes[0]))
		ok := false
		for i := crashes[0]; i < crashes[1] && !ok; i++ {
			ok = sequence(self, name, prop, tier, seed, i, i+1, ex)
		}
		if ok || sequence(self, name, prop, tier, seed, crashes[0], crashes[1], ex) {
			nviol++
			code = 1
			fmt.Printf("violated oracle crash: the program crashes: %s\n", crashMsg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		} else {
			errs = append(errs, crashMsg)
		}
	}
	for _, k := range kn {
		if k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	if code == 0 && (len(errs) > 0 || len(unconfirmed) > 0) {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR", e)
		}
		for _, e := range unconfirmed {
			fmt.Fprintln(os.Stderr, "ERROR a violation was seen but its replay did not reproduce it:", e)
		}
		code = 3
	}
	writeEvidence(pd, tier, seed, total, recheck, differ, skipped, nviol, time.Since(start))
	fmt.Printf("cases=%d runs=%d faulty=%d ops=%d steps=%d simulated=%.1fs distinct=%d wall=%.1fs determinism=%d/%d\n",
		total.Cases, total.Runs, total.Faulty, total.Ops, total.Steps, float64(total.SimNs)/1e9, distinct(total.Hashes), time.Since(start).Seconds(), recheck-differ, recheck)
	if len(total.Other) > 0 {
		fmt.Printf("note: oracles of other properties failed in these runs: %v\n", total.Other)
	}
	if total.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "nothing was run")
		code = 3
	}
	return code
}

func crashText(err error) string {
	if err == nil {
		return ""
	}
	if m := crashed(err.Error()); m != "" && !strings.Contains(err.Error(), "watchdog") {
		return m
	}
	return ""
}

func matchKnown(kn []*known, v *Violation) *known {
	for _, k := range kn {
		if (k.oracle == "" || k.oracle == v.Oracle) && strings.Contains(v.Msg, k.match) {
			return k
		}
	}
	return nil
}

func runJob(self, prop, tier string, seed uint64, from, to int) (*jobResult, error) {
	c := exec.Command(self, "worker", prop, tier, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to))
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &se
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err := c.Run()
	runtime.UnlockOSThread()
	if err != nil {
		cleanupScratch(c.Process.Pid)
		t := se.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		return nil, fmt.Errorf("%v: %s", err, t)
	}
	r := &jobResult{}
	if err := json.Unmarshal(so.Bytes(), r); err != nil {
		return nil, fmt.Errorf("%v: %.300s", err, so.String())
	}
	return r, nil
}

// cleanupScratch removes the scratch directory of a worker that died
func cleanupScratch(pid int) {
	ds, _ := filepath.Glob(fmt.Sprintf("/dev/shm/gopfsim-%d-*", pid))
	for _, d := range ds {
		os.RemoveAll(d)
	}
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

func writeEvidence(pd *PropDef, tier string, seed uint64, st *caseStats, recheck, differ, skipped, nviol int, wall time.Duration) {
	kinds := map[string]int{}
	for k, v := range st.Fired {
		kinds[k[strings.LastIndexByte(k, ':')+1:]] += v
	}
	hours := wall.Hours()
	cov := map[string]interface{}{
		"evaluations":         st.Runs,
		"distinct_nontrivial": distinct(st.Hashes),
		"rule": "one evaluation = one simulated execution of a generated workload under a seeded schedule and fault plan; an execution counts as non-trivial " +
			"if at least one context switch between simulated processes or at least one injected fault took place, and as distinct by the 64-bit hash of its complete event log " +
			"(every seam operation with process, site, ordinal and written data, every switch, every fault, every invocation and return)",
		"samples":                   st.Samples,
		"cases_workloads":           st.Cases,
		"runs_with_faults":          st.Faulty,
		"operations_invoked":        st.Ops,
		"operations_acknowledged":   st.Acked,
		"seam_operations":           st.Steps,
		"context_switches":          st.Switches,
		"simulated_seconds":         float64(st.SimNs) / 1e9,
		"runs_per_hour":             float64(st.Runs) / hours,
		"seeds_per_hour":            float64(st.Cases) / hours,
		"faults_fired_by_kind":      kinds,
		"faults_fired_by_site":      st.Fired,
		"probes":                    st.Probes,
		"determinism_rechecks":      recheck,
		"determinism_differences":   differ,
		"cases_skipped_by_time_cap": skipped,
		"runs_over_the_step_budget": st.Overruns,
		"longest_run_statements":    st.MaxStmts,
		"components_real":           pd.real,
		"components_stub":           pd.stub,
		"other_properties_violated": st.Other,
	}
	ev := map[string]interface{}{
		"property": pd.id, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov,
		"assumptions": pd.assume, "wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, pd.id+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	_ = sort.Strings
}
