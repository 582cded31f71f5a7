package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"

	"github.com/davidkleiven/gopf/pfutil"
)

func fileThere(name string) bool {
	_, err := os.Stat(name)
	return err == nil
}

func procSeed(seed uint64, id int) int64 { return int64(mix(seed, 0x7a4d, uint64(id)) >> 1) }

func solverCheck(s *Sim, sti interface{}) []Violation {
	w := sti.(*solverWorld)
	clean := len(s.plan.Faults) == 0
	if s.overrun {
		for _, id := range []string{"C11", s.plan.Property} {
			w.bad(id, "no-progress", "the calculations did not end within %d seam operations and %d statements (%.1f simulated seconds)", s.maxSteps, maxPoints, float64(s.now)/1e9)
		}
		return w.viol
	}
	k := 0
	for _, ph := range s.plan.Program.Phases {
		for range ph {
			if k < len(w.runs) && len(w.runs[k].prog.Ops) > 0 {
				w.checkRun(w.runs[k], len(w.runs) > 1, clean)
				if s.plan.Property == "C14" && clean && len(w.runs) > 1 {
					w.checkAlone(w.runs[k])
				}
			}
			k++
		}
	}
	w.checkChains(clean)
	return w.viol
}

// aloneReq asks a fresh process for the states of one calculation
type aloneReq struct {
	Prog  *ProcProg
	Num   int
	Steps int
	Seed  uint64
}

func aloneMain() {
	var q aloneReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fatal("alone: %v", err)
	}
	installHooks()
	s := newSim(&Plan{Program: &Program{}, Seed: q.Seed}, false, ".")
	theSim = s
	w := &solverWorld{sim: s, seen: map[string]bool{}}
	ref, err := w.refStates(q.Prog, q.Num, q.Steps, 11)
	theSim = nil
	if err != "" {
		fmt.Println("error", err)
		return
	}
	for k := range ref {
		fmt.Println(k, hashState(ref[k]))
	}
}

// checkAlone compares a calculation with the same one in a process of its own
func (w *solverWorld) checkAlone(r *srun) {
	if !r.done || r.b == nil || r.prog.Kind == "refuse" {
		return
	}
	s := w.sim
	q := aloneReq{Prog: r.prog, Num: r.num, Steps: r.steps(), Seed: s.plan.Seed}
	b, _ := json.Marshal(q)
	cmd := exec.Command(selfExe(), "alone")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	if err != nil {
		fatal("alone: %v", err)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if strings.HasPrefix(lines[0], "error") {
		w.bad("C14", "alone", "P%d works among other calculations, alone it fails: %s", r.p.id, lines[0])
		return
	}
	if want := fmt.Sprintln(q.Steps, hashState(r.final)); lines[len(lines)-1]+"\n" != want {
		w.bad("C14", "alone", "P%d: the final state after %d steps differs from that of the same calculation in a program of its own", r.p.id, q.Steps)
	}
	s.probe("alone-checked")
}

// stepsOf is the number of steps the calls of a run make (upper bound for interrupted calls)
func (r *srun) steps() int {
	n := 0
	for _, c := range r.calls {
		n += c.ne * c.ns
	}
	return n
}

func injected(msg string) bool { return strings.Contains(msg, " panics") }

func (w *solverWorld) checkRun(r *srun, concurrent, clean bool) {
	s := w.sim
	p := r.p
	name := fmt.Sprintf("P%d %s/%s", p.id, steppers[r.prog.opt("stepper", 0)%len(steppers)], strings.Join(r.prog.S, ","))
	if r.prog.Kind == "refuse" {
		if r.done {
			w.bad("C19", "accepted", "%s: the equation %q has no meaning, but a calculation with it ended normally", name, r.prog.Ops[0].S[0])
		} else if p.loud() {
			s.probe("equation-refused")
		}
		return
	}
	if r.b == nil {
		if p.exit == exPanic && clean {
			if _, err := w.refStates(r.prog, r.num, 0, 1); err == "" {
				w.bad("C14", "refused", "%s could not be set up: %s; alone it can", name, firstLine(p.exitMsg))
			} else {
				w.bad(s.plan.Property, "refused", "%s: a calculation with a meaningful equation could not be set up in a run without faults: %s", name, firstLine(p.exitMsg))
			}
		}
		return
	}
	total := r.start + r.steps()
	ref, err := w.refStates(r.prog, r.num, total, 11)
	if err != "" {
		if r.done {
			w.bad("C11", "reference", "%s ended normally, stepping alone fails: %s", name, err)
		}
		return
	}
	if s.plan.Property == "C15" || s.plan.Property == "C14" {
		ref2, err2 := w.refStates(r.prog, r.num, total, 0x9e3779b97f4a7c15)
		if err2 != "" {
			w.bad("C15", "reference", "%s fails for another map order: %s", name, err2)
		} else {
			for k := range ref {
				if !same(ref[k], ref2[k]) {
					d, _ := maxDiff(ref[k], ref2[k])
					w.bad("C15", "order", "%s: the state after %d steps depends on the order of map elements (differs by %g)", name, k, d)
					break
				}
			}
			s.probe("order-checked")
		}
	}
	refHash := make([]uint64, len(ref))
	for k := range ref {
		refHash[k] = hashState(ref[k])
	}
	restarted := r.start > 0
	wrongState := func(what string, k, call int, h uint64, st [][]complex128) {
		if restarted || k >= len(ref) || h == refHash[k] {
			return
		}
		prop, oracle := "C11", "state"
		if call > 0 {
			prop, oracle = "C13", "split"
		}
		msg := fmt.Sprintf("%s: %s after %d steps is not the state of an undisturbed calculation", name, what, k)
		if st != nil {
			d, _ := maxDiff(st, ref[k])
			msg += fmt.Sprintf(" (differs by %g)", d)
		}
		if concurrent {
			w.bad("C14", "interference", "%s", msg+" running alone")
		}
		w.bad(prop, oracle, "%s", msg)
	}
	dt := r.b.dt
	isTime := func(t float64, k int) bool { return math.Abs(t-float64(k)*dt) <= 1e-9*(1+math.Abs(t)) }
	done := r.start // steps finished before the present call
	fins := map[string]int{}
	probes := r.b.probes
	panicked := false
	for ci, c := range r.calls {
		returned := c.end >= 0
		end := c.end
		if !returned {
			end = len(r.log)
		}
		ecb, ncb, nmon := 0, 0, 0
		wrapped := 0
		var monIDs []string
		for i := 0; i < c.mons; i++ {
			if r.isWrapped(i) {
				wrapped++
				monIDs = append(monIDs, fmt.Sprint(i))
			}
		}
		cbsPerEpoch := c.cbs - r.foreignCBs()
		for li := c.logAt; li < end; li++ {
			e := r.log[li]
			if panicked {
				w.bad("C11", "after-panic", "%s: %s %s happened after a callback or term had panicked", name, e.kind, e.id)
			}
			switch e.kind {
			case "eval":
				if len(probes) == 0 {
					continue
				}
				k := r.start
				for _, id := range probes {
					if r.start+fins[id] > k {
						k = r.start + fins[id]
					}
				}
				if e.t < float64(k)*dt-1e-9*(1+e.t) || e.t > float64(k+1)*dt+1e-9*(1+e.t) {
					w.bad("C12", "eval-time", "%s: %s was evaluated with t=%v in step %d, which runs from %v to %v", name, e.id, e.t, k, float64(k)*dt, float64(k+1)*dt)
				}
				s.probe("time-checked")
			case "fin":
				fins[e.id]++
				k := r.start + fins[e.id]
				if !isTime(e.t, k) {
					w.bad("C12", "finish-time", "%s: OnStepFinished call %d of %s got t=%v, the step ended at %v", name, fins[e.id], e.id, e.t, float64(k)*dt)
				}
				if k > done+c.ne*c.ns {
					w.bad("C12", "finish-count", "%s: OnStepFinished of %s was called %d times in %d steps", name, e.id, k, done+c.ne*c.ns)
				}
				for _, id := range probes {
					if d := fins[id] - fins[e.id]; d > 1 || d < -1 {
						w.bad("C12", "finish-count", "%s: OnStepFinished was called %d times for %s and %d times for %s", name, fins[id], id, fins[e.id], e.id)
					}
				}
				wrongState("the state at OnStepFinished", k, ci, e.hash, nil)
			case "cb":
				ep, id := c.epoch0+ecb, fmt.Sprint(ncb)
				if c.kind == "prop" {
					w.bad("C11", "callback", "%s: callback %s was called by Propagate", name, e.id)
					continue
				}
				if e.epoch != ep || e.id != id {
					w.bad("C11", "callback", "%s: callback %s was called with epoch %d, expected callback %s with epoch %d (Solve(%d,%d), call %d)", name, e.id, e.epoch, id, ep, c.ne, c.ns, ci)
				}
				k := done + (ecb+1)*c.ns
				wrongState(fmt.Sprintf("what callback %s saw in epoch %d,", e.id, e.epoch), k, ci, e.hash, nil)
				if !isTime(e.gtime, k) {
					w.bad("C12", "get-time", "%s: GetTime is %v after %d steps of %v", name, e.gtime, k, dt)
				}
				for _, id := range probes {
					if r.start+fins[id] != k {
						w.bad("C12", "finish-count", "%s: OnStepFinished of %s was called %d times in %d steps", name, id, r.start+fins[id], k)
					}
				}
				if !e.ok {
					panicked = injectedIn(s, p, "cb")
				}
				ncb++
				if ncb >= cbsPerEpoch {
					ncb = 0
					ecb++
				}
				s.probe("callback-checked")
			case "mon":
				k := 0
				if wrapped > 0 {
					k = done + (nmon/wrapped+1)*c.ns
					if id := monIDs[nmon%wrapped]; id != e.id || c.kind == "prop" || nmon/wrapped >= c.ne {
						w.bad("C11", "monitor", "%s: monitor %s was updated, expected monitor %s of epoch %d", name, e.id, id, nmon/wrapped)
					}
				}
				wrongState("what monitor "+e.id+" saw", k, ci, e.hash, nil)
				nmon++
			}
		}
		if returned {
			if c.kind == "solve" && cbsPerEpoch > 0 && (ecb != c.ne || ncb != 0) {
				w.bad("C11", "callback", "%s: Solve(%d,%d) returned after %d epochs and %d callbacks", name, c.ne, c.ns, ecb, ncb)
			}
			if c.kind == "solve" && nmon != wrapped*c.ne {
				w.bad("C11", "monitor", "%s: Solve(%d,%d) returned after %d updates of %d monitors", name, c.ne, c.ns, nmon, wrapped)
			}
			done += c.ne * c.ns
			for _, id := range probes {
				if r.start+fins[id] != done {
					w.bad("C12", "finish-count", "%s: OnStepFinished of %s was called %d times in %d steps", name, id, r.start+fins[id], done)
				}
			}
		}
	}
	if r.fail != "" {
		w.bad("C11", "solver", "%s: %s", name, r.fail)
	}
	if r.done {
		wrongState("the final state", total, len(r.calls)-1, hashState(r.final), r.final)
		if !isTime(r.gt, total) {
			w.bad("C12", "get-time", "%s: GetTime is %v after %d steps of %v", name, r.gt, total, dt)
		}
		s.probe("run-checked")
	} else if clean && !(strings.Contains(p.exitMsg, "unsupported value") && !finite(ref)) {
		// (JSON cannot represent NaN and infinity)
		w.bad(s.plan.Property, "failed", "%s failed in a run without faults: %s %.200s", name, p.exit, firstLine(p.exitMsg))
	}
	// a panic of user code ends the calculation
	if r.done && (injectedIn(s, p, "cb") || injectedIn(s, p, "mon") || injectedIn(s, p, "fin")) {
		w.bad("C11", "panic-swallowed", "%s went on after a panic of user code", name)
	}
	w.checkMonitors(r, name, ref)
	w.checkConserved(r, name, ref)
	if s.plan.Property == "C19" || s.plan.Property == "C20" || s.plan.Property == "C22" {
		w.checkScheme(r, name, ref)
	}
}

func finite(st [][][]complex128) bool {
	for _, s := range st {
		for _, f := range s {
			for _, v := range f {
				if x := real(v) - real(v) + imag(v) - imag(v); x != 0 {
					return false
				}
			}
		}
	}
	return true
}

func injectedIn(s *Sim, p *Proc, site string) bool {
	for f := range s.firedSet {
		if f.Proc == p.id && f.Site == site && f.Kind == "panic" {
			return true
		}
	}
	return false
}

// foreignCBs: callbacks that are not logged (savers)
func (r *srun) foreignCBs() int {
	if r.prog.opt("ckpt", 0) > 0 {
		return 1
	}
	return 0
}

func (r *srun) isWrapped(i int) bool {
	k := 0
	for _, op := range r.prog.Ops {
		if op.K == "mon" {
			if k == i {
				return opN(op, 2) != 1
			}
			k++
		}
	}
	return false
}

// checkMonitors: one value per epoch since the monitor was added, the value of its
// field at its site at the end of the epoch
func (w *solverWorld) checkMonitors(r *srun, name string, ref [][][]complex128) {
	if r.start > 0 {
		return
	}
	mi := map[int][]float64{} // expected
	complete := true
	steps := 0
	fidx := map[string]int{}
	for i, f := range r.prog.S {
		fidx[f] = i
	}
	for _, c := range r.calls {
		if c.end < 0 {
			complete = false
		}
		for e := 0; e < c.ne; e++ {
			steps += c.ns
			if c.kind != "solve" {
				continue
			}
			for m := 0; m < c.mons; m++ {
				q := r.mons[m]
				mi[m] = append(mi[m], real(ref[steps][fidx[q.field]][q.site]))
			}
		}
	}
	cmp := func(what string, got, want []float64, all bool) {
		if len(got) > len(want) || (all && len(got) != len(want)) {
			w.bad("C11", "monitor-data", "%s: %s has %d values, %d epochs were solved", name, what, len(got), len(want))
			return
		}
		for i := range got {
			if bitsOf(got[i]) != bitsOf(want[i]) {
				w.bad("C11", "monitor-data", "%s: %s has %v for epoch %d, the field was %v", name, what, got[i], i, want[i])
				return
			}
		}
	}
	for m, q := range r.mons {
		cmp(fmt.Sprintf("monitor %d", m), q.inner.Data, mi[m], complete)
		w.sim.probe("monitor-checked")
	}
	for _, j := range r.jsons {
		var got []pmon
		if err := json.Unmarshal([]byte(j.out), &got); err != nil {
			w.bad("C11", "json", "%s: JSONifyMonitors gave %.100q: %v", name, j.out, err)
			continue
		}
		if len(got) != len(j.want) {
			w.bad("C11", "json", "%s: JSONifyMonitors has %d monitors, there are %d", name, len(got), len(j.want))
			continue
		}
		for i := range got {
			if got[i].Field != j.want[i].Field || got[i].Site != j.want[i].Site || got[i].Name != j.want[i].Name || len(got[i].Data) != len(j.want[i].Data) {
				w.bad("C11", "json", "%s: JSONifyMonitors has %+v for monitor %d, it is %+v", name, got[i], i, j.want[i])
				break
			}
			cmp(fmt.Sprintf("JSON of monitor %d", i), got[i].Data, j.want[i].Data, true)
		}
		w.sim.probe("json-checked")
	}
}

// ---- checkpoint and restart -------------------------------------------------

// checkChains: runs that share checkpoints go on where the previous one was stopped
func (w *solverWorld) checkChains(clean bool) {
	chains := map[int][]*srun{}
	for _, r := range w.runs {
		if id := r.prog.opt("ckpt", 0); id > 0 && len(r.prog.Ops) > 0 {
			chains[id] = append(chains[id], r)
		}
	}
	for id := range chains {
		runs := chains[id]
		first := runs[0]
		n := pfutil.ProdInt(first.prog.Dom)
		total, ns := first.prog.opt("epochs", 1), first.prog.opt("nsteps", 1)
		ref, err := w.refStates(first.prog, first.num, total*ns, 11)
		if err != "" {
			continue
		}
		// the files hold what was computed
		e0 := first.prog.opt("start", 0)
		last := runs[len(runs)-1]
		wild := 0.0
		for _, st := range ref {
			_, sc := maxDiff(st, st)
			wild = math.Max(wild, sc)
		}
		if wild > 1e3 || math.IsInf(wild, 0) || wild != wild {
			continue
		}
		// a restart drops imaginary parts, i.e. rounding errors, which may grow
		near, err := w.refNear(first.prog, first.num, total*ns, 11, 1e-13)
		if err != "" {
			continue
		}
		tol := func(step int) float64 {
			d, sc := maxDiff(near[step], ref[step])
			return 1e-9*(1+sc) + d
		}
		for e := 0; e < total; e++ {
			var got [][]complex128
			for _, f := range first.prog.S {
				d := tryLoad(fmt.Sprintf("%s_%s_%d.bin", ckptName(first.prog), f, e+e0))
				if len(d) != n {
					break
				}
				c := make([]complex128, n)
				for i := range d {
					c[i] = complex(d[i], 0)
				}
				got = append(got, c)
			}
			if len(got) != len(first.prog.S) {
				// (an earlier run that failed while it repeated an epoch may have damaged
				// the file of that epoch)
				if last.done && e >= last.first {
					w.bad("C13", "no-checkpoint", "chain %d finished, but epoch %d has no complete checkpoint", id, e+e0)
				}
				continue
			}
			if d, _ := maxDiff(got, ref[(e+1)*ns]); d > tol((e+1)*ns) {
				w.bad("C13", "restart", "chain %d (%d runs): the checkpoint of epoch %d differs by %g from an uninterrupted calculation", id, len(runs), e+e0, d)
			}
			w.sim.probe("checkpoint-checked")
		}
		if last.done {
			if d, _ := maxDiff(last.final, ref[total*ns]); d > tol(total*ns) {
				w.bad("C13", "restart", "chain %d (%d runs): the final state differs by %g from an uninterrupted calculation", id, len(runs), d)
			}
			if len(runs) > 1 && last.start > 0 {
				w.sim.probe("restart-checked")
			}
		} else if last.prog.opt("nofault", 0) == 1 {
			w.bad("C13", "stuck", "chain %d: the restarted calculation failed: %s %.200s", id, last.p.exit, firstLine(last.p.exitMsg))
		}
	}
}

// ---- conservation -----------------------------------------------------------

func dft(dom []int, f []complex128) []complex128 {
	n := len(f)
	out := make([]complex128, n)
	pos := make([][3]int64, n)
	for i := range pos {
		pos[i] = posOf(dom, i)
	}
	for k := 0; k < n; k++ {
		var s complex128
		for i := 0; i < n; i++ {
			ph := 0.0
			for d := range dom {
				ph += float64(pos[k][d]*pos[i][d]%int64(dom[d])) / float64(dom[d])
			}
			si, co := math.Sincos(-2 * math.Pi * ph)
			s += f[i] * complex(co, si)
		}
		out[k] = s
	}
	return out
}

// freqOf is the frequency of a mode (cycles per node)
func freqOf(dom []int, k int) [3]float64 {
	p := posOf(dom, k)
	var f [3]float64
	for d := range dom {
		f[d] = float64(p[d]) / float64(dom[d])
		if 2*p[d] > int64(dom[d]) {
			f[d]--
		}
	}
	return f
}

func (w *solverWorld) checkConserved(r *srun, name string, ref [][][]complex128) {
	if r.prog.opt("conserve", 0) != 1 || !r.done {
		return
	}
	s := w.sim
	n := float64(pfutil.ProdInt(r.prog.Dom))
	steps := float64(r.steps())
	// All steps are judged. An unstable step size makes the fields grow and with them
	// every rounding error: the tolerances follow the size that the fields have had, and
	// an imaginary part must come out of nothing, faster than rounding errors can grow.
	for f, fname := range r.prog.S {
		maxBig, im0 := 1.0, 0.0
		for k := 0; k <= len(ref); k++ {
			var y []complex128
			at := k
			if k < len(ref) {
				y = ref[k][f]
			} else {
				y, at = r.final[f], int(steps)
			}
			var s0, s1, big, im float64
			for i, v := range y {
				s0 += initField(r.prog, 0, f, i)
				s1 += real(v)
				big = math.Max(big, math.Abs(real(v)))
				im = math.Max(im, math.Abs(imag(v)))
			}
			if !(big < 1e6) {
				break // unstable step size
			}
			grow := math.Max(1, big/maxBig)
			maxBig = math.Max(maxBig, big)
			tol := 1e-12 * (1 + maxBig) * n * (1 + steps)
			if r.b.step == "implicit" {
				tol = 1e-6 * n * (1 + steps)
			}
			if math.Abs(s1-s0) > tol {
				w.bad("C16", "total", "%s: the total of %s changed from %v to %v in %v steps", name, fname, s0, s1, at)
			}
			if im > 1e-9*(1+maxBig) && im > 1e5*grow*im0 {
				w.bad("C16", "real", "%s: %s got an imaginary part of %v in step %v", name, fname, im, at)
			}
			im0 = math.Max(im0, im)
			s.probe("total-checked")
		}
	}
	if r.prog.opt("modes", 0) == 1 && steps == 1 && r.b.step == "euler" {
		c := dft(r.prog.Dom, r.final[0])
		for k := range c {
			f := freqOf(r.prog.Dom, k)
			still := true
			for d := range r.prog.Dom {
				if a := math.Abs(f[d]); a > 1e-9 && a < 0.5-1e-9 {
					still = false
				}
			}
			a := math.Hypot(real(c[k]), imag(c[k]))
			if !still && a < 1e-13 {
				w.bad("C16", "mode", "%s: the noise leaves the mode %v alone", name, f[:len(r.prog.Dom)])
			}
			if still && k > 0 && a > 1e-9 {
				w.bad("C16", "mode", "%s: the noise has a mode %v it should not have (%g)", name, f[:len(r.prog.Dom)], a)
			}
		}
		s.probe("modes-checked")
	}
}

func selfExe() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}
