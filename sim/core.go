package main

import (
	"bytes"
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifsim/simrt"
)

// ---------------------------------------------------------------------------
// The simulator: simulated processes are goroutines that hold a token one at a
// time. Every operation that reaches a seam (SQLite VFS, os, clock, FFT, user
// callback) passes through Sim.hit, where the recorded or seeded plan decides
// who runs next and whether this operation fails.
// ---------------------------------------------------------------------------

// Preempt is a scheduling decision that differs from the default (carry on with
// the running process; otherwise the runnable process with the lowest number).
type Preempt struct {
	Proc int `json:"p"`
	At   int `json:"at"` // the At-th decision point of Proc
	To   int `json:"to"`
}

// Fault is a fault injected into the Nth operation of class Site in Proc
type Fault struct {
	Proc  int    `json:"p"`
	Site  string `json:"site"`
	Nth   int    `json:"nth"`
	Kind  string `json:"kind"`
	Arg   int64  `json:"arg,omitempty"`
	Count int    `json:"count,omitempty"` // consecutive operations affected (default 1)
}

// ClockCfg describes the wall clock
type ClockCfg struct {
	Start int64   `json:"start"`          // unix ns
	Gran  int64   `json:"gran,omitempty"` // granularity of a reading in ns
	Skew  []int64 `json:"skew,omitempty"` // per process
	Slow  int64   `json:"slow,omitempty"` // ns per decision point (default 20 µs)
}

// Plan is one exactly repeatable execution
type Plan struct {
	Property string    `json:"property"`
	Scenario string    `json:"scenario"`
	Seed     uint64    `json:"seed"`
	Case     int       `json:"case"`
	Program  *Program  `json:"program"`
	Preempts []Preempt `json:"preempts"`
	Faults   []Fault   `json:"faults"`
	MapSeed  uint64    `json:"mapseed"`
	Clock    ClockCfg  `json:"clock"`
	PointGap int       `json:"point_gap,omitempty"` // statements of gopf between two scheduling points (mean; 0: none)
	Note     string    `json:"note,omitempty"`
	Expect   *Expect   `json:"expect,omitempty"`
	Sequence *Sequence `json:"sequence,omitempty"`
}

// Sequence is a replay that consists of several cases in one program: the violation
// depends on what earlier calculations left behind in the memory of the program
type Sequence struct {
	Tier string `json:"tier"`
	Seed uint64 `json:"seed"`
	From int    `json:"from"`
	To   int    `json:"to"`
}

// Expect is what a replay must reproduce
type Expect struct {
	Oracle  string `json:"oracle"`
	Message string `json:"message"`
	Hash    string `json:"event_hash"`
}

const (
	stNew = iota
	stRunnable
	stSleeping
	stDone
)

// Exit kinds of a simulated process
const (
	exNormal = "normal"
	exPanic  = "panic"
	exExit   = "exit"
	exKill   = "killed"
)

// Proc is one simulated process, or a thread that a simulated process started
type Proc struct {
	id     int
	parent *Proc // the process this thread belongs to (nil: this is the process)
	kids   int   // threads started so far
	pinned *Proc // the thread that is inside a library call: no other thread of the process may run

	budget int64 // statements of gopf until the next scheduling point
	drawn  int64
	points int // scheduling points between statements so far
	gapRng *RNG

	name   string
	state  int
	wakeAt int64
	resume chan struct{}
	fn     func()

	exit     string
	exitCode int
	exitMsg  string
	stack    string

	stdout, stderr bytes.Buffer
	yields         int
	sites          map[string]int
	allocs         int // allocations of SQLite
	allocFaults    []*Fault
	guard          int // allocations do not fail now
	poolWaits      int // waits for a connection of a limited pool
	rnd            *rand.Rand
	skew           int64
	pid            int
	curOp          int
	wmin, wmax     int64 // clock readings during the current operation
}

// root is the process that p belongs to
func (p *Proc) root() *Proc {
	if p.parent != nil {
		return p.parent
	}
	return p
}

func (p *Proc) loud() bool {
	return p.exit == exPanic || (p.exit == exExit && p.exitCode != 0)
}

// HistEv is an entry of the recorded history
type HistEv struct {
	Seq  int
	Proc int
	Op   int
	Kind string // inv ret exit
	Note string
}

// Sim is one simulated execution
type Sim struct {
	plan     *Plan
	rec      []Preempt // recorded preemptions (search mode)
	search   bool
	rng      *RNG
	prob     float64
	procs    []*Proc
	threads  []*Proc
	cur      *Proc // who runs
	points   int64
	active   bool
	now      int64
	wall     int64 // offset of the wall clock caused by jumps
	seq      int
	steps    int
	maxSteps int
	overrun  bool
	done     chan struct{}
	hist     []HistEv
	hash     uint64
	trace    []string
	tracing  bool
	disk     *Disk
	dir      string

	preIdx   map[[2]int]int
	faultIdx map[string][]*Fault
	fired    map[string]int
	firedSet map[*Fault]bool
	switches int
	probes   map[string]int
	stalls   int
	refRnd   *rand.Rand // random numbers of reference executions
}

var theSim *Sim

func newSim(plan *Plan, search bool, dir string) *Sim {
	s := &Sim{
		plan:     plan,
		search:   search,
		rng:      newRNG(plan.Seed, 0x5ced),
		maxSteps: 400000,
		disk:     newDisk(),
		dir:      dir,
		preIdx:   map[[2]int]int{},
		faultIdx: map[string][]*Fault{},
		fired:    map[string]int{},
		firedSet: map[*Fault]bool{},
		probes:   map[string]int{},
		hash:     1469598103934665603,
	}
	s.prob = []float64{0.5, 0.2, 0.05, 0.01}[s.rng.Intn(4)]
	for _, q := range plan.Preempts {
		s.preIdx[[2]int{q.Proc, q.At}] = q.To
	}
	for i := range plan.Faults {
		f := &plan.Faults[i]
		k := fmt.Sprintf("%d/%s", f.Proc, f.Site)
		s.faultIdx[k] = append(s.faultIdx[k], f)
	}
	s.disk.sim = s
	simrt.Budget = pointChunk
	return s
}

func (s *Sim) note(proc int, site string, a, b uint64) {
	h := s.hash
	for i := 0; i < len(site); i++ {
		h ^= uint64(site[i])
		h *= 1099511628211
	}
	h = mix(h, uint64(proc), a, b)
	s.hash = h
}

func (s *Sim) tracef(format string, args ...interface{}) {
	if s.tracing {
		s.trace = append(s.trace, fmt.Sprintf(format, args...))
	}
}

func (s *Sim) probe(name string) { s.probes[name]++ }

// spawn creates a process; it starts to run in the next phase
func (s *Sim) spawn(name string, fn func(p *Proc)) *Proc {
	p := &Proc{id: len(s.procs), name: name, resume: make(chan struct{}), sites: map[string]int{}, curOp: -1}
	p.pid = 1000 + 7*p.id
	p.rnd = rand.New(rand.NewSource(procSeed(s.plan.Seed, p.id)))
	if p.id < len(s.plan.Clock.Skew) {
		p.skew = s.plan.Clock.Skew[p.id]
	}
	p.fn = func() { fn(p) }
	s.procs = append(s.procs, p)
	s.arm(p)
	return p
}

// run executes all spawned processes until every one of them has ended
func (s *Sim) run() {
	started := false
	for _, p := range s.procs {
		if p.state == stNew {
			p.state = stRunnable
			started = true
			go s.body(p)
		}
	}
	if !started {
		return
	}
	s.done = make(chan struct{})
	s.active = true
	first := s.defaultNext(nil)
	if s.search {
		if r := s.runnable(); len(r) > 1 {
			c := r[s.rng.Intn(len(r))]
			if c != first {
				s.rec = append(s.rec, Preempt{-1, s.seq, c.id})
				first = c
			}
		}
	} else if to, ok := s.preIdx[[2]int{-1, s.seq}]; ok {
		if c := s.byID(to); c != nil && c.state == stRunnable {
			first = c
		}
	}
	s.cur = first
	first.resume <- struct{}{}
	<-s.done
	s.active = false
	s.cur = nil
	runtime.SimMapOff()
}

func (s *Sim) byID(id int) *Proc {
	if id >= 1000 {
		for _, t := range s.threads {
			if t.id == id {
				return t
			}
		}
		return nil
	}
	if id < 0 || id >= len(s.procs) {
		return nil
	}
	return s.procs[id]
}

func (s *Sim) body(p *Proc) {
	<-p.resume
	s.enter(p)
	defer func() {
		if r := recover(); r != nil {
			q := p.root() // a thread that panics takes the process with it
			q.exit = exPanic
			q.exitMsg = fmt.Sprint(r)
			q.stack = string(debug.Stack())
			s.finish(q)
			return
		}
		s.finish(p)
	}()
	p.fn()
	p.exit = exNormal
}

// thread starts a thread of the running process
func (s *Sim) thread(fn func()) {
	q := s.cur.root()
	q.kids++
	t := &Proc{id: 1000*(q.id+1) + q.kids - 1, parent: q, name: q.name, state: stRunnable, resume: make(chan struct{}), fn: fn, curOp: -1}
	s.threads = append(s.threads, t)
	s.probe("threads-started")
	s.arm(t)
	s.arm(s.cur)
	simrt.Budget = s.cur.budget
	go s.body(t)
	s.hit("spawn")
}

// endThreads ends the threads of a process that has ended
func (s *Sim) endThreads(q *Proc) {
	for _, t := range s.threads {
		if t.parent == q {
			t.state = stDone
		}
	}
}

func (s *Sim) threaded(q *Proc) bool {
	for _, t := range s.threads {
		if t.parent == q && t.state != stDone {
			return true
		}
	}
	return false
}

const (
	pointChunk = 2000000   // statements between two looks at the total
	maxPoints  = 300000000 // statements of one execution
)

// arm draws the number of statements until the next scheduling point of p
func (s *Sim) arm(p *Proc) {
	gap := s.plan.PointGap
	if gap == 0 && p.parent != nil {
		gap = 100
	}
	if gap == 0 && s.threaded(p) {
		gap = 100
	}
	n := int64(pointChunk)
	if gap > 0 {
		if p.gapRng == nil {
			p.gapRng = newRNG(s.plan.Seed, uint64(p.id), 0x9a9)
		}
		if p.points++; p.points > 20000 { // a long calculation
			gap *= 100
		}
		n = 1 + int64(p.gapRng.Intn(2*gap))
	}
	p.budget, p.drawn = n, n
}

// point is called when the statements until the next scheduling point are used up
func (s *Sim) point() {
	if !s.active || s.cur == nil {
		s.points += pointChunk
		simrt.Budget = pointChunk
		if s.points > maxPoints {
			panic("a calculation without faults does not end")
		}
		return
	}
	p := s.cur
	s.points += p.drawn
	if s.points > maxPoints {
		s.exhausted(p)
	}
	n := p.drawn
	s.arm(p)
	simrt.Budget = p.budget
	if n == pointChunk {
		return
	}
	s.now += 2 * n
	s.note(p.id, "point", uint64(p.yields), 0)
	s.probe("statement-points")
	if s.tracing && len(s.runnable()) > 1 {
		s.tracef("%6d P%d statement point %d", s.seq, p.id, p.yields)
	}
	s.yieldTo(p, true)
}

func (s *Sim) enter(p *Proc) {
	simrt.Budget = p.budget
	runtime.SimMapSeed(mix(s.plan.MapSeed, uint64(p.id), uint64(p.yields)))
}

// finish ends the process (normally or loudly): its locks are released
func (s *Sim) finish(p *Proc) {
	p.state = stDone
	if p.parent != nil {
		s.handOver(p)
		return
	}
	s.endThreads(p)
	s.disk.procDied(p)
	s.event(p, "exit", p.exit)
	s.tracef("%6d P%d exits: %s %s", s.seq, p.id, p.exit, firstLine(p.exitMsg))
	if s.tracing && p.stdout.Len()+p.stderr.Len() > 0 {
		s.tracef("%6d P%d printed: %.1500s %.500s", s.seq, p.id, p.stdout.String(), p.stderr.String())
	}
	s.handOver(p)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// handOver passes the token on for good (the caller never runs again)
func (s *Sim) handOver(p *Proc) {
	next := s.decide(p, true)
	if next == nil {
		close(s.done)
		return
	}
	s.cur = next
	next.resume <- struct{}{}
}

func (s *Sim) event(p *Proc, kind, note string) int {
	s.seq++
	s.hist = append(s.hist, HistEv{Seq: s.seq, Proc: p.id, Op: p.curOp, Kind: kind, Note: note})
	s.note(p.id, kind, uint64(p.curOp), hashStr(note))
	return s.seq
}

func (s *Sim) runnable() []*Proc {
	var r []*Proc
	for _, p := range s.procs {
		if p.state == stSleeping && p.wakeAt <= s.now {
			p.state = stRunnable
		}
		if p.state == stRunnable && (p.pinned == nil || p.pinned == p) {
			r = append(r, p)
		}
	}
	for _, p := range s.threads {
		if p.state == stSleeping && p.wakeAt <= s.now {
			p.state = stRunnable
		}
		if p.state == stRunnable && (p.parent.pinned == nil || p.parent.pinned == p) {
			r = append(r, p)
		}
	}
	return r
}

func (s *Sim) defaultNext(cur *Proc) *Proc {
	r := s.runnable()
	if cur != nil && cur.state == stRunnable {
		return cur
	}
	if len(r) > 0 {
		return r[0]
	}
	// everybody sleeps: jump to the next timer
	var best *Proc
	for _, l := range [][]*Proc{s.procs, s.threads} {
		for _, p := range l {
			if p.state == stSleeping && (best == nil || p.wakeAt < best.wakeAt) && (p.root().pinned == nil || p.root().pinned == p) {
				best = p
			}
		}
	}
	if best != nil {
		s.now = best.wakeAt
		best.state = stRunnable
	}
	return best
}

// decide is the scheduling decision at the current decision point of p. Inside a
// library call (free is false) the other threads of the process have to wait.
func (s *Sim) decide(p *Proc, free bool) *Proc {
	p.yields++
	if !free && len(s.threads) > 0 {
		p.root().pinned = p
	}
	def := s.defaultNext(p)
	if def == nil {
		return nil
	}
	choice := def
	r := s.runnable() // also wakes everybody whose timer has expired
	if s.search {
		if len(r) > 1 && (p.state != stRunnable || s.rng.Bool(s.prob) || free && s.rng.Bool(0.4)) {
			choice = r[s.rng.Intn(len(r))]
		}
		if choice != def {
			s.rec = append(s.rec, Preempt{p.id, p.yields, choice.id})
		}
	} else if to, ok := s.preIdx[[2]int{p.id, p.yields}]; ok {
		if c := s.byID(to); c != nil && c.state == stRunnable {
			choice = c
		}
	}
	if choice != p {
		s.switches++
		s.note(choice.id, "switch", uint64(p.id), uint64(p.yields))
	}
	return choice
}

func (s *Sim) yieldTo(p *Proc, free bool) {
	p.budget = simrt.Budget
	next := s.decide(p, free)
	if next != p {
		s.cur = next
		next.resume <- struct{}{}
		<-p.resume
	}
	if p.root().pinned == p {
		p.root().pinned = nil
	}
	s.enter(p)
}

// exhausted ends an execution that does not end by itself. It never returns.
func (s *Sim) exhausted(p *Proc) {
	s.overrun = true
	for _, q := range s.procs {
		if q.state != stDone {
			q.state = stDone
			if q.exit == "" {
				q.exit = exKill
				q.exitMsg = "step budget exhausted"
			}
		}
		s.endThreads(q)
	}
	s.disk.allDied()
	close(s.done)
	select {} // parked for good
}

var siteCost = map[string]int64{"vfs.sync": 2e6, "os.sync": 2e6, "vfs.write": 4e4, "os.write": 4e4}

// hit is called at every seam. It may switch to another process and returns the
// fault that the plan injects into this operation (or nil). Faults that hit the
// process rather than the operation (kill, power, stall, clock) are applied here.
func (s *Sim) hit(site string) *Fault {
	t := s.cur
	p := t.root()
	s.steps++
	if s.steps > s.maxSteps {
		s.exhausted(t)
	}
	n := p.sites[site]
	p.sites[site] = n + 1
	cost, ok := siteCost[site]
	if !ok {
		cost = 2e4
		if s.plan.Clock.Slow != 0 {
			cost = s.plan.Clock.Slow
		}
	}
	s.now += cost
	p.seeClock(s.wallNow(p))
	s.note(t.id, site, uint64(n), uint64(p.curOp))
	if s.tracing {
		s.tracef("%6d P%d %s #%d", s.seq, t.id, site, n)
	}
	s.yieldTo(t, site == "spawn" || site == "wait")
	for _, f := range s.faultIdx[fmt.Sprintf("%d/%s", p.id, site)] {
		c := f.Count
		if c == 0 {
			c = 1
		}
		if n >= f.Nth && n < f.Nth+c {
			s.fire(f)
			switch f.Kind {
			case "kill":
				s.die(p)
			case "power":
				s.power(p, f.Arg)
			case "stall":
				s.sleep(t, f.Arg, false)
				continue
			case "clock":
				s.wall += f.Arg
				for _, q := range s.procs {
					q.seeClock(s.wallNow(q))
				}
				continue
			}
			return f
		}
	}
	return nil
}

func (s *Sim) fire(f *Fault) {
	if !s.firedSet[f] {
		s.firedSet[f] = true
	}
	s.fired[f.Site+":"+f.Kind]++
	s.note(f.Proc, f.Kind, uint64(f.Nth), uint64(f.Arg))
	s.tracef("%6d P%d FAULT %s at %s #%d arg=%d", s.seq, f.Proc, f.Kind, f.Site, f.Nth, f.Arg)
}

// die kills the calling process at this very point. It never returns.
func (s *Sim) die(p *Proc) {
	p = p.root()
	p.exit = exKill
	p.exitMsg = "killed by the simulator"
	p.state = stDone
	s.endThreads(p)
	s.disk.procDied(p)
	s.event(p, "exit", "killed")
	s.handOver(p)
	select {}
}

// power is a power failure of the whole machine. It never returns.
func (s *Sim) power(p *Proc, arg int64) {
	for _, q := range s.procs {
		if q.state != stDone {
			q.state = stDone
			q.exit = exKill
			q.exitMsg = "power failure"
			s.event(q, "exit", "power")
		}
		s.endThreads(q)
	}
	s.disk.allDied()
	s.disk.powerLoss(uint64(arg))
	close(s.done)
	select {}
}

// exited is os.Exit in a simulated process: no deferred function runs.
func (s *Sim) exited(code int) {
	p := s.cur.root()
	s.endThreads(p)
	p.exit = exExit
	p.exitCode = code
	p.exitMsg = strings.TrimSpace(lastLine(p.stderr.String()))
	p.state = stDone
	s.disk.procDied(p)
	s.event(p, "exit", fmt.Sprintf("exit%d", code))
	s.tracef("%6d P%d os.Exit(%d) %s", s.seq, p.id, code, p.exitMsg)
	s.handOver(p)
	select {}
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (s *Sim) sleep(p *Proc, ns int64, free bool) {
	if ns < 1000 {
		ns = 1000
	}
	s.stalls++
	p.state = stSleeping
	p.wakeAt = s.now + ns
	s.yieldTo(p, free)
}

// wallNow is the clock reading of process p
func (s *Sim) wallNow(p *Proc) int64 {
	t := s.plan.Clock.Start + s.now + s.wall
	if p != nil {
		t += p.root().skew
	}
	if g := s.plan.Clock.Gran; g > 1 {
		t -= t % g
	}
	return t
}

func (p *Proc) seeClock(t int64) {
	if t < p.wmin {
		p.wmin = t
	}
	if t > p.wmax {
		p.wmax = t
	}
}

// op runs one operation of the workload and records it in the history. It
// returns only when the operation returned normally.
func (s *Sim) op(p *Proc, idx int, note string, fn func()) {
	p.curOp = idx
	p.wmin, p.wmax = s.wallNow(p), s.wallNow(p)
	s.event(p, "inv", note)
	s.tracef("%6d P%d op %d: %s", s.seq, p.id, idx, note)
	s.hit("op")
	fn()
	p.seeClock(s.wallNow(p))
	s.event(p, "ret", "")
	s.tracef("%6d P%d op %d returned", s.seq, p.id, idx)
	p.curOp = -1
}

// acked tells if operation idx of process p returned normally
func (s *Sim) acked(p *Proc, idx int) bool { return s.retSeq(p, idx) > 0 }

func (s *Sim) retSeq(p *Proc, idx int) int {
	for _, h := range s.hist {
		if h.Proc == p.id && h.Op == idx && h.Kind == "ret" {
			return h.Seq
		}
	}
	return 0
}

func (s *Sim) invSeq(p *Proc, idx int) int {
	for _, h := range s.hist {
		if h.Proc == p.id && h.Op == idx && h.Kind == "inv" {
			return h.Seq
		}
	}
	return 0
}

// siteCounts lists the operations that could be hit by a fault
type siteCount struct {
	Proc int
	Site string
	N    int
}

const allocSite = "sqlite.alloc"

// allocFails counts an allocation of SQLite; nobody else is scheduled here
func (s *Sim) allocFails() bool {
	if !s.active || s.cur == nil || s.disk.quiet {
		return false
	}
	p := s.cur.root()
	if p.guard > 0 {
		return false
	}
	n := p.allocs
	p.allocs++
	if len(s.faultIdx) == 0 {
		return false
	}
	if p.allocFaults == nil {
		p.allocFaults = append([]*Fault{}, s.faultIdx[fmt.Sprintf("%d/%s", p.id, allocSite)]...)
	}
	for _, f := range p.allocFaults {
		if n >= f.Nth && n < f.Nth+max(f.Count, 1) {
			s.fire(f)
			return true
		}
	}
	return false
}

func (s *Sim) siteCounts() []siteCount {
	var out []siteCount
	for _, p := range s.procs {
		for k, n := range p.sites {
			out = append(out, siteCount{p.id, k, n})
		}
		if p.allocs > 0 {
			out = append(out, siteCount{p.id, allocSite, p.allocs})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Proc != out[j].Proc {
			return out[i].Proc < out[j].Proc
		}
		return out[i].Site < out[j].Site
	})
	return out
}

// ---------------------------------------------------------------------------
// seams of the Go runtime and standard library
// ---------------------------------------------------------------------------

func installHooks() {
	os.SimHook = simOSHook
	os.SimExit = func(code int) {
		if s := theSim; s != nil && s.active {
			s.exited(code)
		} else if s != nil && s.refRnd != nil {
			panic(fmt.Sprintf("reference execution exits with code %d", code))
		}
	}
	os.SimPid = func() int {
		if s := theSim; s != nil && s.active && s.cur != nil {
			return s.cur.root().pid
		}
		return 0
	}
	os.SimTempName = func() (uint32, bool) {
		if s := theSim; s != nil && s.active && s.cur != nil {
			return uint32(mix(s.plan.Seed, uint64(s.cur.id), uint64(s.cur.yields), 0x7e)), true
		}
		return 0, false
	}
	time.SimNow = func() (int64, bool) {
		if s := theSim; s != nil && s.active {
			return s.wallNow(s.cur), true
		}
		return 0, false
	}
	time.SimSleep = func(d time.Duration) bool {
		if s := theSim; s != nil && s.active {
			s.hit("sleep")
			s.sleep(s.cur, int64(d), true)
			return true
		}
		return false
	}
	rand.SimGlobal = func() *rand.Rand {
		if s := theSim; s != nil && s.active && s.cur != nil {
			return s.cur.root().rnd
		} else if s != nil {
			return s.refRnd
		}
		return nil
	}
	simrt.Hook = func() {
		if s := theSim; s != nil {
			s.point()
		} else {
			simrt.Budget = pointChunk
		}
	}
	simrt.Budget = pointChunk
	simrt.Spawn = func(fn func()) bool {
		if s := theSim; s != nil && s.active && s.cur != nil {
			s.thread(fn)
			return true
		}
		return false
	}
	simrt.Wait = func() bool {
		s := theSim
		if s == nil || !s.active || s.cur == nil {
			return false
		}
		s.hit("wait")
		s.sleep(s.cur, 1e5, true)
		return true
	}
	sql.SimPoolWait = func() {
		s := theSim
		if s == nil || !s.active || s.cur == nil {
			panic("all connections are in use")
		}
		// Only another thread of the process can give a connection back
		s.hit("pool.wait")
		p := s.cur.root()
		if p.poolWaits++; p.poolWaits > 3000 {
			s.probe("pool-deadlock")
			s.exhausted(p)
		}
		s.sleep(s.cur, 1e5, true)
	}
	installMore()
}
