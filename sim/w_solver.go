package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

// The solver world: phase field calculations run concurrently, interrupted by
// crashes, stalls and panics of user code. Everything they compute is compared with
// undisturbed executions and with an independent reference model.

// sev is an entry of the log of one calculation
type sev struct {
	kind  string // cb mon eval fin
	id    string
	epoch int
	t     float64
	hash  uint64
	ok    bool // finished (cb)
	gtime float64
	op    int
	step  int
	mon   pf.SDDMonitor
}

// srun is one calculation
type srun struct {
	start0 int       // the start epoch that was asked for
	orient []float64 // orientation of the dimer at the end
	p      *Proc
	prog   *ProcProg
	num    int
	b      *built
	log    []sev
	start  int // steps done before (restart)
	first  int // first epoch
	calls  []scall
	mons   []*monSpy
	jsons  []jsonRec
	fail   string
	ready  bool
	done   bool
	cbs    int
	final  [][]complex128
	gt     float64
}

type scall struct {
	op     int
	kind   string
	ne, ns int
	epoch0 int
	cbs    int
	mons   int
	logAt  int
	end    int // log length after the call returned (-1: it did not)
}

type jsonRec struct {
	out  string
	want []pmon
	op   int
}

type pmon struct {
	Data  []float64
	Site  int
	Field string
	Name  string
}

// monSpy is a monitor that counts; inner is the monitor of gopf, if any
type monSpy struct {
	run   *srun
	id    int
	inner *pf.PointMonitor
	want  []float64
	field string
	site  int
}

func (m *monSpy) Add(b map[string]pf.Brick) {
	w := m.run
	w.tap("mon", fmt.Sprint(m.id), 0, b)
	m.inner.Add(b)
}

func (m *monSpy) MarshalJSON() ([]byte, error) { return json.Marshal(m.inner) }

type solverWorld struct {
	sim    *Sim
	runs   []*srun
	viol   []Violation
	seen   map[string]bool
	shadow bool
}

func (w *solverWorld) bad(prop, oracle, format string, args ...interface{}) {
	if w.seen[prop+oracle] {
		return
	}
	w.seen[prop+oracle] = true
	w.viol = append(w.viol, Violation{prop, oracle, fmt.Sprintf(format, args...)})
}

func init() {
	regScenario(&Scenario{name: "solver", gen: genSolver, exec: solverExec, check: solverCheck, kinds: solverKinds})
}

func solverKinds(prop, site string) []string {
	switch site {
	case "cb", "mon", "fin":
		return []string{"panic", "kill", "stall"}
	case "fft.pre", "fft.post":
		if prop == "C13" {
			return []string{"kill", "kill", "stall"}
		}
		return []string{"kill", "stall"}
	case "op", "between":
		return []string{"kill", "stall"}
	case "os.write":
		return []string{"torn", "kill", "enospc", "eio"}
	case "os.open", "os.close":
		return []string{"kill", "eio"}
	}
	return nil
}

// ---- model building ---------------------------------------------------------

// built is a model with its solver
type built struct {
	m      *pf.Model
	s      *pf.Solver
	terms  []string // registered user terms
	probes []string
	dt     float64
	noise  bool
	step   string

	reports []report
}

var dts = []float64{0.01, 0.1, 0.003, 0.0625}
var steppers = []string{"euler", "rk4", "implicit", "sdd"}

func (prog *ProcProg) opt(k string, def int) int {
	if v, ok := prog.Opt[k]; ok {
		return v
	}
	return def
}

func opN(op Op, i int) int {
	if i < len(op.N) {
		return op.N[i]
	}
	return 0
}

func fldVal(op uint64) float64 { return math.Float64frombits(op) }

// probes of user terms
type probe struct {
	name string
	kind int
	c    float64
	// the field it acts on (empty: the same value at all nodes)
	field string
	dim   int // the linear part depends on the frequency in this many directions
	tap   func(kind, id string, t float64, b map[string]pf.Brick)
}

func (q *probe) lin(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, f []complex128) {
		q.tap("eval", q.name, t, nil)
		for i := range f {
			v := 1.0
			for d := 0; d < q.dim; d++ {
				v += 0.3 * float64(d+1) * math.Pow(math.Sin(math.Pi*freq(i)[d]), 2)
			}
			f[i] = complex(-q.c*v, 0)
		}
	}
}

func (q *probe) nonlin(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, f []complex128) {
		q.tap("eval", q.name, t, nil)
		if q.field != "" {
			for i := range f {
				f[i] = complex(probeForce(q.c, t), 0) * b[q.field].Get(i)
			}
			return
		}
		for i := range f {
			f[i] = 0
		}
		f[0] = complex(float64(len(f))*probeForce(q.c, t), 0)
	}
}

func probeForce(c, t float64) float64 { return 0.2 * c * math.Cos(3*t+c) }

func (q *probe) OnStepFinished(t float64, b map[string]pf.Brick) { q.tap("fin", q.name, t, b) }

type probeImp struct{ probe }

func (q *probeImp) Construct(b map[string]pf.Brick) pf.Term { return q.lin(b) }

type probeExp struct{ probe }

func (q *probeExp) Construct(b map[string]pf.Brick) pf.Term { return q.nonlin(b) }

type probeMix struct{ probe }

func (q *probeMix) ConstructLinear(b map[string]pf.Brick) pf.Term    { return q.lin(b) }
func (q *probeMix) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return q.nonlin(b) }

// userFunc is a generic function of the fields
func userFunc(kind int, c float64, names []string) pf.GenericFunction {
	a := names[0]
	z := names[len(names)-1]
	switch kind % 3 {
	case 0:
		return func(i int, b map[string]pf.Brick) complex128 {
			x := real(b[a].Get(i))
			return complex(c*(x-x*x*x), 0)
		}
	case 1:
		return func(i int, b map[string]pf.Brick) complex128 {
			x, y := real(b[a].Get(i)), real(b[z].Get(i))
			return complex(c*math.Sin(x+0.5*y), 0)
		}
	}
	return func(i int, b map[string]pf.Brick) complex128 {
		x, y := real(b[a].Get(i)), real(b[z].Get(i))
		return complex(c*x*y*(1-y), 0)
	}
}

func userFuncVal(kind int, c float64, x, y float64) float64 {
	switch kind % 3 {
	case 0:
		return c * (x - x*x*x)
	case 1:
		return c * math.Sin(x+0.5*y)
	}
	return c * x * y * (1 - y)
}

// powStr is a factor with its power
func powStr(name string, pw float64, decimals bool) string {
	if pw == 1 && !decimals {
		return name
	}
	if pw == math.Trunc(pw) && decimals {
		return fmt.Sprintf("%s^%.1f", name, pw)
	}
	return fmt.Sprintf("%s^%g", name, pw)
}

// scalPow is the power of the first or second coefficient of a term (10: 0.5, 15: 1.5)
func scalPow(op Op, j int) float64 {
	switch v := opN(op, 8+j); {
	case v == 0:
		return 1
	case v >= 10:
		return float64(v) / 10
	default:
		return float64(v)
	}
}

// fieldPow is the power of a field (15: 1.5)
func fieldPow(e int) float64 {
	if e >= 10 {
		return float64(e) / 10
	}
	return float64(e)
}

// termStr is the text of a plain term: sign, scalars, Laplacian, fields. N[10] is
// the way it is written: 1 fields in reverse order, 2 coefficients behind the
// fields, 4 white space, 8 LAP*field, 16 decimals, 32 coefficients between the fields,
// 64 double signs, 128 Laplacians in a row, 256 Laplacian in front of the coefficients,
// 512 a factor more than once
func termStr(op Op, fields, scalars []string) string {
	how := opN(op, 10)
	dec := how&16 != 0
	var fs []string
	first := ""
	if s := opN(op, 3); s > 0 {
		first = scalars[(s-1)%len(scalars)]
		fs = append(fs, powStr(first, scalPow(op, 0), dec))
	}
	if s := opN(op, 4); s > 0 {
		n := scalars[(s-1)%len(scalars)]
		if n != first {
			fs = append(fs, powStr(n, scalPow(op, 1), dec))
		}
	}
	var mono []string
	for f, name := range fields {
		e := opN(op, 5+f)
		if how&512 != 0 && e > 1 && e < 10 { // a*a^2 for a^3
			mono = append(mono, name)
			e--
		}
		if e > 0 {
			// a factor "conc^1.0" is another field than "conc": only powers get decimals
			mono = append(mono, powStr(name, fieldPow(e), dec && e > 1))
		}
	}
	sort.Strings(mono)
	if how&1 != 0 {
		for i, j := 0, len(mono)-1; i < j; i, j = i+1, j-1 {
			mono[i], mono[j] = mono[j], mono[i]
		}
	}
	return factorStr(opN(op, 2), fs, mono, how)
}

// factorStr is the text of a term without its sign
func factorStr(lapPow int, coefs, mono []string, how int) string {
	lap := ""
	sep := " "
	if how&8 != 0 {
		sep = "*"
	}
	one := func(l int, sep string) string {
		if l == 1 {
			return "LAP" + sep
		}
		return fmt.Sprintf("LAP^%d%s", l, sep)
	}
	switch {
	case lapPow == 1:
		lap = one(1, sep)
	case lapPow > 1 && how&128 != 0: // operators in a row
		lap = one(lapPow-1, " ") + one(1, sep)
	case lapPow > 1:
		lap = one(lapPow, sep)
	}
	star := "*"
	if how&4 != 0 {
		star = " * "
	}
	var parts []string
	switch {
	case len(mono) == 0:
		parts = coefs
	case how&256 != 0 && len(coefs) > 0:
		parts = append(parts, lap+coefs[0])
		parts = append(parts, coefs[1:]...)
		parts = append(parts, mono...)
	case how&32 != 0 && len(mono) > 1:
		parts = append(parts, lap+mono[0])
		parts = append(parts, coefs...)
		parts = append(parts, mono[1:]...)
	case how&2 != 0:
		parts = append(parts, lap+strings.Join(mono, star))
		parts = append(parts, coefs...)
	default:
		parts = append(coefs, lap+strings.Join(mono, star))
	}
	return strings.Join(parts, star)
}

// userLaps are the ways in which Laplacians are written in front of user terms
var userLaps = []struct {
	text string
	pow  int
}{{"", 0}, {"LAP ", 1}, {"LAP*", 1}, {"LAP^2 ", 2}, {"LAP^4 ", 4}, {"LAP LAP ", 2}, {"LAP^2 LAP ", 3}, {"LAP^2*", 2}}

func userLap(op Op) (string, int) {
	l := userLaps[opN(op, 5)%len(userLaps)]
	return l.text, l.pow
}

// funcStr is the text of a term that consists of coefficients and a function
func funcStr(op Op, name string, scalars []string) string {
	how := opN(op, 10) &^ 32
	lap := 0
	if op.K == "lapfunc" {
		lap = 1 + opN(op, 5)%3
	}
	var coefs []string
	if x := opN(op, 7); x > 0 {
		coefs = append(coefs, powStr(scalars[(x-1)%len(scalars)], scalPow(op, 0), how&16 != 0))
	}
	return factorStr(lap, coefs, []string{name}, how)
}

func signStr(op Op, first bool) string {
	how := opN(op, 10)
	if how&64 != 0 && how&12 == 12 { // three signs
		switch {
		case opN(op, 1) < 0 && first:
			return "-+ "
		case opN(op, 1) < 0:
			return " - - -"
		case first:
			return "--"
		}
		return " - + -"
	}
	if opN(op, 1) < 0 {
		if first {
			return "-"
		}
		if how&64 != 0 {
			return " + -"
		}
		if how&4 != 0 {
			return "-"
		}
		return " - "
	}
	if first {
		return ""
	}
	if how&64 != 0 {
		return " - -"
	}
	return " + "
}

func initField(prog *ProcProg, num, f, i int) float64 {
	if prog.opt("uniform", 0) == 1 {
		return 0.25 + 0.125*float64(f)
	}
	if prog.opt("shift", 0) == 1 {
		return 0.8*math.Abs(uniq(0, uint64(prog.opt("init", 0)), uint64(f), uint64(i), 5)) - 0.5
	}
	return 0.1 + 0.8*math.Abs(uniq(0, uint64(prog.opt("init", 0)), uint64(f), uint64(i), 5))/1.0
}

// build makes the model of a calculation. data (if not nil) replaces the initial fields
func build(prog *ProcProg, tap func(kind, id string, t float64, b map[string]pf.Brick), data [][]float64) *built {
	n := pfutil.ProdInt(prog.Dom)
	fields := prog.S
	b := &built{dt: dts[prog.opt("dt", 0)%len(dts)], step: steppers[prog.opt("stepper", 0)%len(steppers)]}
	m := pf.NewModel()
	b.m = &m
	for f, name := range fields {
		c := make([]complex128, n)
		for i := range c {
			v := initField(prog, 0, f, i)
			if data != nil {
				v = data[f][i]
			}
			c[i] = complex(v, 0)
		}
		m.AddField(pf.NewField(name, n, c))
	}
	var scalars []string
	add := func(name string, v float64) {
		m.AddScalar(pf.NewScalar(name, complex(v, 0)))
		scalars = append(scalars, name)
	}
	for _, op := range prog.Ops {
		if op.K == "scal" {
			add(op.S[0], fldVal(op.U[0]))
		}
	}
	m.AddScalar(pf.NewScalar("ZERO", 0))
	if len(scalars) == 0 {
		scalars = []string{"ZERO"}
	}
	eqs := make([]string, len(fields))
	put := func(eq int, op Op, t string) {
		eq %= len(eqs)
		eqs[eq] += signStr(op, eqs[eq] == "") + t
	}
	var sources []func()
	for k, op := range prog.Ops {
		eq := opN(op, 0) % len(fields)
		name := fmt.Sprintf("USER%c%d", 'A'+byte(k%26), k)
		c := 0.5
		if len(op.U) > 0 {
			c = fldVal(op.U[0])
		}
		pb := probe{name: name, c: c, tap: tap}
		lapText, _ := userLap(op)
		if opN(op, 6) == 1 {
			pb.field = fields[0]
		}
		if opN(op, 8) == 1 {
			pb.dim = len(prog.Dom)
		}
		switch op.K {
		case "t":
			put(eq, op, termStr(op, fields, scalars))
		case "pimp":
			q := &probeImp{pb}
			m.RegisterImplicitTerm(name, q, nil)
			put(eq, op, lapText+name)
			b.probes = append(b.probes, name)
		case "pexp":
			q := &probeExp{pb}
			m.RegisterExplicitTerm(name, q, nil)
			put(eq, op, lapText+name)
			b.probes = append(b.probes, name)
		case "pmix":
			q := &probeMix{pb}
			m.RegisterMixedTerm(name, q, nil)
			put(eq, op, lapText+name)
			b.probes = append(b.probes, name)
		case "func", "lapfunc":
			m.RegisterFunction(name, userFunc(opN(op, 2), c, fields))
			put(eq, op, funcStr(op, name, scalars))
		case "white":
			wn := pf.WhiteNoise{Strength: c}
			m.RegisterFunction(name, wn.Generate)
			put(eq, op, name)
			b.noise = true
		case "cons":
			cn := pf.NewConservativeNoise(c, len(prog.Dom))
			m.RegisterExplicitTerm(name, &cn, cn.RequiredDerivedFields(n))
			put(eq, op, name)
			b.noise = true
		case "vol":
			ind := "IND" + name
			m.RegisterFunction(ind, func(i int, br map[string]pf.Brick) complex128 {
				return complex(volIndicator(prog, real(br[fields[eq]].Get(i))), 0)
			})
			v := pf.NewVolumeConservingLP(fields[eq], ind, b.dt, n)
			m.RegisterExplicitTerm(name, &v, nil)
			put(eq, op, name)
		case "gsq":
			g := pf.SquaredGradient{Field: fields[opN(op, 2)%len(fields)], Factor: c, FT: pfutil.NewFFTW(append([]int(nil), prog.Dom...))}
			m.RegisterExplicitTerm(name, &g, nil)
			put(eq, op, name)
		case "visc":
			sv := pf.SpectralViscosity{Eps: c, DissipationThreshold: viscM(op), Power: viscP(op)}
			m.RegisterImplicitTerm(name, &sv, nil)
			put(eq, op, name)
		case "hess":
			th := pf.TensorialHessian{Field: fields[eq], K: hessK(op, len(prog.Dom))}
			m.RegisterImplicitTerm(name, &th, nil)
			put(eq, op, lapText+name)
		case "wlap", "divgrad", "advec", "charge", "pairc", "pairx", "ideal", "idealf", "nvp", "gsq2", "elast":
			b.builtin(op, name, lapText, prog, eq, put, scalars)
		case "src":
			pos := make([]float64, len(prog.Dom))
			for d := range pos {
				pos[d] = srcPos(op, prog.Dom, d)
			}
			op := op
			sources = append(sources, func() {
				m.AddSource(m.EqNumber(fields[eq]), pf.NewSource(pos, func(t float64) float64 {
					tap("eval", name, t, nil)
					return probeForce(fldVal(op.U[0]), t)
				}))
			})
		case "mod":
			sources = append(sources, func() {
				m.RegisterRHSModifier(m.EqNumber(fields[eq]), func(d []complex128) {
					for i := range d {
						d[i] *= complex(c, 0)
					}
				})
			})
		}
	}
	for k := range fields {
		f := (k + prog.opt("eqorder", 0)) % len(fields) // the order of the equations is the user's choice
		if eqs[f] == "" {
			eqs[f] = "ZERO*" + fields[f]
		}
		m.AddEquation(fmt.Sprintf("d%s/dt = %s", fields[f], eqs[f]))
	}
	for _, fn := range sources {
		fn()
	}
	dom := append([]int(nil), prog.Dom...)
	b.s = pf.NewSolver(&m, dom, b.dt)
	switch b.step {
	case "euler", "rk4":
		if prog.opt("default", 0) == 0 || b.step == "rk4" {
			b.s.SetStepper(b.step)
		}
		if prog.opt("filter", 0) > 0 {
			v := pf.NewVandeven(prog.opt("filter", 0))
			b.s.Stepper.SetFilter(&v)
		} else if c := prog.opt("cfilter", 0); c > 0 {
			b.s.Stepper.SetFilter(&userFilter{c})
		}
	case "implicit":
		b.s.Stepper = &pf.ImplicitEuler{Dt: b.dt, FT: pfutil.NewFFTW(dom)}
	case "sdd":
		sdd := pf.NewSDD(dom, &m)
		sdd.Dt = b.dt
		d := newDimer(prog)
		if prog.opt("sdd", 0) > 0 {
			sdd.Alpha, sdd.TimeConstants, sdd.MinDimerLength = d.alpha, pf.SDDTimeConstants{Orientation: d.tor, DimerLength: d.tlen}, d.min
		}
		if prog.opt("sddused", 0) == 1 { // it had another dimer before
			old := make([]float64, len(d.given))
			for i := range old {
				old[i] = 2 + float64(i%5)
			}
			sdd.SetInitialOrientation(old)
		}
		if prog.opt("sdd", 0)%3 == 2 {
			i0, i1 := pf.NewField("a", n, nil), pf.NewField("b", n, nil)
			var from, to []pf.Field
			for f := range fields {
				i0, i1 = pf.NewField("a", n, nil), pf.NewField("b", n, nil)
				for i := range i0.Data {
					i0.Data[i] = complex(0.3*float64(i%3), 0)
					i1.Data[i] = i0.Data[i] + complex(d.given[f*n+i], 0)
				}
				from, to = append(from, i0), append(to, i1)
			}
			sdd.Init(from, to)
		} else {
			sdd.SetInitialOrientation(append([]float64(nil), d.given...))
		}
		if prog.opt("sdd", 0)%2 == 1 {
			sdd.InitDimerLength = d.l0
		}
		b.s.Stepper = &sdd
	}
	return b
}

// setSteps tells the stepper how many steps were done before (restart)
func (b *built) setSteps(n int) {
	switch st := b.s.Stepper.(type) {
	case *pf.Euler:
		st.CurrentStep = n
	case *pf.RK4:
		st.CurrentStep = n
	case *pf.ImplicitEuler:
		st.CurrentStep = n
	case *pf.SDD:
		st.CurrentStep = n
	}
}

// setScalar gives a coefficient another value
func (b *built) setScalar(op Op) {
	if op.K == "orient" {
		if d, ok := b.s.Stepper.(*pf.SDD); ok {
			d.SetInitialOrientation(orientOf(op, len(b.m.Fields)*b.m.NumNodes()))
		}
		return
	}
	if br, ok := b.m.Bricks[op.S[0]].(interface{ SetFloat(float64) }); ok {
		br.SetFloat(fldVal(op.U[0]))
	}
}

// scalChanges are the changes of coefficients before each step
func scalChanges(prog *ProcProg) map[int][]Op {
	out := map[int][]Op{}
	known := map[string]bool{}
	k := 0
	for _, op := range prog.Ops {
		switch op.K {
		case "scal":
			known[op.S[0]] = true
		case "solve":
			k += opN(op, 0) * opN(op, 1)
		case "prop":
			k += opN(op, 0)
		case "setscal":
			if known[op.S[0]] {
				out[k] = append(out[k], op)
			}
		case "orient":
			out[k] = append(out[k], op)
		}
	}
	return out
}

func (b *built) state() [][]complex128 {
	var out [][]complex128
	for _, f := range b.m.Fields {
		out = append(out, append([]complex128(nil), f.Data...))
	}
	return out
}

func hashState(st [][]complex128) uint64 {
	h := uint64(99)
	for _, f := range st {
		for _, v := range f {
			h = mix(h, bitsOf(real(v)), bitsOf(imag(v)))
		}
	}
	return h
}

func bitsOf(v float64) uint64 {
	if v != v {
		return 0x7ff8000000000001
	}
	return math.Float64bits(v)
}

func hashBricks(b map[string]pf.Brick, names []string, n int) uint64 {
	h := uint64(99)
	for _, f := range names {
		br := b[f]
		for i := 0; i < n; i++ {
			v := br.Get(i)
			h = mix(h, bitsOf(real(v)), bitsOf(imag(v)))
		}
	}
	return h
}

// ---- execution --------------------------------------------------------------

func (r *srun) tap(kind, id string, t float64, b map[string]pf.Brick) {
	if !r.ready {
		return
	}
	s := theSim
	e := sev{kind: kind, id: id, t: t, op: r.p.curOp}
	if b != nil {
		e.hash = hashBricks(b, r.prog.S, pfutil.ProdInt(r.prog.Dom))
	}
	r.log = append(r.log, e)
	if kind != "eval" && s.active {
		if f := s.hit(kind); f != nil && f.Kind == "panic" {
			panic(fmt.Sprintf("%s %s panics", kind, id))
		}
	}
}

func solverExec(s *Sim) interface{} {
	w := &solverWorld{sim: s, seen: map[string]bool{}}
	n := 0
	leader := map[int]*ProcProg{}
	for _, ph := range s.plan.Program.Phases {
		for i := range ph {
			prog := &ph[i]
			if id := prog.opt("ckpt", 0); id > 0 && len(prog.Ops) > 0 {
				// all runs of a chain do the same calculation
				if leader[id] == nil {
					leader[id] = prog
				} else {
					c := *prog
					c.Ops = leader[id].Ops
					prog = &c
				}
			}
			r := &srun{prog: prog, num: n}
			r.p = s.spawn(fmt.Sprintf("%s%d", prog.Kind, n), func(p *Proc) { w.process(r) })
			w.runs = append(w.runs, r)
			n++
		}
		s.run()
		if s.overrun {
			break
		}
	}
	return w
}

func isModelOp(k string) bool {
	switch k {
	case "solve", "prop", "cb", "mon", "json", "epoch", "setscal", "orient":
		return false
	}
	return true
}

func ckptName(prog *ProcProg) string { return fmt.Sprintf("ck%d", prog.opt("ckpt", 0)) }

func (w *solverWorld) process(r *srun) {
	s := w.sim
	p := r.p
	prog := r.prog
	if len(prog.Ops) == 0 {
		return
	}
	if prog.Kind == "refuse" {
		w.refuse(r)
		return
	}
	var data [][]float64
	total := 0 // epochs to go for restartable calculations
	if prog.opt("ckpt", 0) > 0 {
		total = prog.opt("epochs", 1)
		if prog.opt("restart", 0) == 1 {
			s.op(p, 9000, "look for the last checkpoint", func() { data, r.first = lastCheckpoint(prog, total) })
		}
		r.start = r.first * prog.opt("nsteps", 1)
	}
	r.b = build(prog, r.tap, data)
	r.b.setSteps(r.start)
	sv := r.b.s
	sv.StartEpoch = prog.opt("start", 0) + r.first
	r.start0 = sv.StartEpoch
	r.ready = true
	addCB := func() {
		id := r.cbs
		r.cbs++
		sv.AddCallback(func(q *pf.Solver, epoch int) { w.callback(r, id, q, epoch) })
	}
	addMon := func(op Op) {
		f := prog.S[opN(op, 0)%len(prog.S)]
		m := &monSpy{run: r, id: len(r.mons), field: f, site: opN(op, 1) % pfutil.ProdInt(prog.Dom)}
		pm := pf.NewPointMonitor(m.site, f)
		if opN(op, 3) == 1 { // it has monitored another calculation before
			other := pf.NewModel()
			of := pf.NewField(f, pfutil.ProdInt(prog.Dom), nil)
			for i := range of.Data {
				of.Data[i] = 77
			}
			other.AddField(of)
			pm.Add(other.Bricks)
			pm.Data = pm.Data[:0]
		}
		m.inner = &pm
		r.mons = append(r.mons, m)
		if opN(op, 2) == 1 {
			sv.AddMonitor(m.inner)
		} else {
			sv.AddMonitor(m)
		}
	}
	if total > 0 {
		addCB()
		io := pf.NewFloat64IO(ckptName(prog))
		sv.AddCallback(io.SaveFields)
		if r.first < total {
			w.call(r, 0, "solve", total-r.first, prog.opt("nsteps", 1))
		}
		w.finish(r)
		return
	}
	for idx, op := range prog.Ops {
		switch op.K {
		case "cb":
			addCB()
		case "mon":
			addMon(op)
		case "solve":
			w.call(r, idx, "solve", opN(op, 0), opN(op, 1))
		case "prop":
			w.call(r, idx, "prop", 1, opN(op, 0))
		case "epoch":
			sv.StartEpoch = opN(op, 0)
			r.start0 = opN(op, 0)
		case "setscal", "orient":
			r.b.setScalar(op)
		case "json":
			s.op(p, idx, "JSONifyMonitors", func() {
				j := jsonRec{op: idx}
				for _, m := range r.mons {
					j.want = append(j.want, pmon{append([]float64{}, m.inner.Data...), m.inner.Site, m.inner.Field, m.inner.Name})
				}
				j.out = string(sv.JSONifyMonitors())
				r.jsons = append(r.jsons, j)
			})
		default:
			continue
		}
		s.hit("between")
	}
	w.finish(r)
}

// refuse gives gopf an equation that has no meaning. User terms and functions:
// FUNC, IMP, EXP, MIX; coefficients D, E.
func (w *solverWorld) refuse(r *srun) {
	prog := r.prog
	n := pfutil.ProdInt(prog.Dom)
	w.sim.op(r.p, 0, "use the equation "+prog.Ops[0].S[0], func() {
		m := pf.NewModel()
		for f, name := range prog.S {
			fld := pf.NewField(name, n, nil)
			for i := range fld.Data {
				fld.Data[i] = complex(initField(prog, 0, f, i), 0)
			}
			m.AddField(fld)
		}
		m.AddScalar(pf.NewScalar("D", 0.25))
		m.AddScalar(pf.NewScalar("E", 0.5))
		m.RegisterFunction("FUNC", userFunc(0, 0.5, prog.S))
		tap := func(kind, id string, t float64, b map[string]pf.Brick) {}
		m.RegisterImplicitTerm("IMP", &probeImp{probe{name: "IMP", c: 0.5, tap: tap}}, nil)
		m.RegisterExplicitTerm("EXP", &probeExp{probe{name: "EXP", c: 0.5, tap: tap}}, nil)
		m.RegisterMixedTerm("MIX", &probeMix{probe{name: "MIX", c: 0.5, tap: tap}}, nil)
		m.AddEquation(prog.Ops[0].S[0])
		for _, name := range prog.S[1:] {
			m.AddEquation("d" + name + "/dt = D*LAP " + name)
		}
		sv := pf.NewSolver(&m, append([]int(nil), prog.Dom...), 0.01)
		sv.SetStepper([]string{"euler", "rk4"}[prog.opt("stepper", 0)%2])
		sv.Solve(1, 1)
	})
	r.done = true
}

func (w *solverWorld) finish(r *srun) {
	r.final = r.b.state()
	r.gt = r.b.s.Stepper.GetTime()
	if d, ok := r.b.s.Stepper.(*pf.SDD); ok && w.sim.plan.Property == "C22" {
		w.sim.quietly(func() {
			name := fmt.Sprintf("orient_%d_%d.csv", r.num, r.p.id)
			d.SaveOrientation(name)
			r.orient = readOrient(name, len(r.prog.S))
		})
	}
	r.done = true
}

func (w *solverWorld) call(r *srun, idx int, kind string, ne, ns int) {
	sv := r.b.s
	c := scall{op: idx, kind: kind, ne: ne, ns: ns, epoch0: r.start0, cbs: len(sv.Callbacks), mons: len(sv.Monitors), logAt: len(r.log), end: -1}
	r.calls = append(r.calls, c)
	w.sim.op(r.p, idx, fmt.Sprintf("%s(%d,%d)", kind, ne, ns), func() {
		if kind == "prop" {
			sv.Propagate(ns)
		} else {
			sv.Solve(ne, ns)
		}
	})
	r.calls[len(r.calls)-1].end = len(r.log)
}

func (w *solverWorld) callback(r *srun, id int, q *pf.Solver, epoch int) {
	e := sev{kind: "cb", id: fmt.Sprint(id), epoch: epoch, op: r.p.curOp, gtime: q.Stepper.GetTime()}
	e.hash = hashState(r.b.state())
	if d, ok := r.b.s.Stepper.(*pf.SDD); ok {
		e.step, e.mon = d.CurrentStep, d.Monitor
	}
	k := len(r.log)
	r.log = append(r.log, e)
	w.sim.note(r.p.id, "cb", uint64(epoch), e.hash)
	if w.sim.plan.Property == "C20" {
		w.checkReports(r)
	}
	if q != r.b.s {
		r.fail = "a callback got another solver"
	}
	if f := w.sim.hit("cb"); f != nil && f.Kind == "panic" {
		panic(fmt.Sprintf("callback %d panics in epoch %d", id, epoch))
	}
	r.log[k].ok = true
}

// lastCheckpoint is what a user does after a crash: the newest epoch of which all
// files can be loaded and are complete
func lastCheckpoint(prog *ProcProg, total int) ([][]float64, int) {
	n := pfutil.ProdInt(prog.Dom)
	for e := prog.opt("start", 0) + total - 1; e >= prog.opt("start", 0); e-- {
		var data [][]float64
		for _, f := range prog.S {
			name := fmt.Sprintf("%s_%s_%d.bin", ckptName(prog), f, e)
			if d := tryLoad(name); len(d) == n {
				data = append(data, d)
			}
		}
		if len(data) == len(prog.S) {
			return data, e + 1 - prog.opt("start", 0)
		}
	}
	return nil, 0
}

func tryLoad(name string) (d []float64) {
	defer func() {
		if recover() != nil {
			d = nil
		}
	}()
	if !fileThere(name) {
		return nil
	}
	return pf.LoadFloat64(name)
}

// ---- reference executions ---------------------------------------------------

// refStates: the states of an undisturbed execution of the same calculation, alone,
// stepped one by one
func (w *solverWorld) refStates(prog *ProcProg, num, steps int, mapSeed uint64) (st [][][]complex128, err string) {
	return w.refNear(prog, num, steps, mapSeed, 0)
}

// refNear is like refStates, but disturbs the fields by a small relative amount before each
// step. It shows how fast rounding errors may grow.
func (w *solverWorld) refNear(prog *ProcProg, num, steps int, mapSeed uint64, eps float64) (st [][][]complex128, err string) {
	s := w.sim
	s.refRnd = rand.New(rand.NewSource(procSeed(s.plan.Seed, num)))
	defer func() {
		s.refRnd = nil
		runtime.SimMapOff()
		if r := recover(); r != nil {
			err = fmt.Sprint(r)
		}
	}()
	runtime.SimMapSeed(mapSeed)
	b := build(prog, func(kind, id string, t float64, br map[string]pf.Brick) {}, nil)
	st = append(st, b.state())
	changes := scalChanges(prog)
	for k := 0; k < steps; k++ {
		for _, op := range changes[k] {
			b.setScalar(op)
		}
		if eps > 0 {
			for f := range b.m.Fields {
				d := b.m.Fields[f].Data
				for i := range d {
					d[i] += complex(eps*(uniq(0, uint64(k), uint64(f), uint64(i), 31)-0.5), eps*(uniq(0, uint64(k), uint64(f), uint64(i), 32)-0.5))
				}
			}
		}
		b.s.Stepper.Step(b.m)
		t := b.s.Stepper.GetTime()
		for _, n := range sortedKeys(b.m.ImplicitTerms) {
			b.m.ImplicitTerms[n].OnStepFinished(t, b.m.Bricks)
		}
		for _, n := range sortedKeys(b.m.ExplicitTerms) {
			b.m.ExplicitTerms[n].OnStepFinished(t, b.m.Bricks)
		}
		for _, n := range sortedKeys(b.m.MixedTerms) {
			b.m.MixedTerms[n].OnStepFinished(t, b.m.Bricks)
		}
		st = append(st, b.state())
	}
	return st, ""
}

func same(a, b [][]complex128) bool { return hashState(a) == hashState(b) }

func maxDiff(a, b [][]complex128) (d, scale float64) {
	for f := range a {
		for i := range a[f] {
			x := math.Hypot(real(a[f][i])-real(b[f][i]), imag(a[f][i])-imag(b[f][i]))
			if x != x {
				x = math.Inf(1)
			}
			d = math.Max(d, x)
			scale = math.Max(scale, math.Abs(real(b[f][i])))
		}
	}
	return
}

// srcPos is the position of a source, which need not be at a node
func srcPos(op Op, dom []int, d int) float64 {
	return float64(opN(op, 2+d)%dom[d]) + []float64{0, 0.5, 0.3, -0.75, float64(dom[d])}[(opN(op, 5)>>(3*d))&7%5]
}
