package main

import (
	"math"
	"math/cmplx"
	"strings"
	"sync"

	"github.com/davidkleiven/gopf/pfutil"
)

// An independent implementation of the documented schemes (Euler, RK4) for the
// equations as they are written, with a plain O(n^2) Fourier transform. It shares
// no code with gopf.

type userFilter struct{ kind int }

func (f *userFilter) Eval(x float64) float64 {
	switch f.kind {
	case 1:
		return 0.93
	case 2:
		return 1 / (1 + x)
	}
	if x > 0.4 {
		return 0.25
	}
	return 1 - x*x
}

// vandeven is the filter 1 - I_x(p, p) with the regularised incomplete beta function
func vandeven(p int, x float64) float64 {
	if x >= 1 {
		return 0
	}
	sum := 0.0
	for j := p; j <= 2*p-1; j++ {
		sum += math.Gamma(float64(2*p)) / math.Gamma(float64(j+1)) / math.Gamma(float64(2*p-j)) * math.Pow(x, float64(j)) * math.Pow(1-x, float64(2*p-1-j))
	}
	return 1 - sum
}

var waves sync.Map

// dftTab holds exp(-2 pi i k.x) for all modes and nodes
type dftTab struct {
	n    int
	w    []complex128
	freq [][3]float64
}

func tabOf(dom []int) *dftTab {
	key := dom3(dom)
	if len(dom) == 2 {
		key[2] = 0
	}
	if t, ok := waves.Load(key); ok {
		return t.(*dftTab)
	}
	n := pfutil.ProdInt(dom)
	t := &dftTab{n: n, w: make([]complex128, n*n)}
	pos := make([][3]int64, n)
	for i := range pos {
		pos[i] = posOf(dom, i)
	}
	for k := 0; k < n; k++ {
		t.freq = append(t.freq, freqOf(dom, k))
		for i := 0; i < n; i++ {
			ph := 0.0
			for d := range dom {
				ph += float64(pos[k][d]*pos[i][d]%int64(dom[d])) / float64(dom[d])
			}
			si, co := math.Sincos(-2 * math.Pi * ph)
			t.w[k*n+i] = complex(co, si)
		}
	}
	waves.Store(key, t)
	return t
}

func (t *dftTab) fwd(f []complex128) []complex128 {
	out := make([]complex128, t.n)
	for k := range out {
		var s complex128
		row := t.w[k*t.n : (k+1)*t.n]
		for i, v := range f {
			s += v * row[i]
		}
		out[k] = s
	}
	return out
}

func (t *dftTab) inv(f []complex128) []complex128 {
	out := make([]complex128, t.n)
	for i := range out {
		var s complex128
		for k, v := range f {
			s += v * cmplx.Conj(t.w[k*t.n+i])
		}
		out[i] = s / complex(float64(t.n), 0)
	}
	return out
}

func (t *dftTab) k2(k int) float64 {
	f := t.freq[k]
	return -4 * math.Pi * math.Pi * (f[0]*f[0] + f[1]*f[1] + f[2]*f[2])
}

type schemeRef struct {
	prog    *ProcProg
	tab     *dftTab
	scalars map[string]float64
	names   []string
	dt      float64
	minDen  float64
	expl    bool // linear terms of fields whose names contain others are explicit
	y0      [][]complex128
	vol     map[int]*volRef // volume conserving terms
}

// volRef is the state of a volume conserving term
type volRef struct {
	mult, last float64
	updated    bool
}

func volIndicator(prog *ProcProg, x float64) float64 {
	if prog.opt("volneg", 0) == 1 {
		return -0.1 - x*x
	}
	return 0.1 + x*x
}

// finished is called after every step from y to z
func (s *schemeRef) finished(y, z [][]complex128) {
	for k, op := range s.prog.Ops {
		if op.K != "vol" {
			continue
		}
		v := s.vol[k]
		if v == nil {
			v = &volRef{}
			s.vol[k] = v
		}
		f := opN(op, 0) % len(y)
		sum, ind := 0.0, 0.0
		for i := range z[f] {
			sum += real(z[f][i])
			ind += volIndicator(s.prog, real(y[f][i]))
		}
		if v.updated {
			v.mult -= (sum - v.last) / (s.dt * ind)
		}
		v.last, v.updated = sum, true
	}
}

func newSchemeRef(prog *ProcProg) *schemeRef {
	s := &schemeRef{prog: prog, tab: tabOf(prog.Dom), scalars: map[string]float64{}, minDen: math.Inf(1), vol: map[int]*volRef{}}
	s.dt = dts[prog.opt("dt", 0)%len(dts)]
	for _, op := range prog.Ops {
		if op.K == "scal" {
			s.names = append(s.names, op.S[0])
			s.scalars[op.S[0]] = fldVal(op.U[0])
		}
	}
	if len(s.names) == 0 {
		s.names = []string{"ZERO"}
	}
	return s
}

func opC(op Op) float64 {
	if len(op.U) > 0 {
		return fldVal(op.U[0])
	}
	return 0.5
}

func opSign(op Op) float64 {
	if opN(op, 1) < 0 {
		return -1
	}
	return 1
}

// plain is a plain term: its coefficient, the exponents of the fields and whether it
// is linear in the field of its own equation (and thus implicit)
func (s *schemeRef) plain(op Op) (coef float64, exps []int, implicit bool) {
	coef = opSign(op)
	last := ""
	for j := 3; j <= 4; j++ {
		if x := opN(op, j); x > 0 {
			n := s.names[(x-1)%len(s.names)]
			if n != last {
				coef *= math.Pow(s.scalars[n], scalPow(op, j-3))
			}
			last = n
		}
	}
	nf := len(s.prog.S)
	exps = make([]int, nf)
	sum := 0
	for f := range exps {
		exps[f] = opN(op, 5+f)
		sum += exps[f]
	}
	eq := opN(op, 0) % nf
	return coef, exps, sum == 1 && exps[eq] == 1 && !(s.expl && s.contains(eq))
}

// contains: the name of the field contains that of another one. gopf treats the
// linear terms of such a field explicitly, which is as good.
func (s *schemeRef) contains(f int) bool {
	for q, n := range s.prog.S {
		if q != f && strings.Contains(s.prog.S[f], n) {
			return true
		}
	}
	return false
}

// linear is A of dy/dt = A*y + N(y)
func (s *schemeRef) linear(f int) []complex128 {
	out := make([]complex128, s.tab.n)
	for _, op := range s.prog.Ops {
		if opN(op, 0)%len(s.prog.S) != f {
			continue
		}
		for k := range out {
			v := 0.0
			switch op.K {
			case "t":
				c, _, imp := s.plain(op)
				if imp {
					v = c * math.Pow(s.tab.k2(k), float64(opN(op, 2)))
				}
			case "pimp", "pmix":
				_, l := userLap(op)
				v = -opC(op) * opSign(op) * math.Pow(s.tab.k2(k), float64(l))
				if opN(op, 8) == 1 {
					x := 1.0
					for d := range s.prog.Dom {
						x += 0.3 * float64(d+1) * math.Pow(math.Sin(math.Pi*s.tab.freq[k][d]), 2)
					}
					v *= x
				}
			case "hess", "pairc", "ideal", "visc":
				_, l := userLap(op)
				if op.K == "visc" {
					l = 0
				}
				v = s.refLinear(op, k) * opSign(op) * math.Pow(s.tab.k2(k), float64(l))
			}
			out[k] += complex(v, 0)
		}
	}
	return out
}

// nonlin is the Fourier transform of N(t, y)
func (s *schemeRef) nonlin(f int, y [][]complex128, t float64) []complex128 {
	n := s.tab.n
	sum := make([]complex128, n)
	nf := len(s.prog.S)
	add := func(g []complex128, lap int, c float64) {
		for k, v := range s.tab.fwd(g) {
			sum[k] += complex(c*math.Pow(s.tab.k2(k), float64(lap)), 0) * v
		}
	}
	mod := 1.0
	for num, op := range s.prog.Ops {
		if opN(op, 0)%nf != f {
			continue
		}
		c, sg := opC(op), opSign(op)
		g := make([]complex128, n)
		switch op.K {
		case "t":
			coef, exps, imp := s.plain(op)
			if imp {
				continue
			}
			for i := range g {
				g[i] = 1
				for q, e := range exps {
					if e >= 10 {
						// close to the branch cut rounding errors grow
						if real(y[q][i]) < 0.02 {
							s.minDen = 0
						}
						g[i] *= cmplx.Pow(y[q][i], complex(fieldPow(e), 0))
						continue
					}
					for ; e > 0; e-- {
						g[i] *= y[q][i]
					}
				}
			}
			add(g, opN(op, 2), coef)
		case "func", "lapfunc":
			for i := range g {
				g[i] = complex(userFuncVal(opN(op, 2), c, real(y[0][i]), real(y[nf-1][i])), 0)
			}
			l := 0
			if op.K == "lapfunc" {
				l = 1 + opN(op, 5)%3
			}
			if x := opN(op, 7); x > 0 {
				sg *= math.Pow(s.scalars[s.names[(x-1)%len(s.names)]], scalPow(op, 0))
			}
			add(g, l, sg)
		case "pexp", "pmix":
			for i := range g {
				g[i] = complex(probeForce(c, t), 0)
				if opN(op, 6) == 1 {
					g[i] *= y[0][i]
				}
			}
			_, l := userLap(op)
			add(g, l, sg)
		case "src":
			// delta function at the position, by the modes of the grid. The Nyquist
			// frequency stands for both signs.
			v := probeForce(c, t)
			for k := range sum {
				a := complex(v, 0)
				for d := range s.prog.Dom {
					x := srcPos(op, s.prog.Dom, d)
					if f := s.tab.freq[k][d]; math.Abs(math.Abs(f)-0.5) < 1e-9 {
						a *= complex(math.Cos(math.Pi*x), 0)
					} else {
						a *= cmplx.Exp(complex(0, -2*math.Pi*f*x))
					}
				}
				sum[k] += a
			}
		case "wlap", "divgrad", "advec", "charge", "pairx", "ideal", "gsq", "gsq2", "elast":
			_, l := userLap(op)
			if op.K == "gsq" {
				l = 0
			}
			for k, v := range s.refNonlin(op, y, s.y0) {
				sum[k] += complex(sg*math.Pow(s.tab.k2(k), float64(l)), 0) * v
			}
		case "idealf", "nvp":
			if x := opN(op, 7); x > 0 {
				sg *= math.Pow(s.scalars[s.names[(x-1)%len(s.names)]], scalPow(op, 0))
			}
			for k, v := range s.refNonlin(op, y, s.y0) {
				sum[k] += complex(sg, 0) * v
			}
		case "vol":
			if v := s.vol[num]; v != nil {
				for i := range g {
					g[i] = complex(v.mult*volIndicator(s.prog, real(y[f][i])), 0)
				}
				add(g, 0, sg)
			}
		case "mod":
			mod *= c
		}
	}
	for k := range sum {
		sum[k] *= complex(mod, 0)
	}
	return sum
}

// step makes one step from time t
func (s *schemeRef) step(y [][]complex128, t float64) [][]complex128 {
	nf := len(y)
	n := s.tab.n
	s.y0 = y
	y0 := make([][]complex128, nf)
	lin := make([][]complex128, nf)
	for f := range y {
		y0[f] = s.tab.fwd(y[f])
		lin[f] = s.linear(f)
		for _, a := range lin[f] {
			s.minDen = math.Min(s.minDen, math.Min(cmplx.Abs(1-complex(s.dt, 0)*a), cmplx.Abs(1-complex(s.dt/2, 0)*a)))
		}
	}
	out := make([][]complex128, nf)
	all := func(at [][]complex128, tt float64) [][]complex128 {
		k := make([][]complex128, nf)
		for f := range k {
			k[f] = s.nonlin(f, at, tt)
		}
		return k
	}
	inner := func(k [][]complex128, h float64) [][]complex128 {
		at := make([][]complex128, nf)
		for f := range at {
			v := make([]complex128, n)
			for i := range v {
				v[i] = (y0[f][i] + complex(h, 0)*k[f][i]) / (1 - complex(h, 0)*lin[f][i])
			}
			at[f] = s.tab.inv(v)
		}
		return at
	}
	k1 := all(y, t)
	sum := k1
	if steppers[s.prog.opt("stepper", 0)%len(steppers)] == "rk4" {
		k2 := all(inner(k1, s.dt/2), t+s.dt/2)
		k3 := all(inner(k2, s.dt/2), t+s.dt/2)
		k4 := all(inner(k3, s.dt), t+s.dt)
		for f := range sum {
			for i := range sum[f] {
				sum[f][i] = (k1[f][i] + 2*k2[f][i] + 2*k3[f][i] + k4[f][i]) / 6
			}
		}
	}
	fl := make([]complex128, n)
	for i := range fl {
		x := math.Sqrt(-s.tab.k2(i)) / math.Pi / math.Pi
		switch c, o := s.prog.opt("cfilter", 0), s.prog.opt("filter", 0); {
		case o > 0:
			fl[i] = complex(vandeven(o, x), 0)
		case c > 0:
			fl[i] = complex((&userFilter{c}).Eval(x), 0)
		default:
			fl[i] = 1
		}
	}
	for f := range out {
		v := make([]complex128, n)
		for i := range v {
			v[i] = fl[i] * (y0[f][i] + complex(s.dt, 0)*sum[f][i]) / (1 - complex(s.dt, 0)*lin[f][i])
		}
		out[f] = s.tab.inv(v)
	}
	return out
}

// schemeKnown: all parts of the calculation have a reference
func schemeKnown(prog *ProcProg) bool {
	if pfutil.ProdInt(prog.Dom) > 130 {
		return false
	}
	for _, op := range prog.Ops {
		switch op.K {
		case "scal", "t", "pimp", "pexp", "pmix", "func", "lapfunc", "gsq", "visc", "src", "mod", "hess", "wlap", "divgrad", "advec", "charge", "pairc", "pairx", "ideal", "idealf", "nvp", "gsq2", "elast":
		case "vol":
			if prog.opt("stepper", 0) != 0 {
				return false
			}
		default:
			if isModelOp(op.K) {
				return false
			}
		}
	}
	return true
}

// checkScheme: the calculation is the documented scheme applied to the equations
func (w *solverWorld) checkScheme(r *srun, name string, ref [][][]complex128) {
	if r.prog.opt("noise", 0) == 1 && r.start == 0 {
		w.checkNoise(r, name, ref)
		return
	}
	if !schemeKnown(r.prog) || r.start > 0 || len(ref) < 2 {
		return
	}
	s := newSchemeRef(r.prog)
	y := ref[0]
	for f := range y {
		for i, v := range y[f] {
			if real(v) != initField(r.prog, 0, f, i) || imag(v) != 0 {
				w.bad(w.sim.plan.Property, "initial", "%s: the initial value of %s at node %d is %v", name, r.prog.S[f], i, v)
				return
			}
		}
	}
	tol := 1e-8
	if r.prog.opt("filter", 0) > 0 {
		tol = 2e-6 // the filter is a table
	}
	if steppers[r.prog.opt("stepper", 0)%len(steppers)] == "implicit" {
		w.checkImplicit(r, name, s, ref)
		return
	}
	if steppers[r.prog.opt("stepper", 0)%len(steppers)] == "sdd" {
		w.checkDimer(r, name, s, ref)
		return
	}
	changes := scalChanges(r.prog)
	for k := 1; k < len(ref); k++ {
		for _, op := range changes[k-1] {
			s.scalars[op.S[0]] = fldVal(op.U[0])
		}
		// from the state the calculation really had: rounding errors do not pile up
		y = s.step(ref[k-1], float64(k-1)*s.dt)
		d, sc := maxDiff(y, ref[k])
		if !(d <= tol*(1+sc)) {
			s.expl = !s.expl
			y = s.step(ref[k-1], float64(k-1)*s.dt)
			d, sc = maxDiff(y, ref[k])
		}
		if s.minDen < 0.05 || !finite([][][]complex128{y}) || schemeScale(y) > 1e3 {
			w.sim.probe("scheme-unstable")
			return
		}
		if !(d <= tol*(1+sc)) && d <= 1e3*s.blur(ref[k-1], y, float64(k-1)*s.dt) {
			w.sim.probe("scheme-stiff") // rounding errors explain it
			return
		}
		if !(d <= tol*(1+sc)) {
			prop := "C19"
			if w.sim.plan.Property == "C20" {
				prop = "C20"
			}
			w.bad(prop, "scheme", "%s: after %d steps the fields differ by %g from the %s scheme", name, k, d, r.b.step)
			return
		}
		s.finished(ref[k-1], ref[k])
		w.sim.probe("scheme-checked")
	}
}

// blur is the change of the result z of the step from y at t when y changes by rounding errors
func (s *schemeRef) blur(y, z [][]complex128, t float64) float64 {
	near := make([][]complex128, len(y))
	for f := range y {
		near[f] = append([]complex128(nil), y[f]...)
		for i := range near[f] {
			near[f][i] *= complex(1+2e-15*(uniq(0, uint64(f), uint64(i), 41)-0.5), 0)
		}
	}
	min := s.minDen
	d, _ := maxDiff(s.step(near, t), z)
	s.minDen = min
	return d
}

func schemeScale(y [][]complex128) float64 {
	m := 0.0
	for _, f := range y {
		for _, v := range f {
			m = math.Max(m, cmplx.Abs(v))
		}
	}
	return m
}

// checkImplicit: the steps of implicit Euler solve the implicit equation, either the
// one of backward Euler or the one of the exponential integrator (linear terms exactly,
// the nonlinear ones linear in time between the two states)
func (w *solverWorld) checkImplicit(r *srun, name string, s *schemeRef, ref [][][]complex128) {
	if !r.done || strings.Contains(r.p.stderr.String(), "converge") {
		w.sim.probe("implicit-unsolved")
		return
	}
	changes := scalChanges(r.prog)
	for k := 1; k < len(ref); k++ {
		for _, op := range changes[k-1] {
			s.scalars[op.S[0]] = fldVal(op.U[0])
		}
		if !finite(ref[k:k+1]) || schemeScale(ref[k]) > 1e3 {
			w.sim.probe("scheme-unstable")
			return
		}
		best := math.Inf(1)
		_, sc := maxDiff(ref[k], ref[k])
		for v := 0; v < 8 && best > 1e-5*(1+sc); v++ {
			s.expl = v >= 4
			best = math.Min(best, s.residual(ref[k-1], ref[k], float64(k-1)*s.dt, float64(k-1+v%2)*s.dt, v%4 >= 2))
		}
		if !(best <= 1e-5*(1+sc)) {
			prop := "C19"
			if w.sim.plan.Property == "C20" {
				prop = "C20"
			}
			w.bad(prop, "scheme", "%s: after %d steps the fields do not solve the equation of the implicit step, the residual is %g", name, k, best)
			return
		}
		w.sim.probe("implicit-checked")
	}
}

func (s *schemeRef) residual(y0, y1 [][]complex128, t0, t1 float64, backward bool) float64 {
	res := 0.0
	h := complex(s.dt, 0)
	for f := range y0 {
		a, b := s.tab.fwd(y0[f]), s.tab.fwd(y1[f])
		lin := s.linear(f)
		n0, n1 := s.nonlin(f, y0, t0), s.nonlin(f, y1, t1)
		for i := range a {
			z := lin[i] * h
			if backward {
				b[i] -= a[i] + z*b[i] + h*n1[i]
				continue
			}
			p1, p2 := complex(1, 0), complex(0.5, 0)
			if cmplx.Abs(z) > 1e-4 {
				p1 = (cmplx.Exp(z) - 1) / z
				p2 = (p1 - 1) / z
			} else {
				p1 = 1 + z/2
				p2 = 0.5 + z/6
			}
			b[i] -= a[i]*cmplx.Exp(z) + h*(n0[i]*p1+(n1[i]-n0[i])*p2)
		}
		for _, v := range s.tab.inv(b) {
			res = math.Max(res, math.Abs(real(v)))
		}
	}
	return res
}
