package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
)

// The terms that gopf provides, and an independent reference for each of them.

// termWrap registers terms whose OnStepFinished has another signature
type termWrap struct {
	construct func(b map[string]pf.Brick) pf.Term
}

func (t *termWrap) Construct(b map[string]pf.Brick) pf.Term          { return t.construct(b) }
func (t *termWrap) OnStepFinished(tm float64, b map[string]pf.Brick) {}

// hessK is the tensor of a Hessian term, not always symmetric
func hessK(op Op, dim int) []float64 {
	c := opC(op)
	e := 0.02 * float64(opN(op, 2)%6)
	if dim == 3 {
		return []float64{c, 0.1, e, 0.1, 0.7 * c, 0.05, -e, 0.05 + e, 0.6 * c}
	}
	return []float64{c, 0.1, 0.1 - e, 0.7 * c}
}

func viscM(op Op) float64 { return []float64{0.23, 0.23, 0.107, 0.413, 0.617, 0.311}[opN(op, 2)%6] }
func viscP(op Op) int     { return []int{2, 2, 2, 1, 4, 2}[opN(op, 3)%6] }

func velocities(op Op, prog *ProcProg) []string {
	var v []string
	for d := range prog.Dom {
		v = append(v, prog.S[(opN(op, 3)+d*opN(op, 4))%len(prog.S)])
	}
	return v
}

// conductivity in Voigt order
func conductivity(c float64, i, dim int) []float64 {
	a := c * (0.5 + 0.2*float64(i%3))
	if dim == 2 {
		return []float64{a, 1.2 * a, 0.3 * c}
	}
	return []float64{a, 1.2 * a, 0.8 * a, 0.1 * c, 0.17 * c, 0.3 * c}
}

func extField(op Op, dim int) []float64 {
	return []float64{0.3, -0.2, 0.1 * float64(opN(op, 2))}[:dim]
}

func pairFunc(op Op) pfc.ReciprocalSpacePairCorrelation {
	return pfc.ReciprocalSpacePairCorrelation{EffTemp: 0.3, Peaks: []pfc.Peak{
		{PlaneDensity: 1, NumPlanes: 4, Width: 0.6, Location: 1.5},
		{PlaneDensity: 0.7, NumPlanes: 2 + opN(op, 3), Width: 0.9, Location: 3},
	}}
}

func pairVal(op Op, k float64) float64 {
	v := 0.0
	for j, loc := range []float64{1.5, 3} {
		dens, np, w := 1.0, 4.0, 0.6
		if j == 1 {
			dens, np, w = 0.7, 2+float64(opN(op, 3)), 0.9
		}
		x := (k - loc) / w
		v = math.Max(v, math.Exp(-0.09*k*k/(2*dens*np)-x*x/2))
	}
	return v
}

func idealMix(op Op) pfc.IdealMix {
	return pfc.IdealMix{C3: 0.5 + 0.2*float64(opN(op, 3)), C4: 1 + 0.1*float64(opN(op, 4))}
}

func penaltyExp(op Op) int { return []int{3, 3, 2, 5, 4, 3}[opN(op, 3)%6] }

func matProp(op Op) elasticity.Rank4 {
	if opN(op, 3)%2 == 0 {
		return elasticity.Isotropic(1, 0.3)
	}
	return elasticity.CubicMaterial(1.1, 0.6, 0.3)
}

// cijkl is the elastic tensor, written out
func cijkl(op Op, i, j, k, l int) float64 {
	d := func(a, b int) float64 {
		if a == b {
			return 1
		}
		return 0
	}
	if opN(op, 3)%2 == 0 {
		sh := 3 * (1 - 2*0.3) / (2 * (1 + 0.3))
		return (1-2*sh/3)*d(i, j)*d(k, l) + sh*(d(i, k)*d(j, l)+d(i, l)*d(j, k))
	}
	switch {
	case i == j && k == l && i == k:
		return 1.1
	case i == j && k == l:
		return 0.6
	case i == k && j == l && i != j, i == l && j == k && i != j:
		return 0.3
	}
	return 0
}

func misfit(op Op) [3][3]float64 {
	c := 0.3 * opC(op)
	e := 0.02 * float64(opN(op, 4))
	return [3][3]float64{{c, e, 0}, {e, 0.6 * c, 0}, {0, 0, 0.1 * c}}
}

func lapIf(op Op) bool { return opN(op, 4)%2 == 1 }

// builtin registers a term of gopf and adds it to equation eq
func (b *built) builtin(op Op, name, lapText string, prog *ProcProg, eq int, put func(int, Op, string), scalars []string) {
	m := b.m
	n := pfutil.ProdInt(prog.Dom)
	dim := len(prog.Dom)
	dom := append([]int(nil), prog.Dom...)
	c := opC(op)
	field := prog.S[opN(op, 2)%len(prog.S)]
	explicit := true
	var t pf.PureTerm
	switch op.K {
	case "wlap":
		w := pf.WeightedLaplacian{Field: field, PreFactor: "PRE" + name, FT: pfutil.NewFFTW(dom)}
		m.RegisterFunction(w.PreFactor, userFunc(opN(op, 3), c, prog.S))
		t = &termWrap{w.Construct}
	case "divgrad":
		w := pf.DivGrad{Field: field, F: userFunc(opN(op, 3), c, prog.S)}
		w.PrepareModel(n, m, pfutil.NewFFTW(dom))
		t = &termWrap{w.Construct}
	case "advec":
		w := pf.Advection{Field: field, VelocityFields: velocities(op, prog)}
		w.PrepareModel(n, m, pfutil.NewFFTW(dom))
		t = &termWrap{w.Construct}
	case "charge":
		ct := &pf.ChargeTransport{
			Conductivity:  func(i int) []float64 { return conductivity(c, i, dim) },
			ExternalField: extField(op, dim),
			Field:         field,
			FT:            pfutil.NewFFTW(dom),
		}
		t = ct
		b.addReport(report{op: op, ct: ct})
	case "pairc":
		pc := &pf.PairCorrlationTerm{PairCorrFunc: pairFunc(op), Field: prog.S[eq], Prefactor: c, Laplacian: lapIf(op)}
		t = pc
		b.addReport(report{op: op, pc: pc})
		explicit = false
	case "pairx":
		pc := &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pf.PairCorrlationTerm{PairCorrFunc: pairFunc(op), Field: field, Prefactor: c, Laplacian: lapIf(op)}}
		t = pc
		b.addReport(report{op: op, pc: &pc.PairCorrlationTerm})
	case "gsq2":
		g := pf.NewSquareGradient(field, dom)
		g.Factor = c
		t = &g
	case "elast":
		var v []float64
		for _, r := range misfit(op) {
			v = append(v, r[0], r[1], r[2])
		}
		h := pf.NewHomogeneousModolus(field, dom, matProp(op), mat.NewDense(3, 3, v))
		for i := range h.Field {
			h.Field[i] = initField(prog, 0, opN(op, 2)%len(prog.S), i)
		}
		t = h
	case "ideal":
		w := pf.IdealMixtureTerm{IdealMix: idealMix(op), Field: prog.S[eq], Prefactor: c, Laplacian: lapIf(op)}
		m.RegisterMixedTerm(name, &w, []pf.DerivedField{w.DerivedField(n, m.Bricks)})
		b.addReport(report{op: op, im: &w})
		put(eq, op, lapText+name)
		return
	case "idealf":
		w := pf.IdealMixtureTerm{IdealMix: idealMix(op), Field: field, Prefactor: c}
		m.RegisterFunction(name, w.Eval)
		b.addReport(report{op: op, im: &w})
		put(eq, op, funcStr(op, name, scalars))
		return
	case "nvp":
		w := pf.NegativeValuePenalty{Prefactor: c, Exponent: penaltyExp(op), Field: field}
		m.RegisterFunction(name, w.Evaluate)
		put(eq, op, funcStr(op, name, scalars))
		return
	default:
		panic(fmt.Sprintf("unknown term %s", op.K))
	}
	if explicit {
		m.RegisterExplicitTerm(name, t, nil)
	} else {
		m.RegisterImplicitTerm(name, t, nil)
	}
	put(eq, op, lapText+name)
}

// refLinear is the value of the linear part of a term at mode k
func (s *schemeRef) refLinear(op Op, k int) float64 {
	fr := s.tab.freq[k]
	k2 := s.tab.k2(k)
	c := opC(op)
	switch op.K {
	case "hess":
		d := len(s.prog.Dom)
		K := hessK(op, d)
		v := 0.0
		for i := 0; i < d; i++ {
			for j := 0; j < d; j++ {
				if i != j && (s.nyq(fr[i]) || s.nyq(fr[j])) {
					continue
				}
				v -= 4 * math.Pi * math.Pi * fr[i] * fr[j] * K[i*d+j]
			}
		}
		return v
	case "pairc":
		v := -c * pairVal(op, math.Sqrt(-k2))
		if lapIf(op) {
			v *= k2
		}
		return v
	case "ideal":
		if lapIf(op) {
			return c * k2
		}
		return c
	case "visc":
		r := math.Sqrt(-k2) / (2 * math.Pi)
		q := 0.0
		m := viscM(op)
		if r > m {
			q = 1
		} else if r >= m/3 {
			x := 1.5*r/m - 0.5
			q = 2*x*x - 3*x*x*x
		}
		return -c * q * math.Pow(r, float64(viscP(op)))
	}
	return 0
}

func (s *schemeRef) nyq(f float64) bool { return math.Abs(math.Abs(f)-0.5) < 1e-9 }

// grad is the derivative of a field (given by its transform) along d
func (s *schemeRef) grad(ft []complex128, d int) []complex128 {
	w := make([]complex128, s.tab.n)
	for k := range w {
		f := s.tab.freq[k][d]
		if s.nyq(f) {
			f = 0
		}
		w[k] = ft[k] * complex(0, 2*math.Pi*f)
	}
	return s.tab.inv(w)
}

func (s *schemeRef) fn(op Op, y [][]complex128) []complex128 {
	g := make([]complex128, s.tab.n)
	nf := len(y)
	for i := range g {
		g[i] = complex(userFuncVal(opN(op, 3), opC(op), real(y[0][i]), real(y[nf-1][i])), 0)
	}
	return g
}

// refNonlin is the transform of the explicit part of a term. y0 is the state at the
// beginning of the step
func (s *schemeRef) refNonlin(op Op, y, y0 [][]complex128) []complex128 {
	n := s.tab.n
	out := make([]complex128, n)
	nf := len(y)
	fi := opN(op, 2) % nf
	c := opC(op)
	dim := len(s.prog.Dom)
	lap := func(g []complex128, l int) []complex128 {
		for k := range g {
			g[k] *= complex(math.Pow(s.tab.k2(k), float64(l)), 0)
		}
		return g
	}
	div := func(j []complex128, d int) {
		for k, v := range s.tab.fwd(j) {
			if f := s.tab.freq[k][d]; !s.nyq(f) {
				out[k] += complex(0, 2*math.Pi*f) * v
			}
		}
	}
	switch op.K {
	case "wlap":
		l := s.tab.inv(lap(s.tab.fwd(y[fi]), 1))
		for i, v := range s.fn(op, y) {
			l[i] *= v
		}
		return s.tab.fwd(l)
	case "divgrad":
		ft := s.tab.fwd(y[fi])
		f := s.fn(op, y)
		for d := 0; d < dim; d++ {
			g := s.grad(ft, d)
			for i := range g {
				g[i] *= f[i]
			}
			div(g, d)
		}
	case "advec":
		ft := s.tab.fwd(y[fi])
		sum := make([]complex128, n)
		for d := 0; d < dim; d++ {
			g := s.grad(ft, d)
			v := y[(opN(op, 3)+d*opN(op, 4))%nf]
			for i := range g {
				sum[i] -= g[i] * v[i]
			}
		}
		return s.tab.fwd(sum)
	case "charge":
		for d, j := range s.refCurrent(op, y[fi]) {
			for i := range j {
				j[i] = -j[i]
			}
			div(j, d)
		}
	case "pairx":
		ft := s.tab.fwd(y[fi])
		for k := range out {
			out[k] = complex(-c*pairVal(op, math.Sqrt(-s.tab.k2(k))), 0) * ft[k]
		}
		if lapIf(op) {
			lap(out, 1)
		}
	case "gsq", "gsq2":
		g := make([]complex128, n)
		ft := s.tab.fwd(y[fi])
		for d := 0; d < dim; d++ {
			for i, v := range s.grad(ft, d) {
				g[i] += complex(c, 0) * v * v
			}
		}
		return s.tab.fwd(g)
	case "ideal", "idealf":
		f := y[fi]
		lin := 1.0
		if op.K == "ideal" {
			f, lin = y[opN(op, 0)%nf], 0
		}
		im := idealMix(op)
		g := make([]complex128, n)
		for i := range g {
			v := real(f[i])
			g[i] = complex(c*(lin*v-im.C3*v*v/2+im.C4*v*v*v/3), 0)
		}
		g = s.tab.fwd(g)
		if op.K == "ideal" && lapIf(op) {
			lap(g, 1)
		}
		return g
	case "nvp":
		g := make([]complex128, n)
		p := penaltyExp(op)
		for i := range g {
			// d/dx of c*(|x|^p - x^p)
			if x := real(y[fi][i]); x < 0 && p%2 == 1 {
				g[i] = complex(-2*c*float64(p)*math.Pow(x, float64(p-1)), 0)
			}
		}
		return s.tab.fwd(g)
	case "elast":
		return s.refElast(op, y0[fi])
	}
	return out
}

// refCurrent is the current density: LAP phi = -rho, E = -grad phi + E_ext, j = sigma E
func (s *schemeRef) refCurrent(op Op, rho []complex128) [][]complex128 {
	dim := len(s.prog.Dom)
	phi := s.tab.fwd(rho)
	for k := range phi {
		if k2 := s.tab.k2(k); k2 != 0 {
			phi[k] /= complex(-k2, 0)
		} else {
			phi[k] = 0
		}
	}
	E := make([][]complex128, dim)
	for d := range E {
		E[d] = s.grad(phi, d)
		for i := range E[d] {
			E[d][i] = complex(extField(op, dim)[d], 0) - E[d][i]
		}
	}
	idx := [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
	if dim == 2 {
		idx = [3][3]int{{0, 2}, {2, 1}}
	}
	out := make([][]complex128, dim)
	for d := range out {
		out[d] = make([]complex128, s.tab.n)
		for i := range out[d] {
			sg := conductivity(opC(op), i, dim)
			for e := 0; e < dim; e++ {
				out[d][i] += complex(sg[idx[d][e]], 0) * E[e][i]
			}
		}
	}
	return out
}

// report asks a term for the quantities it reports about the current fields y and
// compares them with the reference
type report struct {
	op Op
	ct *pf.ChargeTransport
	pc *pf.PairCorrlationTerm
	im *pf.IdealMixtureTerm
}

func (b *built) addReport(q report) { b.reports = append(b.reports, q) }

func (w *solverWorld) checkReports(r *srun) {
	y := r.b.state()
	if len(r.b.reports) == 0 || !finite([][][]complex128{y}) {
		return
	}
	s := newSchemeRef(r.prog)
	idx := map[string]int{}
	for i, f := range r.prog.S {
		idx[f] = i
	}
	cmp := func(what string, got, want, scale float64) {
		if tol := 1e-8*scale + 1e-12; !math.IsInf(tol, 0) && !math.IsNaN(want) && !(math.Abs(got-want) <= tol) {
			w.bad("C20", "report", "P%d %s: %s is reported as %v, it is %v", r.p.id, r.b.step, what, got, want)
		}
	}
	for _, q := range r.b.reports {
		switch {
		case q.ct != nil:
			f := y[idx[q.ct.Field]]
			want := s.refCurrent(q.op, f)
			scale := 0.0
			for _, j := range want {
				for _, v := range j {
					scale = math.Max(scale, math.Abs(real(v)))
				}
			}
			for _, v := range f {
				scale = math.Max(scale, math.Abs(real(v)))
			}
			ft := pf.NewField("ft", s.tab.n, s.tab.fwd(f))
			for t, got := range [][][]float64{
				q.ct.Current(r.b.m.Bricks[q.ct.Field], s.tab.n, true),
				q.ct.Current(ft, s.tab.n, false),
			} {
				if len(got) != len(want) {
					w.bad("C20", "report", "P%d: Current has %d components", r.p.id, len(got))
					continue
				}
				for d := range want {
					if len(got[d]) != s.tab.n {
						w.bad("C20", "report", "P%d: Current has %d nodes", r.p.id, len(got[d]))
						break
					}
					for i, v := range want[d] {
						cmp(fmt.Sprintf("component %d of the current of %s at node %d (realspace %v)", d, q.ct.Field, i, t == 0), got[d][i], real(v), scale)
					}
				}
			}
		case q.pc != nil:
			f := y[idx[q.pc.Field]]
			g := s.tab.fwd(f)
			for k := range g {
				g[k] *= complex(opC(q.op)*pairVal(q.op, math.Sqrt(-s.tab.k2(k))), 0)
			}
			e, scale := 0.0, 0.0
			for i, v := range s.tab.inv(g) {
				e -= 0.5 * real(v) * real(f[i])
				scale += real(f[i]) * real(f[i])
			}
			got := q.pc.GetEnergy(r.b.m.Bricks, pfutil.NewFFTW(append([]int(nil), r.prog.Dom...)), append([]int(nil), r.prog.Dom...))
			cmp("the pair correlation energy of "+q.pc.Field, got, e, scale)
		case q.im != nil:
			c3, c4 := idealMix(q.op).C3, idealMix(q.op).C4
			e, scale := 0.0, 0.0
			for _, v := range y[idx[q.im.Field]] {
				x := real(v)
				e += opC(q.op) * (x*x/2 - c3*x*x*x/6 + c4*x*x*x*x/12)
				scale += math.Abs(x*x) + math.Abs(x*x*x*x)
			}
			cmp("the ideal mixture energy of "+q.im.Field, q.im.GetEnergy(r.b.m.Bricks, s.tab.n), e, scale)
		}
		w.sim.probe("report-checked")
	}
}

// refElast is -dE/dx of the elastic energy of an inclusion
func (s *schemeRef) refElast(op Op, y []complex128) []complex128 {
	n := s.tab.n
	dim := len(s.prog.Dom)
	mis := misfit(op)
	var str [3][3]float64
	eps := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					str[i][j] += cijkl(op, i, j, k, l) * mis[k][l]
				}
			}
			eps += 0.5 * str[i][j] * mis[i][j]
		}
	}
	h := make([]complex128, n)
	dh := make([]float64, n)
	for i := range h {
		x := real(y[i])
		h[i] = complex(3*x*x-2*x*x*x, 0)
		dh[i] = 6*x - 6*x*x
	}
	ht := s.tab.fwd(h)
	var disp [3][]complex128
	for i := range disp {
		disp[i] = make([]complex128, n)
	}
	for k := range ht {
		f := s.tab.freq[k]
		if f == [3]float64{} {
			continue
		}
		var A [3][3]float64
		var b [3]complex128
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				for p := 0; p < 3; p++ {
					for q := 0; q < 3; q++ {
						A[i][j] += 4 * math.Pi * math.Pi * cijkl(op, i, p, j, q) * f[p] * f[q]
					}
				}
				b[i] += complex(0, -2*math.Pi*str[i][j]*f[j]) * ht[k]
			}
		}
		x := solve3(A, b)
		for i := range x {
			disp[i][k] = x[i]
		}
	}
	g := make([]complex128, n)
	for i := 0; i < dim; i++ {
		for j := 0; j < dim; j++ {
			e := make([]complex128, n)
			for k := range e {
				fi, fj := s.tab.freq[k][i], s.tab.freq[k][j]
				if s.nyq(fi) {
					fi = 0
				}
				if s.nyq(fj) {
					fj = 0
				}
				e[k] = complex(0, math.Pi*fj)*disp[i][k] + complex(0, math.Pi*fi)*disp[j][k]
			}
			for q, v := range s.tab.inv(e) {
				g[q] += complex(str[i][j]*real(v)*dh[q], 0)
			}
		}
	}
	for q := range g {
		g[q] -= complex(2*eps*real(h[q])*dh[q], 0)
	}
	return s.tab.fwd(g)
}

func solve3(A [3][3]float64, b [3]complex128) (x [3]complex128) {
	det := func(m [3][3]float64) float64 {
		return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
	}
	D := det(A)
	for c := 0; c < 3; c++ {
		re, im := A, A
		for i := 0; i < 3; i++ {
			re[i][c], im[i][c] = real(b[i]), imag(b[i])
		}
		x[c] = complex(det(re)/D, det(im)/D)
	}
	return
}
