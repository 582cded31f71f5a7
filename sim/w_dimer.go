package main

import (
	"encoding/csv"
	"math"
	"math/cmplx"
	"os"
	"strconv"

	"github.com/davidkleiven/gopf/pfutil"
)

// The shrinking dimer dynamics: a reference of the saddle point search.

// dimer holds the parameters of a dimer
type dimer struct {
	alpha, tor, tlen, min, l0 float64
	given                     []float64 // the orientation as given
	v                         []float64 // unit orientation
}

func newDimer(prog *ProcProg) *dimer {
	d := &dimer{alpha: 0.5, tor: 1, tlen: 1}
	n := pfutil.ProdInt(prog.Dom) * len(prog.S)
	k := prog.opt("sdd", 0)
	d.given = make([]float64, n)
	sum := 0.0
	for i := range d.given {
		d.given[i] = 0.1 + 0.1*uniq(0, uint64(prog.opt("init", 0)), uint64(i), 17)
		if k > 0 {
			d.given[i] = 0.3*uniq(0, uint64(prog.opt("init", 0)), uint64(i), 17) - 0.1
		}
		sum += d.given[i] * d.given[i]
	}
	d.l0 = math.Sqrt(sum)
	for _, x := range d.given {
		d.v = append(d.v, x/d.l0)
	}
	if k > 0 {
		h := mix(uint64(k), 0xd1)
		d.alpha = []float64{0.5, 0.3, 0.75, 1, 0}[h%5]
		d.tor = []float64{1, 0.4, 3}[h>>8%3]
		d.tlen = []float64{1, 0.05, 0.3}[h>>16%3]
		d.min = []float64{0, 0.05, 0.4}[h>>24%3]
	}
	if k%2 == 1 {
		d.l0 = 0.7
	}
	return d
}

// orientOf is the orientation given in the course of a search
func orientOf(op Op, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = (0.05 + 0.2*float64(opN(op, 0)%3)) * (1 + uniq(0, uint64(opN(op, 0)), uint64(i), 18))
	}
	return out
}

// orient gives the dimer a new orientation and length
func (d *dimer) orient(v []float64) {
	sum := 0.0
	for _, x := range v {
		sum += x * x
	}
	d.l0 = math.Sqrt(sum)
	d.v = nil
	for _, x := range v {
		d.v = append(d.v, x/d.l0)
	}
}

func (d *dimer) length(t float64) float64 {
	return math.Max(d.min, d.l0*math.Exp(-t/d.tlen))
}

// dimerStep makes one step of the dimer dynamics and reports the largest force, the largest torque and the root mean square of the forces
func (s *schemeRef) dimerStep(d *dimer, y [][]complex128, t float64) (out [][]complex128, force, torque, rms float64) {
	nf, n := len(y), s.tab.n
	h := complex(s.dt, 0)
	l := d.length(t)
	shifted := func(x float64) [][]complex128 {
		o := make([][]complex128, nf)
		for f := range o {
			o[f] = make([]complex128, n)
			for i := range o[f] {
				o[f][i] = y[f][i] + complex(x*d.v[f*n+i], 0)
			}
		}
		return o
	}
	var y0, vh, lin, r1, r2 []complex128
	a, b := shifted(-l/2), shifted(l/2)
	for f := range y {
		v := make([]complex128, n)
		for i := range v {
			v[i] = complex(d.v[f*n+i], 0)
		}
		y0 = append(y0, s.tab.fwd(y[f])...)
		vh = append(vh, s.tab.fwd(v)...)
		lin = append(lin, s.linear(f)...)
		s.y0 = a
		r1 = append(r1, s.nonlin(f, a, t)...)
		s.y0 = b
		r2 = append(r2, s.nonlin(f, b, t)...)
	}
	// x -> (I - c v v^T) x
	reflect := func(x []complex128, c float64) {
		var p complex128
		for i := range x {
			p += x[i] * cmplx.Conj(vh[i])
		}
		p *= complex(c/float64(n), 0)
		for i := range x {
			x[i] -= p * vh[i]
		}
	}
	w := make([]complex128, len(y0))
	for i := range w {
		w[i] = complex(d.alpha, 0)*r1[i] + complex(1-d.alpha, 0)*r2[i]
	}
	reflect(w, 2)
	// (A + u q^T) x = rhs, A diagonal
	x := make([]complex128, len(w))
	var qx, qu complex128
	for i := range w {
		den := 1 - h*lin[i]
		s.minDen = math.Min(s.minDen, cmplx.Abs(den))
		x[i] = (y0[i] + h*w[i]) / den
		q := 2 * h * lin[i] * cmplx.Conj(vh[i]) / complex(float64(n), 0)
		qx += q * x[i]
		qu += q * vh[i] / den
	}
	s.minDen = math.Min(s.minDen, cmplx.Abs(1+qu))
	for i := range x {
		x[i] -= vh[i] / (1 - h*lin[i]) * qx / (1 + qu)
		g := cmplx.Abs(x[i]-y0[i]) / s.dt
		force = math.Max(force, g)
		rms += g * g
	}
	rms = math.Sqrt(rms / float64(n) / float64(len(x)))
	// the orientation
	g := make([]complex128, len(w))
	for i := range g {
		g[i] = r1[i] - r2[i] - complex(l, 0)*lin[i]*vh[i]
	}
	reflect(g, 1)
	norm := 0.0
	nv := make([]float64, len(d.v))
	for f := range y {
		out = append(out, s.tab.inv(x[f*n:(f+1)*n]))
		for i, c := range s.tab.inv(g[f*n : (f+1)*n]) {
			torque = math.Max(torque, math.Abs(real(c)))
			j := f*n + i
			nv[j] = d.v[j] - s.dt*real(c)/(l*d.tor)
			norm += nv[j] * nv[j]
		}
	}
	norm = math.Sqrt(norm)
	for j := range nv {
		nv[j] /= norm
	}
	d.v = nv
	return
}

func readOrient(name string, nf int) []float64 {
	f, err := os.Open(name)
	if err != nil {
		return nil
	}
	defer f.Close()
	rec, err := csv.NewReader(f).ReadAll()
	if err != nil || len(rec) < 2 {
		return nil
	}
	var out []float64
	for c := 0; c < nf; c++ {
		for _, r := range rec[1:] {
			if len(r) != 3+nf {
				return nil
			}
			x, err := strconv.ParseFloat(r[3+c], 64)
			if err != nil {
				return nil
			}
			out = append(out, x)
		}
	}
	return out
}

func nearBy(a, b, tol float64) bool { return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b)) }

// checkDimer: every step is a step of the shrinking dimer dynamics, the monitor reports
// it, and the saved orientation is that of the dimer
func (w *solverWorld) checkDimer(r *srun, name string, s *schemeRef, ref [][][]complex128) {
	d := newDimer(r.prog)
	prop := "C22"
	changes := scalChanges(r.prog)
	force, torque := make([]float64, len(ref)), make([]float64, len(ref))
	rms, norm := make([]float64, len(ref)), make([]float64, len(ref))
	for k := 1; k < len(ref); k++ {
		for _, op := range changes[k-1] {
			if op.K == "orient" {
				d.orient(orientOf(op, len(d.given)))
				w.sim.probe("dimer-reoriented")
				continue
			}
			s.scalars[op.S[0]] = fldVal(op.U[0])
		}
		for f := range ref[k-1] {
			for _, v := range ref[k-1][f] {
				norm[k] += real(v)*real(v) + imag(v)*imag(v)
			}
		}
		t := float64(k-1) * s.dt
		before := *d
		y, a, b, c := s.dimerStep(d, ref[k-1], t)
		dd, sc := maxDiff(y, ref[k])
		if !(dd <= 1e-13*(1+sc)) {
			after := *d
			*d, s.expl = before, !s.expl
			y2, a2, b2, c2 := s.dimerStep(d, ref[k-1], t)
			if d2, sc2 := maxDiff(y2, ref[k]); d2 < dd {
				y, a, b, c, dd, sc = y2, a2, b2, c2, d2, sc2
			} else {
				*d, s.expl = after, !s.expl
			}
		}
		force[k], torque[k], rms[k] = a, b, c
		if s.minDen < 0.05 || !finite([][][]complex128{y}) || schemeScale(y) > 1e3 || before.length(t) < 1e-4 {
			w.sim.probe("scheme-unstable")
			return
		}
		if !(dd <= 1e-8*(1+sc)) {
			// rounding errors may explain it
			near := make([][]complex128, len(y))
			for f := range near {
				near[f] = append([]complex128(nil), ref[k-1][f]...)
				for i := range near[f] {
					near[f][i] *= complex(1+2e-15*(uniq(0, uint64(f), uint64(i), 42)-0.5), 0)
				}
			}
			z, _, _, _ := s.dimerStep(&before, near, t)
			if blur, _ := maxDiff(y, z); dd <= 1e3*blur {
				w.sim.probe("scheme-stiff")
				return
			}
			w.bad(prop, "dimer", "%s: after %d steps the fields differ by %g from those of the shrinking dimer dynamics", name, k, dd)
			return
		}
		w.sim.probe("dimer-checked")
	}
	for _, e := range r.log {
		if e.kind != "cb" || e.step == 0 || e.step >= len(ref) {
			continue
		}
		k, m := e.step, e.mon
		change := -norm[k]
		if k > 1 {
			change = norm[k-1] - norm[k]
		}
		for _, c := range []struct {
			what      string
			got, want float64
		}{{"MaxForce", m.MaxForce, force[k]}, {"MaxTorque", m.MaxTorque, torque[k]}, {"ForcePowerSpectrum", m.ForcePowerSpectrum, rms[k]}, {"FieldNorm", m.FieldNorm, norm[k]}, {"FieldNormChange", m.FieldNormChange, change}} {
			if !nearBy(c.got, c.want, 1e-7) {
				w.bad(prop, "monitor", "%s: after %d steps %s is %g instead of %g", name, k, c.what, c.got, c.want)
			}
		}
		w.sim.probe("dimer-monitor-checked")
	}
	if r.done {
		for _, op := range changes[len(ref)-1] {
			if op.K == "orient" {
				d.orient(orientOf(op, len(d.given)))
			}
		}
		if len(r.orient) != len(d.v) {
			w.bad(prop, "orientation", "%s: the saved orientation has %d values instead of %d", name, len(r.orient), len(d.v))
			return
		}
		for i := range d.v {
			if math.Abs(r.orient[i]-d.v[i]) > 2e-6 {
				w.bad(prop, "orientation", "%s: the saved orientation is %g at value %d instead of %g", name, r.orient[i], i, d.v[i])
				return
			}
		}
	}
}
