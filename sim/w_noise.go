package main

import (
	"math"
	"math/cmplx"
)

// checkNoise: what the documented scheme leaves unexplained in the equation of a field is
// noise of the strength that was asked for: uncorrelated between nodes, steps and terms, and
// for conservative noise the divergence of such currents. The bounds are wide (the random
// numbers of an execution are fixed by its seed, but how they are used is not specified).
func (w *solverWorld) checkNoise(r *srun, name string, ref [][][]complex128) {
	s := newSchemeRef(r.prog)
	n, nf := s.tab.n, len(r.prog.S)
	for f := range r.prog.S {
		if s.contains(f) {
			return
		}
	}
	kind, strength := make([]string, nf), make([]float64, nf)
	for _, op := range r.prog.Ops {
		switch op.K {
		case "white", "cons":
			f := opN(op, 0) % nf
			if kind[f] != "" {
				return
			}
			kind[f], strength[f] = op.K, opC(op)
		case "setscal":
			return
		}
	}
	// the gain of the modes
	gain := make([][]float64, nf)
	for f := range gain {
		gain[f] = make([]float64, n)
		for k := range gain[f] {
			switch kind[f] {
			case "white":
				gain[f][k] = 2 * strength[f] * float64(n)
			case "cons":
				for d := range r.prog.Dom {
					if q := s.tab.freq[k][d]; math.Abs(q) < 0.5-1e-9 {
						gain[f][k] += 8 * strength[f] * float64(n) * math.Pow(math.Sin(math.Pi*q), 2)
					}
				}
			}
		}
	}
	var all [][][]complex128 // noise of unit strength: step, field, mode
	for k := 1; k < len(ref); k++ {
		y := s.step(ref[k-1], float64(k-1)*s.dt)
		if s.minDen < 0.05 || !finite(ref[k:k+1]) || schemeScale(ref[k]) > 1e3 || schemeScale(y) > 1e3 {
			w.sim.probe("scheme-unstable")
			break
		}
		for f := range kind {
			for i, v := range ref[k][f] {
				if math.Abs(imag(v)) > 1e-8*(1+schemeScale(ref[k])) {
					w.bad("C20", "noise", "%s: with the %s noise %s has the imaginary part %g at node %d after %d steps", name, kind[f], r.prog.S[f], imag(v), i, k)
					return
				}
			}
		}
		blur := float64(n) * s.blur(ref[k-1], y, float64(k-1)*s.dt)
		step := make([][]complex128, nf)
		for f := range y {
			a, b := s.tab.fwd(ref[k][f]), s.tab.fwd(y[f])
			lin := s.linear(f)
			step[f] = make([]complex128, n)
			for i := range a {
				den := 1 - complex(s.dt, 0)*lin[i]
				q := a[i] - b[i]
				if gain[f][i] < 1e-12 {
					if cmplx.Abs(q) > 1e-8*float64(n)*(1+schemeScale(y))+1e3*blur {
						w.bad("C20", "noise", "%s: step %d changes mode %v of %s by %g more than its terms do, the noise %q has no such mode", name, k, s.tab.freq[i][:len(r.prog.Dom)], r.prog.S[f], cmplx.Abs(q), kind[f])
						return
					}
					continue
				}
				if v := q * den / complex(s.dt*math.Sqrt(gain[f][i]), 0); blur < 1e-9 && cmplx.Abs(den) < 1e3 {
					step[f][i] = v
				}
			}
		}
		all = append(all, step)
	}
	w.sim.probe("noise-checked")
	for f := range kind {
		if kind[f] == "" {
			continue
		}
		power, vals := 0.0, 0
		for _, st := range all {
			for _, c := range st[f] {
				if c != 0 {
					vals++
				}
				power += real(c)*real(c) + imag(c)*imag(c)
			}
		}
		if dof := float64(vals); dof >= 30 {
			w.sim.probe("noise-power-checked")
			x := math.Sqrt(power / dof) // relative amplitude, its standard deviation is 1/sqrt(2 dof)
			if tol := 6 / math.Sqrt(2*dof); x < 1-tol || x > 1+tol {
				w.bad("C20", "noise", "%s: the %s noise of strength %g in the equation of %s has %.3f times the documented amplitude (%d values)", name, kind[f], strength[f], r.prog.S[f], x, int(dof))
			}
		}
		// no direction of the modes is preferred: neighbouring nodes, and the currents of
		// different directions, have nothing in common
		shape := func(what string, weight func(q [3]float64) float64) {
			var t, v2 float64
			cnt := 0
			for _, st := range all {
				for i, c := range st[f] {
					if c == 0 {
						continue
					}
					if x := weight(s.tab.freq[i]); x != 0 {
						t += x * (real(c)*real(c) + imag(c)*imag(c) - 1)
						v2 += 2 * x * x
						cnt++
					}
				}
			}
			if cnt < 150 {
				return
			}
			w.sim.probe("noise-shape-checked")
			if math.Abs(t) > 9*math.Sqrt(v2) {
				w.bad("C20", "noise", "%s: the %s noise in the equation of %s is not that of independent %s: the power of the modes deviates by %.1f standard deviations (%d values)", name, kind[f], r.prog.S[f], what, t/math.Sqrt(v2), cnt)
			}
		}
		for d := range r.prog.Dom {
			d := d
			shape("nodes", func(q [3]float64) float64 { return math.Cos(2 * math.Pi * q[d]) })
			for e := 0; e < d && kind[f] == "cons"; e++ {
				e := e
				shape("currents", func(q [3]float64) float64 {
					a, b := math.Sin(2*math.Pi*q[d]), math.Sin(2*math.Pi*q[e])
					switch {
					case math.Abs(a*b) < 1e-9:
						return 0
					case a*b > 0:
						return 1
					}
					return -1
				})
			}
		}
		// with the other noises, and with the step before
		corr := func(what string, a, b [][]complex128) {
			var ab, aa, bb float64
			cnt := 0
			for k := range a {
				for i := range a[k] {
					if a[k][i] == 0 || b[k][i] == 0 {
						continue
					}
					cnt++
					ab += real(a[k][i] * cmplx.Conj(b[k][i]))
					aa += real(a[k][i])*real(a[k][i]) + imag(a[k][i])*imag(a[k][i])
					bb += real(b[k][i])*real(b[k][i]) + imag(b[k][i])*imag(b[k][i])
				}
			}
			if cnt < 12 {
				return
			}
			w.sim.probe("noise-correlation-checked")
			// twelve values that happen to be so close to proportional are a matter of 1e-9
			lim := math.Min(0.97, 7/math.Sqrt(float64(cnt)))
			if cnt >= 60 {
				lim = math.Min(lim, 0.8)
			}
			if c := ab / math.Sqrt(aa*bb); math.Abs(c) > lim {
				w.bad("C20", "noise", "%s: the %s noise in the equation of %s is correlated with %s: %.3f (%d values)", name, kind[f], r.prog.S[f], what, c, cnt)
			}
		}
		get := func(g, from, to int) (out [][]complex128) {
			for k := from; k < to; k++ {
				out = append(out, all[k][g])
			}
			return
		}
		for g := 0; g < f; g++ {
			if kind[g] != "" {
				corr("that of "+r.prog.S[g], get(f, 0, len(all)), get(g, 0, len(all)))
			}
		}
		if len(all) > 1 {
			corr("itself one step before", get(f, 1, len(all)), get(f, 0, len(all)-1))
		}
	}
}
