package main

import (
	"math"

	"github.com/davidkleiven/gopf/elasticity"
)

// voigt4 is the elastic tensor of a flat 6x6 matrix
func voigt4(v []float64) (c [3][3][3][3]float64) {
	at := [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
	for i := range c {
		for j := range c {
			for k := range c {
				for l := range c {
					c[i][j][k][l] = v[6*at[i][j]+at[k][l]]
				}
			}
		}
	}
	return
}

// refEnergy is the elastic energy of an ellipsoidal inclusion with a misfit strain, per
// volume of the inclusion: the first coordinate, the first half axis and the first
// component of the strain belong together, and so on.
func refEnergy(p elasticity.StrainEnergyInput) float64 {
	t := tabOf([]int{p.DomainSize, p.DomainSize, p.DomainSize})
	c := voigt4(p.MatPropMatrix)
	m := p.Misfit
	mis := [3][3]float64{{m[0], m[5] / 2, m[4] / 2}, {m[5] / 2, m[1], m[3] / 2}, {m[4] / 2, m[3] / 2, m[2]}}
	chi := make([]complex128, t.n)
	half := [3]float64{p.HalfA, p.HalfB, p.HalfC}
	for i := range chi {
		pos, v := posOf([]int{p.DomainSize, p.DomainSize, p.DomainSize}, i), 0.0
		for d := range half {
			v += math.Pow(float64(pos[d]-int64(p.DomainSize/2))/half[d], 2)
		}
		if v <= 1 {
			chi[i] = 1
		}
	}
	// stress times i k, for a stress that varies in space
	var force [3][]complex128
	push := func(c [3][3][3][3]float64, e func(n, k, l int) float64) {
		for i := 0; i < 3; i++ {
			if force[i] == nil {
				force[i] = make([]complex128, t.n)
			}
			for j := 0; j < 3; j++ {
				s := make([]complex128, t.n)
				for n := range s {
					x := 0.0
					for k := 0; k < 3; k++ {
						for l := 0; l < 3; l++ {
							x += c[i][j][k][l] * e(n, k, l)
						}
					}
					s[n] = complex(x, 0)
				}
				for q, v := range t.fwd(s) {
					force[i][q] -= complex(0, 2*math.Pi*t.freq[q][j]) * v
				}
			}
		}
	}
	strain := func() (e [3][3][]float64) {
		var disp [3][]complex128
		for i := range disp {
			disp[i] = make([]complex128, t.n)
		}
		for q, f := range t.freq {
			if f == [3]float64{} {
				continue
			}
			var A [3][3]float64
			var b [3]complex128
			for i := 0; i < 3; i++ {
				b[i] = force[i][q]
				for j := 0; j < 3; j++ {
					for k := 0; k < 3; k++ {
						for l := 0; l < 3; l++ {
							A[i][j] += 4 * math.Pi * math.Pi * c[i][k][j][l] * f[k] * f[l]
						}
					}
				}
			}
			x := solve3(A, b)
			for i := range x {
				disp[i][q] = x[i]
			}
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				s := make([]complex128, t.n)
				for q, f := range t.freq {
					for d := range f {
						if f[d] == 0.5 {
							f[d] = 0
						}
					}
					s[q] = complex(0, math.Pi*f[j])*disp[i][q] + complex(0, math.Pi*f[i])*disp[j][q]
				}
				for _, v := range t.inv(s) {
					e[i][j] = append(e[i][j], real(v))
				}
			}
		}
		return
	}
	in := func(n, k, l int) float64 { return mis[k][l] * real(chi[n]) }
	push(c, in)
	tot := c
	if p.MatPropInc != nil {
		inc := voigt4(p.MatPropInc)
		tot = inc
		if p.ApplyPerturbation {
			e0 := strain()
			var diff [3][3][3][3]float64
			for i := range c {
				for j := range c {
					for k := range c {
						for l := range c {
							diff[i][j][k][l] = inc[i][j][k][l] - c[i][j][k][l]
						}
					}
				}
			}
			push(diff, func(n, k, l int) float64 { return (mis[k][l] - e0[k][l][n]) * real(chi[n]) })
		}
	}
	e := strain()
	sum := 0.0
	for n := 0; n < t.n; n++ {
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				for k := 0; k < 3; k++ {
					for l := 0; l < 3; l++ {
						sum += 0.5 * tot[i][j][k][l] * (e[i][j][n] - in(n, i, j)) * (e[k][l][n] - in(n, k, l))
					}
				}
			}
		}
	}
	return sum / (4 * math.Pi / 3 * p.HalfA * p.HalfB * p.HalfC)
}
