package main

var solverReal = []string{"gopf/pf (Model, equation parser, Solver, Euler, RK4, ImplicitEuler, SDD, all terms used, monitors, Float64IO) from /repo", "gopf/pfutil from /repo", "FFTW (C)", "gonlin Newton-Krylov, gonum GMRES", "encoding/json"}
var solverStub = []string{"process scheduling (switches at every FFT, callback, monitor, term and file operation)", "math/rand global source", "map iteration order", "os file calls (hook)", "clock"}
var solverAssume = []string{"FFTW plans with FFTW_ESTIMATE (FFTW_MEASURE picks algorithms by timing, which is not repeatable)", "calculations share no model, solver or term (gopf promises no synchronisation)", "field and scalar names do not contain each other and no reserved prefix"}

func init() {
	add := func(id, title string, quick, thorough, fr int) {
		regProp(&PropDef{id: id, title: title, scenarios: []string{"solver"}, quick: quick, thorough: thorough, faultRuns: fr, assume: solverAssume, real: solverReal, stub: solverStub})
	}
	add("C11", "epochs", 3500, 40000, 5)
	add("C12", "time", 3500, 40000, 4)
	add("C13", "restart", 2000, 40000, 8)
	add("C14", "isolation", 900, 30000, 4)
	add("C15", "order", 2500, 40000, 2)
	add("C16", "conservation", 3500, 50000, 2)
	add("C19", "scheme", 3500, 40000, 2)
	add("C22", "dimer", 5000, 50000, 2)
	add("C20", "terms", 3500, 40000, 2)
}
