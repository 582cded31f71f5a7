package main

// Op is one operation of a simulated process
type Op struct {
	K string   `json:"k"`
	N []int    `json:"n,omitempty"`
	S []string `json:"s,omitempty"`
	U []uint64 `json:"u,omitempty"` // bits of float64 values
}

// ProcProg is the program of one simulated process
type ProcProg struct {
	Kind string         `json:"kind"`
	Dom  []int          `json:"dom,omitempty"`
	S    []string       `json:"s,omitempty"`
	Opt  map[string]int `json:"opt,omitempty"`
	Ops  []Op           `json:"ops"`
}

// Program is the workload: processes of one phase run concurrently, phases run
// one after the other (a later phase is a restart of the machine or program).
type Program struct {
	Phases [][]ProcProg   `json:"phases"`
	Opt    map[string]int `json:"opt,omitempty"`
	S      []string       `json:"s,omitempty"`
}

func (pr *Program) clone() *Program {
	q := &Program{Opt: pr.Opt, S: pr.S}
	for _, ph := range pr.Phases {
		var np []ProcProg
		for _, p := range ph {
			c := p
			c.Ops = append([]Op(nil), p.Ops...)
			np = append(np, c)
		}
		q.Phases = append(q.Phases, np)
	}
	return q
}

// Violation is a broken property
type Violation struct {
	Prop   string `json:"property"`
	Oracle string `json:"oracle"`
	Msg    string `json:"message"`
}

// Scenario is a world in which workloads run
type Scenario struct {
	name string
	// gen creates the program, clock and map seed of a case
	gen func(r *RNG, prop string, thorough bool) *Plan
	// exec runs all phases
	exec func(s *Sim) interface{}
	// check judges the recorded history and the final state
	check func(s *Sim, st interface{}) []Violation
	// kinds lists the fault kinds possible at a site
	kinds func(prop, site string) []string
}

// PropDef tells how a property is explored
type PropDef struct {
	id        string
	title     string
	scenarios []string // picked uniformly (repeat for weight)
	quick     int      // cases
	thorough  int
	faultRuns int // fault runs per case
	assume    []string
	real      []string
	stub      []string
}

var scenarios = map[string]*Scenario{}
var props = map[string]*PropDef{}
var propOrder []string

func regScenario(s *Scenario) { scenarios[s.name] = s }
func regProp(p *PropDef) {
	props[p.id] = p
	propOrder = append(propOrder, p.id)
}
