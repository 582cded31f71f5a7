package main

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

// The file world: simulations store checkpoints, tables, templates and logs as
// ordinary files and read them back, while file operations fail or processes die.

// fileExp says what a file must hold
type fileExp struct {
	kind  string // f64 u8 csv grid xdmf json log
	names []string
	data  [][]float64
	dom   []int
	num   int // xdmf
	pref  string
}

type fileSt struct {
	exp *fileExp
	by  *fopRec // operation that wrote it last
	ok  bool    // that operation returned normally
}

type fopRec struct {
	proc  *Proc
	prog  *ProcProg
	idx   int
	kind  string
	note  string
	inv   int
	ret   int
	files []string
	// loads
	load *loadExp
	cli  bool
	out  string
}

func (o *fopRec) String() string { return fmt.Sprintf("P%d op %d %s", o.proc.id, o.idx, o.note) }

type loadExp struct {
	valid    bool // the file is well formed: it must load in a run without faults
	nofields bool // no field column at all: an empty result is all right
	names    []string
	data     [][]float64
	energy   float64
	got      bool
	gnames   []string
	gdata    [][]float64
}

type logRow struct {
	vals [5]float64
	by   *fopRec
	ret  bool
}

type fileWorld struct {
	sim   *Sim
	files map[string]*fileSt
	ops   []*fopRec
	logs  map[string][]*logRow
	viol  []Violation
	cli   *Proc
	procs []*Proc
	seen  map[string]bool
}

func (w *fileWorld) bad(prop, oracle, format string, args ...interface{}) {
	if w.seen[prop+oracle] {
		return
	}
	w.seen[prop+oracle] = true
	w.viol = append(w.viol, Violation{prop, oracle, fmt.Sprintf(format, args...)})
}

func init() {
	regScenario(&Scenario{name: "files", gen: genFiles, exec: filesExec, check: filesCheck, kinds: fileKinds})
}

func fileKinds(prop, site string) []string {
	switch site {
	case "os.open":
		return []string{"eacces", "emfile", "enospc", "kill"}
	case "os.write":
		return []string{"enospc", "eio", "torn", "kill"}
	case "os.close":
		return []string{"eio", "kill"}
	case "os.read":
		return []string{"eio", "eio", "short", "kill"}
	case "os.stat", "os.rename", "os.remove", "os.truncate", "os.sync", "os.mkdir":
		return []string{"eio", "kill"}
	case "op", "between", "user":
		return []string{"kill", "stall"}
	case "fft.pre", "fft.post":
		return []string{"kill"}
	}
	return nil
}

// quietly runs harness code whose file operations are no part of the simulation
func (s *Sim) quietly(fn func()) {
	a := s.active
	s.active = false
	defer func() { s.active = a }()
	fn()
}

func filesExec(s *Sim) interface{} {
	w := &fileWorld{sim: s, files: map[string]*fileSt{}, logs: map[string][]*logRow{}, seen: map[string]bool{}}
	s.quietly(func() { os.Mkdir("out", 0755) })
	n := 0
	for _, ph := range s.plan.Program.Phases {
		for i := range ph {
			prog := &ph[i]
			p := s.spawn(fmt.Sprintf("%s%d", prog.Kind, n), func(p *Proc) { w.process(p, prog) })
			w.procs = append(w.procs, p)
			n++
		}
		s.run()
		if s.overrun {
			break
		}
	}
	return w
}

// do runs one operation; the files it is about to write are in limbo until it returns
func (w *fileWorld) do(o *fopRec, exp map[string]*fileExp, fn func()) {
	s := w.sim
	for name, e := range exp {
		o.files = append(o.files, name)
		if w.files[name] == nil && o.prog.opt("stale", 0) > 0 && hashStr(name)%2 == 0 {
			// somebody else left a file with this name
			s.quietly(func() { os.WriteFile(name, stale(o.prog.opt("stale", 0)), 0644) })
		}
		w.files[name] = &fileSt{exp: e, by: o}
	}
	w.ops = append(w.ops, o)
	o.inv = s.seq + 1
	s.op(o.proc, o.idx, o.note, fn)
	o.ret = s.seq
	if o.cli {
		o.out = o.proc.stdout.String() + o.proc.stderr.String()
		if !strings.Contains(o.out, "written to") {
			if len(exp) > 0 && len(s.plan.Faults) == 0 {
				w.bad("C08", "not-saved", "%v announced nothing in a run without faults: %.200q", o, o.out)
			}
			return // nothing was announced
		}
	}
	for name := range exp {
		st := w.files[name]
		if st.by != o {
			continue
		}
		st.ok = true
		s.quietly(func() {
			if why := st.exp.check(name); why != "" {
				w.bad("C08", "incomplete-"+st.exp.kind, "%v returned normally, but %s: %s", o, name, why)
			}
		})
	}
	s.probe("saved-" + o.kind)
}

// stale is the content of a file of the same name that was there before
func stale(kind int) []byte {
	switch kind {
	case 1:
		return bytes.Repeat([]byte("0.5,1,2,3\n"), 12000)
	case 2:
		return bytes.Repeat([]byte{0x3f, 0xe0, 0, 0, 0, 0, 0, 0}, 15000)
	}
	return []byte("x")
}

func fval(style int, a ...uint64) float64 {
	v := uniq(style, a...)
	if style%4 == 2 { // keep the exponents moderate where text is written
		return math.Mod(v, 1e6)
	}
	return v
}

func (w *fileWorld) process(p *Proc, prog *ProcProg) {
	s := w.sim
	dom := prog.Dom
	n := pfutil.ProdInt(dom)
	pref := "run"
	if len(prog.S) > 0 {
		pref = prog.S[0]
	}
	names := prog.S[1:]
	begin := func(idx int, kind, note string) *fopRec {
		return &fopRec{proc: p, prog: prog, idx: idx, kind: kind, note: kind + " " + note}
	}
	binName := func(pre, f string, e int) string { return fmt.Sprintf("%s_%s_%d.bin", pre, f, e) }
	one := func(data []float64) [][]float64 { return [][]float64{data} }
	checkpoint := func(kind string, data [][]float64, e int) map[string]*fileExp {
		exp := map[string]*fileExp{}
		switch kind {
		case "f64":
			for i, f := range names {
				exp[binName(pref, f, e)] = &fileExp{kind: "f64", data: one(data[i])}
			}
		case "u8":
			for i, f := range names {
				exp[binName(pref+"u", f, e)] = &fileExp{kind: "u8", data: one(data[i])}
			}
		case "csv":
			exp[fmt.Sprintf("%s_%d.csv", pref, e)] = &fileExp{kind: "csv", names: names, data: data, dom: dom}
		}
		return exp
	}
	saver := func(kind string) func(*pf.Solver, int) {
		switch kind {
		case "f64":
			io := pf.NewFloat64IO(pref)
			return io.SaveFields
		case "u8":
			io := pf.NewUint8IO(pref + "u")
			return io.SaveFields
		}
		io := pf.CsvIO{Prefix: pref, DomainSize: dom}
		return io.SaveFields
	}
	for idx, op := range prog.Ops {
		a := func(i int) int {
			if i < len(op.N) {
				return op.N[i]
			}
			return 0
		}
		switch op.K {
		case "f64", "u8", "csv":
			solver, data := buildModel(prog, p.id, a(0), names)
			o := begin(idx, op.K, fmt.Sprintf("%s epoch %d", pref, a(0)))
			save := saver(op.K)
			w.do(o, checkpoint(op.K, data, a(0)), func() { save(solver, a(0)) })
		case "solve":
			w.solve(p, prog, idx, op, names, checkpoint, saver)
		case "sf", "real":
			data := make([]float64, a(0))
			c := make([]complex128, len(data))
			for i := range data {
				data[i] = fieldValue(prog.Opt["style"], p.id, idx, 77, i)
				c[i] = complex(data[i], 3)
			}
			o := begin(idx, op.K, op.S[0])
			exp := map[string]*fileExp{op.S[0]: {kind: "f64", data: one(data)}}
			w.do(o, exp, func() {
				if op.K == "sf" {
					pf.SaveFloat64(op.S[0], append([]float64(nil), data...))
				} else {
					pf.NewField("x", len(c), c).SaveReal(op.S[0])
				}
			})
		case "scsv":
			data := make([][]float64, len(names))
			cd := make([]pf.CsvData, len(names))
			for f := range names {
				data[f] = make([]float64, n)
				for i := range data[f] {
					data[f][i] = fval(prog.Opt["style"], uint64(p.id), uint64(idx), uint64(f), uint64(i))
				}
				cd[f] = pf.CsvData{Name: names[f], Data: &pfutil.RealSlice{Data: append([]float64(nil), data[f]...)}}
			}
			o := begin(idx, op.K, op.S[0])
			w.do(o, map[string]*fileExp{op.S[0]: {kind: "csv", names: names, data: data, dom: dom}}, func() { pf.SaveCsv(op.S[0], cd, dom) })
		case "grid":
			g := pfutil.NewGrid(dom)
			for i := range g.Data {
				g.Data[i] = fval(prog.Opt["style"], uint64(p.id), uint64(idx), 9, uint64(i))
			}
			data := append([]float64(nil), g.Data...)
			o := begin(idx, op.K, op.S[0])
			w.do(o, map[string]*fileExp{op.S[0]: {kind: "grid", data: one(data), dom: dom}}, func() { g.SaveCsv(op.S[0]) })
		case "orient":
			m := pf.NewModel()
			nf := len(names)
			for _, f := range names {
				m.AddField(pf.NewField(f, n, nil))
			}
			sdd := pf.NewSDD(dom, &m)
			or := make([]float64, n*nf)
			norm := 0.0
			for i := range or {
				or[i] = fval(0, uint64(p.id), uint64(idx), 11, uint64(i)) + 0.01
				norm += or[i] * or[i]
			}
			sdd.SetInitialOrientation(append([]float64(nil), or...))
			var cn []string
			var data [][]float64
			for f := 0; f < nf; f++ {
				cn = append(cn, fmt.Sprintf("orientation%d", f))
				d := make([]float64, n)
				for i := range d {
					d[i] = or[f*n+i] / math.Sqrt(norm)
				}
				data = append(data, d)
			}
			o := begin(idx, op.K, op.S[0])
			w.do(o, map[string]*fileExp{op.S[0]: {kind: "csv", names: cn, data: data, dom: dom}}, func() { sdd.SaveOrientation(op.S[0]) })
		case "xdmf":
			o := begin(idx, op.K, op.S[0])
			e := &fileExp{kind: "xdmf", names: names, dom: dom, num: a(0), pref: pref}
			w.do(o, map[string]*fileExp{op.S[0]: e}, func() {
				pf.WriteXDMF(op.S[0], append([]string(nil), names...), pref, a(0), append([]int(nil), dom...))
			})
		case "tmpl":
			if !w.oneCLI(p) {
				return
			}
			o := begin(idx, op.K, op.S[0])
			o.cli = true
			w.do(o, map[string]*fileExp{op.S[0]: {kind: "json"}}, func() {
				os.Args = []string{"gopf", "elast", "template", "--out=" + op.S[0]}
				resetFlags()
				cmd.Execute()
			})
			w.cli = nil
			return // a command line process runs one command
		case "log":
			w.logRows(p, prog, idx, op)
		case "sddsolve":
			w.sddSolve(p, prog, idx, op, names)
		case "lf64", "lcsv", "energy":
			if op.K == "energy" && !w.oneCLI(p) {
				return
			}
			w.loadOp(p, prog, idx, op)
			if op.K == "energy" {
				w.cli = nil
				return
			}
		}
		s.hit("between")
	}
}

// oneCLI: the command line keeps its flags in global variables, so two commands
// cannot be in flight in this process; the later one waits for the earlier to end
func (w *fileWorld) oneCLI(p *Proc) bool {
	for i := 0; w.cli != nil && w.cli.state != stDone; i++ {
		if i > 10000 {
			return false
		}
		w.sim.hit("between")
		w.sim.sleep(p, 1e6, true)
	}
	w.cli = p
	return true
}

// solve runs the real solver with the savers attached as callbacks. Every call of a
// saver is an operation of its own.
func (w *fileWorld) solve(p *Proc, prog *ProcProg, idx int, op Op, names []string, checkpoint func(string, [][]float64, int) map[string]*fileExp, saver func(string) func(*pf.Solver, int)) {
	n := pfutil.ProdInt(prog.Dom)
	m := pf.NewModel()
	for f, name := range names {
		c := make([]complex128, n)
		for i := range c {
			c[i] = complex(uniq(0, uint64(p.id), uint64(idx), uint64(f), uint64(i)), 0)
		}
		m.AddField(pf.NewField(name, n, c))
	}
	m.AddScalar(pf.NewScalar("D", complex(0.3, 0)))
	for _, name := range names {
		m.AddEquation(fmt.Sprintf("d%s/dt = D*LAP %s", name, name))
	}
	solver := pf.NewSolver(&m, prog.Dom, 0.1)
	solver.StartEpoch = op.N[0]
	k := 0
	for _, kind := range op.S {
		save := saver(kind)
		kind := kind
		solver.AddCallback(func(sv *pf.Solver, epoch int) {
			data := make([][]float64, len(sv.Model.Fields))
			for f := range data {
				data[f] = make([]float64, n)
				for i := range data[f] {
					data[f][i] = real(sv.Model.Fields[f].Data[i])
				}
			}
			o := &fopRec{proc: p, prog: prog, idx: idx*100 + k, kind: kind, note: fmt.Sprintf("%s epoch %d (solver)", kind, epoch)}
			k++
			w.do(o, checkpoint(kind, data, epoch), func() { save(sv, epoch) })
		})
	}
	solver.Solve(op.N[1], 1+op.N[2])
}

func (w *fileWorld) logFile(p *Proc, name string) *os.File {
	f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	return f
}

func (w *fileWorld) logOnce(p *Proc, prog *ProcProg, idx int, name string, vals [5]float64, fn func()) {
	o := &fopRec{proc: p, prog: prog, idx: idx, kind: "log", note: "log " + name}
	r := &logRow{vals: vals, by: o}
	w.logs[name] = append(w.logs[name], r)
	w.do(o, nil, fn)
	r.ret = true
}

func (w *fileWorld) logRows(p *Proc, prog *ProcProg, idx int, op Op) {
	f := w.logFile(p, op.S[0])
	solver, _ := buildModel(&ProcProg{Dom: []int{1, 1}}, p.id, idx, []string{"c"})
	mon := pf.SDDMonitor{LogFile: f}
	for k := 0; k < op.N[0]; k++ {
		var v [5]float64
		for i := range v {
			v[i] = fval(1+k%2*2, uint64(p.id), uint64(idx), uint64(k), uint64(i), 3)
		}
		mon.MaxForce, mon.MaxTorque, mon.ForcePowerSpectrum, mon.FieldNorm, mon.FieldNormChange = v[0], v[1], v[2], v[3], v[4]
		w.logOnce(p, prog, idx*100+k, op.S[0], v, func() { mon.Log(solver, k) })
		w.sim.hit("between")
	}
	if op.N[1] == 1 {
		f.Close()
	}
}

func (w *fileWorld) sddSolve(p *Proc, prog *ProcProg, idx int, op Op, names []string) {
	n := pfutil.ProdInt(prog.Dom)
	m := pf.NewModel()
	c := make([]complex128, n)
	or := make([]float64, n)
	for i := range c {
		c[i] = complex(uniq(0, uint64(p.id), uint64(idx), 1, uint64(i)), 0)
		or[i] = uniq(0, uint64(p.id), uint64(idx), 2, uint64(i)) + 0.1
	}
	m.AddField(pf.NewField("conc", n, c))
	m.AddScalar(pf.NewScalar("mone", complex(-1, 0)))
	m.AddEquation("dconc/dt = mone*conc^3 + conc")
	solver := pf.NewSolver(&m, prog.Dom, 0.01)
	sdd := pf.NewSDD(prog.Dom, &m)
	sdd.Dt = 0.01
	sdd.SetInitialOrientation(or)
	solver.Stepper = &sdd
	f := w.logFile(p, op.S[0])
	sdd.Monitor.LogFile = f
	k := 0
	solver.AddCallback(func(sv *pf.Solver, epoch int) {
		q := &sdd.Monitor
		w.logOnce(p, prog, idx*100+k, op.S[0], [5]float64{q.MaxForce, q.MaxTorque, q.ForcePowerSpectrum, q.FieldNorm, q.FieldNormChange}, func() { q.Log(sv, epoch) })
		k++
	})
	solver.Solve(op.N[0], 1)
	if op.N[1] == 1 {
		f.Close()
	}
}

// ---- loading ----------------------------------------------------------------

// loadOp loads a file saved earlier in the run (if S[0] is there) or a file made
// for this operation, well formed or damaged.
func (w *fileWorld) loadOp(p *Proc, prog *ProcProg, idx int, op Op) {
	name := op.S[0]
	le := &loadExp{}
	s := w.sim
	s.quietly(func() {
		if op.N[0] < 0 { // a file of this run
			if st := w.files[name]; st == nil || !st.ok {
				le = nil
				return
			}
		} else {
			if err := os.WriteFile(name, makeInput(op.K, op.N[0], newRNG(op.U...), op.N[1:]), 0644); err != nil {
				fatal("%v", err)
			}
			if op.N[0] == 9 {
				os.Remove(name)
			}
		}
		b, err := os.ReadFile(name)
		if err == nil {
			parseInput(op.K, b, le)
		}
	})
	if le == nil {
		return
	}
	o := &fopRec{proc: p, prog: prog, idx: idx, kind: op.K, note: op.K + " " + name, load: le}
	w.do(o, nil, func() {
		switch op.K {
		case "lf64":
			le.gdata = [][]float64{pf.LoadFloat64(name)}
		case "lcsv":
			for _, f := range pf.LoadCSV(name) {
				le.gnames = append(le.gnames, f.Name)
				d := make([]float64, len(f.Data))
				for i := range d {
					d[i] = real(f.Data[i])
					if imag(f.Data[i]) != 0 {
						d[i] = math.NaN()
					}
				}
				le.gdata = append(le.gdata, d)
			}
		case "energy":
			os.Args = []string{"gopf", "elast", "energy", "--input=" + name}
			resetFlags()
			cmd.Execute()
		}
	})
	le.got = true
}

// makeInput makes a file: variant 0 is well formed, others are damaged
func makeInput(kind string, variant int, r *RNG, n []int) []byte {
	var b bytes.Buffer
	switch kind {
	case "lf64":
		for i := 0; i < n[0]; i++ {
			binary.Write(&b, binary.BigEndian, fieldValue(r.Intn(8), r.Intn(100), 0, 1, i))
		}
		if variant > 0 && b.Len() > 0 {
			return b.Bytes()[:r.Intn(b.Len())]
		}
	case "lcsv":
		nf := n[1]
		nl, odd := "\n", r.Bool(0.3)
		if odd {
			nl = pick(r, []string{"\n", "\r\n", "\n\n"})
		}
		b.WriteString(pick(r, []string{"X,Y,Z", "X,Y,Z", "x,y,z", "#X,Y,Z", "a,a,a"}))
		for f := 0; f < nf; f++ {
			if odd {
				b.WriteString("," + pick(r, []string{"conc", "Conc", "\"a,b\"", "#c", "f g", " lead", "X", "\" q\"", "\"say \"\"x\"\"\"", ""}))
				continue
			}
			fmt.Fprintf(&b, ",field%d", f)
		}
		b.WriteString(nl)
		bad := -1
		if variant > 0 && n[0] > 0 {
			bad = r.Intn(n[0])
		}
		for i := 0; i < n[0]; i++ {
			if odd && r.Bool(0.1) {
				b.WriteString(pick(r, []string{"#0,0,0", ",,", "a,b,c", "//,1,2", "1.5,-2,\"0\""}))
			} else {
				fmt.Fprintf(&b, "%d,%d,%d", i/3, i%3, 0)
			}
			for f := 0; f < nf; f++ {
				v := strconv.FormatFloat(fieldValue(r.Intn(8), r.Intn(100), 0, f, i), pick(r, []byte{'g', 'f', 'e'}), -1, 64)
				if r.Intn(4) == 0 {
					v = fmt.Sprintf("%f", uniq(1, r.U64()))
				}
				if i == bad && f == nf-1 {
					switch variant {
					case 1:
						v = pick(r, []string{"", "abc", "1.0.0", "1,5x", "--2", "0.5 0.6", "0x", "1e", "\"\""})
					case 2:
						continue // a column is missing
					case 3:
						v += ",7.0" // one too many
					}
				}
				b.WriteString("," + v)
			}
			b.WriteString(nl)
		}
		if variant == 4 && b.Len() > 0 {
			return b.Bytes()[:r.Intn(b.Len())]
		}
	case "energy":
		p := elasticity.StrainEnergyInput{HalfA: 1 + r.Float(), HalfB: 1 + 2*r.Float(), HalfC: 1 + r.Float(), DomainSize: 4 + r.Intn(3), ApplyPerturbation: r.Bool(0.5)}
		for i := 0; i < 6; i++ {
			p.Misfit = append(p.Misfit, pick(r, []float64{0, 0.02, 0.9, -0.6})*r.Float())
		}
		c11, c12, sh := 100+50*r.Float(), 40+10*r.Float(), 20+20*r.Float()
		aniso := r.Bool(0.5)
		mat := func(f float64) []float64 {
			m := make([]float64, 36)
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					m[6*i+j] = f * c12
				}
				m[7*i] = f * c11
				m[7*(i+3)] = f * sh
			}
			if aniso {
				for i := 0; i < 6; i++ {
					for j := i; j < 6; j++ {
						m[6*i+j] += 4 * r.Float()
						m[6*j+i] = m[6*i+j]
					}
				}
			}
			return m
		}
		p.MatPropMatrix = mat(1)
		if r.Bool(0.7) {
			p.MatPropInc = mat(1 + r.Float())
		}
		t, _ := json.MarshalIndent(p, "", " ")
		switch variant {
		case 1:
			return t[:r.Intn(len(t))]
		case 2: // a number is not a number
			return bytes.Replace(t, []byte(`"HalfB": `), []byte(`"HalfB": "a`), 1)
		case 3:
			k := pick(r, []string{"HalfA", "HalfC", "DomainSize", "Misfit", "MatPropMatrix"})
			re := regexp.MustCompile(`"` + k + `": `)
			return re.ReplaceAll(t, []byte(`"`+k+`": true, "x": `))
		}
		b.Write(t)
	}
	return b.Bytes()
}

// parseInput says what a file holds
func parseInput(kind string, b []byte, le *loadExp) {
	switch kind {
	case "lf64":
		if len(b)%8 == 0 {
			d := make([]float64, len(b)/8)
			for i := range d {
				d[i] = math.Float64frombits(binary.BigEndian.Uint64(b[8*i:]))
			}
			le.data = [][]float64{d}
			le.valid = true
		}
	case "lcsv":
		rec, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		if err != nil || len(rec) == 0 || len(rec[0]) < 4 {
			le.nofields = err == nil && len(rec) > 0
			return
		}
		le.names = append([]string{}, rec[0][3:]...)
		le.data = make([][]float64, len(le.names))
		for _, r := range rec[1:] {
			for f := range le.names {
				v, err := strconv.ParseFloat(r[3+f], 64)
				if err != nil {
					return
				}
				le.data[f] = append(le.data[f], v)
			}
		}
		le.valid = true
	case "energy":
		var p elasticity.StrainEnergyInput
		dec := json.NewDecoder(bytes.NewReader(b))
		if dec.Decode(&p) != nil {
			return
		}
		if _, err := dec.Token(); err != io.EOF {
			return
		}
		if len(p.Misfit) != 6 || len(p.MatPropMatrix) != 36 || p.DomainSize < 2 || p.HalfA <= 0 || p.HalfB <= 0 || p.HalfC <= 0 {
			return
		}
		le.energy = refEnergy(p)
		le.valid = true
	}
}

// ---- judging files ----------------------------------------------------------

func (e *fileExp) check(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return err.Error()
	}
	switch e.kind {
	case "f64":
		d := e.data[0]
		if len(b) != 8*len(d) {
			return fmt.Sprintf("%d bytes instead of %d", len(b), 8*len(d))
		}
		for i := range d {
			if v := binary.BigEndian.Uint64(b[8*i:]); v != math.Float64bits(d[i]) {
				return fmt.Sprintf("node %d is %v instead of %v", i, math.Float64frombits(v), d[i])
			}
		}
	case "u8":
		d := e.data[0]
		if len(b) != len(d) {
			return fmt.Sprintf("%d bytes instead of %d", len(b), len(d))
		}
		min, max := math.Inf(1), math.Inf(-1)
		for _, v := range d {
			min, max = math.Min(min, v), math.Max(max, v)
		}
		if max-min < 1e-9 || max-min > 1e300 {
			return ""
		}
		for i, v := range d {
			if want := 255 * (v - min) / (max - min); math.Abs(want-float64(b[i])) > 1 {
				return fmt.Sprintf("node %d is %d instead of %.2f", i, b[i], want)
			}
		}
	case "csv":
		rec, err := csvAll(b)
		if err != nil {
			return err.Error()
		}
		return csvIs(rec, e.dom, e.names, e.data)
	case "grid":
		rec, err := csvAll(b)
		if err != nil {
			return err.Error()
		}
		want := "x,y,value"
		if len(e.dom) == 3 {
			want = "x,y,z,value"
		}
		if len(rec) != len(e.data[0])+1 {
			return fmt.Sprintf("%d lines instead of %d", len(rec), len(e.data[0])+1)
		}
		if strings.Join(rec[0], ",") != want {
			return fmt.Sprintf("header %q instead of %q", rec[0], want)
		}
		seen := map[string]bool{}
		for i, r := range rec[1:] {
			if len(r) != len(e.dom)+1 {
				return fmt.Sprintf("line %d: %q", i+1, r)
			}
			pos := make([]int, len(e.dom))
			node := 0
			for k := range pos {
				v, err := strconv.Atoi(r[k])
				if err != nil || v < 0 || v >= e.dom[k] {
					return fmt.Sprintf("line %d: %q", i+1, r)
				}
				pos[k] = v
			}
			key := strings.Join(r[:len(pos)], ",")
			if seen[key] {
				return "position " + key + " appears twice"
			}
			seen[key] = true
			node = nodeOf(e.dom, pos)
			v, err := strconv.ParseFloat(r[len(pos)], 64)
			if err != nil || !near(v, e.data[0][node]) {
				return fmt.Sprintf("position %s is %q instead of %v", key, r[len(pos)], e.data[0][node])
			}
		}
	case "json":
		var p elasticity.StrainEnergyInput
		if err := json.Unmarshal(b, &p); err != nil {
			return err.Error()
		}
		if len(p.Misfit) != 6 || len(p.MatPropMatrix) != 36 || p.DomainSize == 0 || p.HalfA == 0 || p.HalfB == 0 || p.HalfC == 0 {
			return fmt.Sprintf("incomplete template: %+v", p)
		}
	case "xdmf":
		return e.checkXDMF(b)
	}
	return ""
}

func nodeOf(dom, pos []int) int {
	var want [3]int64
	for k, v := range pos {
		want[k] = int64(v)
	}
	for i, n := 0, pfutil.ProdInt(dom); i < n; i++ {
		if posOf(dom, i) == want {
			return i
		}
	}
	return 0
}

func csvAll(b []byte) ([][]string, error) {
	r := csv.NewReader(bytes.NewReader(b))
	r.FieldsPerRecord = -1
	return r.ReadAll()
}

// checkXDMF: one grid per epoch, one attribute per field, each referring to the raw
// file of that field and epoch with its type and size
func (e *fileExp) checkXDMF(b []byte) string {
	dec := xml.NewDecoder(bytes.NewReader(b))
	dims := strings.Trim(strings.Join(strings.Fields(fmt.Sprint(e.dom)), " "), "[]")
	type item struct{ field, file string }
	var grids [][]item
	depth := 0
	attr := ""
	var cur map[string]string
	text := ""
	for {
		t, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err.Error()
		}
		switch x := t.(type) {
		case xml.StartElement:
			as := map[string]string{}
			for _, a := range x.Attr {
				as[a.Name.Local] = a.Value
			}
			depth++
			switch x.Name.Local {
			case "Grid":
				if as["GridType"] == "Uniform" {
					grids = append(grids, nil)
				}
			case "Attribute":
				attr = as["Name"]
			case "DataItem":
				cur, text = as, ""
			}
		case xml.CharData:
			text += string(x)
		case xml.EndElement:
			depth--
			switch x.Name.Local {
			case "DataItem":
				if attr != "" && len(grids) > 0 {
					if cur["Format"] != "Binary" || cur["Endian"] != "Big" || cur["Precision"] != "8" || cur["Dimensions"] != dims {
						return fmt.Sprintf("data item of %s has %v (dimensions %s)", attr, cur, dims)
					}
					grids[len(grids)-1] = append(grids[len(grids)-1], item{attr, strings.TrimSpace(text)})
				}
			case "Attribute":
				attr = ""
			}
		}
	}
	if depth != 0 {
		return "the XML is not complete"
	}
	if len(grids) != e.num {
		return fmt.Sprintf("%d epochs instead of %d", len(grids), e.num)
	}
	for i, g := range grids {
		if len(g) != len(e.names) {
			return fmt.Sprintf("epoch %d has %d fields instead of %d", i, len(g), len(e.names))
		}
		for _, it := range g {
			if want := fmt.Sprintf("%s_%s_%d.bin", e.pref, it.field, i); it.file != want {
				return fmt.Sprintf("epoch %d field %q refers to %q instead of %q", i, it.field, it.file, want)
			}
			ok := false
			for _, f := range e.names {
				ok = ok || f == it.field
			}
			if !ok {
				return fmt.Sprintf("epoch %d has the unknown field %q", i, it.field)
			}
		}
	}
	return ""
}

var energyRe = regexp.MustCompile(`Elastic energy per volume inclusion: (\S+)`)

func filesCheck(s *Sim, sti interface{}) []Violation {
	w := sti.(*fileWorld)
	clean := len(s.plan.Faults) == 0
	if s.overrun {
		for _, id := range []string{"C08", s.plan.Property} {
			w.bad(id, "no-progress", "the processes did not finish within %d seam operations and %d statements (%.1f simulated seconds)", s.maxSteps, maxPoints, float64(s.now)/1e9)
		}
		return w.viol
	}
	// what was saved is still there
	for _, name := range sortedKeys(w.files) {
		st := w.files[name]
		if !st.ok {
			continue
		}
		s.probe("checkpoint-checked")
		if why := st.exp.check(name); why != "" {
			w.bad("C10", "changed", "%s, saved by %v, is not what it was: %s", name, st.by, why)
		}
	}
	// nothing else is written
	if clean {
		filepath.Walk(".", func(path string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			if w.files[path] == nil && w.logs[path] == nil && !strings.HasPrefix(filepath.Base(path), "in_") {
				w.bad("C10", "stray", "the file %s was written, no operation should write it", path)
			}
			return nil
		})
	}
	// operations
	for _, o := range w.ops {
		le := o.load
		if o.ret == 0 {
			if clean && (le == nil || le.valid) {
				prop := "C08"
				if le != nil {
					prop = "C09"
				}
				if o.kind == "log" {
					prop = "C17"
				}
				w.bad(prop, "failed", "%v failed in a run without faults: %s %.200s", o, o.proc.exit, firstLine(o.proc.exitMsg))
			}
			continue
		}
		if le == nil {
			continue
		}
		out := o.proc.stdout.String() + o.proc.stderr.String()
		if o.kind == "energy" {
			m := energyRe.FindStringSubmatch(out)
			if m == nil {
				if clean && le.valid {
					w.bad("C09", "energy", "%v printed no energy: %.200q", o, out)
				}
				continue
			}
			if !le.valid {
				w.bad("C09", "energy", "%v printed %q for an unreadable input", o, m[0])
				continue
			}
			if v, err := strconv.ParseFloat(m[1], 64); err != nil || !(near(v, le.energy) || math.Abs(v-le.energy) < 2e-6) {
				w.bad("C09", "energy", "%v printed %q, the energy is %v", o, m[0], le.energy)
			}
			s.probe("load-checked")
			continue
		}
		if !le.valid {
			if le.nofields && len(le.gdata) == 0 {
				continue
			}
			w.bad("C09", "damaged-"+o.kind, "%v returned %d arrays for a damaged file", o, len(le.gdata))
			continue
		}
		s.probe("load-checked")
		if o.kind == "lcsv" && strings.Join(le.gnames, "|") != strings.Join(le.names, "|") {
			w.bad("C09", "names", "%v returned fields %q, the file has %q", o, le.gnames, le.names)
			continue
		}
		if len(le.gdata) != len(le.data) {
			w.bad("C09", "wrong-"+o.kind, "%v returned %d arrays instead of %d", o, len(le.gdata), len(le.data))
			continue
		}
		for f := range le.data {
			if len(le.gdata[f]) != len(le.data[f]) {
				w.bad("C09", "wrong-"+o.kind, "%v returned %d values, the file has %d", o, len(le.gdata[f]), len(le.data[f]))
				break
			}
			for i := range le.data[f] {
				if math.Float64bits(le.gdata[f][i]) != math.Float64bits(le.data[f][i]) {
					w.bad("C09", "wrong-"+o.kind, "%v: value %d is %v, the file has %v", o, i, le.gdata[f][i], le.data[f][i])
					break
				}
			}
		}
	}
	for _, name := range sortedKeys(w.logs) {
		w.checkLog(name)
	}
	return w.viol
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var logHeader = []string{"MaxForce", "MaxTorque", "ForcePowerSpect", "FieldNorm", "FieldNormChange"}

// checkLog: one header, then one line per call in order
func (w *fileWorld) checkLog(name string) {
	b, err := os.ReadFile(name)
	rows := w.logs[name]
	any := false
	damaged := false // a write to the file was cut short
	for _, r := range rows {
		any = any || r.ret
	}
	for k := range w.sim.fired {
		if strings.HasPrefix(k, "os.write:") || strings.HasPrefix(k, "os.close:") {
			damaged = true
		}
	}
	if err != nil {
		if any {
			w.bad("C17", "log-gone", "%s: %v", name, err)
		}
		return
	}
	if !any && len(b) == 0 {
		return
	}
	w.sim.probe("log-checked")
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	head := strings.Join(logHeader, ",")
	heads := 0
	for i, l := range lines {
		if strings.TrimRight(l, "\r") == head {
			heads++
			if i > 0 {
				w.bad("C17", "header", "%s: the header appears in line %d", name, i+1)
			}
		}
	}
	if !damaged && heads != 1 && any {
		w.bad("C17", "header", "%s: %d headers; it begins with %.100q", name, heads, lines[0])
		return
	}
	match := func(l string, r *logRow, suffix bool) bool {
		c := strings.Split(strings.TrimRight(l, "\r"), ",")
		if len(c) < 5 || (len(c) > 5 && !suffix) {
			return false
		}
		c = c[len(c)-5:]
		for i, t := range c {
			v, err := strconv.ParseFloat(t, 64)
			if err == nil && near(v, r.vals[i]) {
				continue
			}
			if suffix && i == 0 { // glued to the rest of a line that was cut short
				want := fmt.Sprintf("%f", r.vals[0])
				if strings.HasSuffix(t, want) {
					continue
				}
			}
			return false
		}
		return true
	}
	k := 0
	if heads > 0 {
		k = 1
	}
	for _, r := range rows {
		if !damaged {
			if k < len(lines) && match(lines[k], r, false) {
				k++
				continue
			}
			if !r.ret {
				continue
			}
			got := "nothing"
			if k < len(lines) {
				got = lines[k]
			}
			w.bad("C17", "row", "%s: line %d should be the record %.6f of %v, found %.150q", name, k+1, r.vals, r.by, got)
			return
		}
		if !r.ret {
			continue
		}
		for k < len(lines) && !match(lines[k], r, true) {
			k++
		}
		if k == len(lines) {
			w.bad("C17", "row-lost", "%s: the record %.6f of %v is missing or out of order", name, r.vals, r.by)
			return
		}
		k++
	}
	if !damaged && k < len(lines) {
		w.bad("C17", "extra", "%s: line %d %.150q was never logged", name, k+1, lines[k])
	}
}
