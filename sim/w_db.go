package main

import (
	"database/sql"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
)

// The database world: simulations (writers), readers and the gopf command line
// share one database file on the simulated disk.

const dbName = "sim.db"

// opRec is one operation of the history with the rows it is meant to store
type opRec struct {
	proc  *Proc
	prog  *ProcProg
	idx   int
	kind  string
	epoch int
	first bool // first operation of its FieldDB
	inv   int
	ret   int
	wmin  int64
	wmax  int64
	// expected content
	fields []string
	data   [][]float64 // per field
	kv     map[string]float64
	txt    map[string]string
	// observation of the final state
	seen map[string]int
	sims map[int64]int
}

func (o *opRec) rows() int {
	n := 0
	for _, d := range o.data {
		n += len(d)
	}
	return n + len(o.kv) + len(o.txt)
}

func (o *opRec) String() string {
	return fmt.Sprintf("P%d op %d %s(%d)", o.proc.id, o.idx, o.kind, o.epoch)
}

type loadRec struct {
	o      *opRec
	target int
	ts     int
	last   bool
	names  []string
	data   [][]complex128
}

// peekRec is what a plain SQL reader saw of a table
type peekRec struct {
	o      *opRec
	table  string
	fields []fieldRow
	kv     []kvRow
}

type fieldRow struct {
	name  string
	value float64
	null  bool
	pos   int64
	ts    int64
	sim   int64
}

type kvRow struct {
	key  string
	val  float64
	null bool
	txt  string
	ts   int64
	sim  int64
}

type cliRec struct {
	o      *opRec
	args   []string
	what   string
	target int // process whose simulation is queried (-1: newest or all)
	sim    int64
	step   int
	out    string
	newmsg string
	name   string
	files  map[string]string
	before int // events
	acked  bool
	none   bool // there is no simulation of this ID
}

type dbState struct {
	outNames map[string]bool
	sim      *Sim
	ops      []*opRec
	loads    []*loadRec
	peeks    []*peekRec
	clis     []*cliRec
	procs    []*Proc
	progs    []*ProcProg
	cli      *Proc
	// regs: when the FieldDB of a process registered (first acknowledged op)
	faults bool
}

// ---- values ---------------------------------------------------------------

// uniq returns a value that no other (proc, kind, epoch, k, node) has
func uniq(style int, a ...uint64) float64 {
	h := mix(append([]uint64{0xda7a}, a...)...)
	m := math.Float64frombits(0x3ff0000000000000|h>>12) - 1 // [0, 1)
	switch style % 4 {
	case 0:
		return m
	case 1:
		return m*2000 - 1000
	case 2: // any exponent
		e := int(h%1200) - 600
		v := math.Ldexp(1+m, e)
		if h&1 == 0 {
			v = -v
		}
		return v
	}
	return (m - 0.5) * 1e-3
}

var specials = []float64{0, 1, -1, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-310, 0.1, 3, 1 << 53, -1e18}

func isSpecial(v float64) bool {
	for _, s := range specials {
		if s == v {
			return true
		}
	}
	return false
}

// fieldValue is the value of a node; node 0 is always unique
func fieldValue(style, proc, epoch, field, node int) float64 {
	if style >= 4 && node > 0 && mix(uint64(proc), uint64(epoch), uint64(field), uint64(node), 5)%3 == 0 {
		return specials[mix(uint64(proc), uint64(epoch), uint64(field), uint64(node))%uint64(len(specials))]
	}
	return uniq(style, uint64(proc), uint64(epoch), uint64(field), uint64(node), 1)
}

// ---- execution --------------------------------------------------------------

func (st *dbState) begin(p *Proc, prog *ProcProg, idx int, kind string, epoch int) *opRec {
	o := &opRec{proc: p, prog: prog, idx: idx, kind: kind, epoch: epoch, seen: map[string]int{}, sims: map[int64]int{}}
	st.ops = append(st.ops, o)
	return o
}

// do runs an operation of the workload; it returns only if the operation returned
func (st *dbState) do(o *opRec, fn func()) {
	s := st.sim
	o.inv = s.seq + 1
	if o.prog.Opt["tolerant"] == 1 {
		// the program survives the panic of an operation and goes on
		defer func() {
			if r := recover(); r != nil {
				s.event(o.proc, "fail", fmt.Sprint(r))
				s.tracef("%6d P%d op %d panicked, the program goes on: %v", s.seq, o.proc.id, o.idx, r)
				s.probe("survived-panic")
				o.proc.seeClock(s.wallNow(o.proc))
				o.wmin, o.wmax = o.proc.wmin, o.proc.wmax
				o.proc.curOp = -1
			}
		}()
	}
	s.op(o.proc, o.idx, fmt.Sprintf("%s %d", o.kind, o.epoch), fn)
	o.ret = s.seq
	o.wmin, o.wmax = o.proc.wmin, o.proc.wmax
}

func dbExec(s *Sim) interface{} {
	st := &dbState{sim: s, outNames: map[string]bool{}}
	n := 0
	for _, ph := range s.plan.Program.Phases {
		for i := range ph {
			prog := &ph[i]
			if prog.Opt["recover"] == 1 {
				prog = st.recoverProg(prog)
			}
			fn := st.writer
			switch prog.Kind {
			case "reader":
				fn = st.writer
			case "cli":
				fn = st.cliProc
			}
			p := s.spawn(fmt.Sprintf("%s%d", prog.Kind, n), func(p *Proc) { fn(p, prog) })
			st.procs = append(st.procs, p)
			st.progs = append(st.progs, prog)
			n++
		}
		s.run()
		if s.overrun {
			break
		}
	}
	return st
}

// recoverProg adapts the program that runs after all faults: it uses the domain
// that the database already has
func (st *dbState) recoverProg(pp *ProcProg) *ProcProg { return pp }

func buildModel(prog *ProcProg, proc, epoch int, names []string) (*pf.Solver, [][]float64) {
	n := pfutil.ProdInt(prog.Dom)
	m := pf.NewModel()
	data := make([][]float64, len(names))
	for f, name := range names {
		c := make([]complex128, n)
		data[f] = make([]float64, n)
		for i := range c {
			data[f][i] = fieldValue(prog.Opt["style"], proc, epoch, f, i)
			c[i] = complex(data[f][i], float64(i)+0.5)
		}
		m.AddField(pf.NewField(name, n, c))
	}
	return &pf.Solver{Model: &m, Dt: 1}, data
}

func (st *dbState) writer(p *Proc, prog *ProcProg) {
	s := st.sim
	db, err := sql.Open("sqlite3", dbName)
	if err != nil {
		panic(err)
	}
	if prog.opt("oneconn", 0) == 1 {
		db.SetMaxOpenConns(1)
		s.probe("one-connection")
	}
	fdb := &pf.FieldDB{DB: db, DomainSize: prog.Dom}
	first := true
	begin := func(idx int, kind string, epoch int) *opRec {
		o := st.begin(p, prog, idx, kind, epoch)
		switch kind {
		case "save", "ts", "attr", "text", "comment":
			o.first = first
			first = false
		}
		return o
	}
	for idx, op := range prog.Ops {
		switch op.K {
		case "save":
			names := prog.S
			if k := opN(op, 1); k > 0 && k < len(names) {
				names = names[:k]
			}
			solver, data := buildModel(prog, p.id, op.N[0], names)
			o := begin(idx, "save", op.N[0])
			o.fields, o.data = names, data
			st.do(o, func() { fdb.SaveFields(solver, op.N[0]) })
		case "ts":
			o := begin(idx, "ts", op.N[0])
			o.kv = kvOf(p.id, idx, op, prog.Opt["style"], "ts")
			arg := copyKV(o.kv)
			st.do(o, func() { fdb.TimeSeries(arg, op.N[0]) })
		case "attr":
			o := begin(idx, "attr", 0)
			o.kv = kvOf(p.id, idx, op, prog.Opt["style"], "attr")
			arg := copyKV(o.kv)
			st.do(o, func() { fdb.SetAttr(arg) })
		case "text":
			o := begin(idx, "text", 0)
			o.txt = map[string]string{}
			arg := map[string]string{}
			for k, key := range op.S {
				o.txt[key] = textValue(p.id, idx, k, op.N)
				if h := mix(uint64(p.id), uint64(idx), uint64(k), 79); key != minKey(op.S) && h%3 == 0 {
					o.txt[key] = commonText
					if h%2 == 0 && len(op.N) > 0 && op.N[0] > 0 {
						o.txt[key] = ""
					}
				}
				arg[key] = o.txt[key]
			}
			st.do(o, func() { fdb.SetTextAttr(arg) })
		case "comment":
			o := begin(idx, "comment", 0)
			c := textValue(p.id, idx, 0, op.N)
			o.txt = map[string]string{"": c}
			st.do(o, func() { fdb.Comment(c) })
		case "solve":
			st.solveOp(p, prog, fdb, idx, op, begin)
		case "load", "loadlast":
			id, ok := st.lookup(p, db, op.N[0])
			if !ok {
				continue
			}
			o := begin(idx, op.K, 0)
			lr := &loadRec{o: o, target: op.N[0], last: op.K == "loadlast"}
			if !lr.last {
				lr.ts = op.N[1]
				o.epoch = lr.ts
			}
			st.do(o, func() {
				var fs []pf.Field
				if lr.last {
					fs = fdb.LoadLast(id)
				} else {
					fs = fdb.Load(id, lr.ts)
				}
				for _, f := range fs {
					lr.names = append(lr.names, f.Name)
					lr.data = append(lr.data, append([]complex128(nil), f.Data...))
				}
			})
			if o.ret > 0 {
				st.loads = append(st.loads, lr)
			}
		case "peek":
			o := begin(idx, "peek", 0)
			pk := &peekRec{o: o, table: op.S[0]}
			ok := false
			st.do(o, func() {
				var err error
				if pk.table == "fields" {
					pk.fields, err = readFieldRows(db)
				} else {
					pk.kv, err = readKV(db, pk.table)
				}
				ok = err == nil
			})
			if ok {
				st.peeks = append(st.peeks, pk)
			}
		case "sleep":
			o := begin(idx, "sleep", 0)
			st.do(o, func() { time.Sleep(time.Duration(op.N[0]) * time.Millisecond) })
		}
		s.hit("between")
	}
	if prog.Opt["close"] == 1 {
		db.Close()
	}
}

// solveOp runs the real solver with SaveFields attached as callback
func (st *dbState) solveOp(p *Proc, prog *ProcProg, fdb *pf.FieldDB, idx int, op Op, begin func(int, string, int) *opRec) {
	n := pfutil.ProdInt(prog.Dom)
	m := pf.NewModel()
	for f, name := range prog.S {
		c := make([]complex128, n)
		for i := range c {
			c[i] = complex(uniq(0, uint64(p.id), uint64(idx), uint64(f), uint64(i), 9), 0)
		}
		m.AddField(pf.NewField(name, n, c))
	}
	k := pf.NewScalar("m1", complex(-0.5, 0))
	m.AddScalar(k)
	for _, name := range prog.S {
		m.AddEquation(fmt.Sprintf("d%s/dt = m1*%s", name, name))
	}
	solver := pf.NewSolver(&m, prog.Dom, 0.01)
	solver.StartEpoch = op.N[0]
	var cur *opRec
	s := st.sim
	solver.AddCallback(func(sv *pf.Solver, epoch int) {
		cur = begin(idx*1000+epoch, "save", epoch)
		cur.fields = prog.S
		for _, f := range sv.Model.Fields {
			d := make([]float64, len(f.Data))
			for i := range d {
				d[i] = real(f.Data[i])
			}
			cur.data = append(cur.data, d)
		}
		p.curOp = cur.idx
		p.wmin, p.wmax = s.wallNow(p), s.wallNow(p)
		cur.inv = s.event(p, "inv", "solve-save")
		s.hit("op")
	})
	solver.AddCallback(fdb.SaveFields)
	solver.AddCallback(func(sv *pf.Solver, epoch int) {
		p.seeClock(s.wallNow(p))
		cur.ret = s.event(p, "ret", "")
		cur.wmin, cur.wmax = p.wmin, p.wmax
		p.curOp = -1
	})
	solver.Solve(op.N[1], 1)
}

func copyKV(m map[string]float64) map[string]float64 {
	c := map[string]float64{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func kvOf(proc, idx int, op Op, style int, what string) map[string]float64 {
	m := map[string]float64{}
	for k, key := range op.S {
		e := 0
		if len(op.N) > 0 {
			e = op.N[0]
		}
		m[key] = uniq(style, uint64(proc), hashStr(what), uint64(idx), uint64(e), uint64(k), 2)
		if h := mix(uint64(proc), uint64(idx), uint64(e), uint64(k), hashStr(what), 77); key != minKey(op.S) && h%3 == 0 {
			m[key] = common(key)[h/3%4]
		}
	}
	return m
}

// common lists values that several calls store under a key
func common(key string) []float64 {
	return []float64{0, 1, -1, uniq(0, hashStr(key), 78)}
}

const commonText = "the same everywhere"

func isCommon(key string, v float64) bool {
	for _, x := range common(key) {
		if v == x {
			return true
		}
	}
	return false
}

// minKey is the key whose value identifies a call
func minKey(keys []string) string {
	m := keys[0]
	for _, k := range keys {
		if k < m {
			m = k
		}
	}
	return m
}

// textValue is a unique text; N[1] selects odd content
func textValue(proc, idx, k int, n []int) string {
	t := fmt.Sprintf("w%d.%d.%d", proc, idx, k)
	style := 0
	if len(n) > 0 {
		style = n[0]
	}
	switch style {
	case 1:
		return t + " it's \"quoted\"; DROP TABLE fields; -- æøå ψ₀"
	case 2:
		return "first line " + t + "\nsecond line\n"
	case 3:
		return strings.Repeat("long comment ", 40) + t
	case 4:
		return t + strings.Repeat("x", 300)
	case 5:
		return "  " + t + "\t%d %s \\n"
	}
	return t
}

// lookup finds the simulation ID under which process target stored its data, as a
// user would: through the documented tables
func (st *dbState) lookup(p *Proc, db *sql.DB, target int) (int, bool) {
	for _, o := range st.ops {
		if o.proc.id != target || o.rows() == 0 {
			continue
		}
		var row *sql.Row
		switch {
		case len(o.data) > 0:
			row = db.QueryRow("SELECT simID FROM fields WHERE value=? AND timestep=? LIMIT 1", o.data[0][0], o.epoch)
		case o.kind == "ts":
			row = db.QueryRow("SELECT simID FROM timeseries WHERE value=? LIMIT 1", anyVal(o.kv))
		case o.kind == "attr":
			row = db.QueryRow("SELECT simID FROM simAttributes WHERE value=? LIMIT 1", anyVal(o.kv))
		case o.kind == "text":
			row = db.QueryRow("SELECT simID FROM simTextAttributes WHERE value=? LIMIT 1", anyTxt(o.txt))
		case o.kind == "comment":
			row = db.QueryRow("SELECT simID FROM comments WHERE value=? LIMIT 1", strings.ReplaceAll(o.txt[""], "\n", " "))
		}
		var id int
		if row == nil || row.Scan(&id) != nil {
			if o.ret > 0 {
				continue
			}
			return 0, false
		}
		return id, true
	}
	return 0, false
}

func anyVal(m map[string]float64) float64 {
	ks := keysOf(m)
	return m[ks[0]]
}

func anyTxt(m map[string]string) string {
	ks := keysOf(m)
	return m[ks[0]]
}

func keysOf[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func readFieldRows(db *sql.DB) ([]fieldRow, error) {
	rows, err := db.Query("SELECT name, value, positionId, timestep, simID FROM fields")
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out []fieldRow
	for rows.Next() {
		var r fieldRow
		var v sql.NullFloat64
		if err := rows.Scan(&r.name, &v, &r.pos, &r.ts, &r.sim); err != nil {
			return nil, err
		}
		r.value, r.null = v.Float64, !v.Valid
		out = append(out, r)
	}
	return out, rows.Err()
}

func readKV(db *sql.DB, table string) ([]kvRow, error) {
	q := map[string]string{
		"timeseries":        "SELECT key, value, timestep, simID FROM timeseries",
		"simAttributes":     "SELECT key, value, 0, simID FROM simAttributes",
		"simTextAttributes": "SELECT key, value, 0, simID FROM simTextAttributes",
		"comments":          "SELECT '', value, 0, simID FROM comments",
	}[table]
	rows, err := db.Query(q)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out []kvRow
	for rows.Next() {
		var r kvRow
		if table == "timeseries" || table == "simAttributes" {
			var v sql.NullFloat64
			if err := rows.Scan(&r.key, &v, &r.ts, &r.sim); err != nil {
				return nil, err
			}
			r.val, r.null = v.Float64, !v.Valid
		} else {
			var v sql.NullString
			if err := rows.Scan(&r.key, &v, &r.ts, &r.sim); err != nil {
				return nil, err
			}
			r.txt, r.null = v.String, !v.Valid
		}
		out = append(out, r)
	}
	return out, rows.Err()
}

// ---- the command line -------------------------------------------------------

func (st *dbState) cliProc(p *Proc, prog *ProcProg) {
	s := st.sim
	// the command tree of the program is global: one command at a time
	for st.cli != nil && st.cli.state != stDone {
		s.hit("cliwait")
		s.sleep(p, 2e6, true)
	}
	st.cli = p
	for idx, op := range prog.Ops {
		st.cliOp(p, prog, idx, op)
	}
}

// cliOp: K is the command; N[0] the process whose simulation is meant (-1: newest),
// N[1] the timestep
func (st *dbState) cliOp(p *Proc, prog *ProcProg, idx int, op Op) {
	target, step := -1, 0
	if len(op.N) > 0 {
		target = op.N[0]
	}
	if len(op.N) > 1 {
		step = op.N[1]
	}
	sim := -1
	if target >= 0 && prog.opt("nosim", 0) == 0 {
		db, err := sql.Open("sqlite3", dbName)
		if err != nil {
			return
		}
		id, ok := st.lookup(p, db, target)
		db.Close()
		if !ok {
			return
		}
		sim = id
	}
	none := prog.opt("nosim", 0) > 0
	if none {
		target, sim = -1, prog.opt("nosim", 0)-1
	}
	c := &cliRec{what: op.K, target: target, sim: int64(sim), step: step, none: none, files: map[string]string{}}
	out := fmt.Sprintf("out%d.csv", p.id)
	c.out = out
	style := mix(uint64(prog.opt("argstyle", 0)), uint64(p.id), uint64(idx))
	id := cliFlag{"simid", "i", fmt.Sprint(sim), "-1", false}
	words := func(cmd string) []string { return []string{"db", cmd, dbName} }
	export := func(typ string, step int, all bool) []string {
		o, def := c.out, ""
		if n := fmt.Sprintf("%s_%d.csv", typ, sim); op.K != "export-all" && sim >= 0 && style%5 == 0 && !st.outNames[n] {
			c.out, o = n, "" // the name that is chosen by the command
			st.outNames[n] = true
		}
		s := st.sim
		if prog.opt("stale", 0) > 0 { // files of these names exist already
			s.quietly(func() {
				for _, f := range []string{c.out, c.out + "0.csv", c.out + "1.csv", c.out + "2.csv"} {
					os.WriteFile(f, stale(prog.opt("stale", 0)), 0644)
				}
			})
		}
		return cliArgs(style, words("export"), cliFlag{"type", "t", typ, "timeseries", false}, cliFlag{"out", "o", o, def, false}, id,
			cliFlag{"timestep", "s", fmt.Sprint(step), "0", false}, cliFlag{"all", "a", fmt.Sprint(all), "false", true})
	}
	switch op.K {
	case "export-ts":
		c.args = export([]string{"timeseries", "timeseries", "ts"}[style/7%3], 0, false)
	case "export-fd":
		c.args = export([]string{"field", "fieldData", "fd", "fielddata"}[style/7%4], step, false)
	case "export-all":
		c.out = fmt.Sprintf("all%d_", p.id)
		c.args = export([]string{"field", "fieldData", "fd", "fielddata"}[style/7%4], 0, true)
	case "comment-new":
		c.newmsg = textValue(p.id, idx, 0, op.N[2:])
		c.args = cliArgs(style, words("comment"), id, cliFlag{"new", "n", c.newmsg, "", false})
	case "comment-show":
		c.args = cliArgs(style, words("comment"), id, cliFlag{"new", "n", "", "", false})
	case "comment-all":
		c.args = cliArgs(style, words("comment"), cliFlag{"simid", "i", "-1", "-1", false}, cliFlag{"new", "n", "", "", false})
	case "attr", "attr-unique", "attr-name":
		name := ""
		if op.K == "attr-name" {
			name = op.S[0]
			c.name = name
		}
		c.args = cliArgs(style, words("attr"), id, cliFlag{"unique", "u", fmt.Sprint(op.K == "attr-unique"), "false", true}, cliFlag{"name", "n", name, "", false})
	case "info":
		c.args = words("info")
	case "list-id":
		c.args = cliArgs(style, words("list"), cliFlag{"content", "c", "simId", "simId", false}, cliFlag{"max", "m", fmt.Sprint(step), "20", false})
	case "list-comment":
		c.args = cliArgs(style, words("list"), cliFlag{"content", "c", "comment", "simId", false}, cliFlag{"max", "m", fmt.Sprint(step), "20", false})
	case "time":
		c.args = cliArgs(style, words("time"), id)
	default:
		panic("unknown command " + op.K)
	}
	o := st.begin(p, prog, idx, op.K, step)
	c.o = o
	st.clis = append(st.clis, c)
	st.do(o, func() {
		os.Args = append([]string{"gopf"}, c.args...)
		resetFlags()
		cmd.Execute()
	})
	c.acked = true
}
