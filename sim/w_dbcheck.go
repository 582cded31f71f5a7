package main

import (
	"database/sql"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/davidkleiven/gopf/pfutil"
)

// posOf is the documented node numbering: 2D (row, col), 3D (row, col, depth)
func posOf(dom []int, n int) [3]int64 {
	if len(dom) == 2 {
		return [3]int64{int64(n / dom[1]), int64(n % dom[1]), 0}
	}
	return [3]int64{int64((n / dom[1]) % dom[0]), int64(n % dom[1]), int64(n / (dom[0] * dom[1]))}
}

func dom3(d []int) [3]int {
	r := [3]int{1, 1, 1}
	copy(r[:], d)
	return r
}

// dbFinal is the content of the database after everything ended
type dbFinal struct {
	fields    []fieldRow
	kv        map[string][]kvRow
	positions [][4]int64 // id x y z
	sims      []simRow
	integrity string
	err       error
}

type simRow struct {
	id int64
	at string
}

func isNoTable(err error) bool { return err != nil && strings.Contains(err.Error(), "no such table") }

func (st *dbState) readFinal() *dbFinal {
	f := &dbFinal{kv: map[string][]kvRow{}}
	db, err := sql.Open("sqlite3", dbName)
	if err != nil {
		f.err = err
		return f
	}
	defer db.Close()
	fail := func(err error) bool {
		if err != nil && !isNoTable(err) && f.err == nil {
			f.err = err
		}
		return err != nil
	}
	f.fields, err = readFieldRows(db)
	fail(err)
	for _, t := range []string{"timeseries", "simAttributes", "simTextAttributes", "comments"} {
		r, err := readKV(db, t)
		fail(err)
		f.kv[t] = r
	}
	if rows, err := db.Query("SELECT id, X, Y, Z FROM positions ORDER BY id"); !fail(err) {
		for rows.Next() {
			var r [4]int64
			if fail(rows.Scan(&r[0], &r[1], &r[2], &r[3])) {
				break
			}
			f.positions = append(f.positions, r)
		}
		fail(rows.Err())
		rows.Close()
	}
	if rows, err := db.Query("SELECT simID, creationTime FROM simIDs ORDER BY rowid"); !fail(err) {
		for rows.Next() {
			var r simRow
			if fail(rows.Scan(&r.id, &r.at)) {
				break
			}
			f.sims = append(f.sims, r)
		}
		fail(rows.Err())
		rows.Close()
	}
	if rows, err := db.Query("PRAGMA integrity_check"); !fail(err) {
		for rows.Next() {
			var t string
			rows.Scan(&t)
			f.integrity += t
		}
		rows.Close()
	}
	return f
}

// index of the expected content
type cell struct {
	o     *opRec
	field int
	node  int
	key   string
}

type dbOracle struct {
	st    *dbState
	final *dbFinal
	viol  []Violation
	fidx  map[float64]cell // unique field values
	kidx  map[string]map[float64]cell
	tidx  map[string]map[string]cell
	clean bool // no fault was planned
	simOf map[*Proc]int64
}

func (q *dbOracle) bad(prop, oracle, format string, args ...interface{}) {
	if len(q.viol) < 60 {
		q.viol = append(q.viol, Violation{prop, oracle, fmt.Sprintf(format, args...)})
	}
}

func (q *dbOracle) buildIndex() {
	q.fidx = map[float64]cell{}
	q.kidx = map[string]map[float64]cell{"timeseries": {}, "simAttributes": {}}
	q.tidx = map[string]map[string]cell{"simTextAttributes": {}, "comments": {}}
	for _, o := range q.st.ops {
		for f := range o.data {
			for i, v := range o.data[f] {
				if !isSpecial(v) {
					q.fidx[v] = cell{o: o, field: f, node: i}
				}
			}
		}
		for k, v := range o.kv {
			t := "timeseries"
			if o.kind == "attr" {
				t = "simAttributes"
			}
			if !isCommon(k, v) {
				q.kidx[t][v] = cell{o: o, key: k}
			}
		}
		for k, v := range o.txt {
			if o.kind == "comment" {
				q.tidx["comments"][v] = cell{o: o, key: k}
				q.tidx["comments"][strings.ReplaceAll(v, "\n", " ")] = cell{o: o, key: k}
			} else if v != commonText && v != "" {
				q.tidx["simTextAttributes"][v] = cell{o: o, key: k}
			}
		}
	}
}

// attribution of the rows of a table (final state or as seen by a reader)
type seenSet struct {
	n    map[*opRec]map[string]int
	sims map[*opRec]map[int64]int
}

func newSeen() *seenSet {
	return &seenSet{n: map[*opRec]map[string]int{}, sims: map[*opRec]map[int64]int{}}
}

func (ss *seenSet) add(o *opRec, cell string, sim int64) {
	if ss.n[o] == nil {
		ss.n[o] = map[string]int{}
		ss.sims[o] = map[int64]int{}
	}
	ss.n[o][cell]++
	ss.sims[o][sim]++
}

// fieldsSeen attributes rows of the fields table to operations; wrong content is
// reported by bad
func (q *dbOracle) fieldsSeen(rows []fieldRow, ss *seenSet, bad func(string, ...interface{})) {
	type gk struct{ sim, ts int64 }
	owner := map[gk]*opRec{}
	var later []fieldRow
	for _, r := range rows {
		c, ok := q.fidx[r.value]
		if r.null || !ok {
			later = append(later, r)
			continue
		}
		o := c.o
		if o.fields[c.field] != r.name || int64(c.node) != r.pos || int64(o.epoch) != r.ts {
			bad("value %v stored by %v as field %q node %d step %d appears as field %q node %d step %d", r.value, o, o.fields[c.field], c.node, o.epoch, r.name, r.pos, r.ts)
			continue
		}
		ss.add(o, fmt.Sprintf("%d/%d", c.field, c.node), r.sim)
		owner[gk{r.sim, r.ts}] = o
	}
	for _, r := range later {
		o := owner[gk{r.sim, r.ts}]
		if o == nil { // no attributable row in this group: any operation with this step that expects it
			for _, x := range q.st.ops {
				if len(x.data) > 0 && int64(x.epoch) == r.ts && x.expects(r) >= 0 {
					o = x
					break
				}
			}
		}
		if o != nil {
			if f := o.expects(r); f >= 0 {
				ss.add(o, fmt.Sprintf("%d/%d", f, r.pos), r.sim)
				continue
			}
		}
		if r.null {
			bad("field %q node %d step %d sim %d holds NULL", r.name, r.pos, r.ts, r.sim)
		} else {
			bad("field %q node %d step %d sim %d holds %v, which nobody stored there", r.name, r.pos, r.ts, r.sim, r.value)
		}
	}
}

func (o *opRec) expects(r fieldRow) int {
	for f, name := range o.fields {
		if name == r.name && r.pos >= 0 && r.pos < int64(len(o.data[f])) && o.data[f][r.pos] == r.value && !r.null {
			return f
		}
	}
	return -1
}

func (q *dbOracle) kvSeen(table string, rows []kvRow, ss *seenSet, bad func(string, ...interface{})) {
	// Values that several calls store belong to a call whose own values are there
	owner := map[int64]*Proc{}
	var later []kvRow
	defer func() {
		for _, r := range later {
			var best *opRec
			for _, o := range q.st.ops {
				v, has := o.kv[r.key]
				t, hasT := o.txt[r.key]
				if o.table() != table || !(has && v == r.val || hasT && t == r.txt) || table == "timeseries" && int64(o.epoch) != r.ts {
					continue
				}
				if p := owner[r.sim]; p != nil && p != o.proc {
					continue
				}
				if ss.n[o] != nil && ss.n[o][r.key] == 0 {
					best = o
					break
				}
				if best == nil {
					best = o
				}
			}
			if best == nil {
				bad("table %s: key %q of sim %d holds %v%q, which nobody stored", table, r.key, r.sim, r.val, r.txt)
				continue
			}
			ss.add(best, r.key, r.sim)
		}
	}()
	for _, r := range rows {
		if table == "comments" {
			if q.updated(r) {
				continue
			}
		}
		var c cell
		var ok bool
		if m := q.kidx[table]; m != nil {
			c, ok = m[r.val]
		} else {
			c, ok = q.tidx[table][r.txt]
		}
		if r.null {
			ok = false
		} else if !ok && (q.kidx[table] != nil && isCommon(r.key, r.val) || table == "simTextAttributes" && (r.txt == "" || r.txt == commonText)) {
			later = append(later, r)
			continue
		}
		if !ok {
			bad("table %s: key %q of sim %d holds %v%q, which nobody stored", table, r.key, r.sim, r.val, r.txt)
			continue
		}
		if c.key != r.key || (table == "timeseries" && int64(c.o.epoch) != r.ts) {
			bad("table %s: value stored by %v under key %q step %d appears under key %q step %d", table, c.o, c.key, c.o.epoch, r.key, r.ts)
			continue
		}
		ss.add(c.o, c.key, r.sim)
		owner[r.sim] = c.o.proc
	}
}

// updated tells if a comment row carries a text written by the command line
func (q *dbOracle) updated(r kvRow) bool {
	for _, c := range q.st.clis {
		if c.what == "comment-new" && c.newmsg == r.txt {
			return true
		}
	}
	return false
}

func (q *dbOracle) commentTouched(p *Proc) bool {
	for _, c := range q.st.clis {
		if c.what == "comment-new" && c.target == p.id {
			return true
		}
	}
	return false
}

func (o *opRec) writes() bool { return o.table() != "" }

func (o *opRec) table() string {
	switch o.kind {
	case "save":
		return "fields"
	case "ts":
		return "timeseries"
	case "attr":
		return "simAttributes"
	case "text":
		return "simTextAttributes"
	case "comment":
		return "comments"
	}
	return ""
}

// judge compares what is visible of an operation with what it stored
func judge(o *opRec, n map[string]int) (present, dup int) {
	for _, c := range n {
		present++
		if c > 1 {
			dup++
		}
	}
	return
}

func dbCheck(s *Sim, sti interface{}) []Violation {
	st := sti.(*dbState)
	q := &dbOracle{st: st, clean: len(s.plan.Faults) == 0, simOf: map[*Proc]int64{}}
	if s.overrun {
		for _, id := range []string{"C18", s.plan.Property} {
			q.bad(id, "no-progress", "the processes did not finish within %d seam operations and %d statements (%.1f simulated seconds)", s.maxSteps, maxPoints, float64(s.now)/1e9)
		}
		return q.viol
	}
	q.buildIndex()
	q.final = st.readFinal()
	f := q.final
	if f.err != nil {
		q.bad("C02", "unreadable", "the database cannot be read after all processes ended: %v", f.err)
		return q.viol
	}
	if f.integrity != "ok" {
		q.bad("C02", "integrity", "PRAGMA integrity_check: %.200s", f.integrity)
	}
	q.checkContent()
	q.checkIdentity()
	q.checkGrid()
	q.checkLoads()
	q.checkPeeks()
	q.checkLiveness()
	q.checkCLI()
	return q.viol
}

func (q *dbOracle) checkContent() {
	ss := newSeen()
	badFinal := func(format string, args ...interface{}) {
		q.bad("C02", "wrong-content", format, args...)
	}
	q.fieldsSeen(q.final.fields, ss, badFinal)
	for _, t := range []string{"timeseries", "simAttributes", "simTextAttributes", "comments"} {
		q.kvSeen(t, q.final.kv[t], ss, badFinal)
	}
	for _, o := range q.st.ops {
		if o.rows() == 0 {
			continue
		}
		o.seen = ss.n[o]
		if ss.sims[o] != nil {
			o.sims = ss.sims[o]
		}
		if o.kind == "comment" && q.commentTouched(o.proc) {
			continue // judged by the comment model
		}
		present, dup := judge(o, o.seen)
		if dup > 0 {
			q.bad("C02", "duplicate", "%v: %d of its %d rows are stored more than once", o, dup, o.rows())
		}
		switch {
		case o.ret > 0 && present < o.rows():
			q.bad("C02", "lost", "%v returned normally, but %d of its %d rows are missing", o, o.rows()-present, o.rows())
			if present > 0 {
				q.bad("C01", "partial-acknowledged", "%v: %d of its %d rows are stored", o, present, o.rows())
			}
		case o.ret == 0 && present > 0 && present < o.rows():
			q.bad("C01", "partial", "%v did not return (process: %s %.60s): %d of its %d rows are stored", o, o.proc.exit, firstLine(o.proc.exitMsg), present, o.rows())
		}
		if present > 0 && o.ret == 0 {
			q.st.sim.probe("unacked-committed")
		}
	}
}

func (q *dbOracle) checkIdentity() {
	st := q.st
	reg := map[int64]simRow{}
	nreg := map[int64]int{}
	for _, r := range q.final.sims {
		reg[r.id] = r
		nreg[r.id]++
	}
	owner := map[int64]*Proc{}
	started := 0
	for pi, p := range st.procs {
		ids := map[int64]int{}
		var firstAck, firstOp *opRec
		for _, o := range st.ops {
			if o.proc != p {
				continue
			}
			if o.first {
				firstOp = o
			}
			if firstOp != nil && firstAck == nil && o.writes() {
				started++ // a registration that failed may have taken effect
			}
			for id, n := range o.sims {
				ids[id] += n
			}
			if o.ret > 0 && firstAck == nil && (o.first || o.rows() > 0) {
				firstAck = o
			}
		}
		_ = pi
		if len(ids) > 1 {
			q.bad("C03", "several-ids", "the rows of one simulation (P%d) carry %d different simulation IDs", p.id, len(ids))
		}
		var list []int64
		for id := range ids {
			list = append(list, id)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		for _, id := range list {
			q.simOf[p] = id
			if o := owner[id]; o != nil && o != p {
				q.bad("C03", "shared-id", "simulations P%d and P%d store their data under the same ID %d", o.id, p.id, id)
			}
			owner[id] = p
			if nreg[id] != 1 {
				q.bad("C03", "not-registered", "simulation ID %d of P%d has %d entries in the list of simulations", id, p.id, nreg[id])
			}
			if id <= 0 {
				q.bad("C03", "bad-id", "simulation ID %d", id)
			}
			if r, ok := reg[id]; ok && firstOp != nil && firstOp.ret > 0 {
				t, err := time.Parse("2006-01-02 15:04:05", r.at)
				t = t.Add(-tzOffset * time.Second)
				if err != nil {
					q.bad("C03", "creation-time", "creation time %q of simulation %d", r.at, id)
				} else if t.Unix() < floorSec(firstOp.wmin)-1 || t.Unix() > floorSec(firstOp.wmax)+1 {
					q.bad("C03", "creation-time", "simulation of P%d was created at %s, but the clock read %s to %s then", p.id, r.at,
						time.Unix(tzOffset, firstOp.wmin).UTC().Format("2006-01-02 15:04:05"), time.Unix(tzOffset, firstOp.wmax).UTC().Format("2006-01-02 15:04:05"))
				}
			}
		}
	}
	if len(q.final.sims) > started {
		q.bad("C03", "extra-registration", "%d simulations are registered, but only %d were started", len(q.final.sims), started)
	}
	// every simulation with an acknowledged operation is registered
	acks := 0
	for _, p := range st.procs {
		for _, o := range st.ops {
			if o.proc == p && o.ret > 0 && o.first {
				acks++
			}
		}
	}
	if len(q.final.sims) < acks {
		q.bad("C03", "missing-registration", "%d simulations stored something successfully, %d are registered", acks, len(q.final.sims))
	}
}

// tzOffset is the offset of the simulated machine's time zone (file .build/tz)
const tzOffset = 19800

func floorSec(ns int64) int64 { return int64(math.Floor(float64(ns) / 1e9)) }

func (q *dbOracle) checkGrid() {
	pos := q.final.positions
	var match []int
	for _, o := range q.st.ops {
		if o.kind != "save" {
			continue
		}
		if q.gridIs(o.prog.Dom) {
			match = o.prog.Dom
		}
	}
	if len(pos) > 0 && match == nil {
		exp := []string{}
		for _, p := range q.st.progs {
			if len(p.Dom) > 0 {
				exp = append(exp, fmt.Sprint(p.Dom))
			}
		}
		q.bad("C04", "grid", "the positions table (%d rows, first %v, last %v) is not the complete grid of any simulation (%s)", len(pos), pos[0], pos[len(pos)-1], strings.Join(exp, " "))
		return
	}
	for _, o := range q.st.ops {
		if o.kind != "save" {
			continue
		}
		if o.ret > 0 && len(pos) == 0 {
			q.bad("C04", "no-grid", "%v returned, but the positions table is empty", o)
			return
		}
		if match != nil && dom3(o.prog.Dom) != dom3(match) {
			q.st.sim.probe("domain-mismatch")
			if o.ret > 0 {
				q.bad("C04", "mismatch-accepted", "%v with domain %v was accepted by a database with grid %v", o, o.prog.Dom, match)
			} else if len(o.seen) > 0 {
				q.bad("C04", "mismatch-stored", "%v with domain %v left rows in a database with grid %v", o, o.prog.Dom, match)
			}
		}
	}
}

func (q *dbOracle) gridIs(dom []int) bool {
	pos := q.final.positions
	if len(pos) != pfutil.ProdInt(dom) {
		return false
	}
	for i, r := range pos {
		c := posOf(dom, i)
		if r[0] != int64(i) || r[1] != c[0] || r[2] != c[1] || r[3] != c[2] {
			return false
		}
	}
	return true
}

func (q *dbOracle) savesOf(proc int) []*opRec {
	var out []*opRec
	for _, o := range q.st.ops {
		if o.proc.id == proc && o.kind == "save" {
			out = append(out, o)
		}
	}
	return out
}

// same tells if the loaded fields are exactly the content of o
func (lr *loadRec) same(o *opRec) string {
	if len(lr.names) != len(o.fields) {
		return fmt.Sprintf("fields %q instead of %q", lr.names, o.fields)
	}
	seen := map[string]bool{}
	for k, name := range lr.names {
		f := -1
		for i, n := range o.fields {
			if n == name {
				f = i
			}
		}
		if f < 0 || seen[name] {
			return fmt.Sprintf("fields %q instead of %q", lr.names, o.fields)
		}
		seen[name] = true
		if len(lr.data[k]) != len(o.data[f]) {
			return fmt.Sprintf("field %q has %d nodes instead of %d", name, len(lr.data[k]), len(o.data[f]))
		}
		for i, v := range lr.data[k] {
			if real(v) != o.data[f][i] || imag(v) != 0 {
				return fmt.Sprintf("field %q node %d is %v instead of %v", name, i, v, o.data[f][i])
			}
		}
	}
	return ""
}

func (q *dbOracle) checkLoads() {
	for _, lr := range q.st.loads {
		saves := q.savesOf(lr.target)
		must := math.MinInt64
		haveMust := false
		for _, e := range saves {
			if e.ret > 0 && e.ret < lr.o.inv && (lr.last || e.epoch == lr.ts) {
				haveMust = true
				if e.epoch > must {
					must = e.epoch
				}
			}
		}
		if len(lr.names) == 0 {
			if haveMust {
				q.bad("C05", "load-missing", "%v of P%d returned nothing, although step %d had been stored before", lr.o, lr.target, must)
			}
			continue
		}
		ok := false
		why := "no such step was stored"
		for _, e := range saves {
			if e.inv >= lr.o.ret || (!lr.last && e.epoch != lr.ts) || (lr.last && haveMust && e.epoch < must) {
				continue
			}
			if w := lr.same(e); w == "" {
				ok = true
				break
			} else {
				why = w
			}
		}
		if !ok {
			if lr.last {
				q.bad("C05", "loadlast-wrong", "%v of P%d: not the newest stored step (at least %d): %s", lr.o, lr.target, must, why)
			} else {
				q.bad("C05", "load-wrong", "%v of P%d: %s", lr.o, lr.target, why)
			}
		}
	}
}

func (q *dbOracle) checkPeeks() {
	for _, pk := range q.st.peeks {
		ss := newSeen()
		bad := func(format string, args ...interface{}) { q.bad("C02", "wrong-content-seen", format, args...) }
		if pk.table == "fields" {
			q.fieldsSeen(pk.fields, ss, bad)
		} else {
			q.kvSeen(pk.table, pk.kv, ss, bad)
		}
		for _, o := range q.st.ops {
			if o.table() != pk.table || o.rows() == 0 || (o.kind == "comment" && q.commentTouched(o.proc)) {
				continue
			}
			present, dup := judge(o, ss.n[o])
			if dup > 0 {
				q.bad("C02", "duplicate-seen", "a reader (%v) saw rows of %v more than once", pk.o, o)
			}
			if present > 0 && present < o.rows() {
				q.bad("C01", "partial-seen", "a reader (%v) saw %d of the %d rows of %v", pk.o, present, o.rows(), o)
			}
			if o.ret > 0 && o.ret < pk.o.inv && present < o.rows() {
				q.bad("C02", "not-visible", "a reader (%v) saw %d of the %d rows of %v, which had returned before", pk.o, present, o.rows(), o)
			}
			if o.ret == 0 || o.ret > pk.o.inv {
				if present == 0 && o.inv < pk.o.ret {
					q.st.sim.probe("peek-during-op")
				}
			}
		}
	}
}

// refused tells if the process was right to refuse (domain mismatch)
func (q *dbOracle) refused(o *opRec) bool {
	return o.kind == "save" && !q.gridIs(o.prog.Dom)
}

func (q *dbOracle) checkLiveness() {
	for _, o := range q.st.ops {
		if o.ret > 0 {
			continue
		}
		rec := o.prog.Opt["recover"] == 1
		if !q.clean && !rec {
			continue
		}
		if q.refused(o) || q.mayFail(o) {
			continue
		}
		which := "in a run without faults"
		if !q.clean {
			which = "after all faults had ended"
		}
		q.bad("C18", "failed", "%v failed %s: %s %.300s %.200s", o, which, o.proc.exit, o.proc.exitMsg, lastLine(o.proc.stderr.String()))
		if o.kind == "load" || o.kind == "loadlast" {
			q.bad("C05", "failed", "%v failed %s although everything it needs can be read: %s %.300s", o, which, o.proc.exit, o.proc.exitMsg)
		}
	}
}
