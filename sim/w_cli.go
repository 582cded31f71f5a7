package main

import (
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pfutil"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
)

// Oracles for the command line. A command that reports an error, panics or exits
// non-zero is loud and says nothing about the content.

var errWords = []string{
	"database is locked", "out of memory", "disk I/O error", "no such table", "unable to open", "malformed", "database or disk is full",
	"interrupted", "sql:", "no space left", "input/output error", "permission denied", "too many open files", "error", "Error",
	"could not", "Could not", "failed", "cannot", "locked", "no comment", "No comment", "No entries", "no simulation", "No simulation",
}

func errorText(t string) bool {
	for _, w := range errWords {
		if strings.Contains(t, w) {
			return true
		}
	}
	return false
}

// loud: the user was told that something went wrong
func (c *cliRec) loud() bool {
	p := c.o.proc
	if c.o.ret == 0 { // killed, panicked or exited
		return true
	}
	return errorText(p.stderr.String())
}

// vis tells if an operation must (may) be visible to a command
func (c *cliRec) must(o *opRec) bool { return o.ret > 0 && o.ret < c.o.inv }
func (c *cliRec) may(o *opRec) bool {
	return c.o.ret == 0 || o.inv < c.o.ret
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 6e-7 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func (q *dbOracle) procByID(id int) *Proc {
	for _, p := range q.st.procs {
		if p.id == id {
			return p
		}
	}
	return nil
}

// simOwner finds the process of a simulation ID
func (q *dbOracle) simOwner(id int64) *Proc {
	for p, s := range q.simOf {
		if s == id {
			return p
		}
	}
	return nil
}

func (q *dbOracle) checkCLI() {
	for _, c := range q.st.clis {
		out := c.o.proc.stdout.String()
		switch c.what {
		case "export-ts", "export-fd", "export-all":
			q.checkExport(c, out)
		default:
			q.checkQuery(c, out)
		}
	}
	q.checkComments()
}

// cliFlag is a flag of a command with its one-letter name and its default
type cliFlag struct {
	long, short, val, def string
	boolean               bool
}

// cliArgs writes a command line in one of the ways a user may choose
func cliArgs(style uint64, words []string, flags ...cliFlag) []string {
	r := newRNG(style)
	args := append([]string(nil), words...)
	for i := len(flags) - 1; i > 0; i-- { // the order of flags is free
		j := r.Intn(i + 1)
		flags[i], flags[j] = flags[j], flags[i]
	}
	for _, f := range flags {
		k := r.Intn(4)
		if f.val == "" && k == 3 {
			k = 0 // -o= is no way to write an empty value
		}
		switch {
		case f.val == f.def && r.Bool(0.6):
		case f.boolean && f.val == "true" && k < 2:
			args = append(args, "--"+f.long)
		case f.boolean && f.val == "true" && k == 2:
			args = append(args, "-"+f.short)
		case k == 0 || f.boolean:
			args = append(args, "--"+f.long+"="+f.val)
		case k == 1:
			args = append(args, "--"+f.long, f.val)
		case k == 2:
			args = append(args, "-"+f.short, f.val)
		default:
			args = append(args, "-"+f.short+"="+f.val)
		}
	}
	return args
}

// resetFlags gives all flags of all commands their defaults, as in a new process
func resetFlags() {
	var walk func(c *cobra.Command)
	walk = func(c *cobra.Command) {
		c.Flags().VisitAll(func(f *pflag.Flag) {
			f.Value.Set(f.DefValue)
			f.Changed = false
		})
		for _, q := range c.Commands() {
			walk(q)
		}
	}
	if cobra.SimRoot != nil {
		walk(cobra.SimRoot)
	}
}

var writtenRe = regexp.MustCompile(`written to (\S+)`)

// newest returns the simulations that may be "the newest" for a command
func (q *dbOracle) newest(c *cliRec) map[int64]bool {
	// rows that were registered for certain when the command began
	type ent struct {
		id   int64
		at   string
		rank int
		must bool
	}
	var es []ent
	for i, r := range q.final.sims {
		p := q.simOwner(r.id)
		must := false
		may := true
		if p != nil {
			for _, o := range q.st.ops {
				if o.proc == p && o.first {
					must = c.must(o)
					may = c.may(o)
				}
			}
		}
		if may {
			es = append(es, ent{r.id, r.at, i, must})
		}
	}
	res := map[int64]bool{}
	for _, e := range es {
		ok := true
		for _, o := range es {
			if o.must && o.id != e.id && (o.at > e.at || (o.at == e.at && o.rank > e.rank)) {
				ok = false
			}
		}
		if ok {
			res[e.id] = true
		}
	}
	return res
}

func (q *dbOracle) checkExport(c *cliRec, out string) {
	files := []string{}
	for _, m := range writtenRe.FindAllStringSubmatch(out, -1) {
		files = append(files, m[1])
	}
	// candidates: simulations the command may have meant
	var owners []*Proc
	if c.target >= 0 {
		owners = []*Proc{q.procByID(c.target)}
	} else {
		for id := range q.newest(c) {
			if p := q.simOwner(id); p != nil {
				owners = append(owners, p)
			} else {
				return // the newest one holds no data
			}
		}
		sort.Slice(owners, func(i, j int) bool { return owners[i].id < owners[j].id })
		if len(owners) == 0 {
			return
		}
	}
	var why string
	for _, p := range owners {
		why = q.exportOK(c, p, files, out)
		if why == "" {
			q.st.sim.probe("export-checked")
			return
		}
	}
	q.bad("C06", c.what, "%v (%s): %s", c.o, strings.Join(c.args, " "), why)
}

// exportOK judges the announced files against the data of simulation p
func (q *dbOracle) exportOK(c *cliRec, p *Proc, files []string, out string) string {
	kind := "save"
	if c.what == "export-ts" {
		kind = "ts"
	}
	var ops []*opRec
	for _, o := range q.st.ops {
		if o.proc == p && o.kind == kind && o.rows() > 0 {
			ops = append(ops, o)
		}
	}
	if len(files) == 0 {
		// nothing announced: fine if the user was told why, or nothing had to be there
		if c.loud() || errorText(out) {
			if q.clean && c.o.ret == 0 && !q.mayFail(c.o) {
				return fmt.Sprintf("failed in a run without faults: %s %s %s", c.o.proc.exit, firstLine(c.o.proc.exitMsg), lastLine(c.o.proc.stderr.String()))
			}
			if q.clean {
				for _, o := range ops {
					if c.must(o) && (c.what != "export-fd" || c.step < 0 || o.epoch == c.step) {
						return fmt.Sprintf("exported nothing in a run without faults (%.100q), although %v had been stored", out, o)
					}
				}
			}
			return ""
		}
		for _, o := range ops {
			if c.must(o) && (c.what != "export-fd" || c.step < 0 || o.epoch == c.step) {
				return fmt.Sprintf("nothing was exported and no error reported (%.100q), although %v had been stored", out, o)
			}
		}
		return ""
	}
	switch c.what {
	case "export-ts":
		return q.tsFileOK(c, ops, c.out)
	case "export-fd":
		return q.fdFileOK(c, p, ops, c.out, c.step)
	}
	// all steps: every announced file must be right; every step must be announced unless loud
	names := map[string]bool{}
	for _, f := range files {
		names[f] = true
		t := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), c.out), ".csv")
		step, err := strconv.Atoi(t)
		if err != nil {
			return fmt.Sprintf("unexpected file %s", f)
		}
		if w := q.fdFileOK(c, p, ops, f, step); w != "" {
			return w
		}
	}
	if !c.loud() && !errorText(out) {
		for _, o := range ops {
			if c.must(o) && !names[fmt.Sprintf("%s%d.csv", c.out, o.epoch)] {
				return fmt.Sprintf("step %d of %v was not exported", o.epoch, o)
			}
		}
	}
	return ""
}

func readCSV(name string) ([][]string, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r := csv.NewReader(f)
	r.FieldsPerRecord = -1
	return r.ReadAll()
}

func (q *dbOracle) tsFileOK(c *cliRec, ops []*opRec, file string) string {
	rec, err := readCSV(file)
	if err != nil {
		return fmt.Sprintf("announced file %s: %v", file, err)
	}
	if len(rec) == 0 {
		for _, o := range ops {
			if c.must(o) {
				return fmt.Sprintf("announced file %s is empty, although %v had been stored", file, o)
			}
		}
		return ""
	}
	// the step is the number of the row, or in a column of this name
	byCol := strings.EqualFold(strings.TrimSpace(rec[0][0]), "timestep")
	col := map[string]int{}
	for i, h := range rec[0] {
		if _, dup := col[h]; dup {
			return fmt.Sprintf("column %q appears twice in %s", h, file)
		}
		if !byCol || i > 0 {
			col[h] = i
		}
	}
	row := map[int][]string{}
	for i, r := range rec[1:] {
		if len(r) != len(rec[0]) {
			return fmt.Sprintf("row %d of %s has %d columns, the header %d", i, file, len(r), len(rec[0]))
		}
		step := i
		if byCol {
			x, err := strconv.ParseFloat(r[0], 64)
			step = int(x)
			if err != nil || row[step] != nil || x != math.Trunc(x) {
				return fmt.Sprintf("row %d of %s is of step %q", i, file, r[0])
			}
		}
		row[step] = r
	}
	last := 0
	for _, o := range ops {
		if c.may(o) && o.epoch > last {
			last = o.epoch
		}
	}
	for _, o := range ops {
		n, hit := 0, 0
		for k, v := range o.kv {
			n++
			i, ok := col[k]
			if !ok || row[o.epoch] == nil {
				continue
			}
			x, err := strconv.ParseFloat(row[o.epoch][i], 64)
			if err == nil && near(x, v) {
				hit++
			}
		}
		if hit < n && c.must(o) {
			return fmt.Sprintf("%d of %d values of %v are missing or wrong in %s (%d rows, header %q)", n-hit, n, o, file, len(rec), rec[0])
		}
		if hit > 0 && hit < n {
			return fmt.Sprintf("%d of %d values of %v are in %s", hit, n, o, file)
		}
	}
	// no foreign data
	for k := range col {
		ok := false
		for _, o := range ops {
			_, has := o.kv[k]
			ok = ok || has && c.may(o)
		}
		if !ok {
			return fmt.Sprintf("column %q of %s was not stored by the simulation", k, file)
		}
	}
	for step, r := range row {
		if step > last {
			return fmt.Sprintf("%s has step %d, but the last step is %d", file, step, last)
		}
		for k, j := range col {
			if t := strings.TrimSpace(r[j]); t == "" || strings.EqualFold(t, "nan") {
				continue // nothing stored
			}
			x, err := strconv.ParseFloat(r[j], 64)
			ok := false
			for _, o := range ops {
				if v, has := o.kv[k]; err == nil && has && o.epoch == step && near(v, x) && c.may(o) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("step %d column %q of %s holds %q, which the simulation did not store", step, k, file, r[j])
			}
		}
	}
	return ""
}

func (q *dbOracle) fdFileOK(c *cliRec, p *Proc, ops []*opRec, file string, step int) string {
	rec, err := readCSV(file)
	if err != nil {
		return fmt.Sprintf("announced file %s: %v", file, err)
	}
	maxMust := math.MinInt64
	if step < 0 {
		for _, o := range ops {
			if c.must(o) && o.epoch > maxMust {
				maxMust = o.epoch
			}
		}
	}
	why := "no such step was stored"
	for _, o := range ops {
		if !c.may(o) || (step >= 0 && o.epoch != step) || (step < 0 && o.epoch < maxMust) {
			continue
		}
		if why = csvIs(rec, o.prog.Dom, o.fields, o.data); why == "" {
			return ""
		}
	}
	return fmt.Sprintf("%s: %s", file, why)
}

// csvIs compares a csv file of the documented form X,Y,Z,field... with fields
func csvIs(rec [][]string, dom []int, names []string, data [][]float64) string {
	n := pfutil.ProdInt(dom)
	if len(rec) != n+1 {
		return fmt.Sprintf("%d rows instead of %d", len(rec), n+1)
	}
	h := rec[0]
	if len(h) != 3+len(names) || h[0] != "X" || h[1] != "Y" || h[2] != "Z" {
		return fmt.Sprintf("header %q, fields %q", h, names)
	}
	col := make([]int, len(names))
	for f, name := range names {
		for j := 3; j < len(h); j++ {
			if h[j] == name {
				col[f] = j
			}
		}
		if col[f] == 0 {
			return fmt.Sprintf("header %q lacks %q", h, name)
		}
	}
	seen := map[[3]int64]bool{}
	at := map[[3]int64]int{}
	for i := 0; i < n; i++ {
		at[posOf(dom, i)] = i
	}
	for r, row := range rec[1:] {
		if len(row) != len(h) {
			return fmt.Sprintf("row %d has %d columns instead of %d", r, len(row), len(h))
		}
		var pos [3]int64
		for k := 0; k < 3; k++ {
			v, err := strconv.Atoi(strings.TrimSpace(row[k]))
			if err != nil {
				return fmt.Sprintf("row %d: position %q", r, row[:3])
			}
			pos[k] = int64(v)
		}
		i, ok := at[pos]
		if !ok || seen[pos] {
			return fmt.Sprintf("row %d: position %v is outside the domain %v or repeated", r, pos, dom)
		}
		seen[pos] = true
		for f := range names {
			x, err := strconv.ParseFloat(row[col[f]], 64)
			if err != nil || !near(x, data[f][i]) {
				return fmt.Sprintf("position %v field %q is %q instead of %v", pos, names[f], row[col[f]], data[f][i])
			}
		}
	}
	return ""
}

// ---- queries ---------------------------------------------------------------

var (
	idRow  = regexp.MustCompile(`^\|\s*(\d+)\s*\|\s*(.*?)\s*\|$`)
	simHdr = regexp.MustCompile(`(?i)^Sim Id (\d+):$`)
	timeRe = regexp.MustCompile(`Simulation (\d+) was created at (.*)`)
	nameRe = regexp.MustCompile(`^Sim id (\d+)\s+(\S.*?)\s*=\s*(.*)$`)
)

func squeeze(t string) string { return strings.Join(strings.Fields(t), "") }

func (q *dbOracle) opsOf(p *Proc, kinds ...string) []*opRec {
	var out []*opRec
	for _, o := range q.st.ops {
		if p != nil && o.proc != p {
			continue
		}
		for _, k := range kinds {
			if o.kind == k {
				out = append(out, o)
			}
		}
	}
	return out
}

func (q *dbOracle) checkQuery(c *cliRec, out string) {
	bad := func(format string, args ...interface{}) {
		q.bad("C07", c.what, "%v (%s): %s", c.o, strings.Join(c.args, " "), fmt.Sprintf(format, args...))
	}
	if c.loud() || (errorText(out) && c.what != "comment-show" && c.what != "comment-all") {
		// only a legitimate reason counts in a run without faults
		if q.clean && c.o.ret == 0 {
			if !q.mayFail(c.o) {
				bad("failed in a run without faults: %s %.100s %.100s", c.o.proc.exit, firstLine(c.o.proc.exitMsg), lastLine(c.o.proc.stderr.String()))
			}
		}
		return
	}
	if strings.Contains(out, "no such table") || strings.Contains(out, "out of memory") || strings.Contains(out, "disk I/O error") || strings.Contains(out, "database is locked") || strings.Contains(out, "unable to open database") {
		return
	}
	q.st.sim.probe("query-checked")
	if c.none {
		q.checkNone(c, out, bad)
		return
	}
	switch c.what {
	case "attr", "attr-name", "attr-unique":
		q.checkAttr(c, out, bad)
	case "info":
		q.checkInfo(c, out, bad)
	case "list-id":
		q.checkListID(c, out, bad)
	case "time":
		m := timeRe.FindStringSubmatch(out)
		if m == nil {
			bad("no creation time in %q", out)
			return
		}
		id, _ := strconv.ParseInt(m[1], 10, 64)
		if c.target >= 0 && id != c.sim {
			bad("shows simulation %d instead of %d", id, c.sim)
		}
		if c.target < 0 {
			if nw := q.newest(c); !nw[id] && len(nw) > 0 && q.anyMust(c) {
				bad("shows simulation %d, which is not the newest (%v)", id, nw)
			}
		}
		for _, r := range q.final.sims {
			if r.id == id && strings.TrimSpace(m[2]) != r.at {
				bad("shows creation time %q instead of %q", m[2], r.at)
			}
		}
	case "comment-show":
		q.checkShown(c, splitSims(out), bad)
	case "list-comment":
		q.checkShown(c, splitSims(out), bad)
	case "comment-all":
		q.checkCommentTable(c, out, bad)
	}
}

// checkNone: nothing can be shown of a simulation that does not exist
func (q *dbOracle) checkNone(c *cliRec, out string, bad func(string, ...interface{})) {
	q.st.sim.probe("query-none-checked")
	for _, l := range strings.Split(out, "\n") {
		switch c.what {
		case "attr":
			if idRow.MatchString(l) {
				bad("shows %q", l)
			}
		case "attr-name":
			if nameRe.MatchString(l) {
				bad("shows %q", l)
			}
		case "time":
			if m := timeRe.FindStringSubmatch(l); m != nil && strings.TrimSpace(m[2]) != "" {
				bad("shows %q", l)
			}
		case "comment-show":
			if strings.TrimSpace(l) != "" && !strings.HasPrefix(strings.ToLower(l), "sim id") && !errorText(l) {
				bad("shows %q", l)
			}
		case "comment-new":
			if strings.Contains(l, "successfully") {
				bad("announces %q", l)
			}
		}
	}
}

// mayFail tells if a command may fail without any fault: the tables are not there
// yet, or there is nothing to update
func (q *dbOracle) mayFail(o *opRec) bool {
	for _, c := range q.st.clis {
		if c.o != o {
			continue
		}
		if c.none || !q.anyMust(c) {
			return true
		}
		if c.what == "comment-new" {
			for _, w := range q.opsOf(q.procByID(c.target), "comment") {
				if c.must(w) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (q *dbOracle) anyMust(c *cliRec) bool {
	for _, o := range q.st.ops {
		if o.first && c.must(o) {
			return true
		}
	}
	return false
}

type attrItem struct {
	o   *opRec
	key string
	sim int64
}

func (q *dbOracle) checkAttr(c *cliRec, out string, bad func(string, ...interface{})) {
	all := q.opsOf(nil, "attr", "text")
	keyOps := map[string][]*opRec{}
	for _, o := range all {
		for k := range o.kv {
			keyOps[k] = append(keyOps[k], o)
		}
		for k := range o.txt {
			keyOps[k] = append(keyOps[k], o)
		}
	}
	inScope := func(o *opRec) bool { return c.target < 0 || o.proc.id == c.target }
	if c.what == "attr-unique" {
		got := map[string]int{}
		lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
		for _, l := range lines[1:] {
			if l != "" {
				got[l]++
			}
		}
		for k, ops := range keyOps {
			for _, o := range ops {
				if c.must(o) && got[k] != 1 {
					bad("attribute %q is listed %d times", k, got[k])
					return
				}
			}
		}
		for k := range got {
			ok := false
			for _, o := range keyOps[k] {
				ok = ok || c.may(o)
			}
			if !ok {
				bad("attribute %q is listed, but was not stored", k)
			}
		}
		return
	}
	// items shown: sim, key -> value text
	type sk struct {
		sim int64
		key string
	}
	shown := map[sk][]string{}
	if c.what == "attr-name" {
		for _, l := range strings.Split(out, "\n") {
			if m := nameRe.FindStringSubmatch(l); m != nil {
				id, _ := strconv.ParseInt(m[1], 10, 64)
				shown[sk{id, m[2]}] = append(shown[sk{id, m[2]}], strings.TrimSpace(m[3]))
			}
		}
	} else {
		var hdr []string
		for _, l := range strings.Split(out, "\n") {
			if !strings.HasPrefix(l, "|") {
				continue
			}
			cells := strings.Split(strings.Trim(l, "|"), "|")
			for i := range cells {
				cells[i] = strings.TrimSpace(cells[i])
			}
			if cells[0] == "Sim. ID" {
				hdr = cells
				continue
			}
			id, err := strconv.ParseInt(cells[0], 10, 64)
			if err != nil || len(cells) != len(hdr) {
				bad("cannot read the line %q", l)
				return
			}
			for i := 1; i < len(cells); i++ {
				if cells[i] != "" {
					shown[sk{id, hdr[i]}] = append(shown[sk{id, hdr[i]}], cells[i])
				}
			}
		}
	}
	name := c.name
	okVal := func(o *opRec, k, t string) bool {
		if v, has := o.kv[k]; has {
			x, err := strconv.ParseFloat(t, 64)
			return err == nil && near(x, v)
		}
		if v, has := o.txt[k]; has {
			return squeeze(v) == squeeze(t)
		}
		return false
	}
	keys := make([]string, 0, len(keyOps))
	for k := range keyOps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if name != "" && k != name {
			continue
		}
		for _, o := range keyOps[k] {
			if !c.must(o) || !inScope(o) {
				continue
			}
			id := q.simOf[o.proc]
			ok := false
			for _, t := range shown[sk{id, k}] {
				ok = ok || okVal(o, k, t)
			}
			if !ok {
				bad("attribute %q of simulation %d is shown as %q, stored was %v%q", k, id, shown[sk{id, k}], o.kv[k], o.txt[k])
				return
			}
		}
	}
	for e, ts := range shown {
		for _, t := range ts {
			ok := false
			for _, o := range keyOps[e.key] {
				if c.may(o) && inScope(o) && q.simOf[o.proc] == e.sim && okVal(o, e.key, t) {
					ok = true
				}
			}
			if !ok || len(ts) > 1 {
				bad("attribute %q of simulation %d is shown as %q, which was not stored", e.key, e.sim, ts)
				return
			}
		}
	}
}

func (q *dbOracle) checkInfo(c *cliRec, out string, bad func(string, ...interface{})) {
	sec := map[string]string{}
	cur := ""
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "|") {
			continue
		}
		p := strings.Index(l[1:], "|")
		if p < 0 {
			continue
		}
		name := strings.TrimSpace(l[1 : p+1])
		val := strings.TrimSuffix(strings.TrimRight(l[p+2:], " "), "|")
		if name != "" {
			cur = name
		}
		sec[cur] += squeeze(val)
	}
	min, max := 0, 0
	for _, o := range q.st.ops {
		if o.first {
			if c.must(o) {
				min++
			}
			if c.may(o) {
				max++
			}
		}
	}
	n, err := strconv.Atoi(sec["Num calc."])
	if err != nil || n < min || n > max {
		bad("number of calculations is %q, it should be %d to %d", sec["Num calc."], min, max)
	}
	var dom []int
	for _, o := range q.opsOf(nil, "save") {
		if c.must(o) {
			dom = o.prog.Dom
		}
	}
	if dom != nil {
		d := dom3(dom)
		if want := fmt.Sprintf("(%d,%d,%d)", d[0], d[1], d[2]); sec["Dims"] != want {
			bad("dimensions are %q instead of %s", sec["Dims"], want)
		}
	}
	list := func(name string, kinds []string, keys func(o *opRec) []string) {
		got := map[string]int{}
		may := map[string]map[string]bool{} // numbers and texts are listed separately
		text := "," + sec[name] + ","
		for _, o := range q.opsOf(nil, kinds...) { // names that contain a comma themselves
			for _, k := range keys(o) {
				k = squeeze(k)
				for strings.Contains(k, ",") && strings.Contains(text, ","+k+",") {
					got[k]++
					text = strings.Replace(text, ","+k+",", ",", 1)
				}
			}
		}
		for _, k := range strings.Split(text, ",") {
			if k != "" {
				got[k]++
			}
		}
		for _, o := range q.opsOf(nil, kinds...) {
			for _, k := range keys(o) {
				k = squeeze(k)
				if c.may(o) {
					if may[k] == nil {
						may[k] = map[string]bool{}
					}
					may[k][o.kind] = true
				}
				if c.must(o) && got[k] == 0 {
					bad("%s: %q is listed %d times in %q", name, k, got[k], sec[name])
					return
				}
			}
		}
		for k := range got {
			if got[k] > len(may[k]) {
				bad("%s: %q is listed %d times in %q, but was stored in %d tables", name, k, got[k], sec[name], len(may[k]))
				return
			}
		}
	}
	list("Fields", []string{"save"}, func(o *opRec) []string { return o.fields })
	list("Attributes", []string{"attr", "text"}, func(o *opRec) []string { return append(keysOf(o.kv), keysOf(o.txt)...) })
	list("Timeseries", []string{"ts"}, func(o *opRec) []string { return keysOf(o.kv) })
}

func (q *dbOracle) checkListID(c *cliRec, out string, bad func(string, ...interface{})) {
	at := map[int64]string{}
	for _, r := range q.final.sims {
		at[r.id] = r.at
	}
	var ids []int64
	for _, l := range strings.Split(out, "\n") {
		m := idRow.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		id, _ := strconv.ParseInt(m[1], 10, 64)
		if at[id] != m[2] {
			bad("simulation %d is listed with creation time %q instead of %q", id, m[2], at[id])
		}
		ids = append(ids, id)
	}
	q.checkOrder(c, ids, bad)
}

// checkOrder: a list of simulations is complete up to its limit, the newest first
func (q *dbOracle) checkOrder(c *cliRec, ids []int64, bad func(string, ...interface{})) {
	rank, at := map[int64]int{}, map[int64]string{}
	for i, r := range q.final.sims {
		rank[r.id], at[r.id] = i, r.at
	}
	seen := map[int64]bool{}
	for _, id := range ids {
		if seen[id] {
			bad("simulation %d is listed twice", id)
		}
		seen[id] = true
	}
	newer := func(a, b int64) bool { return at[a] > at[b] || at[a] == at[b] && rank[a] > rank[b] }
	for i := 1; i < len(ids); i++ {
		if newer(ids[i], ids[i-1]) {
			bad("not sorted: %d (%s) comes after %d (%s)", ids[i], at[ids[i]], ids[i-1], at[ids[i-1]])
		}
	}
	if len(ids) > c.step {
		bad("%d simulations listed, at most %d were asked for", len(ids), c.step)
	}
	for _, o := range q.st.ops {
		if !o.first || !c.must(o) {
			continue
		}
		id, ok := q.simOf[o.proc]
		if !ok || seen[id] {
			continue
		}
		if len(ids) < c.step {
			bad("simulation %d is not listed", id)
			return
		}
		if len(ids) > 0 && newer(id, ids[len(ids)-1]) {
			bad("simulation %d (%s) is newer than the listed %d (%s)", id, at[id], ids[len(ids)-1], at[ids[len(ids)-1]])
			return
		}
	}
}

type shownComment struct {
	id   int64
	text string
}

// splitSims reads "Sim id N:\ncomment" blocks
func splitSims(out string) []shownComment {
	var res []shownComment
	for _, l := range strings.Split(out, "\n") {
		if m := simHdr.FindStringSubmatch(l); m != nil {
			id, _ := strconv.ParseInt(m[1], 10, 64)
			res = append(res, shownComment{id: id})
		} else if len(res) > 0 {
			res[len(res)-1].text += l + "\n"
		}
	}
	return res
}

// commentWrites lists the texts written for a simulation in order
type commentWrite struct {
	text   string
	inv    int
	end    int // after this event its effect is final
	acked  bool
	insert bool
}

func (q *dbOracle) commentWrites(p *Proc) []commentWrite {
	var out []commentWrite
	end := func(o *opRec) int {
		if o.ret > 0 {
			return o.ret
		}
		for _, h := range q.st.sim.hist {
			if h.Proc == o.proc.id && h.Kind == "exit" {
				return h.Seq
			}
		}
		return 1 << 30
	}
	for _, o := range q.opsOf(p, "comment") {
		out = append(out, commentWrite{strings.ReplaceAll(o.txt[""], "\n", " "), o.inv, end(o), o.ret > 0, true})
	}
	for _, c := range q.st.clis {
		if c.what == "comment-new" && c.target == p.id {
			ok := strings.Contains(c.o.proc.stdout.String(), "successfully updated")
			out = append(out, commentWrite{c.newmsg, c.o.inv, end(c.o), ok, false})
		}
	}
	return out
}

// possible tells if text can be the comment of p for somebody who looks during [inv, ret]
func possible(ws []commentWrite, text string, inv, ret int) bool {
	any := false
	for _, w := range ws {
		if w.acked && w.insert && w.end < inv {
			any = true
		}
	}
	if squeeze(text) == "" {
		return !any
	}
	for _, w := range ws {
		if squeeze(w.text) != squeeze(text) || w.inv > ret {
			continue
		}
		over := false
		for _, u := range ws {
			if u.acked && !u.insert && u.inv > w.end && u.end < inv {
				over = true
			}
		}
		if !over {
			return true
		}
	}
	return false
}

func (q *dbOracle) checkShown(c *cliRec, got []shownComment, bad func(string, ...interface{})) {
	if c.what == "comment-show" {
		if len(got) != 1 || got[0].id != c.sim {
			bad("unexpected output for simulation %d: %v", c.sim, got)
			return
		}
	} else {
		var ids []int64
		for _, g := range got {
			ids = append(ids, g.id)
		}
		q.checkOrder(c, ids, bad)
	}
	for _, g := range got {
		p := q.simOwner(g.id)
		if p == nil {
			if squeeze(g.text) != "" {
				// the simulation stored nothing else; its comment must be somebody's
				found := false
				for _, o := range q.opsOf(nil, "comment") {
					found = found || squeeze(o.txt[""]) == squeeze(g.text)
				}
				for _, u := range q.st.clis {
					found = found || (u.what == "comment-new" && u.sim == g.id && squeeze(u.newmsg) == squeeze(g.text))
				}
				if !found {
					bad("simulation %d is shown with comment %q", g.id, g.text)
				}
			}
			continue
		}
		if !possible(q.commentWrites(p), g.text, c.o.inv, c.o.ret) {
			bad("the comment of simulation %d is shown as %.120q, which it was not at that time", g.id, strings.TrimSpace(g.text))
			return
		}
	}
}

func (q *dbOracle) checkCommentTable(c *cliRec, out string, bad func(string, ...interface{})) {
	var got []shownComment
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "|") {
			continue
		}
		p := strings.Index(l[1:], "|")
		if p < 0 {
			continue
		}
		id := strings.TrimSpace(l[1 : p+1])
		txt := strings.TrimSuffix(strings.TrimRight(l[p+2:], " "), "|")
		if strings.HasPrefix(id, "Sim") {
			continue
		}
		if id != "" {
			n, err := strconv.ParseInt(id, 10, 64)
			if err != nil {
				bad("cannot read the line %q", l)
				return
			}
			got = append(got, shownComment{id: n})
		}
		if len(got) == 0 {
			bad("cannot read the line %q", l)
			return
		}
		got[len(got)-1].text += txt
	}
	cnt := map[int64]int{}
	for _, g := range got {
		cnt[g.id]++
		p := q.simOwner(g.id)
		if p == nil {
			continue
		}
		if !possible(q.commentWrites(p), g.text, c.o.inv, c.o.ret) {
			bad("the comment of simulation %d is shown as %.120q, which it was not at that time", g.id, squeeze(g.text))
			return
		}
	}
	for _, o := range q.opsOf(nil, "comment") {
		if id, ok := q.simOf[o.proc]; ok && c.must(o) && cnt[id] == 0 {
			bad("the comment of simulation %d is not listed", id)
			return
		}
	}
}

// checkComments judges the final comments of simulations whose comment was updated
func (q *dbOracle) checkComments() {
	end := q.st.sim.seq + 1
	for _, p := range q.st.procs {
		if !q.commentTouched(p) {
			continue
		}
		ws := q.commentWrites(p)
		var id int64 = -1
		for _, c := range q.st.clis {
			if c.what == "comment-new" && c.target == p.id {
				id = c.sim
			}
		}
		n := 0
		for _, r := range q.final.kv["comments"] {
			if r.sim != id {
				for _, w := range ws {
					if !w.insert && w.text == r.txt {
						q.bad("C07", "comment-misplaced", "the new comment of simulation %d (P%d) is stored for simulation %d", id, p.id, r.sim)
					}
				}
				continue
			}
			n++
			if !possible(ws, r.txt, end, end) {
				q.bad("C07", "comment-lost", "simulation %d (P%d) holds comment %.100q after all commands; writes were %.300s", id, p.id, r.txt, fmt.Sprint(ws))
			}
		}
		acked, all := 0, 0
		for _, w := range ws {
			if w.insert {
				all++
				if w.acked {
					acked++
				}
			}
		}
		if n < acked || n > all {
			q.bad("C07", "comment-count", "simulation %d (P%d) has %d comments, %d were stored", id, p.id, n, acked)
		}
		for _, w := range ws {
			if !w.insert && w.acked && n == 0 {
				q.bad("C07", "comment-false-success", "the comment of simulation %d (P%d) was reported as updated, but there is none", id, p.id)
			}
		}
	}
}
