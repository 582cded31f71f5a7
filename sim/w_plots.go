package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
	"gonum.org/v1/plot/vg"
	"gonum.org/v1/plot/vg/draw"
	"gonum.org/v1/plot/vg/vgimg"
)

// The plot world: simulations store tables, and the commands contour and lineplot draw
// them, while file operations fail or processes die. What the pictures show is read
// back from the pictures.

func init() {
	regScenario(&Scenario{name: "plots", gen: genPlots, exec: plotsExec, check: plotsCheck, kinds: fileKinds})
}

var plotDoms2 = [][]int{{2, 2}, {2, 3}, {3, 2}, {4, 4}, {7, 3}, {3, 8}, {8, 5}, {8, 8}, {12, 4}, {3, 16}}
var plotNames = append([]string{"con", "eta", "field", "concentration", "X", "Y", "Z", "z"}, fileNames...)
var plotDoms3 = [][]int{{2, 3, 2}, {3, 2, 4}, {4, 4, 4}, {5, 3, 2}, {2, 3, 11}}

func genPlots(r *RNG, prop string, thorough bool) *Plan {
	pr := &Program{}
	type src struct {
		name   string
		dom    []int
		fields []string
	}
	var srcs []src
	var first []ProcProg
	for k := r.Intn(3); k > 0; k-- {
		d := pick(r, plotDoms2)
		if r.Bool(0.3) {
			d = pick(r, plotDoms3)
		}
		p := ProcProg{Kind: "sim", Dom: d, S: append([]string{fmt.Sprintf("sim%d", k)}, pickKeys(r, plotNames, 1+r.Intn(3))...), Opt: map[string]int{"style": r.Intn(2)}}
		for e := 0; e <= r.Intn(2); e++ {
			p.Ops = append(p.Ops, Op{K: pick(r, []string{"csv", "scsv"}), N: []int{e}})
			srcs = append(srcs, src{fmt.Sprintf("sim%d_%d.csv", k, e), d, p.S[1:]})
		}
		first = append(first, p)
	}
	nCLI := func(early bool) []ProcProg {
		var out []ProcProg
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := ProcProg{Kind: "cli", Opt: map[string]int{"argstyle": r.Intn(1 << 20), "stale": r.Intn(3)}}
			op := Op{K: pick(r, []string{"contour", "lineplot", "lineplot"}), U: []uint64{r.U64()}}
			s := src{}
			variant := 0
			if len(srcs) > 0 && r.Bool(0.5) && !(early && r.Bool(0.7)) {
				s = pick(r, srcs)
				variant = -1
			} else {
				s.name = fmt.Sprintf("in_%d_%d.csv", len(pr.Phases), k)
				s.dom = pick(r, plotDoms2)
				if r.Bool(0.3) {
					s.dom = pick(r, plotDoms3)
				}
				s.fields = pickKeys(r, plotNames, 1+r.Intn(3))
				variant = pick(r, []int{0, 0, 0, 1, 2, 3, 4, 9})
			}
			for op.K == "contour" && len(s.dom) == 3 {
				op.K = "lineplot"
			}
			p.Dom = s.dom
			// which fields
			sel := ""
			if r.Bool(0.7) {
				f := append([]string(nil), s.fields...)
				for i := len(f) - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					f[i], f[j] = f[j], f[i]
				}
				if op.K == "contour" {
					f = f[:1]
				} else {
					f = f[:1+r.Intn(len(f))]
				}
				if r.Bool(0.06) {
					f[r.Intn(len(f))] = pick(r, []string{"nosuch", "X", "", "CONC", " conc"})
				}
				sel = strings.Join(f, ",")
			}
			out1 := fmt.Sprintf("plot_%d_%d.", len(pr.Phases), k)
			ext := "svg"
			if op.K == "contour" {
				ext = "png"
			} else if r.Bool(0.1) {
				ext = pick(r, []string{"png", "pdf", "eps", "jpg", "tif"})
			}
			op.S = append([]string{s.name, out1 + ext, sel}, s.fields...)
			// the line
			ax := r.Intn(3)
			pos := []int{-1, -1, -1}
			for i := range pos {
				if i == ax {
					continue
				}
				pos[i] = 0
				if i < len(s.dom) {
					pos[i] = r.Intn(s.dom[i])
				}
			}
			if r.Bool(0.05) {
				pos[r.Intn(3)] = pick(r, []int{-1, 1})
			}
			op.N = append([]int{variant}, pos...)
			p.Ops = []Op{op}
			out = append(out, p)
		}
		return out
	}
	if len(first) > 0 {
		if r.Bool(0.3) { // while the tables are written
			first = append(first, nCLI(true)...)
		}
		pr.Phases = append(pr.Phases, first)
	}
	pr.Phases = append(pr.Phases, nCLI(false))
	return &Plan{Program: pr}
}

type plotOp struct {
	proc  *Proc
	what  string
	out   string
	sel   []string
	pos   [3]int
	rows  []plotRow
	head  []string
	valid bool // the file is complete and well formed
	other bool // a field is asked for that the table does not have
	busy  bool // somebody was writing the file: nothing is known about what was read
	ret   int
}

type plotRow struct {
	pos [3]int
	val []float64
}

type plotWorld struct {
	sim    *Sim
	ops    []*plotOp
	cli    *Proc
	saved  map[string]int // 1: being written, 2: written
	writer map[string]*Proc
	viol   []Violation
}

func (w *plotWorld) bad(oracle, format string, args ...interface{}) {
	for _, v := range w.viol {
		if v.Oracle == oracle {
			return
		}
	}
	w.viol = append(w.viol, Violation{"C21", oracle, fmt.Sprintf(format, args...)})
}

func plotsExec(s *Sim) interface{} {
	w := &plotWorld{sim: s, saved: map[string]int{}, writer: map[string]*Proc{}}
	n := 0
	for _, ph := range s.plan.Program.Phases {
		for i := range ph {
			prog := &ph[i]
			s.spawn(fmt.Sprintf("%s%d", prog.Kind, n), func(p *Proc) { w.process(p, prog) })
			n++
		}
		s.run()
		if s.overrun {
			break
		}
	}
	return w
}

func (w *plotWorld) process(p *Proc, prog *ProcProg) {
	s := w.sim
	for idx, op := range prog.Ops {
		switch op.K {
		case "csv", "scsv":
			pref, names := prog.S[0], prog.S[1:]
			name := fmt.Sprintf("%s_%d.csv", pref, op.N[0])
			w.saved[name], w.writer[name] = 1, p
			solver, _ := buildModel(prog, p.id, op.N[0], names)
			s.op(p, idx, op.K+" "+name, func() {
				if op.K == "csv" {
					c := pf.CsvIO{Prefix: pref, DomainSize: prog.Dom}
					c.SaveFields(solver, op.N[0])
					return
				}
				var cd []pf.CsvData
				for f, name := range names {
					d := make([]float64, pfutil.ProdInt(prog.Dom))
					for i := range d {
						d[i] = fval(prog.Opt["style"], uint64(p.id), uint64(f), uint64(i), 5)
					}
					cd = append(cd, pf.CsvData{Name: name, Data: &pfutil.RealSlice{Data: d}})
				}
				pf.SaveCsv(name, cd, prog.Dom)
			})
			w.saved[name] = 2
		case "contour", "lineplot":
			for i := 0; w.cli != nil && w.cli.state != stDone; i++ {
				if i > 10000 {
					return
				}
				s.hit("between")
				s.sleep(p, 1e6, true)
			}
			w.cli = p
			w.plot(p, prog, idx, op)
			return
		}
		s.hit("between")
	}
}

func (w *plotWorld) plot(p *Proc, prog *ProcProg, idx int, op Op) {
	s := w.sim
	in, out, sel := op.S[0], op.S[1], op.S[2]
	q := &plotOp{proc: p, what: op.K, out: out, pos: [3]int{op.N[1], op.N[2], op.N[3]}}
	s.quietly(func() {
		if op.N[0] >= 0 {
			if op.N[0] < 9 {
				os.WriteFile(in, makePlotInput(op, prog.Dom, newRNG(op.U...)), 0644)
			}
		} else {
			by := w.writer[in]
			q.busy = w.saved[in] != 2 && (by == nil || by.state != stDone)
		}
		if prog.opt("stale", 0) > 0 {
			os.WriteFile(out, stale(prog.opt("stale", 0)), 0644)
		}
		b, err := os.ReadFile(in)
		if err == nil {
			q.parse(b, op)
		}
	})
	var sels cliFlag
	style := mix(uint64(prog.opt("argstyle", 0)))
	var args []string
	if op.K == "contour" {
		sels = cliFlag{"column", "c", sel, "", false}
		args = cliArgs(style, []string{"contour"}, cliFlag{"fname", "f", in, "", false}, sels, cliFlag{"out", "o", out, "gopfPlot.png", false})
	} else {
		sels = cliFlag{"data", "d", sel, "", false}
		fs := []cliFlag{{"fname", "f", in, "", false}, sels, {"out", "o", out, "lineplot.png", false}}
		for i, n := range []string{"x", "y", "z"} {
			fs = append(fs, cliFlag{n, n, fmt.Sprint(q.pos[i]), "-1", false})
		}
		args = cliArgs(style, []string{"lineplot"}, fs...)
	}
	w.ops = append(w.ops, q)
	s.op(p, idx, strings.Join(args, " "), func() {
		os.Args = append([]string{"gopf"}, args...)
		resetFlags()
		cmd.Execute()
	})
	q.ret = s.seq
}

// makePlotInput makes a table: variant 0 is well formed, others are damaged
func makePlotInput(op Op, dom []int, r *RNG) []byte {
	var b bytes.Buffer
	names := op.S[3:]
	variant := op.N[0]
	sep, eol := ",", "\n"
	if r.Bool(0.2) {
		sep = ", " // as documented
	}
	if r.Bool(0.1) {
		eol = "\r\n"
	}
	b.WriteString(strings.Join(append([]string{"X", "Y", "Z"}, names...), sep) + eol)
	n := pfutil.ProdInt(dom)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if r.Bool(0.5) { // nodes in any order
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	bad := -1
	if variant > 0 {
		bad = r.Intn(n)
	}
	scale := pick(r, []float64{1, 1, 1000, 1e-3})
	shift := pick(r, []float64{0, -0.5, 10, -3}) * scale
	vary := 1.0
	if r.Bool(0.1) {
		vary = 0.0 // uniform
	}
	for k, i := range order {
		c := posOf(dom, i)
		var cells []string
		for _, x := range c {
			cells = append(cells, fmt.Sprint(x))
		}
		for range names {
			cells = append(cells, strconv.FormatFloat(scale*r.Float()*vary+shift, pick(r, []byte{'g', 'e', 'f'}), -1, 64))
		}
		if k == bad {
			j := r.Intn(len(cells))
			switch variant {
			case 1:
				cells[j] = pick(r, []string{"", "abc", "1.5.2", "--3", "0x"})
			case 2:
				cells = append(cells[:j], cells[j+1:]...)
			case 3:
				cells = append(cells, "1.0")
			}
		}
		b.WriteString(strings.Join(cells, sep) + eol)
	}
	if variant == 4 {
		return b.Bytes()[:r.Intn(b.Len())]
	}
	return b.Bytes()
}

// parse says what the table holds, as far as the plot needs it
func (q *plotOp) parse(b []byte, op Op) {
	rd := csv.NewReader(bytes.NewReader(b))
	rd.TrimLeadingSpace = true
	rec, err := rd.ReadAll()
	if err == nil && len(rec) == 1 { // no rows: an empty plot says what it shows
		q.busy = true
		return
	}
	if err != nil || len(rec) < 2 || len(rec[0]) < 4 {
		return
	}
	head := rec[0][3:]
	q.head = head
	q.sel = head
	if op.S[2] != "" {
		q.sel = strings.Split(op.S[2], ",")
	} else if op.K == "contour" {
		q.sel = head[:1]
	}
	var cols []int
	for _, s := range q.sel {
		c := -1
		for i, h := range head {
			if h == s {
				c = i
			}
		}
		if c < 0 {
			// the first field may be shown instead, if the plot says so
			q.other = true
			c = 0
		}
		cols = append(cols, c)
	}
	for _, r := range rec[1:] {
		var row plotRow
		for k := 0; k < 3; k++ {
			v, err := strconv.Atoi(r[k])
			if err != nil {
				return
			}
			row.pos[k] = v
		}
		for _, c := range cols {
			v, err := strconv.ParseFloat(r[3+c], 64)
			if err != nil {
				return
			}
			row.val = append(row.val, v)
		}
		q.rows = append(q.rows, row)
	}
	q.valid = true
}

// line is what a line plot shows of field f: (coordinate, value), by coordinate
func (q *plotOp) line(f int) (xs, vs []float64) {
	ax, set := -1, 0
	for k, p := range q.pos {
		if p != -1 {
			set++
		} else {
			ax = k
		}
	}
	if set != 2 {
		return nil, nil
	}
	for _, r := range q.rows {
		ok := true
		for k, p := range q.pos {
			ok = ok && (p == -1 || p == r.pos[k])
		}
		if ok {
			xs = append(xs, float64(r.pos[ax]))
			vs = append(vs, r.val[f])
		}
	}
	sort.Sort(&pairSort{xs, vs})
	return
}

func distinctXs(x []float64) bool { // x is sorted
	for i := 1; i < len(x); i++ {
		if x[i] == x[i-1] {
			return false
		}
	}
	return true
}

type pairSort struct{ x, v []float64 }

func (p *pairSort) Len() int           { return len(p.x) }
func (p *pairSort) Less(i, j int) bool { return p.x[i] < p.x[j] }
func (p *pairSort) Swap(i, j int) {
	p.x[i], p.x[j] = p.x[j], p.x[i]
	p.v[i], p.v[j] = p.v[j], p.v[i]
}

// grid is the table as a matrix, or nil if it is not a complete plane
func (q *plotOp) grid() (n, m int, v []float64) {
	for _, r := range q.rows {
		n, m = max(n, r.pos[0]+1), max(m, r.pos[1]+1)
		if r.pos[2] != 0 || r.pos[0] < 0 || r.pos[1] < 0 {
			return 0, 0, nil
		}
	}
	if n*m != len(q.rows) {
		return 0, 0, nil
	}
	v = make([]float64, n*m)
	for i := range v {
		v[i] = math.NaN()
	}
	for _, r := range q.rows {
		v[r.pos[0]*m+r.pos[1]] = r.val[0]
	}
	for _, x := range v {
		if math.IsNaN(x) {
			return 0, 0, nil
		}
	}
	return
}

func spread(v []float64) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range v {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	return hi - lo
}

func plotsCheck(s *Sim, sti interface{}) []Violation {
	w := sti.(*plotWorld)
	if s.overrun {
		w.bad("no-progress", "the processes did not finish within %d seam operations and %d statements", s.maxSteps, maxPoints)
		return w.viol
	}
	clean := len(s.plan.Faults) == 0
	for _, q := range w.ops {
		if q.busy {
			continue
		}
		said := q.proc.stdout.String() + q.proc.stderr.String()
		announced := q.ret > 0 && strings.Contains(said, "written to "+q.out)
		show := fmt.Sprintf("P%d %s -> %s", q.proc.id, q.what, q.out)
		if !q.valid {
			if announced {
				w.bad("damaged", "%s: a plot of a damaged or missing table was announced", show)
			}
			continue
		}
		if q.what == "contour" {
			n, m, v := q.grid()
			if v == nil {
				continue
			}
			if !announced {
				if clean && !q.other {
					w.bad("not-plotted", "%s: announced nothing in a run without faults: %s %.100s %.300q", show, q.proc.exit, firstLine(q.proc.exitMsg), said)
				}
				continue
			}
			s.probe("contour-checked")
			if q.other {
				q.sel = q.head[:1]
			}
			if why := checkContour(q.out, q.sel[0], n, m, v); why != "" {
				w.bad("contour", "%s (column %s, %d x %d nodes): %s", show, q.sel[0], n, m, why)
			}
			continue
		}
		xs, _ := q.line(0)
		if len(xs) < 2 {
			continue
		}
		if !announced {
			if clean && !q.other {
				w.bad("not-plotted", "%s: announced nothing in a run without faults: %s %.100s %.300q", show, q.proc.exit, firstLine(q.proc.exitMsg), said)
			}
			continue
		}
		s.probe("lineplot-checked")
		if why := q.checkLine(); why != "" {
			w.bad("lineplot", "%s (fields %v, line %v): %s", show, q.sel, q.pos, why)
		}
	}
	return w.viol
}

// ---- line plots ---------------------------------------------------------------

var (
	svgPath = regexp.MustCompile(`^<path d="([^"]*)" style="fill:none;stroke:(#[0-9A-Fa-f]{6})`)
	svgText = regexp.MustCompile(`(?s)<text x="([-0-9.]+)" y="([-0-9.]+)"[^>]*>([^<]*)</text>`)
)

type svgLine struct {
	pts   [][2]float64
	color string
	next  string // the text that follows
}

func parseSVG(b []byte) ([]svgLine, error) {
	t := string(b)
	if !strings.HasPrefix(t, "<?xml") || !strings.HasSuffix(strings.TrimSpace(t), "</svg>") {
		return nil, fmt.Errorf("the picture is not complete")
	}
	// one element per line
	t = regexp.MustCompile(`\n\s+style`).ReplaceAllString(t, " style")
	var out []svgLine
	for _, l := range strings.Split(t, "\n") {
		if m := svgPath.FindStringSubmatch(l); m != nil {
			var p svgLine
			p.color = m[2]
			for _, c := range regexp.MustCompile(`[ML]([-0-9.e]+),([-0-9.e]+)`).FindAllStringSubmatch(m[1], -1) {
				x, _ := strconv.ParseFloat(c[1], 64)
				y, _ := strconv.ParseFloat(c[2], 64)
				p.pts = append(p.pts, [2]float64{x, y})
			}
			out = append(out, p)
		} else if m := svgText.FindStringSubmatch(l); m != nil && len(out) > 0 && out[len(out)-1].next == "" {
			out[len(out)-1].next = m[3]
		}
	}
	return out, nil
}

// checkLine reads the fields back from the picture. The axes are taken from the
// labelled ticks.
func (q *plotOp) checkLine() string {
	b, err := os.ReadFile(q.out)
	if err != nil {
		return err.Error()
	}
	if !strings.HasSuffix(q.out, ".svg") {
		magic := map[string]string{"png": "\x89PNG", "pdf": "%PDF", "eps": "%%", "jpg": "\xff\xd8", "tif": "II"}[q.out[len(q.out)-3:]]
		if !bytes.HasPrefix(b, []byte(magic)) {
			return "the file has another format than its name says"
		}
		switch q.out[len(q.out)-3:] {
		case "png", "jpg":
			if _, _, err := image.Decode(bytes.NewReader(b)); err != nil {
				return err.Error()
			}
		case "pdf":
			if !bytes.Contains(b, []byte("%%EOF")) {
				return "the picture is not complete"
			}
		}
		return ""
	}
	ls, err := parseSVG(b)
	if err != nil {
		return err.Error()
	}
	tx, ty := svgAxes(string(b))
	if tx == nil || ty == nil {
		return "no axes found"
	}
	// coloured lines: the curves, then their entries in the legend
	var curves []svgLine
	legend := map[string]string{}
	for _, l := range ls {
		if l.color == "#000000" {
			continue
		}
		if len(l.pts) == 2 && l.pts[0][1] == l.pts[1][1] && l.next != "" {
			legend[l.next] = l.color
			continue
		}
		curves = append(curves, l)
	}
	if len(curves)+len(legend) > 0 && len(curves) < len(q.sel) {
		// a curve of two equal values looks like an entry of the legend
		curves = curves[:0]
		k := 0
		for _, l := range ls {
			if l.color != "#000000" && k < len(q.sel) {
				curves = append(curves, l)
				k++
			}
		}
	}
	if q.other {
		for _, name := range q.sel {
			if _, ok := legend[name]; ok && !has(q.head, name) {
				return fmt.Sprintf("there is a curve called %q, a field that is not in the table", name)
			}
		}
		return ""
	}
	if len(curves) != len(q.sel) || len(legend) != nNames(q.sel) {
		return fmt.Sprintf("%d curves and %d entries in the legend instead of %d", len(curves), len(legend), len(q.sel))
	}
	for f, name := range q.sel {
		col, ok := legend[name]
		if !ok {
			return fmt.Sprintf("no entry %q in the legend", name)
		}
		xs, vs := q.line(f)
		found := false
		for _, c := range curves {
			if c.color != col {
				continue
			}
			found = true
			if len(c.pts) != len(xs) {
				return fmt.Sprintf("the curve of %q has %d points instead of %d", name, len(c.pts), len(xs))
			}
			p := append([][2]float64(nil), c.pts...)
			up := p[0][0] < p[len(p)-1][0]
			for i := 1; i < len(p); i++ {
				if less := p[i-1][0] < p[i][0]; less != up && distinctXs(xs) {
					return fmt.Sprintf("the curve of %q joins nodes that are not neighbours", name)
				}
			}
			sort.SliceStable(p, func(i, j int) bool { return p[i][0] < p[j][0] })
			for i := range p {
				x, v := tx.at(p[i][0]), ty.at(p[i][1])
				if math.Abs(x-xs[i]) > tx.tol || math.Abs(v-vs[i]) > ty.tol {
					return fmt.Sprintf("the curve of %q is at (%.4g, %.4g) instead of (%g, %g)", name, x, v, xs[i], vs[i])
				}
			}
		}
		if !found {
			return fmt.Sprintf("no curve of %q", name)
		}
	}
	return ""
}

type svgAxis struct{ a, b, tol float64 }

func (x *svgAxis) at(p float64) float64 { return x.a + x.b*p }

// svgAxes derives the scales of the two axes from the labelled ticks. Labels and
// ticks of an axis come in the same order.
func svgAxes(t string) (x, y *svgAxis) {
	t = regexp.MustCompile(`\n\s+style`).ReplaceAllString(t, " style")
	var labels []float64
	var prec float64
	var ticks [][4]float64
	flush := func() {
		if len(labels) < 2 || len(ticks) < len(labels) {
			return
		}
		horiz := math.Abs(ticks[0][0]-ticks[0][2]) < 1e-9 // vertical tick marks: x axis
		k := 0
		if !horiz {
			k = 1
		}
		n := len(labels)
		p0, p1 := ticks[0][k], ticks[n-1][k]
		ax := &svgAxis{}
		if p0 == p1 {
			return
		}
		ax.b = (labels[n-1] - labels[0]) / (p1 - p0)
		ax.a = labels[0] - ax.b*p0
		// rounding of the labels and of the coordinates, extrapolated over the axis
		step := math.Abs(p1 - p0)
		ax.tol = 1.2*prec*(1+2*300/step) + 0.02*math.Abs(ax.b)
		if horiz && x == nil {
			x = ax
		} else if !horiz && y == nil {
			y = ax
		}
	}
	for _, l := range strings.Split(t, "\n") {
		if m := svgText.FindStringSubmatch(l); m != nil {
			s := m[3]
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				labels, ticks = nil, nil
				continue
			}
			if len(ticks) > 0 {
				labels, ticks = nil, nil
			}
			if len(labels) == 0 {
				prec = 0
			}
			labels = append(labels, v)
			prec = math.Max(prec, labelPrec(s))
			continue
		}
		if m := svgPath.FindStringSubmatch(l); m != nil && m[2] == "#000000" && len(labels) > 0 {
			c := regexp.MustCompile(`[ML]([-0-9.e]+),([-0-9.e]+)`).FindAllStringSubmatch(m[1], -1)
			if len(c) == 2 {
				var q [4]float64
				for i := range q {
					q[i], _ = strconv.ParseFloat(c[i/2][1+i%2], 64)
				}
				ticks = append(ticks, q)
				if len(ticks) == len(labels) {
					flush()
				}
			}
		}
	}
	return
}

// labelPrec is the rounding error of a printed number
func labelPrec(s string) float64 {
	e := 0.0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, _ = strconv.ParseFloat(s[i+1:], 64)
		s = s[:i]
	}
	d := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		d = len(s) - i - 1
	}
	return 0.5 * math.Pow(10, e-float64(d))
}

// ---- contour plots ----------------------------------------------------------

// contourGeometry says where a contour plot of n x m nodes has its nodes and its colour
// bar: found by drawing the same layout with pictures of one colour
type contourGeometry struct {
	data, bar image.Rectangle
	size      image.Rectangle
}

var contourGeos = map[string]*contourGeometry{}

func contourLayout(title string, n, m int, c color.Color) image.Image {
	img := image.NewRGBA64(image.Rect(0, 0, n, m))
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			img.Set(i, j, c)
		}
	}
	plt := plot.New()
	plt.Add(plotter.NewImage(img, 0, 0, float64(n), float64(m)))
	plt.X.Label.Text = "x position (\u0394 x)"
	plt.Y.Label.Text = "y position (\u0394 x)"
	bar := plot.New()
	one := image.NewRGBA64(image.Rect(0, 0, 1, 1))
	one.Set(0, 0, c)
	bar.Add(plotter.NewImage(one, 0, 0, 1, 1))
	bar.HideY()
	bar.Title.Text = title
	cv := vgimg.New(4*vg.Inch, 4*vg.Inch)
	dc := draw.New(cv)
	bar.Draw(draw.Crop(dc, 0.325*vg.Inch, -0.325*vg.Inch, 3.35*vg.Inch, 0.0))
	plt.Draw(draw.Crop(dc, 0.325*vg.Inch, -0.325*vg.Inch, 0.0, -0.65*vg.Inch))
	return cv.Image()
}

func contourGeo(title string, n, m int) *contourGeometry {
	key := fmt.Sprintf("%s/%d/%d", title, n, m)
	if g := contourGeos[key]; g != nil {
		return g
	}
	a := contourLayout(title, n, m, color.RGBA{255, 0, 0, 255})
	b := contourLayout(title, n, m, color.RGBA{0, 0, 255, 255})
	g := &contourGeometry{size: a.Bounds()}
	sz := a.Bounds()
	split := sz.Min.Y + sz.Dy()*65/400
	for y := sz.Min.Y; y < sz.Max.Y; y++ {
		for x := sz.Min.X; x < sz.Max.X; x++ {
			if a.At(x, y) != b.At(x, y) {
				r := image.Rect(x, y, x+1, y+1)
				if y < split {
					g.bar = g.bar.Union(r)
				} else {
					g.data = g.data.Union(r)
				}
			}
		}
	}
	contourGeos[key] = g
	return g
}

func checkContour(file, title string, n, m int, v []float64) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return err.Error()
	}
	rd := bytes.NewReader(b)
	img, err := png.Decode(rd)
	if err != nil {
		return err.Error()
	}
	if rest, _ := io.ReadAll(rd); len(rest) > 0 {
		return fmt.Sprintf("%d more bytes after the picture", len(rest))
	}
	g := contourGeo(title, n, m)
	if img.Bounds() != g.size {
		return fmt.Sprintf("the picture has the size %v", img.Bounds())
	}
	// the colour bar gives the scale: positions of colours along it
	bar := make([][3]float64, g.bar.Dx())
	for x := range bar {
		bar[x] = rgb(img.At(g.bar.Min.X+x, (g.bar.Min.Y+g.bar.Max.Y)/2))
	}
	pos := make([]float64, n*m)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			x := g.data.Min.X + int((float64(i)+0.5)*float64(g.data.Dx())/float64(n))
			y := g.data.Max.Y - 1 - int((float64(j)+0.5)*float64(g.data.Dy())/float64(m))
			c := rgb(img.At(x, y))
			best, at := math.Inf(1), 0
			for k := 1; k < len(bar)-1; k++ {
				if d := dist(c, bar[k]); d < best {
					best, at = d, k
				}
			}
			if best > 60 {
				return fmt.Sprintf("the colour %v of node (%d, %d) with value %g is not on the colour bar (%g)", c, i, j, v[i*m+j], best)
			}
			pos[i*m+j] = float64(at) / float64(len(bar))
		}
	}
	// positions on the bar are an increasing linear function of the values
	lo, hi := 0, 0
	for i := range v {
		if v[i] < v[lo] {
			lo = i
		}
		if v[i] > v[hi] {
			hi = i
		}
	}
	if v[hi] == v[lo] {
		for i := range pos {
			if math.Abs(pos[i]-pos[0]) > 0.02 {
				return fmt.Sprintf("the field is %g everywhere, but nodes (0, 0) and (%d, %d) have other colours", v[0], i/m, i%m)
			}
		}
		return ""
	}
	if pos[hi]-pos[lo] < 0.5 {
		return fmt.Sprintf("the largest value (%g) is at %.2f of the colour bar, the smallest (%g) at %.2f", v[hi], pos[hi], v[lo], pos[lo])
	}
	for i := range v {
		want := pos[lo] + (pos[hi]-pos[lo])*(v[i]-v[lo])/(v[hi]-v[lo])
		if math.Abs(want-pos[i]) > 0.06 {
			return fmt.Sprintf("node (%d, %d) with value %g has the colour of %.4g", i/m, i%m, v[i], v[lo]+(pos[i]-pos[lo])/(pos[hi]-pos[lo])*(v[hi]-v[lo]))
		}
	}
	return ""
}

func rgb(c color.Color) [3]float64 {
	r, g, b, _ := c.RGBA()
	return [3]float64{float64(r >> 8), float64(g >> 8), float64(b >> 8)}
}

func dist(a, b [3]float64) float64 {
	return math.Abs(a[0]-b[0]) + math.Abs(a[1]-b[1]) + math.Abs(a[2]-b[2])
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func nNames(list []string) int {
	m := map[string]bool{}
	for _, x := range list {
		m[x] = true
	}
	return len(m)
}
