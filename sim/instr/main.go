// instr writes an instrumented copy of gopf's packages and an overlay that replaces
// the originals: a scheduling point in front of every statement, and simulated
// threads, locks and channels instead of those of the Go runtime. The repository
// itself is not touched.
//
// Usage: instr REPO OUTDIR BASE_OVERLAY.json RESULT_OVERLAY.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int // replaces [off, end)
	text     string
	rank     int
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(os.Args[3])
	fail(err)
	fail(json.Unmarshal(b, &ov))
	fail(os.RemoveAll(out))
	files := map[string][]string{}
	fail(filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "examples" || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files[filepath.Dir(path)] = append(files[filepath.Dir(path)], path)
		}
		return nil
	}))
	for dir, fs := range files {
		sort.Strings(fs)
		pkg(repo, dir, out, fs, ov.Replace)
	}
	b, err = json.MarshalIndent(ov, "", " ")
	fail(err)
	fail(os.WriteFile(os.Args[4], b, 0644))
}

type noImport struct{}

func (noImport) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

func pkg(repo, dir, out string, fs []string, replace map[string]string) {
	fset := token.NewFileSet()
	var parsed []*ast.File
	for _, f := range fs {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		fail(err)
		parsed = append(parsed, a)
	}
	if parsed[0].Name.Name == "main" {
		return
	}
	// types are needed to tell channels from other things to range over: as far as
	// they can be found out without the imported packages
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, Importer: noImport{}}
	conf.Check(dir, fset, parsed, info)
	for i, f := range fs {
		src, err := os.ReadFile(f)
		fail(err)
		cgo := false
		for _, im := range parsed[i].Imports {
			cgo = cgo || im.Path.Value == `"C"`
		}
		if cgo {
			continue
		}
		rel, err := filepath.Rel(repo, f)
		fail(err)
		dst := filepath.Join(out, rel)
		fail(os.MkdirAll(filepath.Dir(dst), 0755))
		fail(os.WriteFile(dst, instrument(fset, parsed[i], info, src), 0644))
		replace[f] = dst
	}
}

func instrument(fset *token.FileSet, f *ast.File, info *types.Info, src []byte) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	put := func(pos token.Pos, rank int, t string) { edits = append(edits, edit{off(pos), off(pos), t, rank}) }
	isChan := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	inSelect := map[ast.Node]bool{}
	two := map[ast.Node]bool{}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, empty := s.(*ast.EmptyStmt); empty {
				continue
			}
			put(s.Pos(), 1, "simrt__.P(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectStmt:
			for _, c := range x.Body.List { // select is left as it is
				if cc := c.(*ast.CommClause); cc.Comm != nil {
					ast.Inspect(cc.Comm, func(m ast.Node) bool { inSelect[m] = true; return true })
				}
				stmts(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
			if len(x.List) == 0 && x.Lbrace.IsValid() && x.Rbrace > x.Lbrace {
				put(x.Rbrace, 1, " simrt__.P() ")
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.GoStmt:
			call := x.Call
			if len(call.Args) == 0 {
				put(x.Pos(), 5, "simrt__.Go(")
				edits = append(edits, edit{off(x.Pos()), off(call.Pos()), "", 6})
				// go f() -> Go(f)
				edits = append(edits, edit{off(call.Lparen), off(call.End()), ")", 0})
				return true
			}
			// the function and the arguments are evaluated now
			var names, vals, use []string
			names, vals = append(names, "f__"), append(vals, text(call.Fun))
			for k, a := range call.Args {
				switch v := a.(type) {
				case *ast.BasicLit:
					use = append(use, text(a))
					continue
				case *ast.Ident:
					if v.Name == "nil" || v.Name == "true" || v.Name == "false" {
						use = append(use, text(a))
						continue
					}
				}
				nm := fmt.Sprintf("a%d__", k)
				names, vals, use = append(names, nm), append(vals, text(a)), append(use, nm)
			}
			dots := ""
			if call.Ellipsis.IsValid() {
				dots = "..."
			}
			if _, lit := call.Fun.(*ast.FuncLit); lit {
				// keep the body where it is so that it is instrumented, too
				put(x.Pos(), 5, "{ f__ := ")
				edits = append(edits, edit{off(x.Pos()), off(call.Pos()), "", 6})
				t := "; "
				if len(names) > 1 {
					t += strings.Join(names[1:], ", ") + " := " + strings.Join(vals[1:], ", ") + "; "
				}
				t += "simrt__.Go(func() { f__(" + strings.Join(use, ", ") + dots + ") }) }"
				edits = append(edits, edit{off(call.Lparen), off(call.End()), t, 0})
				return true
			}
			t := "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; simrt__.Go(func() { f__(" + strings.Join(use, ", ") + dots + ") }) }"
			edits = append(edits, edit{off(x.Pos()), off(x.End()), t, 5})
			return false
		case *ast.SendStmt:
			if inSelect[n] {
				return true
			}
			put(x.Pos(), 5, "simrt__.Send(")
			edits = append(edits, edit{off(x.Arrow), off(x.Arrow) + 2, ",", 0})
			put(x.End(), 0, ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSelect[n] {
				name := "simrt__.Recv("
				if two[n] {
					name = "simrt__.Recv2("
				}
				edits = append(edits, edit{off(x.Pos()), off(x.Pos()) + 2, name, 7})
				put(x.End(), 0, ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 1 {
				_, lit := x.Args[0].(*ast.ChanType)
				if lit || isChan(x.Args[0]) {
					put(x.Rparen, 0, ", 1") // a sender need not wait for the receiver
				}
			}
		case *ast.RangeStmt:
			if isChan(x.X) && x.Value == nil && (x.Key == nil || x.Tok == token.DEFINE) {
				key := "_"
				if x.Key != nil {
					key = text(x.Key)
				}
				ch := text(x.X)
				t := fmt.Sprintf("for %s, ok__ := simrt__.Recv2(%s); ok__; %s, ok__ = simrt__.Recv2(%s) ", key, ch, key, ch)
				edits = append(edits, edit{off(x.For), off(x.Body.Lbrace), t, 5})
			}
		case *ast.ImportSpec:
			if x.Path.Value == `"sync"` {
				t := `"verifsim/simrt/ssync"`
				if x.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, edit{off(x.Path.Pos()), off(x.Path.End()), t, 0})
			}
		}
		return true
	})
	put(f.Name.End(), 0, `; import simrt__ "verifsim/simrt"`)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].rank < edits[j].rank
	})
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\n")
	pos := 0
	for _, e := range edits {
		if e.off < pos { // inside a replaced region
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = simrt__.P\n")
	return []byte(b.String())
}
