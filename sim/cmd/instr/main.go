// Command instr writes instrumented copies of the library's Go files and a go
// build overlay that puts them in place of the originals. It works on whatever
// the tree contains: a yield is put before every statement of every function,
// a register clobber before every statement that calls an assembly routine,
// package sync is replaced by its simulated stand-in.
//
// usage: instr -repo DIR -out DIR -mode plain|inst|bare [-camp=false] [-gamp=false]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func die(v ...any) { fmt.Fprintln(os.Stderr, v...); os.Exit(3) }

type edit struct {
	off  int
	text string
	del  int
}

var siteNames []string
var hasGo bool

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mode := flag.String("mode", "plain", "plain: only the table accessors; inst: also yields; bare: nothing")
	extra := flag.String("extra", "", "directory with overlay sources for the cgo package")
	sim := flag.String("sim", "", "directory of the simulator's module")
	camp := flag.Bool("camp", true, "add the accessor of the C vector list")
	gamp := flag.Bool("gamp", true, "add the accessor of the Go vector list")
	asmy := flag.Bool("asm", false, "yields in assembly too")
	flag.Parse()
	replace := map[string]string{}
	if *mode != "bare" {
		if *gamp {
			replace[filepath.Join(*repo, "ubc", "zz_verif.go")] = filepath.Join(*extra, "zz_ubc.go")
		}
	}
	if *mode != "bare" && *camp {
		for _, f := range []string{"zz_verif.go", "zz_verif.c"} {
			replace[filepath.Join(*repo, "cgo", f)] = filepath.Join(*extra, "plain", f)
		}
	}
	if *mode == "race" {
		for _, f := range []string{"zz_race.go", "zz_race.c"} {
			replace[filepath.Join(*repo, "cgo", f)] = filepath.Join(*extra, "race", f)
		}
	}
	if *mode == "inst" {
		for _, f := range []string{"zz_yield.go", "zz_yield.c"} {
			replace[filepath.Join(*repo, "cgo", f)] = filepath.Join(*extra, "yield", f)
		}
	}
	if *mode == "inst" || *mode == "race" {
		err := filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if d.IsDir() {
				if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "test" || d.Name() == "testdata" || d.Name() == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if *mode == "inst" && *asmy && strings.HasSuffix(p, ".s") {
				src, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				dst := filepath.Join(*out, "src", rel)
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, instrumentAsm(string(src)), 0o644); err != nil {
					return err
				}
				replace[p] = dst
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			f := instrument
			if *mode == "race" {
				f = annotate
			}
			res, changed, err := f(p, rel, src, asmFuncs(filepath.Dir(p)))
			if err != nil {
				return err
			}
			if changed {
				dst := filepath.Join(*out, "src", rel)
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					return err
				}
				replace[p] = dst
			}
			return nil
		})
		if err != nil {
			die(err)
		}
		if hasGo {
			f := filepath.Join(*out, "zz_hasgo.go")
			os.WriteFile(f, []byte("package simrt\n\nfunc init() { HasGo = true }\n"), 0o644)
			replace[filepath.Join(*sim, "simrt", "zz_hasgo.go")] = f
		}
		os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(siteNames, "\n")+"\n"), 0o644)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	os.MkdirAll(*out, 0o755)
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
}

var asmCache = map[string]map[string]bool{}

// asmFuncs lists the functions of the package in dir that have no Go body.
func asmFuncs(dir string) map[string]bool {
	if m, ok := asmCache[dir]; ok {
		return m
	}
	m := map[string]bool{}
	asmCache[dir] = m
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && fd.Recv == nil {
				m[fd.Name.Name] = true
			}
		}
	}
	return m
}

func instrument(path, rel string, src []byte, asm map[string]bool) ([]byte, bool, error) {
	fs := token.NewFileSet()
	a, err := parser.ParseFile(fs, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []edit
	sites := 0
	usesC := false
	for _, im := range a.Imports {
		usesC = usesC || im.Path.Value == `"C"` && rel == filepath.Join("cgo", filepath.Base(rel))
	}
	callsAsm := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			if _, ok := x.(*ast.BlockStmt); ok {
				return false
			}
			if c, ok := x.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && asm[id.Name] {
					found = true
				}
			}
			return !found
		})
		return found
	}
	callsC := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			if _, ok := x.(*ast.BlockStmt); ok {
				return false
			}
			if c, ok := x.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == "C" {
						found = true
					}
				}
			}
			return !found
		})
		return found
	}
	plain := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return false
			}
		}
	}
	// waits makes blocking channel operations of a statement wait under the
	// scheduler's control.
	waits := func(s ast.Stmt) string {
		t := ""
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.SelectStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.SendStmt:
				if plain(x.Chan) {
					t += fmt.Sprintf("verifsimrt.WaitSend(%s); ", src[off(x.Chan.Pos()):off(x.Chan.End())])
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW && plain(x.X) {
					t += fmt.Sprintf("verifsimrt.WaitRecv(%s); ", src[off(x.X.Pos()):off(x.X.End())])
				}
			}
			return true
		})
		return t
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			pos := fs.Position(s.Pos())
			siteNames = append(siteNames, fmt.Sprintf("%s:%d", rel, pos.Line))
			t := fmt.Sprintf("verifsimrt.Y(%d); ", 15+len(siteNames))
			if callsAsm(s) {
				t += "verifsimrt.Clobber(); "
			}
			if usesC && callsC(s) {
				t += "verifJunk(); "
			}
			t += waits(s)
			edits = append(edits, edit{off: pos.Offset, text: t})
			sites++
		}
	}
	ast.Inspect(a, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			hasGo = true
		case *ast.ForStmt:
			if len(x.Body.List) == 0 { // a spin must not keep control for ever
				pos := fs.Position(x.Body.Rbrace)
				siteNames = append(siteNames, fmt.Sprintf("%s:%d", rel, pos.Line))
				edits = append(edits, edit{off: pos.Offset, text: fmt.Sprintf("verifsimrt.Y(%d); ", 15+len(siteNames))})
				sites++
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// Clause positions must not get a yield: filter them now that all are known.
	edits = filterClauses(a, fs, edits)
	for _, im := range a.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, edit{off: off(im.Path.Pos()), del: len(im.Path.Value), text: name + `"verifsim/simrt/simsync"`})
		}
	}
	// Yields make frames deeper than the nosplit budget allows.
	for _, cg := range a.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") {
				edits = append(edits, edit{off: off(c.Pos()), del: len("//go:nosplit"), text: "//xx:nosplit"})
			}
		}
	}
	if len(edits) == 0 {
		return nil, false, nil
	}
	if sites > 0 {
		edits = append(edits, edit{off: off(a.Name.End()), text: "; import verifsimrt \"verifsim/simrt\""})
	}
	o := apply(src, edits)
	// A file whose only yields were filtered out would not use the import.
	if sites > 0 && !strings.Contains(string(o), "verifsimrt.Y(") {
		o = append(o, "\nvar _ = verifsimrt.Y\n"...)
	}
	return o, true, nil
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var o []byte
	last := 0
	for _, e := range edits {
		o = append(o, src[last:e.off]...)
		o = append(o, e.text...)
		last = e.off + e.del
	}
	return append(o, src[last:]...)
}

// annotate tells the race detector about what the compiler does not instrument:
// clear and the memory given to assembly routines. Only calls that stand alone
// and whose arguments can be evaluated twice are covered.
func annotate(path, rel string, src []byte, asm map[string]bool) ([]byte, bool, error) {
	fs := token.NewFileSet()
	a, err := parser.ParseFile(fs, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case nil:
			return true
		case *ast.Ident, *ast.BasicLit:
			return true
		case *ast.SelectorExpr:
			return pure(x.X)
		case *ast.ParenExpr:
			return pure(x.X)
		case *ast.StarExpr:
			return pure(x.X)
		case *ast.UnaryExpr:
			return x.Op == token.AND && pure(x.X)
		case *ast.IndexExpr:
			return pure(x.X) && pure(x.Index)
		case *ast.SliceExpr:
			return pure(x.X) && pure(x.Low) && pure(x.High) && pure(x.Max)
		case *ast.BinaryExpr:
			return pure(x.X) && pure(x.Y)
		}
		return false
	}
	var edits []edit
	ast.Inspect(a, func(n ast.Node) bool {
		st, ok := n.(*ast.ExprStmt)
		if !ok {
			return true
		}
		c, ok := st.X.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			return true
		}
		for _, x := range c.Args {
			if !pure(x) {
				return true
			}
		}
		args := src[off(c.Args[0].Pos()):off(c.Args[len(c.Args)-1].End())]
		switch {
		case id.Name == "clear":
			edits = append(edits, edit{off: off(st.Pos()), text: fmt.Sprintf("verifnote.Clear(%s); ", args)})
		case asm[id.Name]:
			edits = append(edits, edit{off: off(st.Pos()), text: fmt.Sprintf("{ verifSpans := verifnote.Before(%s); ", args)},
				edit{off: off(st.End()), text: "; verifSpans.After() }"})
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false, nil
	}
	for _, cg := range a.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") {
				edits = append(edits, edit{off: off(c.Pos()), del: len("//go:nosplit"), text: "//xx:nosplit"})
			}
		}
	}
	edits = append(edits, edit{off: off(a.Name.End()), text: "; import verifnote \"verifsim/simrt/note\""})
	return apply(src, edits), true, nil
}

func filterClauses(a *ast.File, fs *token.FileSet, in []edit) []edit {
	bad := map[int]bool{}
	ast.Inspect(a, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			bad[fs.Position(x.Pos()).Offset] = true
		case *ast.CommClause:
			bad[fs.Position(x.Pos()).Offset] = true
		}
		return true
	})
	out := in[:0]
	for _, e := range in {
		if !bad[e.off] {
			out = append(out, e)
		}
	}
	return out
}

var (
	asmInstr = regexp.MustCompile(`^\s*[A-Z][A-Z0-9.]*(\s|$)`)
	asmUse   = regexp.MustCompile(`^\s*[A-Za-z_]\w*\(`)
)

const asmCall = "\tCALL verifsim\u2215simrt\u00b7asmYield(SB)"

// instrumentAsm puts a yield before every instruction of every function and of
// every multi-line macro. A switch can then land in the middle of a routine.
func instrumentAsm(src string) []byte {
	var o strings.Builder
	text, macro, first := false, false, true
	for _, l := range strings.SplitAfter(src, "\n") {
		s := strings.TrimSpace(l)
		cont := strings.HasSuffix(s, "\\")
		if first && strings.HasPrefix(s, "#include") {
			o.WriteString("#include \"funcdata.h\"\n")
			first = false
		}
		switch {
		case macro:
			if asmInstr.MatchString(l) {
				o.WriteString(asmCall + "; \\\n")
			}
			macro = cont
		case strings.HasPrefix(s, "#"):
			macro = cont && strings.HasPrefix(s, "#define")
		case strings.HasPrefix(s, "TEXT"):
			text = true
			o.WriteString(l)
			o.WriteString("\tNO_LOCAL_POINTERS\n")
			continue
		case strings.HasPrefix(s, "DATA"), strings.HasPrefix(s, "GLOBL"):
			text = false
		case text && !strings.HasPrefix(s, "//") && !strings.HasSuffix(s, ":") && (asmInstr.MatchString(l) || asmUse.MatchString(l)) &&
			!strings.HasPrefix(s, "PCDATA") && !strings.HasPrefix(s, "FUNCDATA") && !strings.HasPrefix(s, "NO_LOCAL"):
			o.WriteString(asmCall + "\n")
		}
		o.WriteString(l)
	}
	return []byte(o.String())
}
