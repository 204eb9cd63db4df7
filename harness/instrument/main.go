// Command instrument writes, for the packages whose interleavings are explored,
// copies of the source files of the tree under test in which every statement is
// preceded by a scheduling point and sync and sync/atomic are replaced by
// versions the scheduler knows about. It prints the "Replace" map of a go build
// overlay. The tree itself is not touched.
//
//	instrument REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var dirs = []string{"graceful/listener", "web", "web/middleware", "web/mutil"}

func main() {
	repo, out := os.Args[1], os.Args[2]
	repl := map[string]string{}
	for _, d := range dirs {
		fs, err := filepath.Glob(filepath.Join(repo, d, "*.go"))
		if err != nil {
			fatal(err)
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := instrument(f)
			if err != nil {
				fatal(err)
			}
			o := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"__"+filepath.Base(f))
			if err := os.WriteFile(o, b, 0o644); err != nil {
				fatal(err)
			}
			repl[f] = o
		}
	}
	json.NewEncoder(os.Stdout).Encode(repl)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

type edit struct {
	at, end int
	text    string
}

func instrument(file string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), `; import vsched_ "verif/harness/vsched"`})
	for _, im := range f.Imports {
		var name, path string
		switch im.Path.Value {
		case `"sync"`:
			name, path = "sync", `"verif/harness/vsched/vsync"`
		case `"sync/atomic"`:
			name, path = "atomic", `"verif/harness/vsched/vatomic"`
		default:
			continue
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		eds = append(eds, edit{off(im.Pos()), off(im.End()), name + " " + path})
	}
	usesRuntime := false
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "NumCPU" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "runtime" {
					// few shards, so that connections share them
					eds = append(eds, edit{off(c.Pos()), off(c.End()), "1"})
					usesRuntime = true
				}
			}
		}
		return true
	})
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			o := off(s.Pos())
			eds = append(eds, edit{o, o, "vsched_.Yield(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			// the body of a switch holds clauses, not statements
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		}
		return true
	})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var b strings.Builder
	pos := 0
	for _, e := range eds {
		if e.at < pos {
			return nil, fmt.Errorf("%s: overlapping edits", file)
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = vsched_.Yield\n")
	if usesRuntime {
		b.WriteString("var _ = runtime.NumCPU\n")
	}
	return []byte(b.String()), nil
}
