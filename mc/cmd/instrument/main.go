// Command instrument writes copies of the library's sources with a scheduling
// point before every statement, and the overlay file to build with them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookSource = `// Package verifyield holds the scheduling points of instrumented builds.
package verifyield

// Hook is called at every scheduling point; entry tells the ones at the start of a function.
var Hook func(entry bool)

// S is the scheduling point before a statement.
func S() {
	if Hook != nil {
		Hook(false)
	}
}

// F is the scheduling point at the start of a function.
func F() {
	if Hook != nil {
		Hook(true)
	}
}
`

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instrument REPO OUTDIR")
		os.Exit(2)
	}
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	write := func(path, text string) {
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, repo+"/"), "/", "__"))
		must(os.WriteFile(dst, []byte(text), 0o644))
		replace[path] = dst
	}
	must(os.MkdirAll(out, 0o755))
	must(filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(path, repo+"/")
		if d.IsDir() {
			switch d.Name() {
			case "testdata", "examples", "benchmarks", "test", "tests", "cmd", "generator", "engine-generators", "internal_test", ".git", ".github":
				return filepath.SkipDir
			}
			if strings.HasPrefix(d.Name(), "_") {
				return filepath.SkipDir
			}
			return nil
		}
		inner := strings.HasPrefix(rel, "engines/") || !strings.Contains(rel, "/")
		if !inner || !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		must(err)
		if text, ok := instrument(string(src)); ok {
			write(path, text)
		}
		return nil
	}))
	hook := filepath.Join(out, "verifyield.go.txt")
	must(os.WriteFile(hook, []byte(hookSource), 0o644))
	replace[filepath.Join(repo, "verifyield", "yield.go")] = hook
	data, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o644))
}

// instrument inserts the scheduling points as text, so that nothing else of the file changes.
func instrument(src string) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return "", false
	}
	type insertion struct {
		at   int
		text string
	}
	var ins []insertion
	offset := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			ins = append(ins, insertion{offset(s.Pos()), "verifyield.S(); "})
		}
	}
	body := func(b *ast.BlockStmt) {
		if b != nil {
			ins = append(ins, insertion{offset(b.Lbrace) + 1, " verifyield.F(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil && n.Name.Name == "init" && n.Recv == nil {
				return false
			}
			body(n.Body)
		case *ast.FuncLit:
			body(n.Body)
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	// clauses of switch and select statements stand in a block, but nothing may stand before them
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[offset(n.Pos())] = true
		}
		return true
	})
	kept := ins[:0]
	for _, i := range ins {
		if !clause[i.at] {
			kept = append(kept, i)
		}
	}
	ins = kept
	if len(ins) == 0 {
		return "", false
	}
	ins = append(ins, insertion{offset(f.Name.End()), `; import verifyield "github.com/KSpaceer/yamly/verifyield"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var sb strings.Builder
	last := 0
	for _, i := range ins {
		sb.WriteString(src[last:i.at])
		sb.WriteString(i.text)
		last = i.at
	}
	sb.WriteString(src[last:])
	return sb.String(), true
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}
