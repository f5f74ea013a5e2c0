package main

// Puts a scheduling point in front of every statement of the code under test.
// The instrumented files replace the originals through go build -overlay.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func instrumentFile(path string, root bool) []byte {
	src, err := os.ReadFile(path)
	fatalIf(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	fatalIf(err)
	type ins struct {
		at   int
		text string
	}
	l := []ins{}
	entry := map[*ast.BlockStmt]bool{}
	list := func(stmts []ast.Stmt, isEntry bool) {
		for i, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			text := "verifPoint(0);"
			if isEntry && i == 0 {
				text = "verifPoint(1);"
				if root {
					text = "verifPoint(2);"
				}
			}
			l = append(l, ins{fset.Position(s.Pos()).Offset, text})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				entry[n.Body] = true
			}
		case *ast.FuncLit:
			entry[n.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List, entry[n])
		case *ast.CaseClause:
			list(n.Body, false)
		case *ast.CommClause:
			list(n.Body, false)
		}
		return true
	})
	sort.SliceStable(l, func(a, b int) bool { return l[a].at > l[b].at })
	out := string(src)
	for _, i := range l {
		out = out[:i.at] + i.text + out[i.at:]
	}
	return []byte(out)
}

func init() {
	extraCommands["instrument"] = func(args []string) {
		dir, harness := args[0], args[1]
		cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Module", ".")
		cmd.Dir = harness
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		fatalIf(err)
		dec := json.NewDecoder(strings.NewReader(string(b)))
		replace := map[string]string{}
		imports, sets := "", ""
		n := 0
		for dec.More() {
			var p struct {
				ImportPath, Name, Dir string
				GoFiles               []string
				Module                *struct{ Path string }
			}
			fatalIf(dec.Decode(&p))
			if p.Module == nil || p.Module.Path != "github.com/mjarkk/yarql" {
				continue
			}
			n++
			sub := filepath.Join(dir, fmt.Sprint("p", n))
			fatalIf(os.MkdirAll(sub, 0o755))
			for _, f := range p.GoFiles {
				fatalIf(os.WriteFile(filepath.Join(sub, f), instrumentFile(filepath.Join(p.Dir, f), p.ImportPath == p.Module.Path), 0o644))
				replace[filepath.Join(p.Dir, f)] = filepath.Join(sub, f)
			}
			extra := filepath.Join(sub, "zz_verif_point.go")
			fatalIf(os.WriteFile(extra, []byte("package "+p.Name+"\n\n// VerifPoint is called before every statement\nvar VerifPoint func(kind int)\n\nfunc verifPoint(kind int) {\n\tif VerifPoint != nil {\n\t\tVerifPoint(kind)\n\t}\n}\n"), 0o644))
			replace[filepath.Join(p.Dir, "zz_verif_point.go")] = extra
			imports += fmt.Sprintf("import p%d %q\n", n, p.ImportPath)
			sets += fmt.Sprintf("\tp%d.VerifPoint = schedPoint\n", n)
		}
		hooks := filepath.Join(dir, "hooks.go")
		fatalIf(os.WriteFile(hooks, []byte("//go:build e16\n\npackage main\n\n"+imports+"\nfunc init() {\n"+sets+"}\n"), 0o644))
		replace[filepath.Join(harness, "zz_hooks.go")] = hooks
		o, _ := json.Marshal(map[string]any{"Replace": replace})
		fatalIf(os.WriteFile(filepath.Join(dir, "overlay.json"), o, 0o644))
	}
}
