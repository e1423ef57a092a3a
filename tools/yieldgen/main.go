// yieldgen writes copies of a module's sources in which every statement is a
// point where the simulator may let another goroutine run, and prints the
// overlay entries for them: a data race then shows in what the program does,
// under a schedule the seed decides, instead of by chance.
//
// Usage: yieldgen REPO OUTDIR DIR[=AS]...   (DIR relative to REPO; AS: the package
// is mapped to that directory under that directory's name)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "yieldgen:", err)
		os.Exit(1)
	}
}

func write(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	die(os.WriteFile(p, b, 0o644))
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	rep := map[string]string{}
	die(os.MkdirAll(out, 0o755))
	for _, a := range os.Args[3:] {
		rel, as := a, ""
		if i := strings.IndexByte(a, '='); i >= 0 {
			rel, as = a[:i], a[i+1:]
		}
		root := filepath.Join(repo, rel)
		die(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !fi.IsDir() {
				return nil
			}
			if as != "" && p != root {
				return filepath.SkipDir
			}
			dir := p
			if as != "" {
				dir = as
			}
			return pkg(p, dir, out, as != "", rep)
		}))
	}
	b, _ := json.Marshal(rep)
	os.Stdout.Write(b)
}

func pkg(src, dst, out string, rename bool, rep map[string]string) error {
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	name := ""
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		t, pn, err := file(n, b, rename, filepath.Base(dst))
		if err != nil {
			return err
		}
		name = pn
		q := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(filepath.Join(dst, n), "/"), "/", "_"))
		write(q, t)
		rep[filepath.Join(dst, n)] = q
	}
	if name != "" {
		n := "zz_verif_yield.go"
		q := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(filepath.Join(dst, n), "/"), "/", "_"))
		write(q, []byte("package "+name+"\n\nimport \"runtime\"\n\nfunc verifYieldStmt() { runtime.VerifStmt() }\n"))
		rep[filepath.Join(dst, n)] = q
	}
	return nil
}

func file(n string, b []byte, rename bool, as string) ([]byte, string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, n, b, parser.SkipObjectResolution)
	if err != nil {
		return nil, "", err
	}
	type ins struct {
		at   int
		del  int
		text string
	}
	var is []ins
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	name := f.Name.Name
	if rename {
		is = append(is, ins{off(f.Name.Pos()), len(name), as})
		name = as
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.BlockStmt:
				continue
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			is = append(is, ins{off(s.Pos()), 0, "verifYieldStmt();"})
		}
	}
	if !strings.Contains(string(b), "//go:nosplit") && !generated(f) {
		ast.Inspect(f, func(x ast.Node) bool {
			switch t := x.(type) {
			case *ast.BlockStmt:
				list(t.List)
			case *ast.CaseClause:
				list(t.Body)
			case *ast.CommClause:
				list(t.Body)
			}
			return true
		})
	}
	sort.SliceStable(is, func(i, j int) bool { return is[i].at < is[j].at })
	var o bytes.Buffer
	last := 0
	for _, x := range is {
		o.Write(b[last:x.at])
		o.WriteString(x.text)
		last = x.at + x.del
	}
	o.Write(b[last:])
	return o.Bytes(), name, nil
}

func generated(f *ast.File) bool {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "// Code generated") {
				return true
			}
		}
	}
	return false
}
