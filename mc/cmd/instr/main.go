// Command instr writes instrumented copies of packages and a file for 'go build -overlay'. A call to vsched.P, or to
// vsched.Q if the statement uses data that is shared, is inserted before each statement. Locks of package sync are
// replaced with those of vsched.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

type edit struct {
	at, del int
	text    string
}

var locks = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "OnceFunc": true, "OnceValue": true, "Pool": true}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	die(os.MkdirAll(out, 0755))
	fset := token.NewFileSet()
	type file struct {
		path string
		src  []byte
		ast  *ast.File
	}
	// Package level variables of all packages
	vars := map[string]map[string]bool{}
	var files []file
	entries, err := os.ReadDir(repo)
	die(err)
	for _, d := range entries {
		if !d.IsDir() || strings.HasPrefix(d.Name(), ".") {
			continue
		}
		l, _ := filepath.Glob(filepath.Join(repo, d.Name(), "*.go"))
		sort.Strings(l)
		for _, p := range l {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, err := os.ReadFile(p)
			die(err)
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			die(err)
			if f.Name.Name == "main" {
				continue
			}
			files = append(files, file{p, src, f})
			v := vars[f.Name.Name]
			if v == nil {
				v = map[string]bool{}
				vars[f.Name.Name] = v
			}
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							v[n.Name] = true
						}
					}
				}
			}
		}
	}
	points, sharedPoints := 0, 0
	for i, f := range files {
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []edit
		syncName := ""
		for _, im := range f.ast.Imports {
			if im.Path.Value == `"sync"` {
				syncName = "sync"
				if im.Name != nil {
					syncName = im.Name.Name
				}
			}
		}
		own := vars[f.ast.Name.Name]
		// shared tells if a statement, apart from the blocks in it, uses variables of a package
		shared := func(s ast.Stmt) (r bool) {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.FuncLit:
					return false
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok && vars[x.Name] != nil && vars[x.Name][n.Sel.Name] {
						r = true
					}
					ast.Inspect(n.X, func(m ast.Node) bool {
						if x, ok := m.(*ast.Ident); ok && own[x.Name] {
							r = true
						}
						return true
					})
					return false
				case *ast.Ident:
					if own[n.Name] {
						r = true
					}
				}
				return true
			})
			return
		}
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			all := false
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok && id.Name == "Locator" {
					all = true
				}
			}
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					points++
					p := "vsched.P();"
					if all || shared(s) {
						p = "vsched.Q();"
						sharedPoints++
					}
					edits = append(edits, edit{off(s.Pos()), 0, p})
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
		if syncName != "" {
			ast.Inspect(f.ast, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok && locks[s.Sel.Name] {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == syncName {
						edits = append(edits, edit{off(x.Pos()), len(x.Name), "vsched"})
					}
				}
				return true
			})
		}
		edits = append(edits, edit{off(f.ast.Name.End()), 0, `; import vsched "verif/mc/vsched"`})
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		b := strings.Builder{}
		at := 0
		for _, e := range edits {
			b.Write(f.src[at:e.at])
			b.WriteString(e.text)
			at = e.at + e.del
		}
		b.Write(f.src[at:])
		b.WriteString("\nvar _ = vsched.P\n")
		if syncName != "" {
			b.WriteString("\nvar _ " + syncName + ".Locker\n")
		}
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", i, filepath.Base(f.path)))
		die(os.WriteFile(dst, []byte(b.String()), 0644))
		replace[f.path] = dst
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	die(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
	fmt.Printf("%d files, %d scheduling points, %d of them use shared data\n", len(files), points, sharedPoints)
}
