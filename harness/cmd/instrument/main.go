// instrument writes copies of phabrik's sources with a yield point in front of
// every statement, and the overlay file that makes the go command use them.
// Line numbers stay the same. Nothing else is changed.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	repo, out, vy := os.Args[1], os.Args[2], os.Args[3]
	plain := len(os.Args) > 4 && os.Args[4] == "plain"
	replace := map[string]string{}
	// the package does not exist in the repository
	for _, f := range []string{"vy.go"} {
		replace[filepath.Join(repo, "verifyield", f)] = filepath.Join(vy, f)
	}
	next := uint32(1)
	sites := []string{"-"}
	if !plain {
		for _, dir := range []string{"transport", "lease", "federation", "naming"} {
			ents, err := os.ReadDir(filepath.Join(repo, dir))
			if err != nil {
				continue
			}
			for _, e := range ents {
				n := e.Name()
				if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "_string.go") {
					continue
				}
				src := filepath.Join(repo, dir, n)
				data, err := os.ReadFile(src)
				if err != nil {
					continue
				}
				fs := token.NewFileSet()
				f, err := parser.ParseFile(fs, src, data, parser.ParseComments)
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
				var list []ins
				addAll := func(l []ast.Stmt, fn string) {
					for _, s := range l {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
							continue
						}
						p := fs.Position(s.Pos())
						list = append(list, ins{p.Offset, fmt.Sprintf("vy.P(%d);", next)})
						sites = append(sites, fmt.Sprintf("%s/%s:%d", dir, n, p.Line))
						next++
					}
				}
				ast.Inspect(f, func(x ast.Node) bool {
					switch b := x.(type) {
					case *ast.BlockStmt:
						addAll(b.List, "")
					case *ast.CaseClause:
						addAll(b.Body, "")
					case *ast.CommClause:
						addAll(b.Body, "")
					}
					return true
				})
				if len(list) == 0 {
					continue
				}
				list = append(list, ins{fs.Position(f.Name.End()).Offset, `; import vy "github.com/tg123/phabrik/verifyield"`})
				sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
				var sb strings.Builder
				last := 0
				for _, i := range list {
					sb.Write(data[last:i.off])
					sb.WriteString(i.text)
					last = i.off
				}
				sb.Write(data[last:])
				dst := filepath.Join(out, dir, n)
				if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
					panic(err)
				}
				if err := os.WriteFile(dst, []byte(sb.String()), 0644); err != nil {
					panic(err)
				}
				replace[src] = dst
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0644)
}
