// instr writes an overlay of the repository for the concurrency checks: a
// scheduling point before every statement of every non-test file, and package
// sync replaced by its model. The repository itself is not touched.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off int
	del int
	s   string
}

func embedded(c *ast.CommentGroup) bool {
	if c != nil {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:") {
				return true
			}
		}
	}
	return false
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	var unmodelled []string
	n := 0
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if b := d.Name(); p != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var is []ins
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				n++
				is = append(is, ins{off(s.Pos()), 0, fmt.Sprintf("verifsched__.S(%d);", n)})
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				// the case clauses of a switch are not statements of their own
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.ForStmt:
				n++
				is = append(is, ins{off(x.Body.Lbrace) + 1, 0, fmt.Sprintf("verifsched__.S(%d);", n)})
			case *ast.GoStmt:
				unmodelled = append(unmodelled, fmt.Sprintf("%s: go statement", fset.Position(x.Pos())))
			case *ast.SelectStmt:
				unmodelled = append(unmodelled, fmt.Sprintf("%s: select", fset.Position(x.Pos())))
			case *ast.SendStmt:
				unmodelled = append(unmodelled, fmt.Sprintf("%s: channel send", fset.Position(x.Pos())))
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					unmodelled = append(unmodelled, fmt.Sprintf("%s: channel receive", fset.Position(x.Pos())))
				}
			}
			return true
		})
		render := func(a, b int) string {
			sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
			var sb strings.Builder
			for _, x := range is {
				if x.off >= a && x.off < b {
					sb.Write(src[a:x.off])
					sb.WriteString(x.s)
					a = x.off + x.del
				}
			}
			sb.Write(src[a:b])
			return sb.String()
		}
		// package variables are put back to their initial values by Reset
		var reset, after []string
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					if embedded(d.Doc) || embedded(v.Doc) {
						continue
					}
					blank := true
					var l, r []string
					for _, id := range v.Names {
						if id.Name != "_" {
							blank = false
							if len(v.Values) == 0 {
								reset = append(reset, "verifsched__.Zero(&"+id.Name+")")
							}
						}
						l = append(l, id.Name)
					}
					if len(v.Values) == 0 || blank {
						continue
					}
					for _, e := range v.Values {
						r = append(r, render(off(e.Pos()), off(e.End())))
					}
					reset = append(reset, strings.Join(l, ", ")+" = "+strings.Join(r, ", "))
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("verifinit%d_%d__", len(replace), len(after))
					is = append(is, ins{off(d.Name.Pos()), len("init"), nm})
					after = append(after, nm)
				}
			}
		}
		for _, im := range f.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); path == "sync" {
				s := strconv.Quote("verif/vsync")
				if im.Name == nil {
					s = "sync " + s
				}
				is = append(is, ins{off(im.Path.Pos()), len(im.Path.Value), s})
			}
		}
		is = append(is, ins{off(f.Name.End()), 0, "; import verifsched__ \"verif/vsched\""})
		var sb strings.Builder
		sb.WriteString(render(0, len(src)))
		sb.WriteString("\nvar _ = verifsched__.P\n")
		if len(after) > 0 {
			fmt.Fprintf(&sb, "func init() {\n%s()\n}\n", strings.Join(after, "()\n"))
		}
		if len(reset) > 0 {
			fmt.Fprintf(&sb, "func init() {\nverifsched__.OnReset(func() {\n%s\n}, 0)\n}\n", strings.Join(reset, "\n"))
		}
		if len(after) > 0 {
			fmt.Fprintf(&sb, "func init() {\nverifsched__.OnReset(func() {\n%s()\n}, 1)\n}\n", strings.Join(after, "()\n"))
		}
		rel, _ := filepath.Rel(repo, p)
		q := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		replace[p] = q
		return os.WriteFile(q, []byte(sb.String()), 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.WriteFile(filepath.Join(out, "unmodelled"), []byte(strings.Join(unmodelled, "\n")), 0o644)
	fmt.Printf("instrumented %d statements in %d files\n", n, len(replace))
}
