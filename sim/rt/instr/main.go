// instr writes copies of the Go files of some packages in which every statement is preceded by a
// call of runtime.VerifStmt (which the simulation's runtime has, see gen_overlay.py), and prints the
// pairs "original<TAB>copy". `x++` and `x op= e` become a read, such a call, and a write, as they are
// for a processor. Nothing else changes, line numbers included.
//
//	instr OUTDIR PKGDIR...
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const call = "verifrt.VerifStmt()"

type edit struct {
	from, to int
	text     string
}

// plain: evaluating it has no effects, and denotes the same variable every time
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	case *ast.ParenExpr:
		return plain(x.X)
	}
	return false
}

func instrument(path string) (string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	src := string(b)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			case *ast.IncDecStmt:
				if plain(x.X) {
					v := src[off(x.X.Pos()):off(x.X.End())]
					edits = append(edits, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("%s; { verifV := %s; %s; %s = verifV %s 1 }", call, v, call, v, x.Tok.String()[:1])})
					continue
				}
			case *ast.AssignStmt:
				if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 && plain(x.Lhs[0]) && !hasFunc(x.Rhs[0]) {
					v := src[off(x.Lhs[0].Pos()):off(x.Lhs[0].End())]
					edits = append(edits, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("%s; { verifV := %s; %s; %s = verifV %s (%s) }", call, v, call, v,
						strings.TrimSuffix(x.Tok.String(), "="), src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())])})
					continue
				}
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), call + "; "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import verifrt "runtime"`})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var out strings.Builder
	at := 0
	for _, e := range edits {
		if e.from < at {
			return "", fmt.Errorf("%s: overlapping edits", path)
		}
		out.WriteString(src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.WriteString(src[at:])
	out.WriteString("\nvar _ = verifrt.VerifStmt\n")
	return out.String(), nil
}

func hasFunc(e ast.Expr) (found bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		_, ok := n.(*ast.FuncLit)
		found = found || ok
		return true
	})
	return
}

func main() {
	out := os.Args[1]
	for _, dir := range os.Args[2:] {
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			t, err := instrument(p)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err, "(left as it is)")
				continue
			}
			dst := filepath.Join(out, "stmt_"+filepath.Base(dir)+"_"+n)
			if old, err := os.ReadFile(dst); err != nil || string(old) != t {
				if err := os.WriteFile(dst, []byte(t), 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
			}
			fmt.Printf("%s\t%s\n", p, dst)
		}
	}
}
