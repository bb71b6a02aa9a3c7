// Command instr writes a build overlay of the library under test in which a scheduler point precedes every statement, the
// primitives of package sync are the scheduler's, and goroutines are started by the scheduler. It changes no file of the
// library.
//
//	instr REPO MODULE SCHEDDIR OUTDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const schedPkg = "zzvsched"

func main() {
	repo, module, sched, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	if len(os.Args) != 5 {
		fail("usage: instr REPO MODULE SCHEDDIR OUTDIR")
	}
	replace := map[string]string{}
	points, n := 0, 0
	unsupported := []string{}
	err := filepath.Walk(repo, func(dir string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !info.IsDir() {
			return nil
		}
		base := filepath.Base(dir)
		if dir != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == schedPkg) {
			return filepath.SkipDir
		}
		p, err := build.ImportDir(dir, 0)
		if err != nil || p.Name == "main" {
			return nil
		}
		for _, f := range p.GoFiles {
			src := filepath.Join(dir, f)
			b, err := os.ReadFile(src)
			if err != nil {
				return err
			}
			if bytes.Contains(b, []byte("//go:embed")) || bytes.Contains(b, []byte("//go:linkname")) {
				continue
			}
			o, k, bad, err := instrument(src, b, module)
			if err != nil {
				return err
			}
			for _, x := range bad {
				unsupported = append(unsupported, src+": "+x)
			}
			points += k
			n++
			dst := filepath.Join(out, fmt.Sprintf("f%03d_%s", n, f))
			if err := os.WriteFile(dst, o, 0o644); err != nil {
				return err
			}
			replace[src] = dst
		}
		return nil
	})
	if err != nil {
		fail(err.Error())
	}
	fs, _ := filepath.Glob(filepath.Join(sched, "*.go"))
	for _, f := range fs {
		replace[filepath.Join(repo, schedPkg, filepath.Base(f))] = f
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail(err.Error())
	}
	meta, _ := json.Marshal(map[string]interface{}{"files": n, "points": points, "unsupported": unsupported})
	if err := os.WriteFile(filepath.Join(out, "instr.json"), meta, 0o644); err != nil {
		fail(err.Error())
	}
}

func fail(s string) {
	fmt.Fprintln(os.Stderr, s)
	os.Exit(2)
}

type rewriter struct {
	points int
	tmp    int
	bad    []string
	fset   *token.FileSet
}

func instrument(name string, src []byte, module string) ([]byte, int, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, 0, nil, err
	}
	r := &rewriter{fset: fset}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				x.List = r.list(x.List)
			case *ast.CaseClause:
				x.Body = r.list(x.Body)
			case *ast.CommClause:
				x.Body = r.list(x.Body)
			case *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
				r.bad = append(r.bad, fmt.Sprintf("channels at %s", fset.Position(n.Pos())))
			}
			return true
		})
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(module + "/" + schedPkg)
		}
	}
	if r.points > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(schedPkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + "/" + schedPkg)}}}}}, f.Decls...)
	}
	var w bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&w, fset, f); err != nil {
		return nil, 0, nil, err
	}
	return w.Bytes(), r.points, r.bad, nil
}

func (r *rewriter) point() ast.Stmt {
	r.points++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(schedPkg), Sel: ast.NewIdent("P")}}}
}

func (r *rewriter) isPoint(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	x, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := x.X.(*ast.Ident)
	return ok && id.Name == schedPkg
}

func usesLabel(s ast.Stmt, l string) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil && b.Label.Name == l && b.Tok != token.GOTO {
			found = true
		}
		return true
	})
	return found
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.isPoint(s) {
			out = append(out, s)
			continue
		}
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
		case *ast.LabeledStmt:
			// after the label, so that jumps meet the point, unless the label names a loop which is left or continued
			inner := x.Stmt
			if usesLabel(inner, x.Label.Name) {
				out = append(out, r.point(), s)
				continue
			}
			for {
				l, ok := inner.(*ast.LabeledStmt)
				if !ok {
					break
				}
				out = append(out, &ast.LabeledStmt{Label: x.Label, Stmt: r.point()})
				x, inner = l, l.Stmt
			}
			if usesLabel(inner, x.Label.Name) {
				out = append(out, r.point(), x)
				continue
			}
			out = append(out, &ast.LabeledStmt{Label: x.Label, Stmt: r.point()})
			out = append(out, r.stmt(inner))
		default:
			out = append(out, r.point(), r.stmt(s))
		}
	}
	return out
}

// stmt rewrites "go f(x)".
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	g, ok := s.(*ast.GoStmt)
	if !ok {
		return s
	}
	r.tmp++
	n := r.tmp
	var lhs []ast.Expr
	var rhs []ast.Expr
	id := func(i int) *ast.Ident { return ast.NewIdent(fmt.Sprintf("zzg%d_%d", n, i)) }
	lhs, rhs = append(lhs, id(0)), append(rhs, g.Call.Fun)
	call := &ast.CallExpr{Fun: id(0)}
	for i, a := range g.Call.Args {
		lhs, rhs = append(lhs, id(i+1)), append(rhs, a)
		call.Args = append(call.Args, id(i+1))
	}
	if g.Call.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(schedPkg), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}},
		}}},
	}}
}
