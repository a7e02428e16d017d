// mutate lists or applies small syntactic changes to a Go source file: mutate FILE (lists), mutate FILE N (prints the
// file with change N). It is used to look for changes that the tests let pass and the checks should not.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	from, to int
	text     string
	fn       string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	isLog := func(s string) bool {
		for _, w := range []string{"log.", "Msg(", "Msgf(", "ev.", "ev =", "scaffoldUpAttemptLog", "Printf", "Println"} {
			if len(s) >= len(w) {
				for i := 0; i+len(w) <= len(s); i++ {
					if s[i:i+len(w)] == w {
						return true
					}
				}
			}
		}
		return false
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
	}
	for _, d := range f.Decls {
		name := "var"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		}
		add := func(from, to token.Pos, text, kind string) {
			ms = append(ms, mut{off(from), off(to), text, name, kind})
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					if x.Op == token.ADD && (isStr(x.X) || isStr(x.Y)) {
						continue
					}
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "iffalse")
				add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "iftrue")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.X.Pos(), "", "not")
				}
			case *ast.ExprStmt:
				if !isLog(txt(x)) {
					add(x.Pos(), x.End(), "", "delcall")
				}
			case *ast.DeferStmt:
				add(x.Pos(), x.End(), "", "deldefer")
			case *ast.GoStmt:
				add(x.Pos(), x.Pos()+2, "", "nogo")
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN && !isLog(txt(x)) {
					add(x.Pos(), x.End(), "", "delassign")
				}
			case *ast.IncDecStmt:
				add(x.Pos(), x.End(), "", "delinc")
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					add(x.Pos(), x.End(), "", "delbreak")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "int")
						if v > 1 {
							add(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "int")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if len(x.Elts) < 2 {
						break
					}
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
						add(e.Pos(), end, "", "delelt")
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.SelectorExpr); ok && (id.Sel.Name == "ToUpper" || id.Sel.Name == "ToLower" || id.Sel.Name == "TrimSpace") && len(x.Args) == 1 {
					add(x.Pos(), x.End(), txt(x.Args[0]), "strip")
				}
				if id, ok := x.Fun.(*ast.SelectorExpr); ok && id.Sel.Name == "EqualFold" && len(x.Args) == 2 {
					add(x.Pos(), x.End(), "("+txt(x.Args[0])+" == "+txt(x.Args[1])+")", "fold")
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, m := range ms {
			line := 1
			for _, b := range src[:m.from] {
				if b == '\n' {
					line++
				}
			}
			old := string(src[m.from:m.to])
			if len(old) > 60 {
				old = old[:60]
			}
			fmt.Printf("%d\t%s\t%d\t%s\t%q -> %q\n", i, m.fn, line, m.kind, old, m.text)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}

func isStr(e ast.Expr) bool {
	b, ok := e.(*ast.BasicLit)
	return ok && b.Kind == token.STRING
}
