// mutate writes small breaking variants of Go files, one directory each with
// the changed file and what was changed: mutate ROOT OUT FILE...
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

type mutant struct {
	line int
	what string
	eds  []edit
}

func main() {
	root, out := os.Args[1], os.Args[2]
	for _, f := range os.Args[3:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		for i, m := range mutants(f, src) {
			var b bytes.Buffer
			pos := 0
			for _, e := range m.eds {
				b.Write(src[pos:e.off])
				b.WriteString(e.text)
				pos = e.end
			}
			b.Write(src[pos:])
			id := fmt.Sprintf("%s-%04d", strings.ReplaceAll(strings.TrimSuffix(f, ".go"), "/", "_"), i)
			d := filepath.Join(out, id)
			os.MkdirAll(d, 0777)
			os.WriteFile(filepath.Join(d, "new"), b.Bytes(), 0666)
			os.WriteFile(filepath.Join(d, "path"), []byte(f), 0666)
			os.WriteFile(filepath.Join(d, "what"), []byte(fmt.Sprintf("%s:%d: %s\n", f, m.line, m.what)), 0666)
		}
	}
}

func mutants(f string, src []byte) (r []mutant) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return s
	}
	add := func(n ast.Node, new, what string) {
		r = append(r, mutant{fset.Position(n.Pos()).Line, what, []edit{{off(n.Pos()), off(n.End()), new}}})
	}
	replace := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.MUL: {"+"}, token.REM: {"*"}, token.QUO: {"*"},
	}
	ops := func(e ast.Expr) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				for _, x := range replace[n.Op] {
					if n.Op == token.ADD && (strings.Contains(text(n), `"`)) {
						break
					}
					r = append(r, mutant{fset.Position(n.OpPos).Line, fmt.Sprintf("%s -> %s in %s", n.Op, x, short(text(n))), []edit{{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), x}}})
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n, text(n.X), "only the left of "+short(text(n)))
					add(n, text(n.Y), "only the right of "+short(text(n)))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n, text(n.X), "no negation in "+short(text(n)))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n, fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", n.Value, v+1))
						if v > 0 {
							add(n, fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", n.Value, v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n, "false", "true -> false")
				} else if n.Name == "false" {
					add(n, "true", "false -> true")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n.Low, "0", "slice from 0 in "+short(text(n)))
				}
				if n.High != nil && !n.Slice3 {
					add(n.High, "", "slice to the end in "+short(text(n)))
				}
				if n.Slice3 {
					r = append(r, mutant{fset.Position(n.Pos()).Line, "no capacity in " + short(text(n)), []edit{{off(n.High.End()), off(n.Max.End()), ""}}})
				}
			}
			return true
		})
	}
	block := func(l []ast.Stmt) {
		for i, s := range l {
			del := func(what string) { add(s, "", what+" "+short(text(s))) }
			switch s := s.(type) {
			case *ast.ExprStmt:
				del("delete")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					del("delete")
				}
				if s.Tok == token.ADD_ASSIGN {
					r = append(r, mutant{fset.Position(s.Pos()).Line, "+= -> = in " + short(text(s)), []edit{{off(s.TokPos), off(s.TokPos) + 2, "="}}})
				}
			case *ast.IncDecStmt:
				del("delete")
			case *ast.DeferStmt:
				del("delete")
				add(s, text(s.Call), "at once: "+short(text(s)))
			case *ast.GoStmt:
				add(s, text(s.Call), "inline: "+short(text(s)))
			case *ast.BranchStmt:
				del("delete")
				if s.Tok == token.CONTINUE {
					add(s, "break", "continue -> break")
				} else if s.Tok == token.BREAK {
					add(s, "continue", "break -> continue")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					del("delete")
				}
				for _, e := range s.Results {
					if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					if strings.Contains(strings.ToLower(text(e)), "err") {
						add(e, "nil", "nil instead of "+short(text(e)))
					}
				}
			case *ast.IfStmt:
				if s.Init == nil {
					add(s.Cond, "true || "+paren(text(s.Cond)), "always: if "+short(text(s.Cond)))
					add(s.Cond, "false && "+paren(text(s.Cond)), "never: if "+short(text(s.Cond)))
				}
			}
			if i+1 < len(l) {
				n := l[i+1]
				swap := func(x ast.Stmt) bool {
					switch x := x.(type) {
					case *ast.ExprStmt, *ast.IfStmt, *ast.DeferStmt, *ast.IncDecStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					}
					return false
				}
				if swap(s) && swap(n) {
					r = append(r, mutant{fset.Position(s.Pos()).Line, "swap " + short(text(s)) + " and " + short(text(n)), []edit{{off(s.Pos()), off(s.End()), text(n)}, {off(n.Pos()), off(n.End()), text(s)}}})
				}
			}
		}
	}
	for _, d := range a.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.CONST || d.Tok == token.VAR {
				for _, s := range d.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						ops(v)
					}
				}
			}
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			ast.Inspect(d.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					block(n.List)
				case *ast.CaseClause:
					block(n.Body)
					if len(n.Body) > 0 && n.List != nil {
						r = append(r, mutant{fset.Position(n.Pos()).Line, "empty case " + short(text(n)), []edit{{off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), ""}}})
					}
				}
				return true
			})
			// Expressions, once each.
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok {
					if _, ok := e.(*ast.FuncLit); ok {
						return true
					}
					ops(e)
					// Function literals inside are visited by ops not at all.
					return false
				}
				return true
			})
		}
	}
	return r
}

func paren(s string) string { return "(" + s + ")" }
