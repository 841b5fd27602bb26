// Package instr inserts scheduling points into Go source, as text, so that
// line numbers and everything else stay as they are: a call of sim.Y before
// every statement, and the simulated sync package in place of sync.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
)

type Options struct {
	Statements bool
	Sync       bool
	Maps       map[int]mapRange // ranges over maps, by offset (see Types)
	Reset      bool             // package variables and init functions can be run again
	Inits      []Init           // (see Types)
}

type edit struct {
	off  int
	del  int
	text string
}

// File instruments one file. label names it in scheduling points.
func File(label string, src []byte, o Options) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, label, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	used := false
	if o.Statements {
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt:
					continue
				case *ast.CaseClause, *ast.CommClause:
					continue // the entries of a switch or select body
				}
				eds = append(eds, edit{off: off(s.Pos()), text: fmt.Sprintf("__sim.Y(%q);", fmt.Sprintf("%s:%d", label, fset.PositionFor(s.Pos(), false).Line))})
				used = true
			}
		}
		empty := func(b *ast.BlockStmt) { // a loop that only spins
			if len(b.List) == 0 {
				eds = append(eds, edit{off: off(b.Lbrace) + 1, text: fmt.Sprintf("__sim.Y(%q);", fmt.Sprintf("%s:%d", label, fset.PositionFor(b.Pos(), false).Line))})
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && (fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil) {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.CommClause:
					stmts(n.Body)
				case *ast.ForStmt:
					empty(n.Body)
				case *ast.RangeStmt:
					empty(n.Body)
					mr, ok := o.Maps[off(n.Pos())]
					if !ok {
						break
					}
					if t, ok := mr.rewrite(n, func(a, b token.Pos) string { return string(src[off(a):off(b)]) }); ok {
						eds = append(eds, edit{off: off(n.Pos()), del: off(n.Body.Pos()) - off(n.Pos()), text: t})
					}
				}
				return true
			})
		}
	}
	tail := ""
	if o.Reset {
		n := 0
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				g := fmt.Sprintf("__verif_init_%d_%d", len(src), n)
				n++
				eds = append(eds, edit{off: off(fd.Name.Pos()), del: 4, text: "init() { " + g + "() }; func " + g})
				tail += fmt.Sprintf("\n__sim.OnReset(%q, %d, %s)", label, 1<<20+n, g)
			}
		}
		for _, in := range o.Inits {
			tail += fmt.Sprintf("\n__sim.OnReset(%q, %d, func() {\n%s\n})", label, in.Order, in.Text)
		}
		if tail != "" {
			tail = "\nfunc init() {" + tail + "\n}\n"
			used = true
		}
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if o.Sync && p == "sync" {
			t := `"verif/ssync"`
			if im.Name == nil {
				t = "sync " + t
			}
			eds = append(eds, edit{off: off(im.Path.Pos()), del: len(im.Path.Value), text: t})
		}
	}
	if used {
		eds = append(eds, edit{off: off(f.Name.End()), text: `; import __sim "verif/sim"`})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out []byte
	pos := 0
	for _, e := range eds {
		if e.off < pos {
			continue // inside something replaced
		}
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.off + e.del
	}
	return append(append(out, src[pos:]...), tail...), nil
}
