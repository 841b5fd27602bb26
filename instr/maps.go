package instr

import (
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// mapRange is a range over a map, with the source text of its types.
type mapRange struct {
	keyT, valT string
}

// Types finds the ranges over maps of a package by type-checking it, as far
// as it checks: what cannot be resolved is left alone. The result is indexed
// by file name and by the offset of the for statement.
type Types struct {
	Root, Module string
	std          types.Importer
	fset         *token.FileSet
	pkgs         map[string]*types.Package
	infos        map[string]map[string]map[int]mapRange
	inits        map[string]map[string][]Init
}

// Init puts a package-level variable back to its initial value.
type Init struct {
	Order int
	Text  string
}

func NewTypes(root, module string) *Types {
	fset := token.NewFileSet()
	return &Types{Root: root, Module: module, fset: fset, std: importer.ForCompiler(fset, "source", nil), pkgs: map[string]*types.Package{}, infos: map[string]map[string]map[int]mapRange{}, inits: map[string]map[string][]Init{}}
}

func (t *Types) Import(path string) (*types.Package, error) {
	if p := t.pkgs[path]; p != nil {
		return p, nil
	}
	if path == t.Module || strings.HasPrefix(path, t.Module+"/") {
		return t.check(path, filepath.Join(t.Root, strings.TrimPrefix(path, t.Module)))
	}
	return t.std.Import(path)
}

func (t *Types) check(path, dir string) (*types.Package, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	var names []string
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(t.fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		names = append(names, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: t, Error: func(error) {}}
	pkg, _ := conf.Check(path, t.fset, files, info)
	t.pkgs[path] = pkg
	res := map[string]map[int]mapRange{}
	for i, f := range files {
		imported := map[string]string{}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			imported[p] = n
		}
		m := map[int]mapRange{}
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			tv, ok := info.Types[r.X]
			if !ok || tv.Type == nil {
				return true
			}
			mt, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				return true
			}
			bad := false
			q := func(p *types.Package) string {
				if p == pkg {
					return ""
				}
				n := imported[p.Path()]
				if n == "" || n == "." || n == "_" {
					bad = true
				}
				return n
			}
			mr := mapRange{types.TypeString(mt.Key(), q), types.TypeString(mt.Elem(), q)}
			if !bad {
				m[t.fset.Position(r.Pos()).Offset] = mr
			}
			return true
		})
		res[names[i]] = m
	}
	t.infos[dir] = res
	t.inits[dir] = t.initials(names, files, info, func(pos token.Pos) []byte {
		b, _ := os.ReadFile(t.fset.Position(pos).Filename)
		return b
	})
	return pkg, nil
}

// initials lists how the package's variables get their initial values, by
// file: first the zero values, then the initializers in their order.
func (t *Types) initials(names []string, files []*ast.File, info *types.Info, src func(token.Pos) []byte) map[string][]Init {
	res := map[string][]Init{}
	fileOf := func(pos token.Pos) string { return filepath.Base(t.fset.Position(pos).Filename) }
	text := func(n ast.Node) string {
		return string(src(n.Pos())[t.fset.Position(n.Pos()).Offset:t.fset.Position(n.End()).Offset])
	}
	for i, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name != "_" {
						res[names[i]] = append(res[names[i]], Init{0, n.Name + " = *new(" + text(vs.Type) + ")"})
					}
				}
			}
		}
	}
	for k, in := range info.InitOrder {
		var lhs []string
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			named = named || v.Name() != "_"
		}
		if named {
			fn := fileOf(in.Rhs.Pos())
			res[fn] = append(res[fn], Init{1 + k, strings.Join(lhs, ", ") + " = " + text(in.Rhs)})
		}
	}
	return res
}

// Inits returns the initial values of the package variables of a file.
func (t *Types) Inits(dir, file string) (l []Init) {
	defer func() {
		if recover() != nil {
			l = nil
		}
	}()
	if t.infos[dir] == nil {
		t.Import(t.Module + strings.TrimPrefix(dir, t.Root))
	}
	return t.inits[dir][file]
}

// Maps returns the map ranges of a file.
func (t *Types) Maps(dir, file string) (m map[int]mapRange) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()
	if t.infos[dir] == nil {
		t.Import(t.Module + strings.TrimPrefix(dir, t.Root))
	}
	return t.infos[dir][file]
}

// rewrite turns the range into a loop over sim.MapOrder.
func (mr mapRange) rewrite(r *ast.RangeStmt, text func(a, b token.Pos) string) (string, bool) {
	name := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "", true
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}
		if id.Name == "_" {
			return "", true
		}
		return id.Name, true
	}
	k, ok1 := name(r.Key)
	v, ok2 := name(r.Value)
	if !ok1 || !ok2 {
		return "", false
	}
	lhs, rhs, ak, av := "__o", "__sim.MapOrder("+text(r.X.Pos(), r.X.End())+")", "nil", "nil"
	if k != "" {
		ak = "&" + k
	}
	if v != "" {
		av = "&" + v
	}
	if r.Tok == token.DEFINE {
		if k != "" {
			lhs += ", " + k
			rhs += ", *new(" + mr.keyT + ")"
		}
		if v != "" {
			lhs += ", " + v
			rhs += ", *new(" + mr.valT + ")"
		}
	}
	return "for " + lhs + " := " + rhs + "; __o.Next(" + ak + ", " + av + "); ", true
}
