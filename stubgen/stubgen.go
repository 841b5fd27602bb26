// Package stubgen writes the Go glue that lets the harness drive the typed
// handlers and value types which the repository's generator makes from a
// specification: it knows the specification from the reference parser and
// the generator's naming convention, nothing else.
package stubgen

import (
	"fmt"
	"strings"

	"verif/ref"
)

func goType(pkg string, t *ref.Type) string {
	switch t.Kind {
	case ref.Void:
		return "xdr.Void"
	case ref.Int:
		return "xdr.Int32"
	case ref.UInt:
		return "xdr.Uint32"
	case ref.Hyper:
		return "xdr.Int64"
	case ref.UHyper:
		return "xdr.Uint64"
	case ref.Bool:
		return "xdr.Bool"
	case ref.Named:
		return pkg + "." + ref.GoName(t.Name)
	}
	panic("stubgen: unsupported procedure type")
}

// Emit writes a file of package gopkg that registers the protocols of spec.
// specVar is an expression yielding the specification's text, flags are the
// generator's options.
func Emit(gopkg, name, importPath, specVar string, spec *ref.Spec, flags []string) string {
	var b strings.Builder
	p := "p_" + name
	as := p
	if len(spec.Order) == 0 && len(spec.Progs) == 0 && len(consts(spec)) == 0 {
		as = "_"
	}
	fmt.Fprintf(&b, "// Code generated by verif/stubgen; DO NOT EDIT.\n\npackage %s\n\nimport (\n\t\"reflect\"\n\n\t\"github.com/zeldovich/go-rpcgen/xdr\"\n\t%s %q\n)\n\n", gopkg, as, importPath)
	fmt.Fprintf(&b, "var _ xdr.Void\nvar _ = reflect.ValueOf\n\n")
	fmt.Fprintf(&b, "func init() {\n\tg := newGroup(%q, %s)\n\t_ = g\n", name, specVar)
	for _, n := range spec.Order {
		fmt.Fprintf(&b, "\tg.addType(%q, func() xdr.Xdrable { return new(%s.%s) })\n", n, p, ref.GoName(n))
	}
	for _, n := range consts(spec) {
		fmt.Fprintf(&b, "\tg.addConst(%q, int64(%s.%s))\n", n[0], p, n[1])
	}
	enum, ctype := "int32", "int"
	for i, f := range flags {
		switch f {
		case "-unsigned-enum":
			enum = "uint32"
		case "-const-type":
			ctype = flags[i+1]
		}
	}
	for _, n := range spec.Order {
		if spec.Types[n].Kind == ref.Enum {
			fmt.Fprintf(&b, "\tg.addKind(%q, reflect.TypeOf(%s.%s(0)).Kind(), %q)\n", n, p, ref.GoName(n), enum)
		}
	}
	for _, n := range spec.Plain {
		if n == ref.GoName(n) && n[0] != '_' {
			fmt.Fprintf(&b, "\tg.addKind(%q, reflect.TypeOf(%s.%s).Kind(), %q)\n", n, p, n, ctype)
		}
	}
	for gi, g := range spec.Progs {
		for vi, v := range g.Vers {
			h := fmt.Sprintf("h_%s_%d_%d", name, gi, vi)
			fmt.Fprintf(&b, "\tg.addVers(%d, %d, func(h Hook) []xdr.ProcRegistration { return %s.%s_%s_regs(%s{h}) }", gi, vi, p, ref.GoName(g.Name), ref.GoName(v.Name), h)
			for _, c := range v.Procs {
				fmt.Fprintf(&b, ",\n\t\tprocTypes{func() xdr.Xdrable { return new(%s) }, func() xdr.Xdrable { return new(%s) }}", goType(p, c.Arg), goType(p, c.Res))
			}
			fmt.Fprintf(&b, ")\n")
		}
	}
	fmt.Fprintf(&b, "}\n")
	for gi, g := range spec.Progs {
		for vi, v := range g.Vers {
			h := fmt.Sprintf("h_%s_%d_%d", name, gi, vi)
			fmt.Fprintf(&b, "\ntype %s struct{ h Hook }\n", h)
			for pi, c := range v.Procs {
				arg, res := "", ""
				if c.Arg.Kind != ref.Void {
					arg = "a " + goType(p, c.Arg)
				}
				if c.Res.Kind != ref.Void {
					res = "(r " + goType(p, c.Res) + ")"
				}
				fmt.Fprintf(&b, "\nfunc (x %s) %s(%s) %s {\n", h, ref.GoName(c.Name), arg, res)
				av, rv := "reflect.Value{}", "reflect.Value{}"
				if arg != "" {
					av = "reflect.ValueOf(&a).Elem()"
				}
				if res != "" {
					rv = "reflect.ValueOf(&r).Elem()"
				}
				fmt.Fprintf(&b, "\tx.h(%d, %s, %s)\n", pi, av, rv)
				if res != "" {
					fmt.Fprintf(&b, "\treturn\n")
				}
				fmt.Fprintf(&b, "}\n")
			}
		}
	}
	return b.String()
}

// consts lists the names a specification gives to numbers, each with the
// name of its Go constant.
func consts(spec *ref.Spec) (r [][2]string) {
	seen := map[string]bool{}
	add := func(n, g string) {
		if !seen[n] && n[0] != '_' {
			seen[n] = true
			r = append(r, [2]string{n, g})
		}
	}
	for _, n := range spec.Plain {
		if n == ref.GoName(n) { // others are not visible
			add(n, n)
		}
	}
	for _, n := range spec.Order {
		if t := spec.Types[n]; t.Kind == ref.Enum {
			for _, s := range t.Syms {
				add(s, ref.GoName(s))
			}
		}
	}
	for _, g := range spec.Progs {
		add(g.Name, ref.GoName(g.Name))
		for _, v := range g.Vers {
			add(v.Name, ref.GoName(v.Name))
			for _, c := range v.Procs {
				add(c.Name, ref.GoName(c.Name))
			}
		}
	}
	return r
}
