// Package ref is an implementation of XDR (RFC 4506) and ONC RPC (RFC 1057)
// that shares nothing with the repository: its own parser for .x files, its
// own value trees, encoder and decoder. It plays the peer in simulations and
// serves as the oracle for wire formats and values.
package ref

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

type Kind int

const (
	Void Kind = iota
	Int
	UInt
	Hyper
	UHyper
	Bool
	Enum
	OpaqueFix
	OpaqueVar
	String
	ArrayFix
	ArrayVar
	Struct
	Union
	Ptr
	Named
)

type Field struct {
	Name string
	T    *Type
}

type Case struct {
	Vals []int64
	F    Field // T.Kind == Void: no data
}

type Type struct {
	Kind   Kind
	Name   string // Named: referenced type
	N      int64  // size or bound; -1: unbounded
	Elem   *Type
	Fields []Field
	Disc   Field
	Cases  []Case
	Def    *Field
	Enum   []int64
	Syms   []string // the names of Enum
}

type Proc struct {
	Name     string
	Num      uint32
	Arg, Res *Type
}

type Vers struct {
	Name  string
	Num   uint32
	Procs []Proc
}

type Prog struct {
	Name string
	Num  uint32
	Vers []Vers
}

type Spec struct {
	Consts map[string]int64
	Types  map[string]*Type
	Order  []string
	Progs  []Prog
	Plain  []string // names defined by const definitions
	// Sym, if set, says what the generated package's constant for a name is.
	Sym map[string]int64
}

func (s *Spec) Resolve(t *Type) *Type {
	for t.Kind == Named {
		n := s.Types[t.Name]
		if n == nil {
			panic("ref: unknown type " + t.Name)
		}
		t = n
	}
	return t
}

// --- lexer

type lexer struct {
	toks []string
	pos  int
}

func lex(src string) []string {
	var r []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case unicode.IsSpace(rune(c)):
			i++
		case strings.HasPrefix(src[i:], "/*"):
			e := strings.Index(src[i:], "*/")
			if e < 0 {
				panic("ref: comment")
			}
			i += e + 2
		case strings.HasPrefix(src[i:], "//"), c == '%':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || unicode.IsDigit(rune(c)) || c == '-':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || src[j] == '_' || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			r = append(r, src[i:j])
			i = j
		default:
			r = append(r, string(c))
			i++
		}
	}
	return r
}

type parser struct {
	lexer
	s *Spec
}

func (p *parser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.pos++; return t }
func (p *parser) want(x string) {
	if t := p.next(); t != x {
		panic(fmt.Sprintf("ref: want %q got %q at token %d (%v)", x, t, p.pos, p.toks[max(0, p.pos-8):min(len(p.toks), p.pos+4)]))
	}
}

func (p *parser) value(t string) int64 {
	if v, err := strconv.ParseInt(t, 0, 64); err == nil {
		return v
	}
	if v, ok := p.s.Consts[t]; ok {
		return v
	}
	switch t {
	case "TRUE":
		return 1
	case "FALSE":
		return 0
	}
	panic("ref: unknown value " + t)
}

// Parse parses a specification; it panics on input outside the language.
func Parse(src string) *Spec {
	s := &Spec{Consts: map[string]int64{}, Types: map[string]*Type{}}
	p := &parser{lexer{toks: lex(src)}, s}
	for p.peek() != "" {
		switch k := p.next(); k {
		case "const":
			n := p.next()
			p.want("=")
			s.Consts[n] = p.value(p.next())
			s.Plain = append(s.Plain, n)
			p.want(";")
		case "typedef":
			f := p.decl()
			p.want(";")
			s.add(f.Name, f.T)
		case "enum":
			n := p.next()
			t := p.enumBody()
			p.want(";")
			s.add(n, t)
		case "struct":
			n := p.next()
			t := p.structBody()
			p.want(";")
			s.add(n, t)
		case "union":
			n := p.next()
			t := p.unionBody()
			p.want(";")
			s.add(n, t)
		case "program":
			p.program()
		default:
			panic("ref: unexpected " + k)
		}
	}
	return s
}

func (s *Spec) add(n string, t *Type) {
	if s.Types[n] == nil {
		s.Order = append(s.Order, n)
	}
	s.Types[n] = t
}

func (p *parser) enumBody() *Type {
	t := &Type{Kind: Enum}
	p.want("{")
	for {
		n := p.next()
		p.want("=")
		v := p.value(p.next())
		p.s.Consts[n] = v
		t.Enum = append(t.Enum, int64(int32(v))) // as it is on the wire
		t.Syms = append(t.Syms, n)
		if x := p.next(); x == "}" {
			return t
		} else if x != "," {
			panic("ref: enum " + x)
		}
	}
}

func (p *parser) structBody() *Type {
	t := &Type{Kind: Struct}
	p.want("{")
	for p.peek() != "}" {
		f := p.decl()
		p.want(";")
		if f.T.Kind != Void {
			t.Fields = append(t.Fields, f)
		}
	}
	p.next()
	return t
}

func (p *parser) unionBody() *Type {
	t := &Type{Kind: Union}
	p.want("switch")
	p.want("(")
	t.Disc = p.decl()
	p.want(")")
	p.want("{")
	for p.peek() != "}" {
		if p.peek() == "default" {
			p.next()
			p.want(":")
			f := p.decl()
			p.want(";")
			t.Def = &f
			continue
		}
		var c Case
		for p.peek() == "case" {
			p.next()
			c.Vals = append(c.Vals, p.value(p.next()))
			p.want(":")
		}
		c.F = p.decl()
		p.want(";")
		t.Cases = append(t.Cases, c)
	}
	p.next()
	return t
}

func (p *parser) typespec() *Type {
	switch k := p.next(); k {
	case "unsigned":
		switch p.peek() {
		case "int":
			p.next()
			return &Type{Kind: UInt}
		case "hyper":
			p.next()
			return &Type{Kind: UHyper}
		}
		return &Type{Kind: UInt}
	case "int":
		return &Type{Kind: Int}
	case "hyper":
		return &Type{Kind: Hyper}
	case "bool":
		return &Type{Kind: Bool}
	case "void":
		return &Type{Kind: Void}
	case "enum":
		return p.enumBody()
	case "struct":
		return p.structBody()
	case "union":
		return p.unionBody()
	default:
		return &Type{Kind: Named, Name: k}
	}
}

func (p *parser) varlen() int64 {
	p.want("<")
	if p.peek() == ">" {
		p.next()
		return -1
	}
	v := p.value(p.next())
	p.want(">")
	return v
}

func (p *parser) decl() Field {
	if k := p.peek(); k == "opaque" || k == "string" {
		p.next()
		n := p.next()
		if p.peek() == "[" {
			p.next()
			v := p.value(p.next())
			p.want("]")
			return Field{n, &Type{Kind: OpaqueFix, N: v}}
		}
		v := p.varlen()
		if k == "string" {
			return Field{n, &Type{Kind: String, N: v}}
		}
		return Field{n, &Type{Kind: OpaqueVar, N: v}}
	}
	t := p.typespec()
	if t.Kind == Void {
		return Field{"", t}
	}
	if p.peek() == "*" {
		p.next()
		return Field{p.next(), &Type{Kind: Ptr, Elem: t}}
	}
	n := p.next()
	switch p.peek() {
	case "[":
		p.next()
		v := p.value(p.next())
		p.want("]")
		return Field{n, &Type{Kind: ArrayFix, N: v, Elem: t}}
	case "<":
		return Field{n, &Type{Kind: ArrayVar, N: p.varlen(), Elem: t}}
	}
	return Field{n, t}
}

func (p *parser) program() {
	g := Prog{Name: p.next()}
	p.want("{")
	for p.peek() == "version" {
		p.next()
		v := Vers{Name: p.next()}
		p.want("{")
		for p.peek() != "}" {
			var pr Proc
			pr.Res = p.typespec()
			pr.Name = p.next()
			p.want("(")
			pr.Arg = p.typespec()
			p.want(")")
			p.want("=")
			pr.Num = uint32(p.value(p.next()))
			p.want(";")
			v.Procs = append(v.Procs, pr)
		}
		p.want("}")
		p.want("=")
		v.Num = uint32(p.value(p.next()))
		p.want(";")
		g.Vers = append(g.Vers, v)
	}
	p.want("}")
	p.want("=")
	g.Num = uint32(p.value(p.next()))
	p.want(";")
	p.s.Progs = append(p.s.Progs, g)
}
