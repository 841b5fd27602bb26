// Package specgen makes random interface specifications from the constructs
// the repository's generator supports (see DESIGN.md for what it does not).
package specgen

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"verif/ref"
)

// Spec is a specification: its definitions, one string each.
type Spec struct {
	Defs     []string
	Unsigned bool   // -unsigned-enum
	Const    string // -const-type
	Types    bool   // -t: types into a file of their own
}

func (s Spec) Text() string { return strings.Join(s.Defs, "") }

// Flags are the generator's options that the specification is used with.
func (s Spec) Flags() []string {
	var f []string
	if s.Unsigned {
		f = append(f, "-unsigned-enum")
	}
	if s.Const != "" {
		f = append(f, "-const-type", s.Const)
	}
	return f
}

type gen struct {
	r      *rand.Rand
	s      *Spec
	used   map[string]bool // Go identifiers taken
	consts []string        // names usable as sizes, value known
	cval   map[string]int64
	enums  []enumT
	types  []string // complete: usable anywhere
	later  []string // struct names defined further down: only optional or in variable arrays
	self   string   // struct being defined
	b      strings.Builder
	depth  int
	nprog  int
}

type enumT struct {
	name string
	vals []string
}

var words = strings.Fields("alpha bar count dir entry file group handle item join key line mode node owner path quota range_ size tag unit vol wide xfer yield_ zone acl blob cookie delta event flag grant hash ident lease mount nonce offset peer queue record stat token uid verf window")

func (g *gen) n(k int) int { return g.r.IntN(k) }

func (g *gen) pick(s []string) string { return s[g.n(len(s))] }

// name makes an identifier whose exported form is new.
func (g *gen) name(style int) string {
	for {
		w := g.pick(words)
		if g.n(3) == 0 {
			w += "_" + g.pick(words)
		}
		if g.n(2) == 0 {
			w += fmt.Sprint(g.n(100))
		}
		switch style {
		case 1:
			w = strings.ToUpper(w)
		case 2:
			if g.n(3) == 0 {
				w = strings.ToUpper(w[:1]) + w[1:]
			}
		case 3: // constants keep their case: stay clear of Go's own names
			if g.n(4) != 0 {
				w = strings.ToUpper(w)
			} else {
				w = "c_" + w
			}
		}
		if k := ref.GoName(w); !g.used[k] {
			g.used[k] = true
			return w
		}
	}
}

// Layout, here only where it is usual; relayout puts line ends anywhere.
func (g *gen) sp() string {
	switch g.n(12) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2:
		return " /* note */ "
	}
	return " "
}

func (g *gen) nl() string {
	switch g.n(8) {
	case 0:
		return " "
	case 1:
		return "\n\n    "
	case 2:
		return " // to the end of the line\n"
	case 3:
		return "\n/* a comment\n * of lines\n */\n"
	}
	return "\n    "
}

func (g *gen) num(v int64) string {
	switch g.n(6) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		return fmt.Sprintf("0X%X", v)
	case 2:
		if v > 0 {
			return fmt.Sprintf("0%o", v)
		}
	}
	return fmt.Sprint(v)
}

func (g *gen) constant() string {
	n := g.name(3)
	v := int64(1 + g.n(12))
	switch g.n(8) {
	case 0:
		v = int64(1 + g.n(300))
	case 1:
		v = 0x7fffffff
	case 2:
		if g.s.Const != "uint32" && g.s.Const != "int32" {
			v = 0xffffffff
		}
	case 3:
		v = 0
	}
	g.cval[n] = v
	g.consts = append(g.consts, n)
	return fmt.Sprintf("const%s%s =%s%s;\n", g.sp(), n, g.sp(), g.num(v))
}

// size is a size or value between lo and hi.
func (g *gen) size(lo, hi int64) string {
	if g.n(2) == 0 {
		for range 4 {
			var n string
			if len(g.consts) > 0 {
				n = g.pick(g.consts)
			}
			if v := g.cval[n]; n != "" && v >= lo && v <= hi {
				return n
			}
		}
	}
	if g.n(5) == 0 { // where a narrower integer would end, and others
		if v := sizes[g.n(len(sizes))]; v >= lo && v <= hi {
			return g.num(v)
		}
	}
	return g.num(lo + int64(g.r.Int64N(min(hi-lo+1, 9))))
}

var sizes = []int64{15, 16, 17, 32, 64, 100, 127, 128, 129, 255, 256, 257, 300, 400, 1000, 1023, 1024, 4096, 65535, 65536, 65537, 1 << 20, 0x7fffffff}

func (g *gen) enum() string {
	n := g.name(2)
	e := enumT{name: n}
	k := 1 + g.n(6)
	var items []string
	seen := map[int64]bool{}
	v := int64(g.n(3))
	most := int64(0x7fffffff)
	if g.s.Unsigned {
		most = 0xffffffff
	}
	for i := 0; i < k; i++ {
		it := g.name(1)
		expr := ""
		if g.n(4) == 0 && len(g.consts) > 0 { // a named value
			c := g.pick(g.consts)
			if x := g.cval[c]; x <= most && !seen[x] {
				expr, v = c, x
			}
		}
		if expr == "" {
			for seen[v] {
				v++
			}
			if big := most - int64(g.n(2)*g.n(3)); g.n(8) == 0 && !seen[big] {
				v = big
			} else if g.n(8) == 0 && !seen[0x80000000] && most > 0x80000000 {
				v = 0x80000000
			} else if v >= 0x7fffffff {
				v = int64(1000 + g.n(100000))
				for seen[v] {
					v++
				}
			}
			expr = g.num(v)
		}
		seen[v] = true
		items = append(items, fmt.Sprintf("%s =%s%s", it, g.sp(), expr))
		e.vals = append(e.vals, it)
		g.cval[it] = v
		g.consts = append(g.consts, it)
		v++
	}
	g.enums = append(g.enums, e)
	g.types = append(g.types, n)
	sep := ","
	var b strings.Builder
	for i, it := range items {
		if i > 0 {
			b.WriteString(sep + g.nl())
		}
		b.WriteString(it)
	}
	return fmt.Sprintf("enum%s%s {%s%s };\n", g.sp(), n, g.nl(), b.String())
}

// spec is a type specifier. opt: it may name a type that is not complete.
func (g *gen) spec(opt bool) string {
	if opt {
		if g.self != "" && g.n(3) == 0 {
			return g.self
		}
		if len(g.later) > 0 && g.n(6) == 0 {
			return g.pick(g.later)
		}
	}
	if len(g.types) > 0 && g.n(2) == 0 {
		return g.pick(g.types)
	}
	if g.depth < 2 && g.n(14) == 0 {
		return "struct {" + g.fields(1+g.n(3)) + "}"
	}
	if g.depth < 2 && g.n(18) == 0 {
		return "union " + g.union()
	}
	return g.pick([]string{"int", "unsigned int", "hyper", "unsigned hyper", "bool", "int", "unsigned" + g.sp() + "int"})
}

func (g *gen) bound() string {
	switch g.n(4) {
	case 0:
		return "<>"
	case 1:
		return "<" + g.size(1, 0x7fffffff) + ">"
	}
	return "<" + g.size(0, 400) + ">"
}

func (g *gen) fixed(most int64) string { return "[" + g.size(1, most) + "]" }

func (g *gen) decl(name string) string {
	switch g.n(12) {
	case 0:
		return "opaque " + name + g.fixed(1024)
	case 1:
		return "opaque " + name + g.bound()
	case 2:
		return "string " + name + g.bound()
	case 3:
		if g.n(3) == 0 {
			return g.pick([]string{"int", "unsigned int", "hyper", "unsigned hyper", "bool"}) + " " + name + g.fixed(300)
		}
		return g.spec(false) + " " + name + g.fixed(20)
	case 4, 5:
		return g.spec(true) + " " + name + g.bound()
	case 6, 7:
		return g.spec(true) + " *" + name
	}
	return g.spec(false) + g.sp() + name
}

// member names are only unique within their struct.
func (g *gen) members(k int) []string {
	used := map[string]bool{}
	var r []string
	for len(r) < k {
		w := g.pick(words)
		switch g.n(12) {
		case 0:
			w = g.pick([]string{"type", "map"})
		case 1:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 2:
			w += "_" + g.pick(words)
		}
		if !used[ref.GoName(w)] {
			used[ref.GoName(w)] = true
			r = append(r, w)
		}
	}
	return r
}

func (g *gen) fields(k int) string {
	g.depth++
	defer func() { g.depth-- }()
	var b strings.Builder
	for _, n := range g.members(k) {
		b.WriteString(g.nl() + g.decl(n) + ";")
	}
	b.WriteString(g.nl())
	return b.String()
}

func (g *gen) strukt() string {
	n := g.name(2)
	if len(g.later) > 0 {
		n = g.later[0]
		g.later = g.later[1:]
	}
	g.self = n
	f := g.fields(1 + g.n(6))
	g.self = ""
	g.types = append(g.types, n)
	return fmt.Sprintf("struct%s%s {%s};\n", g.sp(), n, f)
}

func (g *gen) union() string {
	g.depth++
	defer func() { g.depth-- }()
	k := 1 + g.n(4)
	m := g.members(k + 2)
	var labels []string
	var disc string
	full := false
	kind := g.n(5)
	if kind < 2 && len(g.enums) == 0 {
		kind = 2
	}
	switch kind {
	case 0, 1:
		e := g.enums[g.n(len(g.enums))]
		disc = e.name
		labels = append(labels, e.vals...)
	case 2:
		disc = "bool"
		labels = []string{"TRUE", "FALSE"}
		full = true
	case 3, 4:
		disc = []string{"int", "unsigned int"}[kind-3]
		seen := map[int64]bool{}
		for range k + g.n(3) {
			if g.n(3) == 0 && len(g.consts) > 0 {
				c := g.pick(g.consts)
				if v := g.cval[c]; !seen[v] && v <= 0x7fffffff && !g.enumVal(c) {
					seen[v] = true
					labels = append(labels, c)
				}
				continue
			}
			v := int64(g.n(20))
			if !seen[v] {
				seen[v] = true
				labels = append(labels, g.num(v))
			}
		}
		if len(labels) == 0 {
			labels = []string{g.num(1)}
		}
	}
	g.r.Shuffle(len(labels), func(i, j int) { labels[i], labels[j] = labels[j], labels[i] })
	if g.n(3) == 0 {
		labels = labels[:1+g.n(len(labels))]
		full = full && len(labels) == 2
	}
	var b strings.Builder
	fmt.Fprintf(&b, "switch%s(%s %s) {%s", g.sp(), disc, m[k+1], g.nl())
	arm := 0
	body := func() string {
		if g.n(3) == 0 || arm >= k {
			return "void;"
		}
		arm++
		return g.decl(m[arm-1]) + ";"
	}
	for len(labels) > 0 {
		c := 1
		if g.n(3) == 0 {
			c = 1 + g.n(len(labels))
		}
		for _, l := range labels[:c] {
			fmt.Fprintf(&b, "case%s%s:%s", g.sp(), l, g.nl())
		}
		labels = labels[c:]
		b.WriteString(body() + g.nl())
	}
	if !full && g.n(2) == 0 {
		fmt.Fprintf(&b, "default:%s%s%s", g.nl(), body(), g.nl())
	}
	b.WriteString("}")
	return b.String()
}

func (g *gen) enumVal(c string) bool {
	for _, e := range g.enums {
		for _, v := range e.vals {
			if v == c {
				return true
			}
		}
	}
	return false
}

func (g *gen) typedef() string {
	n := g.name(2)
	g.depth = 1
	d := g.decl(n)
	g.depth = 0
	g.types = append(g.types, n)
	return "typedef " + d + ";\n"
}

func (g *gen) program(prognum int) string {
	var b strings.Builder
	p := g.name(1)
	fmt.Fprintf(&b, "program%s%s {%s", g.sp(), p, g.nl())
	nv := 1 + g.n(3)
	type pr struct {
		name string
		num  int64
	}
	var shared []pr
	vnum := int64(g.n(3))
	for range nv {
		fmt.Fprintf(&b, "version%s%s {", g.sp(), g.name(1))
		num := int64(0)
		if g.n(3) == 0 {
			num = int64(1 + g.n(30))
		}
		left := shared
		for range 1 + g.n(5) {
			q := pr{"", num}
			num += int64(1 + g.n(3))
			// Later versions keep procedures of earlier ones.
			for len(left) > 0 && left[0].num < q.num {
				left = left[1:]
			}
			if len(left) > 0 && g.n(2) == 0 {
				q = left[0]
				left = left[1:]
				num = q.num + int64(1+g.n(3))
			}
			if q.name == "" {
				q.name = g.name(1)
				if g.n(3) == 0 {
					q.name = g.name(2)
				}
			}
			shared = append(shared, q)
			fmt.Fprintf(&b, "%s%s %s(%s) =%s%s;", g.nl(), g.ptype(), q.name, g.ptype(), g.sp(), g.num(q.num))
		}
		for i := 1; i < len(shared); i++ {
			for j := i; j > 0 && shared[j].num < shared[j-1].num; j-- {
				shared[j], shared[j-1] = shared[j-1], shared[j]
			}
		}
		var uniq []pr
		for _, q := range shared {
			if len(uniq) == 0 || uniq[len(uniq)-1].num != q.num {
				uniq = append(uniq, q)
			}
		}
		shared = uniq
		fmt.Fprintf(&b, "%s} = %s;%s", g.nl(), g.num(vnum), g.nl())
		vnum += int64(1 + g.n(4))
	}
	fmt.Fprintf(&b, "} = %s;\n", g.num(int64(prognum)))
	return b.String()
}

func (g *gen) ptype() string {
	if len(g.types) > 0 && g.n(5) < 3 {
		return g.pick(g.types)
	}
	return g.pick([]string{"void", "void", "int", "unsigned int", "hyper", "unsigned hyper", "bool"})
}

// New makes a random specification with about n type definitions.
func New(seed uint64, n int) Spec {
	for {
		s := spec(seed, n)
		if r := rand.New(rand.NewPCG(seed, 0x1a70)); r.IntN(3) == 0 {
			relayout(r, s.Defs)
		}
		if !heavy(strings.Join(s.Defs, "\n")) {
			return s
		}
		seed++
	}
}

// heavy: arrays of arrays make some value far too large to work with.
func heavy(src string) bool {
	sp := ref.Parse(src)
	size := map[*ref.Type]int{}
	var of func(t *ref.Type) int
	of = func(t *ref.Type) (n int) {
		t = sp.Resolve(t)
		if n, ok := size[t]; ok {
			return n
		}
		size[t] = 8
		defer func() { size[t] = n }()
		switch t.Kind {
		case ref.ArrayFix:
			return min(int(t.N)*of(t.Elem), 1<<20)
		case ref.OpaqueFix:
			return int(t.N)
		case ref.Struct:
			for _, f := range t.Fields {
				n += of(f.T)
			}
			return min(n, 1<<20)
		case ref.Union:
			for _, c := range t.Cases {
				n = max(n, of(c.F.T))
			}
			if t.Def != nil {
				n = max(n, of(t.Def.T))
			}
			return n + 4
		case ref.Ptr, ref.ArrayVar:
			of(t.Elem)
		}
		return 8
	}
	for _, t := range sp.Types {
		if of(t) > 2500 {
			return true
		}
	}
	return false
}

func spec(seed uint64, n int) Spec {
	g := &gen{r: rand.New(rand.NewPCG(seed, 0x5bec)), s: &Spec{}, used: map[string]bool{}, cval: map[string]int64{}}
	g.used["Xdr"] = true
	g.s.Unsigned = g.n(2) == 0
	g.s.Const = g.pick([]string{"", "", "uint32", "int", "uint64"})
	g.s.Types = g.n(2) == 0
	np := 1 + g.n(2)
	if g.n(10) == 0 {
		np = 0
	}
	if g.n(40) == 0 { // nothing but constants
		for range 1 + g.n(4) {
			g.s.Defs = append(g.s.Defs, g.constant())
		}
		return *g.s
	}
	add := func(s string) {
		if g.n(6) == 0 {
			s = "/* " + g.pick(words) + " */\n" + s
		}
		g.s.Defs = append(g.s.Defs, s)
	}
	for i := 0; i < n; i++ {
		if g.n(5) == 0 && i < n-1 && len(g.later) < 2 {
			g.later = append(g.later, g.name(2))
		}
		switch g.n(10) {
		case 0, 1:
			add(g.constant())
		case 2:
			add(g.enum())
		case 3, 4:
			u := g.name(2)
			s := fmt.Sprintf("union%s%s ", g.sp(), u)
			s += g.union() + ";\n"
			g.types = append(g.types, u)
			add(s)
		case 5, 6:
			add(g.typedef())
		default:
			add(g.strukt())
		}
	}
	for len(g.later) > 0 {
		add(g.strukt())
	}
	nums := []int{100000, 200000 + g.n(1000), 0x20000000 + g.n(0xfffff), 1 + g.n(50)}
	g.r.Shuffle(len(nums), func(i, j int) { nums[i], nums[j] = nums[j], nums[i] })
	for i := range np {
		add(g.program(nums[i]))
	}
	return *g.s
}

// Valid says whether the definitions that are left hang together.
func (s Spec) Valid() (p *ref.Spec, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	p = ref.Parse(s.Text())
	var walk func(t *ref.Type)
	walk = func(t *ref.Type) {
		if t == nil {
			return
		}
		if t.Kind == ref.Named {
			p.Resolve(t)
			return
		}
		walk(t.Elem)
		for _, f := range t.Fields {
			walk(f.T)
		}
		walk(t.Disc.T)
		for _, c := range t.Cases {
			walk(c.F.T)
		}
		if t.Def != nil {
			walk(t.Def.T)
		}
	}
	for _, t := range p.Types {
		walk(t)
	}
	for _, g := range p.Progs {
		for _, v := range g.Vers {
			for _, q := range v.Procs {
				walk(q.Arg)
				walk(q.Res)
			}
		}
	}
	return p, true
}
