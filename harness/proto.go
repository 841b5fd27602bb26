package harness

import (
	"fmt"
	"reflect"

	"verif/ref"
	"verif/specs"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// Hook is what a typed handler calls: the index of the procedure, its
// argument and the place for its result (invalid values for void).
type Hook func(proc int, arg, res reflect.Value)

type procTypes struct{ newArg, newRes func() xdr.Xdrable }

// Group is one specification and the package generated from it.
type Group struct {
	Name  string
	Spec  *ref.Spec
	Types []*MsgType
	Vers  []*Vers

	WrongKinds []string
}

// MsgType is a message type with its Go counterpart.
type MsgType struct {
	G    *Group
	Name string
	T    *ref.Type
	New  func() xdr.Xdrable
}

// Vers is one version of one program.
type Vers struct {
	G     *Group
	Prog  ref.Prog
	V     ref.Vers
	Procs []*Proc
	Regs  func(h Hook) []xdr.ProcRegistration
}

type Proc struct {
	V              *Vers
	I              int
	P              ref.Proc
	newArg, newRes func() xdr.Xdrable
}

var groups []*Group

var spec_rfc1057 = specs.RFC1057
var spec_rfc1813 = specs.RFC1813
var spec_user = specs.User

func newGroup(name, src string) *Group {
	g := &Group{Name: name, Spec: ref.Parse(src)}
	groups = append(groups, g)
	return g
}

// builtIn: not from a specification made for this check.
func (g *Group) builtIn() bool {
	return g.Name == "rfc1057" || g.Name == "rfc1813" || g.Name == "user"
}

func (g *Group) addType(n string, f func() xdr.Xdrable) {
	g.Types = append(g.Types, &MsgType{g, n, &ref.Type{Kind: ref.Named, Name: n}, f})
}

// addConst says what the generated constant for a name of the specification
// is. Values, programs and procedures are given by name wherever they have one.
func (g *Group) addConst(n string, v int64) {
	if g.Spec.Sym == nil {
		g.Spec.Sym = map[string]int64{}
	}
	g.Spec.Sym[n] = v
}

// addKind says what a type or constant of the generated package is in Go,
// and what the options of the generator make it.
func (g *Group) addKind(n string, got reflect.Kind, want string) {
	if got.String() != want {
		g.WrongKinds = append(g.WrongKinds, fmt.Sprintf("%s is %s in Go, the generator was asked for %s", n, got, want))
	}
}

// sym is the number a user gets for a name.
func (g *Group) sym(n string, v uint32) uint32 {
	if x, ok := g.Spec.Sym[n]; ok {
		return uint32(x)
	}
	return v
}

func (g *Group) addVers(gi, vi int, regs func(h Hook) []xdr.ProcRegistration, pt ...procTypes) {
	v := &Vers{G: g, Prog: g.Spec.Progs[gi], V: g.Spec.Progs[gi].Vers[vi], Regs: regs}
	for i, p := range v.V.Procs {
		v.Procs = append(v.Procs, &Proc{v, i, p, pt[i].newArg, pt[i].newRes})
	}
	g.Vers = append(g.Vers, v)
}

// allVers lists every version of every known program.
func allVers() []*Vers {
	var r []*Vers
	for _, g := range groups {
		r = append(r, g.Vers...)
	}
	return r
}
