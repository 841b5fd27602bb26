package ref

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
)

// Val is a value of an XDR type.
type Val struct {
	U uint64 // integers, enums, bools, union discriminants (sign-extended)
	B []byte // opaque, string
	E []*Val // struct fields, array elements, pointee (len 0 or 1), union arm (len 0 or 1)
}

// Drawer is the source of random choices for value generation.
type Drawer interface {
	Draw(stream string, n int) int
	U64(stream string) uint64
	Chance(stream string, num, den int) bool
}

// Gen generates an in-bounds value. budget bounds its size.
type Gen struct {
	S      *Spec
	D      Drawer
	Stream string
	Budget int
	Max    int // cap on the length of one string/opaque
	depth  int
}

func (g *Gen) size(bound int64, cost int) int {
	m := g.Budget / cost
	if g.Max > 0 && m > g.Max {
		m = g.Max
	}
	if bound >= 0 && int64(m) > bound {
		m = int(bound)
	}
	if m <= 0 {
		return 0
	}
	switch g.D.Draw(g.Stream, 6) {
	case 0:
		return 0
	case 1, 2:
		return g.D.Draw(g.Stream, min(m, 9)+1)
	case 3, 4:
		return g.D.Draw(g.Stream, m+1)
	default:
		return m // as large as allowed: exercises the bound itself
	}
}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	// A cheap expansion of two draws; every position depends on them.
	x := uint32(g.D.Draw(g.Stream, 1<<16))<<16 | uint32(g.D.Draw(g.Stream, 1<<16))
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 7)
	}
	return b
}

func (g *Gen) Val(t *Type) *Val {
	g.depth++
	defer func() { g.depth-- }()
	g.Budget -= 4
	t = g.S.Resolve(t)
	switch t.Kind {
	case Void:
		return &Val{}
	case Int:
		return &Val{U: uint64(int64(int32(g.D.U64(g.Stream))))}
	case UInt:
		return &Val{U: uint64(uint32(g.D.U64(g.Stream)))}
	case Hyper, UHyper:
		return &Val{U: g.D.U64(g.Stream)}
	case Bool:
		return &Val{U: uint64(g.D.Draw(g.Stream, 2))}
	case Enum:
		return &Val{U: uint64(t.Enum[g.D.Draw(g.Stream, len(t.Enum))])}
	case OpaqueFix:
		g.Budget -= int(t.N)
		return &Val{B: g.bytes(int(t.N))}
	case OpaqueVar, String:
		n := g.size(t.N, 1)
		g.Budget -= n
		return &Val{B: g.bytes(n)}
	case ArrayFix:
		v := &Val{}
		for i := int64(0); i < t.N; i++ {
			v.E = append(v.E, g.Val(t.Elem))
		}
		return v
	case ArrayVar:
		n := g.size(t.N, 8)
		if n > 200 {
			n = 200
		}
		if g.depth > 8 && n > 2 {
			n = 2
		}
		v := &Val{}
		for i := 0; i < n; i++ {
			v.E = append(v.E, g.Val(t.Elem))
		}
		return v
	case Struct:
		v := &Val{}
		for _, f := range t.Fields {
			v.E = append(v.E, g.Val(f.T))
		}
		return v
	case Union:
		var v Val
		d := g.S.Resolve(t.Disc.T)
		n := 0
		for _, c := range t.Cases {
			n += len(c.Vals)
		}
		k := g.D.Draw(g.Stream, n+map[bool]int{true: 2, false: 0}[t.Def != nil])
		if k < n {
			for _, c := range t.Cases {
				if k < len(c.Vals) {
					v.U = uint64(c.Vals[k])
					break
				}
				k -= len(c.Vals)
			}
		} else {
			// Some value the type of the discriminant has and no case names.
			for try := 0; ; try++ {
				switch d.Kind {
				case Enum:
					v.U = uint64(d.Enum[g.D.Draw(g.Stream, len(d.Enum))])
				case Bool:
					v.U = uint64(try % 2)
				case UInt:
					v.U = uint64(uint32(g.D.U64(g.Stream)))
				default:
					v.U = uint64(int64(int32(g.D.U64(g.Stream))))
				}
				if g.S.caseOf(t, v.U) == nil || try > 20 {
					break
				}
			}
		}
		if f := g.S.Arm(t, v.U); f != nil && f.T.Kind != Void {
			v.E = []*Val{g.Val(f.T)}
		}
		return &v
	case Ptr:
		if g.Budget > 0 && g.depth < 60 && g.D.Draw(g.Stream, 3) > 0 {
			return &Val{E: []*Val{g.Val(t.Elem)}}
		}
		return &Val{}
	}
	panic("ref: gen")
}

func (s *Spec) caseOf(t *Type, u uint64) *Case {
	for i := range t.Cases {
		for _, x := range t.Cases[i].Vals {
			if uint32(x) == uint32(u) { // as on the wire
				return &t.Cases[i]
			}
		}
	}
	return nil
}

// Arm returns the arm selected by a discriminant, or nil if there is none.
func (s *Spec) Arm(t *Type, u uint64) *Field {
	if c := s.caseOf(t, u); c != nil {
		return &c.F
	}
	return t.Def
}

func Pad(n int) int { return (4 - n%4) % 4 }

func put32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func PutU32(b []byte, v uint32) []byte { return put32(b, v) }

// PutOpaque appends a variable-length opaque or string.
func PutOpaque(b, v []byte) []byte {
	b = put32(b, uint32(len(v)))
	b = append(b, v...)
	return append(b, make([]byte, Pad(len(v)))...)
}

// Encode appends the RFC 4506 encoding of v.
func (s *Spec) Encode(b []byte, t *Type, v *Val) []byte {
	t = s.Resolve(t)
	switch t.Kind {
	case Void:
	case Int, UInt, Bool, Enum:
		b = put32(b, uint32(v.U))
	case Hyper, UHyper:
		b = put32(put32(b, uint32(v.U>>32)), uint32(v.U))
	case OpaqueFix:
		b = append(b, v.B...)
		b = append(b, make([]byte, Pad(len(v.B)))...)
	case OpaqueVar, String:
		b = PutOpaque(b, v.B)
	case ArrayVar:
		b = put32(b, uint32(len(v.E)))
		fallthrough
	case ArrayFix:
		for _, e := range v.E {
			b = s.Encode(b, t.Elem, e)
		}
	case Struct:
		for i, f := range t.Fields {
			b = s.Encode(b, f.T, v.E[i])
		}
	case Union:
		b = put32(b, uint32(v.U))
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			b = s.Encode(b, f.T, v.E[0])
		}
	case Ptr:
		b = put32(b, uint32(len(v.E)))
		if len(v.E) > 0 {
			b = s.Encode(b, t.Elem, v.E[0])
		}
	}
	return b
}

// Site is the position of a length, count or bounded item in an encoding.
type Site struct {
	Off   int
	Kind  Kind
	Bound int64
}

// Sites lists the length fields of the encoding of v, given the offset at
// which it starts.
func (s *Spec) Sites(off int, t *Type, v *Val, out *[]Site) int {
	t = s.Resolve(t)
	switch t.Kind {
	case OpaqueVar, String:
		*out = append(*out, Site{off, t.Kind, t.N})
	case ArrayVar:
		*out = append(*out, Site{off, t.Kind, t.N})
		off += 4
		for _, e := range v.E {
			off = s.Sites(off, t.Elem, e, out)
		}
		return off
	case ArrayFix:
		for _, e := range v.E {
			off = s.Sites(off, t.Elem, e, out)
		}
		return off
	case Struct:
		for i, f := range t.Fields {
			off = s.Sites(off, f.T, v.E[i], out)
		}
		return off
	case Union:
		off += 4
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			off = s.Sites(off, f.T, v.E[0], out)
		}
		return off
	case Ptr:
		off += 4
		if len(v.E) > 0 {
			off = s.Sites(off, t.Elem, v.E[0], out)
		}
		return off
	}
	return off + len(s.Encode(nil, t, v))
}

var ErrShort = errors.New("short")
var ErrBound = errors.New("over bound")
var ErrUnion = errors.New("no arm for discriminant")

// Decoder decodes leniently in the points RFC 4506 leaves to the decoder and
// the repository documents as unchecked (padding bytes, enum membership,
// discriminants without an arm) but strictly in lengths and bounds.
type Decoder struct {
	S      *Spec
	B      []byte
	Strict bool // reject unknown discriminants
	depth  int
}

func (d *Decoder) u32() (uint32, error) {
	if len(d.B) < 4 {
		return 0, ErrShort
	}
	v := uint32(d.B[0])<<24 | uint32(d.B[1])<<16 | uint32(d.B[2])<<8 | uint32(d.B[3])
	d.B = d.B[4:]
	return v, nil
}

func (d *Decoder) U32() (uint32, error) { return d.u32() }

func (d *Decoder) take(n int64) ([]byte, error) {
	p := n + int64((4-n%4)%4)
	if int64(len(d.B)) < p {
		return nil, ErrShort
	}
	r := d.B[:n:n]
	d.B = d.B[p:]
	return r, nil
}

func (d *Decoder) Opaque(bound int64) ([]byte, error) {
	n, err := d.u32()
	if err != nil {
		return nil, err
	}
	if bound >= 0 && int64(n) > bound {
		return nil, ErrBound
	}
	return d.take(int64(n))
}

func (d *Decoder) Decode(t *Type) (*Val, error) {
	t = d.S.Resolve(t)
	v := &Val{}
	switch t.Kind {
	case Void:
	case Int, Enum:
		x, err := d.u32()
		v.U = uint64(int64(int32(x)))
		return v, err
	case UInt:
		x, err := d.u32()
		v.U = uint64(x)
		return v, err
	case Bool:
		x, err := d.u32()
		if x != 0 {
			x = 1
		}
		v.U = uint64(x)
		return v, err
	case Hyper, UHyper:
		a, err := d.u32()
		if err != nil {
			return nil, err
		}
		b, err := d.u32()
		v.U = uint64(a)<<32 | uint64(b)
		return v, err
	case OpaqueFix:
		b, err := d.take(t.N)
		v.B = b
		return v, err
	case OpaqueVar, String:
		b, err := d.Opaque(t.N)
		v.B = b
		return v, err
	case ArrayFix, ArrayVar:
		n := t.N
		if t.Kind == ArrayVar {
			x, err := d.u32()
			if err != nil {
				return nil, err
			}
			if t.N >= 0 && int64(x) > t.N {
				return nil, ErrBound
			}
			n = int64(x)
		}
		for i := int64(0); i < n; i++ {
			e, err := d.Decode(t.Elem)
			if err != nil {
				return nil, err
			}
			v.E = append(v.E, e)
		}
	case Struct:
		for _, f := range t.Fields {
			e, err := d.Decode(f.T)
			if err != nil {
				return nil, err
			}
			v.E = append(v.E, e)
		}
	case Union:
		x, err := d.u32()
		if err != nil {
			return nil, err
		}
		switch dk := d.S.Resolve(t.Disc.T).Kind; dk {
		case UInt:
			v.U = uint64(x)
		case Bool:
			if x != 0 {
				v.U = 1
			}
		default:
			v.U = uint64(int64(int32(x)))
		}
		f := d.S.Arm(t, v.U)
		if f == nil {
			if d.Strict {
				return nil, ErrUnion
			}
			return v, nil
		}
		if f.T.Kind != Void {
			e, err := d.Decode(f.T)
			if err != nil {
				return nil, err
			}
			v.E = []*Val{e}
		}
	case Ptr:
		x, err := d.u32()
		if err != nil {
			return nil, err
		}
		if x != 0 {
			e, err := d.Decode(t.Elem)
			if err != nil {
				return nil, err
			}
			v.E = []*Val{e}
		}
	}
	return v, nil
}

// GoName is the generator's documented way of exporting identifiers.
func GoName(n string) string { return strings.ToUpper(n[:1]) + n[1:] }

// ToGo stores v into a Go value of the generated type.
func (s *Spec) ToGo(t *Type, v *Val, g reflect.Value) {
	t = s.Resolve(t)
	switch t.Kind {
	case Void:
	case Int, Hyper, UInt, UHyper, Enum:
		u := v.U
		if t.Kind == Enum {
			u = s.symbolic(t, u)
		}
		switch g.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Int:
			g.SetInt(int64(u))
		default:
			x := u
			if g.Type().Bits() == 32 {
				x = uint64(uint32(x))
			}
			g.SetUint(x)
		}
	case Bool:
		g.SetBool(v.U != 0)
	case OpaqueFix:
		reflect.Copy(g, reflect.ValueOf(v.B))
	case OpaqueVar:
		g.SetBytes(append([]byte(nil), v.B...))
	case String:
		g.SetString(string(v.B))
	case ArrayFix:
		for i, e := range v.E {
			s.ToGo(t.Elem, e, g.Index(i))
		}
	case ArrayVar:
		g.Set(reflect.MakeSlice(g.Type(), len(v.E), len(v.E)))
		for i, e := range v.E {
			s.ToGo(t.Elem, e, g.Index(i))
		}
	case Struct:
		for i, f := range t.Fields {
			s.ToGo(f.T, v.E[i], field(g, f.Name))
		}
	case Union:
		s.ToGo(t.Disc.T, &Val{U: v.U}, field(g, t.Disc.Name))
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			s.ToGo(f.T, v.E[0], field(g, f.Name))
		}
	case Ptr:
		if g.Kind() == reflect.Struct {
			g = g.Field(0) // typedef of optional data
		}
		if len(v.E) == 0 {
			g.SetZero()
			return
		}
		p := reflect.New(g.Type().Elem())
		s.ToGo(t.Elem, v.E[0], p.Elem())
		g.Set(p)
	}
}

func field(g reflect.Value, n string) reflect.Value {
	f := g.FieldByName(GoName(n))
	if !f.IsValid() {
		panic(fmt.Sprintf("ref: %v has no field %s", g.Type(), GoName(n)))
	}
	return f
}

// symbolic is the value of an enum as a user of the generated package gets
// it, who says it by name.
func (s *Spec) symbolic(t *Type, u uint64) uint64 {
	for i, e := range t.Enum {
		if uint32(e) == uint32(u) {
			if x, ok := s.Sym[t.Syms[i]]; ok {
				return uint64(x)
			}
		}
	}
	return u
}

// Diff compares a Go value with v; "" means equal. Arms not selected by the
// discriminant carry no information and are not compared.
func (s *Spec) Diff(t *Type, v *Val, g reflect.Value) string { return s.diff(t, v, g, "") }

func (s *Spec) diff(t *Type, v *Val, g reflect.Value, path string) string {
	t = s.Resolve(t)
	switch t.Kind {
	case Void:
	case Int, Hyper, UInt, UHyper, Enum:
		var x uint64
		switch g.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Int:
			x = uint64(g.Int())
		default:
			x = g.Uint()
		}
		y := v.U
		if g.Type().Bits() == 32 {
			x, y = uint64(uint32(x)), uint64(uint32(y))
		}
		if x != y {
			return fmt.Sprintf("%s: got %d, want %d", path, x, y)
		}
	case Bool:
		if g.Bool() != (v.U != 0) {
			return fmt.Sprintf("%s: got %v", path, g.Bool())
		}
	case OpaqueFix:
		b := make([]byte, g.Len())
		reflect.Copy(reflect.ValueOf(b), g)
		if !bytes.Equal(b, v.B) {
			return fmt.Sprintf("%s: got %x, want %x", path, b, v.B)
		}
	case OpaqueVar:
		if !bytes.Equal(g.Bytes(), v.B) {
			return fmt.Sprintf("%s: got %d bytes %s, want %d bytes %s", path, g.Len(), hex(g.Bytes()), len(v.B), hex(v.B))
		}
	case String:
		if g.String() != string(v.B) {
			return fmt.Sprintf("%s: got %d bytes %s, want %d bytes %s", path, g.Len(), hex([]byte(g.String())), len(v.B), hex(v.B))
		}
	case ArrayFix, ArrayVar:
		if g.Len() != len(v.E) {
			return fmt.Sprintf("%s: got %d elements, want %d", path, g.Len(), len(v.E))
		}
		for i, e := range v.E {
			if d := s.diff(t.Elem, e, g.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case Struct:
		for i, f := range t.Fields {
			if d := s.diff(f.T, v.E[i], field(g, f.Name), path+"."+f.Name); d != "" {
				return d
			}
		}
	case Union:
		if d := s.diff(t.Disc.T, &Val{U: v.U}, field(g, t.Disc.Name), path+"."+t.Disc.Name); d != "" {
			return d
		}
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			return s.diff(f.T, v.E[0], field(g, f.Name), path+"."+f.Name)
		}
	case Ptr:
		if g.Kind() == reflect.Struct {
			g = g.Field(0)
		}
		if g.IsNil() != (len(v.E) == 0) {
			return fmt.Sprintf("%s: got nil=%v, want nil=%v", path, g.IsNil(), len(v.E) == 0)
		}
		if len(v.E) > 0 {
			return s.diff(t.Elem, v.E[0], g.Elem(), path+"*")
		}
	}
	return ""
}

func hex(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x...", b[:40])
	}
	return fmt.Sprintf("%x", b)
}

// FromGo reads a Go value of the generated type into a value tree.
func (s *Spec) FromGo(t *Type, g reflect.Value) *Val {
	t = s.Resolve(t)
	v := &Val{}
	switch t.Kind {
	case Void:
	case Int, Hyper, UInt, UHyper, Enum:
		switch g.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Int:
			v.U = uint64(g.Int())
		default:
			v.U = g.Uint()
			if t.Kind == Enum {
				v.U = uint64(int64(int32(g.Uint())))
			}
		}
	case Bool:
		if g.Bool() {
			v.U = 1
		}
	case OpaqueFix:
		v.B = make([]byte, g.Len())
		reflect.Copy(reflect.ValueOf(v.B), g)
	case OpaqueVar:
		v.B = append([]byte{}, g.Bytes()...)
	case String:
		v.B = []byte(g.String())
	case ArrayFix, ArrayVar:
		for i := 0; i < g.Len(); i++ {
			v.E = append(v.E, s.FromGo(t.Elem, g.Index(i)))
		}
	case Struct:
		for _, f := range t.Fields {
			v.E = append(v.E, s.FromGo(f.T, field(g, f.Name)))
		}
	case Union:
		v.U = s.FromGo(t.Disc.T, field(g, t.Disc.Name)).U
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			v.E = []*Val{s.FromGo(f.T, field(g, f.Name))}
		}
	case Ptr:
		if g.Kind() == reflect.Struct {
			g = g.Field(0)
		}
		if !g.IsNil() {
			v.E = []*Val{s.FromGo(t.Elem, g.Elem())}
		}
	}
	return v
}

// InBounds reports whether all declared maxima are respected.
func (s *Spec) InBounds(t *Type, v *Val) bool {
	t = s.Resolve(t)
	switch t.Kind {
	case OpaqueVar, String:
		return t.N < 0 || int64(len(v.B)) <= t.N
	case ArrayVar, ArrayFix:
		if t.Kind == ArrayVar && t.N >= 0 && int64(len(v.E)) > t.N {
			return false
		}
		for _, e := range v.E {
			if !s.InBounds(t.Elem, e) {
				return false
			}
		}
	case Struct:
		for i, f := range t.Fields {
			if !s.InBounds(f.T, v.E[i]) {
				return false
			}
		}
	case Union:
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void && len(v.E) > 0 {
			return s.InBounds(f.T, v.E[0])
		}
	case Ptr:
		return len(v.E) == 0 || s.InBounds(t.Elem, v.E[0])
	}
	return true
}

// Bounded lists, for a value, the nodes with a declared maximum.
func (s *Spec) Bounded(t *Type, v *Val, f func(t *Type, v *Val)) {
	s.counted(t, v, func(t *Type, v *Val) {
		if t.N >= 0 {
			f(t, v)
		}
	})
}

// Unbounded lists the opaques and strings without a declared maximum.
func (s *Spec) Unbounded(t *Type, v *Val, f func(t *Type, v *Val)) {
	s.counted(t, v, func(t *Type, v *Val) {
		if t.N < 0 && t.Kind != ArrayVar {
			f(t, v)
		}
	})
}

func (s *Spec) counted(t *Type, v *Val, f func(t *Type, v *Val)) {
	t = s.Resolve(t)
	switch t.Kind {
	case OpaqueVar, String:
		f(t, v)
	case ArrayVar, ArrayFix:
		if t.Kind == ArrayVar {
			f(t, v)
		}
		for _, e := range v.E {
			s.counted(t.Elem, e, f)
		}
	case Struct:
		for i, x := range t.Fields {
			s.counted(x.T, v.E[i], f)
		}
	case Union:
		if x := s.Arm(t, v.U); x != nil && x.T.Kind != Void && len(v.E) > 0 {
			s.counted(x.T, v.E[0], f)
		}
	case Ptr:
		if len(v.E) > 0 {
			s.counted(t.Elem, v.E[0], f)
		}
	}
}

// Zero returns a small valid value without any choice.
func (s *Spec) Zero(t *Type) *Val {
	t = s.Resolve(t)
	v := &Val{}
	switch t.Kind {
	case Enum:
		v.U = uint64(t.Enum[0])
	case OpaqueFix:
		v.B = make([]byte, t.N)
	case ArrayFix:
		for i := int64(0); i < t.N; i++ {
			v.E = append(v.E, s.Zero(t.Elem))
		}
	case Struct:
		for _, f := range t.Fields {
			v.E = append(v.E, s.Zero(f.T))
		}
	case Union:
		if len(t.Cases) > 0 {
			v.U = uint64(t.Cases[0].Vals[0])
		}
		if f := s.Arm(t, v.U); f != nil && f.T.Kind != Void {
			v.E = []*Val{s.Zero(f.T)}
		}
	}
	return v
}

// Valid reports whether v is a value of the type as RFC 4506 has it: enums
// hold declared values, discriminants select an arm, bounds are kept.
func (s *Spec) Valid(t *Type, v *Val) bool {
	t = s.Resolve(t)
	switch t.Kind {
	case Enum:
		for _, e := range t.Enum {
			if uint32(e) == uint32(v.U) {
				return true
			}
		}
		return false
	case OpaqueVar, String:
		return t.N < 0 || int64(len(v.B)) <= t.N
	case ArrayVar, ArrayFix:
		if t.Kind == ArrayVar && t.N >= 0 && int64(len(v.E)) > t.N {
			return false
		}
		for _, e := range v.E {
			if !s.Valid(t.Elem, e) {
				return false
			}
		}
	case Struct:
		for i, f := range t.Fields {
			if !s.Valid(f.T, v.E[i]) {
				return false
			}
		}
	case Union:
		if !s.Valid(t.Disc.T, &Val{U: v.U}) {
			return false
		}
		f := s.Arm(t, v.U)
		if f == nil {
			return false
		}
		if f.T.Kind != Void {
			return len(v.E) == 1 && s.Valid(f.T, v.E[0])
		}
	case Ptr:
		return len(v.E) == 0 || s.Valid(t.Elem, v.E[0])
	}
	return true
}

// Acceptance classifies bytes offered as a message of a type.
type Acceptance int

const (
	Must    Acceptance = iota // the canonical encoding of a valid value
	May                       // decodes, but RFC 4506 or the repository leaves it open
	MustNot                   // cut short or over a declared bound
)

// Classify decodes b as a t.
func (s *Spec) Classify(t *Type, b []byte) (Acceptance, *Val) {
	d := &Decoder{S: s, B: b}
	v, err := d.Decode(t)
	if err != nil {
		return MustNot, nil
	}
	if s.Valid(t, v) && bytes.Equal(s.Encode(nil, t, v), b) {
		return Must, v
	}
	return May, v
}

// Bulk returns a value of t with about n small parts, or nil if the type
// does not have such values.
func (s *Spec) Bulk(t *Type, n int) *Val { return s.bulk(t, n, map[*Type]bool{}) }

// flat: values of t take a few bytes and hold nothing else.
func (s *Spec) flat(t *Type) bool {
	switch s.Resolve(t).Kind {
	case Int, UInt, Hyper, UHyper, Bool, Enum, OpaqueVar, String:
		return true
	}
	return false
}

func (s *Spec) bulk(t *Type, n int, busy map[*Type]bool) *Val {
	t = s.Resolve(t)
	if busy[t] {
		return nil
	}
	busy[t] = true
	defer delete(busy, t)
	switch t.Kind {
	case ArrayVar:
		if t.N >= 0 && t.N < int64(n) || n > 20000 && !s.flat(t.Elem) || n*len(s.Encode(nil, t.Elem, s.Zero(t.Elem))) > 1<<19 {
			return nil
		}
		v := &Val{}
		num := false
		switch s.Resolve(t.Elem).Kind {
		case Int, UInt, Hyper, UHyper:
			num = true
		}
		for i := 0; i < n; i++ {
			e := s.Zero(t.Elem)
			if num {
				e.U = uint64(i)
			}
			v.E = append(v.E, e)
		}
		return v
	case Struct:
		for i, f := range t.Fields {
			if b := s.bulk(f.T, n, busy); b != nil {
				v := s.Zero(t)
				v.E[i] = b
				return v
			}
		}
	case Union:
		for _, c := range t.Cases {
			if c.F.T.Kind != Void {
				if b := s.bulk(c.F.T, n, busy); b != nil {
					return &Val{U: uint64(c.Vals[0]), E: []*Val{b}}
				}
			}
		}
	case Ptr:
		el := s.Resolve(t.Elem)
		if el.Kind == Struct && n <= 20000 && n*len(s.Encode(nil, el, s.Zero(el))) <= 1<<19 {
			for i, f := range el.Fields { // a linked list
				if nt := s.Resolve(f.T); nt.Kind == Ptr && s.Resolve(nt.Elem) == el {
					v := &Val{}
					for k := 0; k < n; k += len(el.Fields) {
						e := s.Zero(el)
						e.E[i] = v
						v = &Val{E: []*Val{e}}
					}
					return v
				}
			}
		}
		if b := s.bulk(t.Elem, n, busy); b != nil {
			return &Val{E: []*Val{b}}
		}
	}
	return nil
}

// Sized calls f with every string, variable-length opaque and array in g,
// which holds v.
func (s *Spec) Sized(t *Type, v *Val, g reflect.Value, f func(reflect.Value)) {
	t = s.Resolve(t)
	switch t.Kind {
	case OpaqueVar, String:
		f(g)
	case ArrayVar:
		f(g)
		for i, e := range v.E {
			s.Sized(t.Elem, e, g.Index(i), f)
		}
	case ArrayFix:
		for i, e := range v.E {
			s.Sized(t.Elem, e, g.Index(i), f)
		}
	case Struct:
		for i, x := range t.Fields {
			s.Sized(x.T, v.E[i], field(g, x.Name), f)
		}
	case Union:
		if x := s.Arm(t, v.U); x != nil && x.T.Kind != Void {
			s.Sized(x.T, v.E[0], field(g, x.Name), f)
		}
	case Ptr:
		if g.Kind() == reflect.Struct {
			g = g.Field(0)
		}
		if len(v.E) > 0 {
			s.Sized(t.Elem, v.E[0], g.Elem(), f)
		}
	}
}

// Recursive says how values of a type that holds itself are encoded: head,
// then at each level pre, a 1 if there is another level inside or else a 0,
// that level, and post.
func (s *Spec) Recursive(t *Type) (head, pre, post []byte, ok bool) {
	t = s.Resolve(t)
	if t.Kind == Ptr {
		head = PutU32(nil, 1)
		t = s.Resolve(t.Elem)
	}
	if t.Kind != Struct {
		return
	}
	for _, f := range t.Fields {
		x := s.Resolve(f.T)
		if !ok && (x.Kind == Ptr || x.Kind == ArrayVar && x.N != 0) && s.Resolve(x.Elem) == t {
			ok = true
			continue
		}
		b := s.Encode(nil, f.T, s.Zero(f.T))
		if ok {
			post = append(post, b...)
		} else {
			pre = append(pre, b...)
		}
	}
	return
}
