package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"verif/ref"
	"verif/sim"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// The codec scenario: several tasks encode and decode messages of all types
// at the same time under the scheduler. What they decode went through a
// faulty store or network: cut at any byte, with lengths and bytes changed,
// or with other data behind it in the same memory.

type codecRun struct {
	w      *sim.World
	prop   string
	types  []*MsgType
	in     int
	out    int
	dones  int
	bulked bool
	made   []madeBytes
}

// madeBytes is what an encoder returned: its caller's from then on.
type madeBytes struct {
	name      string
	got, want []byte
	diff      func() string // or a value decoded, with what is wrong with it
}

func (s *codecRun) keep(mt *MsgType, got, want []byte) {
	if len(s.made) < 20 && len(want) > 0 {
		s.made = append(s.made, madeBytes{name: mt.Name, got: got, want: want})
	}
}

func (s *codecRun) checkKept() {
	for _, m := range s.made {
		if m.diff != nil {
			if d := m.diff(); d != "" {
				s.w.Fail("codec.value-changed", "%s: a decoded value changed while other values were encoded and decoded: %s", m.name, d)
			}
			continue
		}
		if !bytes.Equal(m.got, m.want) {
			s.w.Fail("codec.bytes-changed", "%s: the encoded bytes %s became %s while other values were encoded and decoded", m.name, hx(m.want), hx(m.got))
		}
	}
}

func codecScenario(w *sim.World, prop string) {
	s := &codecRun{w: w, prop: prop}
	for _, g := range groups {
		if prop == "C14" && g.builtIn() && len(groups) > 3 {
			continue
		}
		s.types = append(s.types, g.Types...)
	}
	if len(s.types) == 0 {
		for _, g := range groups {
			s.types = append(s.types, g.Types...)
		}
	}
	a0 := allocated()
	n := 1 + w.Draw("shape", 3)
	for i := 0; i < n; i++ {
		st := fmt.Sprintf("t%d", i)
		jobs := w.Draw1(st, 5)
		w.Go("task "+st, func() {
			for j := 0; j < jobs; j++ {
				s.job(st)
			}
			s.dones++
		})
	}
	if !w.Run(nil) {
		return
	}
	if s.dones != n {
		w.Fail("codec.panic", "a task has not finished: %v", w.Unfinished())
	}
	s.checkKept()
	if !s.bulked {
		checkMem(w, a0, s.in, s.out)
	}
}

// shared backing memory: what follows a message must not be looked at.
func within(b []byte, tail []byte) []byte {
	all := append(append(make([]byte, 0, len(b)+len(tail)+8), b...), tail...)
	return all[:len(b)]
}

func (s *codecRun) job(st string) {
	w := s.w
	mt := s.types[w.Draw(st, len(s.types))]
	sp, t := mt.G.Spec, mt.T
	w.Count("type." + mt.G.Name + "." + mt.Name)
	if l := mt.G.WrongKinds; len(l) > 0 {
		w.Fail("codec.wrong-constant", "%s", l[0])
	}
	if l := sp.Plain; len(l) > 0 {
		n := l[w.Draw(st, len(l))]
		if x, ok := sp.Sym[n]; ok && x != sp.Consts[n] {
			w.Fail("codec.wrong-constant", "%s is %d in the generated package, and %d in the specification", n, x, sp.Consts[n])
		}
	}
	bud := 40
	if w.Draw(st, 4) == 3 {
		bud = 1500
	}
	g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: bud, Max: 3000}
	v := g.Val(t)
	want := sp.Encode(nil, t, v)
	s.in += len(want)
	x := mt.New()
	toGo(sp, t, v, x)

	kind := w.Draw(st, 6)
	if s.prop == "C18" {
		kind = []int{0, 5}[w.Draw(st, 2)]
	}
	if r := map[string]int{"C11": 100, "C12": 400, "C13": 400, "C14": 200, "any": 400}[s.prop]; r > 0 && w.Draw(st, r) == r-1 {
		s.bulk(st)
		return
	}
	if r := map[string]int{"C11": 1200, "C12": 2000, "C13": 1000, "C14": 1500, "any": 3000}[s.prop]; r > 0 && w.Draw(st, r) == r-1 && s.deep(st) {
		return
	}
	what := []string{"roundtrip", "every-cut", "damage", "hostile", "stream", "over-encode"}[kind]
	w.Count("codec." + what)
	w.Logf("%s: %s %s %d bytes", st, what, mt.Name, len(want))
	switch kind {
	case 0:
		s.roundtrip(st, mt, v, want, x)
	case 1:
		s.cuts(st, mt, v, want)
	case 2:
		s.damaged(st, mt, damage(w, st, sp, t, v, want), want)
	case 3:
		var sites []ref.Site
		sp.Sites(0, t, v, &sites)
		b := append([]byte(nil), want...)
		if len(sites) > 0 {
			w.Count("fault.hostile_length")
			huge := hugeLens[w.Draw(st, len(hugeLens))] << uint(w.Draw(st, 2))
			binary.BigEndian.PutUint32(b[sites[w.Draw(st, len(sites))].Off:], huge)
		}
		s.damaged(st, mt, b, want)
	case 4:
		s.stream(st)
	case 5:
		if w.Draw(st, 8) == 7 && s.wide(st, mt, v, x) {
			return
		}
		if !overflow(w, st, sp, t, v) {
			s.roundtrip(st, mt, v, want, x)
			return
		}
		x = mt.New()
		toGo(sp, t, v, x)
		wr := xdr.MakeWriter(nil)
		s.guard(mt, "encoding", func() { x.Xdr(wr) })
		if wr.Error() == nil {
			w.Fail("codec.over-encoded", "%s: a value beyond its declared bounds is encoded (%d bytes): %s", mt.Name, len(wr.WriteBuf()), hx(wr.WriteBuf()))
			return
		}
		if _, err := xdr.EncodeBuf(x); err == nil {
			w.Fail("codec.over-encoded", "%s: EncodeBuf encodes a value beyond its declared bounds", mt.Name)
			return
		}
		var z xdr.Uint32
		z.Xdr(wr)
		if y := mt.New(); wr.Error() != nil {
			y.Xdr(wr)
		}
		if wr.Error() == nil {
			w.Fail("codec.error-cleared", "%s: encoding failed, but encoding more cleared the error", mt.Name)
		}
	}
}

// bulk: what a message of a great many small parts costs is still in
// proportion to its size.
func (s *codecRun) bulk(st string) {
	w := s.w
	if s.bulked {
		return
	}
	s.bulked = true // the model's own cost is not counted
	var c []*MsgType
	for _, mt := range s.types {
		if mt.G.Spec.Bulk(mt.T, 4000) != nil {
			c = append(c, mt)
		}
	}
	if len(c) == 0 {
		return
	}
	mt := c[w.Draw(st, len(c))]
	sp, t := mt.G.Spec, mt.T
	n := 4000 + w.Draw(st, 12000)
	if w.Draw(st, 6) == 5 && sp.Bulk(t, 66000) != nil {
		n = 65530 + w.Draw(st, 80)
	}
	if sp.Bulk(t, n) == nil {
		n = 4000
	}
	v := sp.Bulk(t, n)
	want := sp.Encode(nil, t, v)
	if len(want) > 1<<20 {
		return
	}
	w.Logf("%s: bulk %s %d bytes", st, mt.Name, len(want))
	w.Count("codec.bulk")
	w.CountN("codec.bulk_bytes", len(want))
	cost := func(what string, f func()) bool {
		a0, y0, s0 := allocated(), w.YSteps, w.Steps
		if !s.guard(mt, what, f) {
			return false
		}
		a, y := allocated()-a0, w.YSteps-y0
		if a > 24<<20+100*uint64(len(want))+12000*uint64(w.Steps-s0) {
			w.Fail("mem", "%s: %s %d bytes in %d parts allocates %d MB", mt.Name, what, len(want), len(want)/4, a>>20)
			return false
		}
		if y > 400000+50*len(want) {
			w.Fail("work-limit", "%s: %s %d bytes executes %d statements", mt.Name, what, len(want), y)
			return false
		}
		return true
	}
	s.in += len(want)
	s.out += len(want)
	x, y := mt.New(), mt.New()
	toGo(sp, t, v, x)
	wr := xdr.MakeWriter(nil)
	if !cost("encoding", func() { x.Xdr(wr) }) {
		return
	}
	if wr.Error() != nil || !bytes.Equal(wr.WriteBuf(), want) {
		w.Fail("codec.wrong-bytes", "%s: %d bytes in many parts are encoded as %d others (%v)", mt.Name, len(want), len(wr.WriteBuf()), wr.Error())
		return
	}
	rd := xdr.MakeReader(want)
	if !cost("decoding", func() { y.Xdr(rd) }) {
		return
	}
	if rd.Error() != nil {
		w.Fail("codec.refused", "%s: cannot decode a message of %d bytes: %v", mt.Name, len(want), rd.Error())
		return
	}
	if d := diffGo(sp, t, v, y); d != "" {
		w.Fail("codec.wrong-value", "%s: a message of %d bytes decodes to another value: %s", mt.Name, len(want), d)
	}
	w.Count("codec.bulk_decoded")
}

func (s *codecRun) guard(mt *MsgType, what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			s.w.Fail("codec.panic", "%s: %s panicked: %v", mt.Name, what, r)
		}
	}()
	f()
	return true
}

func (s *codecRun) roundtrip(st string, mt *MsgType, v *ref.Val, want []byte, x xdr.Xdrable) {
	w, sp, t := s.w, mt.G.Spec, mt.T
	pre := fill(w.Draw(st, 3)*w.Draw(st, 7), 5)
	wr := xdr.MakeWriter(append([]byte(nil), pre...))
	if len(pre) == 0 && w.Draw(st, 2) == 0 {
		wr = xdr.MakeWriter(nil)
	}
	if !s.guard(mt, "encoding", func() { x.Xdr(wr) }) {
		return
	}
	got := wr.WriteBuf()
	s.out += len(got)
	if err := wr.Error(); err != nil {
		w.Fail("codec.refused", "%s: cannot encode a valid value: %v", mt.Name, err)
		return
	}
	if !bytes.HasPrefix(got, pre) || !bytes.Equal(got[len(pre):], want) {
		w.Fail("codec.wrong-bytes", "%s: encodes as %s after %d bytes already written, should be %s (first difference at byte %d)", mt.Name, hx(got), len(pre), hx(want), firstDiff(got[min(len(pre), len(got)):], want))
		return
	}
	if d := diffGo(sp, t, v, x); d != "" {
		w.Fail("codec.wrong-value", "%s: encoding changed the value: %s", mt.Name, d)
		return
	}
	s.keep(mt, got[len(pre):], want)
	if w.Draw(st, 3) == 2 { // the one-call form
		var b []byte
		var err error
		if !s.guard(mt, "EncodeBuf", func() { b, err = xdr.EncodeBuf(x) }) {
			return
		}
		s.out += len(b)
		switch {
		case err != nil:
			w.Fail("codec.refused", "%s: EncodeBuf cannot encode a valid value: %v", mt.Name, err)
			return
		case !bytes.Equal(b, want):
			w.Fail("codec.wrong-bytes", "%s: EncodeBuf makes %s, should be %s", mt.Name, hx(b), hx(want))
			return
		}
		s.keep(mt, b, want)
		y := mt.New()
		if !s.guard(mt, "DecodeBuf", func() { err = xdr.DecodeBuf(want, y) }) {
			return
		}
		if err != nil {
			w.Fail("codec.refused", "%s: DecodeBuf cannot decode %s: %v", mt.Name, hx(want), err)
			return
		}
		if d := diffGo(sp, t, v, y); d != "" {
			w.Fail("codec.wrong-value", "%s: DecodeBuf makes another value: %s (message %s)", mt.Name, d, hx(want))
			return
		}
	}
	// And back, into a fresh or a used variable.
	y := mt.New()
	if w.Draw(st, 2) == 1 {
		g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: 60, Max: 50}
		toGo(sp, t, g.Val(t), y)
		w.Count("codec.reused_variable")
	}
	tail := ref.PutU32(nil, 0xfeedbeef)
	buf := append(append([]byte(nil), want...), tail...)
	rd := xdr.MakeReader(buf)
	var z xdr.Uint32
	if !s.guard(mt, "decoding", func() { y.Xdr(rd); z.Xdr(rd) }) {
		return
	}
	if err := rd.Error(); err != nil {
		w.Fail("codec.refused", "%s: cannot decode %s: %v", mt.Name, hx(want), err)
		return
	}
	if z != 0xfeedbeef {
		w.Fail("codec.wrong-value", "%s: decoding does not end where the message ends: next word reads as %08x", mt.Name, uint32(z))
		return
	}
	sim.Yield("codec.think")
	if d := diffGo(sp, t, v, y); d != "" {
		w.Fail("codec.wrong-value", "%s: decoded value differs: %s (message %s)", mt.Name, d, hx(want))
	}
	if len(s.made) < 20 {
		s.made = append(s.made, madeBytes{name: mt.Name, diff: func() string { return diffGo(sp, t, v, y) }})
	}
	if !bytes.Equal(buf[:len(want)], want) || !bytes.Equal(buf[len(want):], tail) {
		w.Fail("codec.outside-access", "%s: decoding changed the message", mt.Name)
	}
}

func (s *codecRun) cuts(st string, mt *MsgType, v *ref.Val, want []byte) {
	w := s.w
	if len(want) == 0 {
		return
	}
	from, n := 0, len(want)
	if n > 160 {
		from, n = w.Draw(st, n-100), min(100, 5+500000/n)
	}
	for i := from; i < from+n; i++ {
		w.Count("fault.message_cut")
		y := mt.New()
		if w.Draw(st, 4) == 0 {
			toGo(mt.G.Spec, mt.T, v, y)
		}
		buf := within(want[:i], want[i:])
		s.in += i
		rd := xdr.MakeReader(buf)
		if !s.guard(mt, fmt.Sprintf("decoding a message cut after %d of %d bytes", i, len(want)), func() { y.Xdr(rd) }) {
			return
		}
		if rd.Error() == nil {
			w.Fail("codec.cut-accepted", "%s: a message cut after %d of %d bytes decodes without an error: %s", mt.Name, i, len(want), hx(want))
			return
		}
		if !s.sticky(mt, rd, i) {
			return
		}
		if i%4 == 0 {
			var err error
			if !s.guard(mt, "DecodeBuf", func() { err = xdr.DecodeBuf(buf, mt.New()) }) {
				return
			}
			if err == nil {
				w.Fail("codec.cut-accepted", "%s: DecodeBuf accepts a message cut after %d of %d bytes: %s", mt.Name, i, len(want), hx(want))
				return
			}
		}
	}
}

// sticky: an error, once there, is not cleared by decoding on.
func (s *codecRun) sticky(mt *MsgType, rd *xdr.XdrState, at int) bool {
	before := "an error that its first report cleared"
	if e := rd.Error(); e != nil {
		before = e.Error()
	}
	var b bool
	var a uint32
	var c uint64
	var d []byte
	var e string
	f := make([]byte, 3)
	ok := s.guard(mt, "decoding on after an error", func() {
		xdr.XdrBool(rd, &b)
		xdr.XdrU32(rd, &a)
		xdr.XdrU64(rd, &c)
		xdr.XdrVarArray(rd, 10, &d)
		xdr.XdrString(rd, -1, &e)
		xdr.XdrArray(rd, f)
		mt.New().Xdr(rd)
	})
	if !ok {
		return false
	}
	if rd.Error() == nil {
		s.w.Fail("codec.error-cleared", "%s: decoding failed (%s) at a cut after %d bytes, but decoding more cleared the error", mt.Name, before, at)
		return false
	}
	return true
}

func (s *codecRun) damaged(st string, mt *MsgType, b, orig []byte) {
	w, sp, t := s.w, mt.G.Spec, mt.T
	acc, v := sp.Classify(t, b)
	keep := append([]byte(nil), b...)
	buf := within(b, orig)
	s.in += len(b)
	y := mt.New()
	rd := xdr.MakeReader(buf)
	if !s.guard(mt, fmt.Sprintf("decoding damaged message %s", hx(b)), func() { y.Xdr(rd) }) {
		return
	}
	if !bytes.Equal(buf, keep) {
		w.Fail("codec.outside-access", "%s: decoding changed the message", mt.Name)
	}
	if rd.Error() != nil {
		w.Count("codec.damage_rejected")
		if acc == ref.Must {
			w.Fail("codec.refused", "%s: cannot decode %s: %v", mt.Name, hx(b), rd.Error())
			return
		}
		s.sticky(mt, rd, len(b))
		return
	}
	w.Count("codec.damage_accepted")
	if acc == ref.MustNot {
		class := "codec.cut-accepted"
		if d := (&ref.Decoder{S: sp, B: b}); true {
			if _, err := d.Decode(t); err == ref.ErrBound {
				class = "codec.bound-ignored"
			}
		}
		w.Fail(class, "%s: damaged message decodes without an error: %s (the undamaged one is %s)", mt.Name, hx(b), hx(orig))
		return
	}
	if d := diffGo(sp, t, v, y); d != "" {
		w.Fail("codec.wrong-value", "%s: %s decodes to another value: %s", mt.Name, hx(b), d)
		return
	}
	got := sp.FromGo(t, elem(y))
	if !sp.InBounds(t, got) {
		w.Fail("codec.bound-ignored", "%s: %s decodes to a value beyond its declared bounds", mt.Name, hx(b))
		return
	}
	wr := xdr.MakeWriter(nil)
	if !s.guard(mt, "encoding what was decoded", func() { y.Xdr(wr) }) {
		return
	}
	s.out += len(wr.WriteBuf())
	if wr.Error() != nil {
		w.Fail("codec.unstable", "%s: %s decodes, but the value cannot be encoded: %v", mt.Name, hx(b), wr.Error())
		return
	}
	if want := sp.Encode(nil, t, v); !bytes.Equal(want, wr.WriteBuf()) {
		w.Fail("codec.unstable", "%s: %s decodes, but encodes again as %s instead of %s", mt.Name, hx(b), hx(wr.WriteBuf()), hx(want))
		return
	}
	z := mt.New()
	rd = xdr.MakeReader(wr.WriteBuf())
	if !s.guard(mt, "decoding again", func() { z.Xdr(rd) }) {
		return
	}
	if rd.Error() != nil {
		w.Fail("codec.unstable", "%s: %s decodes, but what it encodes as does not: %v", mt.Name, hx(b), rd.Error())
	} else if d := diffGo(sp, t, v, z); d != "" {
		w.Fail("codec.unstable", "%s: %s decodes to another value the second time: %s", mt.Name, hx(b), d)
	}
}

func elem(x xdr.Xdrable) reflect.Value { return reflect.ValueOf(x).Elem() }

// stream: many messages of different types back to back in one state, cut
// somewhere; the intact ones before the cut decode, nothing after it does.
func (s *codecRun) stream(st string) {
	w := s.w
	type msg struct {
		mt  *MsgType
		v   *ref.Val
		end int
	}
	var ms []msg
	wr := xdr.MakeWriter(nil)
	var want []byte
	n := 1 + w.Draw(st, 6)
	for i := 0; i < n; i++ {
		mt := s.types[w.Draw(st, len(s.types))]
		g := &ref.Gen{S: mt.G.Spec, D: w.Source, Stream: st, Budget: 60, Max: 200}
		v := g.Val(mt.T)
		x := mt.New()
		toGo(mt.G.Spec, mt.T, v, x)
		if !s.guard(mt, "encoding", func() { x.Xdr(wr) }) {
			return
		}
		want = mt.G.Spec.Encode(want, mt.T, v)
		ms = append(ms, msg{mt, v, len(want)})
		sim.Yield("codec.think")
	}
	s.in += len(want)
	s.out += len(want)
	if wr.Error() != nil || !bytes.Equal(wr.WriteBuf(), want) {
		w.Fail("codec.wrong-bytes", "%d messages encoded one after the other: %s (error %v), should be %s", n, hx(wr.WriteBuf()), wr.Error(), hx(want))
		return
	}
	cut := len(want)
	if w.Draw(st, 2) == 1 && cut > 0 {
		cut = w.Draw(st, cut)
		w.Count("fault.message_cut")
	}
	rd := xdr.MakeReader(within(want[:cut], want[cut:]))
	for i, m := range ms {
		y := m.mt.New()
		if !s.guard(m.mt, "decoding", func() { y.Xdr(rd) }) {
			return
		}
		sim.Yield("codec.think")
		switch {
		case m.end <= cut && rd.Error() != nil:
			w.Fail("codec.refused", "%s: message %d of a stream, complete, does not decode: %v", m.mt.Name, i, rd.Error())
			return
		case m.end > cut && rd.Error() == nil && len(m.mt.G.Spec.Encode(nil, m.mt.T, m.v)) > 0:
			w.Fail("codec.cut-accepted", "%s: message %d of a stream ends at byte %d, the stream at byte %d, yet it decodes", m.mt.Name, i, m.end, cut)
			return
		case m.end <= cut:
			if d := diffGo(m.mt.G.Spec, m.mt.T, m.v, y); d != "" {
				w.Fail("codec.wrong-value", "%s: message %d of a stream decodes differently: %s", m.mt.Name, i, d)
				return
			}
		}
	}
}
