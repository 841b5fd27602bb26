package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"

	"verif/ref"
	"verif/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// The server scenario: the repository's Server and its handlers run under
// the scheduler against event-driven peers that speak the protocol through
// the reference implementation. What must happen is computed from the bytes
// that the server actually consumed.

type regKey struct{ prog, vers, proc uint32 }

// regEnt is what is registered under a key: a raw handler instance or a
// typed procedure.
type regEnt struct {
	key   regKey
	inst  int
	typed *Proc
}

func (e *regEnt) who() string {
	if e.typed != nil {
		return fmt.Sprintf("%s/%s.%s", e.typed.V.G.Name, e.typed.V.V.Name, e.typed.P.Name)
	}
	return fmt.Sprintf("raw#%d(%d,%d,%d)", e.inst, e.key.prog, e.key.vers, e.key.proc)
}

// Kinds of raw results.
const (
	rkFresh = iota
	rkEcho
	rkVoid
	rkNil
	rkErr
	rkErrRes
	rkTooLong
	rkSetErr
	rkBig
	rkLate // encodes a good part, then fails
	nRk
)

type plan struct {
	id     uint32
	kind   int
	hold   bool
	yields int
	size   int
}

type typedPlan struct {
	res     *ref.Val
	hold    bool
	yields  int
	over    bool // the planned result exceeds a declared bound
	appends bool
}

type execRec struct {
	who  string
	id   uint32
	what string // canonical arguments
}

func (e execRec) key() string { return e.who + "|" + e.what }

type outcome struct {
	exec   *execRec
	reply  *ref.Reply // nil: none
	anyErr bool       // any verdict but success
	held   bool
}

type expect struct {
	c    *srvConn
	rec  int
	xid  uint32
	outs []outcome
	got  int // index of the matched outcome, -1 if none yet
}

type item struct {
	kind string
	b    []byte
	resp bool // a reply is likely
}

type srvConn struct {
	s       *srvRun
	name    string
	st      string
	l       *link
	items   []item
	next    int
	window  int // closed loop if > 0
	gap     int
	start   int64
	sent    int
	total   int
	big     int // bytes of large results
	stallAt int
	cutAt   int
	cutRst  bool
	cutDone bool
	held    []byte
	flush   bool
	pause   bool
	noRead  bool // the peer never reads again; the connection is reset at the end
	started bool
	ret     bool
	retErr  error
	retRead int
	rp      int // parsed prefix of the reply stream
	wp      int // prefix of the reply stream looked at by wrote
	replies []gotReply
	badTail bool
	torn    int // bytes accepted when a write failed inside a record, -1 if not
	wbroken bool
	got     []byte
}

type gotReply struct {
	r   ref.Reply
	raw []byte
	err error
	at  int64
}

type srvRun struct {
	w         *sim.World
	k         knobs
	srv, idle *rfc1057.Server
	regs      map[regKey]*regEnt
	vers      map[uint32][]uint32
	order     []*regEnt
	conns     []*srvConn
	plans     map[uint32]*plan
	tplans    map[string]*typedPlan
	execs     []execRec
	released  bool
	freed     int // groups of blocked handlers that go on, less one
	nheld     int
	nextID    uint32
	sent      int
	hostile   bool
	jumbo     bool
	execClass string
	kept      map[uint32]*kept // arguments that raw handlers hold on to, by id
}

// kept is an argument that its handler keeps a reference to.
type kept struct {
	n           int // executions with this id
	data, saved []byte
}

// wrote notes that the server's transport on c accepted more bytes: whatever
// a handler was given stays as it was until then.
func (c *srvConn) wrote() {
	for {
		b := c.l.ba.all[c.wp:]
		if len(b) < 4 {
			return
		}
		n := binary.BigEndian.Uint32(b)
		if n&(1<<31) == 0 || uint64(n&(1<<31-1)) > uint64(len(b)-4) {
			return
		}
		n &= 1<<31 - 1
		c.wp += 4 + int(n)
		r, err := ref.DecodeReply(b[4 : 4+n])
		if err != nil || r.V.Denied || r.V.Stat != ref.Success || len(r.Data) < 4 {
			continue
		}
		id := binary.BigEndian.Uint32(r.Data)
		k := c.s.kept[id]
		if k == nil || k.n != 1 {
			continue
		}
		c.s.w.Count("handler.kept_arguments")
		if !bytes.Equal(k.data, k.saved) {
			c.s.w.Fail("srv.args-changed", "call id %d: its arguments changed before its reply was written: now %s, were %s", id, hx(k.data), hx(k.saved))
		}
		k.data, k.saved = nil, nil
	}
}

// knobs is what a property's profile sets.
type knobs struct {
	prop              string
	conns, calls      int
	items             [10]int // weights, see itKinds
	kinds             [nRk]int
	hold, pause       int // percent
	stall, cut        int
	flips             int
	many              int // percent of runs with a great many calls or connections
	wfault            int
	sizes             [4]int // weights of small, medium, large, huge payloads
	typedRes          int    // budget for typed values
	over              int    // percent of typed results over a bound
	regs              int
	link              int // percent of links with a drawn behaviour
	fin               int // percent of half-closes right after the last request
	plainOrDuplicates int
	jumbo             int // per mille of runs with messages of megabytes
}

const (
	itRaw = iota
	itTyped
	itVerdict
	itGarbage
	itTypedBad
	itHostile
	itFragment
	itEmpty
	itDup
	itLongAuth
)

var itNames = []string{"raw", "typed", "verdict", "garbage", "typed-bad", "hostile", "fragment", "empty", "dup", "long-auth"}

func srvKnobs(prop string) knobs {
	k := knobs{prop: prop, many: 1, conns: 4, calls: 8,
		items: [10]int{12, 4, 3, 2, 1, 0, 0, 1, 1, 1},
		kinds: [nRk]int{8, 4, 1, 1, 2, 1, 1, 1, 1, 1},
		hold:  10, pause: 10, stall: 10, cut: 15, wfault: 10, flips: 0, typedRes: 300, over: 3, jumbo: 5,
		sizes: [4]int{10, 4, 1, 0}, regs: 6, link: 80, fin: 30}
	switch prop {
	case "C02":
		k.many = 3
	case "C03":
		k.wfault, k.hold, k.calls = 40, 25, 10
		k.items = [10]int{14, 3, 3, 1, 1, 0, 0, 0, 1, 0}
		k.kinds[rkBig] = 3
	case "C04":
		k.calls, k.hold = 12, 15
		k.items = [10]int{20, 6, 1, 2, 2, 0, 0, 1, 0, 0}
		k.kinds = [nRk]int{5, 14, 0, 0, 1, 1, 1, 1, 1, 1}
		k.sizes = [4]int{10, 8, 2, 1}
		k.cut, k.wfault = 5, 5
		k.jumbo = 8
	case "C05":
		k.hold, k.pause, k.stall, k.many = 45, 35, 35, 4
		k.cut, k.wfault = 5, 5
		k.items = [10]int{14, 4, 2, 1, 0, 0, 0, 0, 0, 0}
		k.kinds[rkBig] = 4
	case "C06":
		k.items = [10]int{6, 3, 20, 1, 4, 0, 0, 0, 1, 2}
		k.many = 2
		k.regs = 12
		k.cut, k.wfault = 5, 3
	case "C07":
		k.items = [10]int{8, 3, 2, 10, 5, 3, 1, 3, 1, 3}
		k.flips, k.cut, k.many = 40, 40, 2
	case "C09":
		k.link, k.cut = 100, 25
		k.jumbo = 8
		k.sizes = [4]int{10, 5, 1, 0}
	case "C10":
		k.cut, k.fin, k.wfault, k.conns, k.many = 50, 60, 15, 6, 2
		k.items = [10]int{10, 3, 2, 2, 1, 1, 1, 1, 1, 1}
	case "C11":
		k.conns, k.calls = 2, 4
		k.items = [10]int{4, 1, 1, 1, 1, 14, 0, 0, 0, 0}
		k.stall, k.cut = 20, 30
		k.jumbo = 8
		k.sizes = [4]int{10, 2, 0, 0}
		k.pause, k.many = 5, 0
	case "C12":
		k.items = [10]int{2, 24, 2, 0, 1, 0, 0, 0, 0, 0}
		k.typedRes, k.cut, k.wfault, k.over = 1500, 0, 0, 0
		k.stall, k.pause = 5, 5
	case "C13":
		k.items = [10]int{2, 5, 1, 2, 24, 0, 0, 0, 0, 1}
		k.flips = 25
		k.cut, k.wfault = 15, 0
	case "C14":
		k.items = [10]int{1, 16, 2, 0, 8, 0, 0, 0, 0, 0}
		k.typedRes, k.cut, k.wfault, k.over = 1500, 0, 0, 15
		k.stall, k.pause, k.conns = 5, 5, 3
	case "C18":
		k.kinds = [nRk]int{5, 2, 1, 1, 2, 3, 8, 6, 1, 8}
		k.over = 40
		k.items = [10]int{14, 10, 1, 1, 1, 0, 0, 0, 1, 0}
		k.cut, k.wfault = 3, 3
	case "any":
		k.flips, k.many = 15, 1
		k.items = [10]int{10, 6, 4, 3, 4, 1, 1, 1, 1, 1}
	}
	return k
}

func pct(w *sim.World, st string, p int) bool { return p > 0 && w.Chance(st, p, 100) }

// --- the handlers

type rawArgs struct {
	id   uint32
	data []byte
	s    *srvRun
}

func (a *rawArgs) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, &a.id)
	sim.Yield("handler.decode")
	xdr.XdrVarArray(xs, -1, &a.data)
}

type rawRes struct {
	id    uint32
	data  []byte
	saved []byte
	kind  int
	s     *srvRun
}

func (r *rawRes) Xdr(xs *xdr.XdrState) {
	sim.Yield("result.encode")
	switch r.kind {
	case rkSetErr:
		xs.SetError("result refuses to be encoded")
		return
	}
	xdr.XdrU32(xs, &r.id)
	sim.Yield("result.encode2")
	if r.saved != nil && !bytes.Equal(r.data, r.saved) {
		r.s.w.Fail("srv.args-changed", "call id %d: the arguments its result refers to changed before the reply was built: %s, were %s", r.id, hx(r.data), hx(r.saved))
	}
	switch r.kind {
	case rkTooLong:
		xdr.XdrVarArray(xs, 4, &r.data)
	default:
		xdr.XdrVarArray(xs, -1, &r.data)
	}
	if r.kind == rkLate {
		xs.SetError("result turned out not to be encodable")
		sim.Yield("result.encode3")
		xdr.XdrU32(xs, &r.id)
	}
}

func hx(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%d bytes %x..%x", len(b), b[:24], b[len(b)-8:])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}

func fill(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 9)
	}
	return b
}

func freshData(id uint32, data []byte) []byte {
	r := make([]byte, len(data))
	for i := range data {
		r[len(data)-1-i] = data[i] ^ byte(id+uint32(i))
	}
	return r
}

func (s *srvRun) planOf(id uint32) *plan {
	if p := s.plans[id]; p != nil {
		return p
	}
	return &plan{id: id, kind: rkFresh}
}

func (s *srvRun) rawHandler(e *regEnt) func(args *xdr.XdrState) (xdr.Xdrable, error) {
	return func(args *xdr.XdrState) (xdr.Xdrable, error) {
		w := s.w
		a := rawArgs{s: s}
		a.Xdr(args)
		if err := args.Error(); err != nil {
			s.execs = append(s.execs, execRec{who: e.who(), what: "undecodable"})
			w.Logf("handler %s: undecodable arguments", e.who())
			if e.inst%2 == 1 {
				return &rawRes{id: 77, data: []byte("leftover"), s: s}, err
			}
			return nil, err
		}
		saved := append([]byte(nil), a.data...)
		s.execs = append(s.execs, execRec{who: e.who(), id: a.id, what: fmt.Sprintf("id=%d %s", a.id, sum(saved))})
		w.Logf("handler %s: id=%d %d bytes", e.who(), a.id, len(saved))
		p := s.planOf(a.id)
		if k := s.kept[a.id]; k != nil {
			k.n++
		} else {
			s.kept[a.id] = &kept{1, a.data, saved}
		}
		for i := 0; i < p.yields; i++ {
			sim.Yield("handler.work")
		}
		s.gate(p.hold)
		if !bytes.Equal(saved, a.data) {
			w.Fail("srv.args-changed", "call id %d: arguments changed while its handler ran: now %s, were %s", a.id, hx(a.data), hx(saved))
		}
		switch p.kind {
		case rkEcho:
			return &rawRes{id: a.id, data: a.data, saved: saved, s: s}, nil
		case rkVoid:
			return &xdr.Void{}, nil
		case rkNil:
			return nil, nil
		case rkErr:
			return nil, fmt.Errorf("handler error")
		case rkErrRes:
			return &rawRes{id: a.id, data: saved, s: s}, fmt.Errorf("handler error with a result")
		case rkTooLong, rkLate, rkSetErr:
			d := freshData(a.id, saved)
			for len(d) < 5 {
				d = append(d, 0xee)
			}
			return &rawRes{id: a.id, data: d, kind: p.kind, s: s}, nil
		case rkBig:
			return &rawRes{id: a.id, data: fill(p.size, a.id), s: s}, nil
		}
		return &rawRes{id: a.id, data: freshData(a.id, saved), s: s}, nil
	}
}

// rawOutcome is what rawHandler does, told from the specification's side.
func (s *srvRun) rawOutcome(e *regEnt, c ref.Call, args []byte) outcome {
	d := &ref.Decoder{B: args}
	id, err := d.U32()
	var data []byte
	if err == nil {
		data, err = d.Opaque(-1)
	}
	if err != nil {
		return outcome{exec: &execRec{who: e.who(), what: "undecodable"}, reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Stat: ref.GarbageArgs}}}
	}
	o := outcome{exec: &execRec{who: e.who(), id: id, what: fmt.Sprintf("id=%d %s", id, sum(data))}, reply: &ref.Reply{Xid: c.Xid}}
	p := s.planOf(id)
	o.held = p.hold
	res := func(b []byte) []byte { return ref.PutOpaque(ref.PutU32(nil, id), b) }
	switch p.kind {
	case rkEcho:
		o.reply.Data = res(data)
	case rkVoid, rkNil:
	case rkErr, rkErrRes, rkTooLong, rkLate, rkSetErr:
		o.anyErr = true
	case rkBig:
		o.reply.Data = res(fill(p.size, id))
	default:
		o.reply.Data = res(freshData(id, data))
	}
	return o
}

func sum(b []byte) string {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return fmt.Sprintf("%d:%016x", len(b), h)
}

// releaseGroup is how many blocked handlers go on at once: thousands of them
// waiting to write are woken millions of times by a condition variable.
const releaseGroup = 400

func (s *srvRun) gate(hold bool) {
	if hold && !s.released {
		s.nheld++
		s.w.Count("handler.held")
		group := (s.nheld - 1) / releaseGroup
		sim.Block("handler.gate", func() bool { return s.released && group <= s.freed })
	}
}

func (s *srvRun) typedPlanOf(p *Proc, args []byte) *typedPlan {
	if t := s.tplans[tkey(p, args)]; t != nil {
		return t
	}
	return &typedPlan{res: p.V.G.Spec.Zero(p.P.Res)}
}

func tkey(p *Proc, args []byte) string {
	return fmt.Sprintf("%s/%d/%d/%d/%x", p.V.G.Name, p.V.Prog.Num, p.V.V.Num, p.I, args)
}

func (s *srvRun) typedHook(v *Vers) Hook {
	return func(pi int, arg, res reflect.Value) {
		p := v.Procs[pi]
		sp := v.G.Spec
		e := regEnt{typed: p}
		enc := func() []byte {
			if !arg.IsValid() {
				return nil
			}
			return sp.Encode(nil, p.P.Arg, sp.FromGo(p.P.Arg, arg))
		}
		args := enc()
		s.execs = append(s.execs, execRec{who: e.who(), what: sum(args)})
		s.w.Logf("handler %s: %s", e.who(), hx(args))
		t := s.typedPlanOf(p, args)
		for i := 0; i < t.yields; i++ {
			sim.Yield("handler.work")
		}
		s.gate(t.hold)
		if now := enc(); !bytes.Equal(now, args) {
			s.w.Fail("srv.args-changed", "%s: arguments changed while the handler ran: now %s, were %s", e.who(), hx(now), hx(args))
		}
		if arg.IsValid() && len(args) > 0 && t.appends {
			// A handler may append to its arguments.
			s.w.Count("handler.appends_to_arguments")
			growBytes(arg)
			if now := enc(); !bytes.Equal(now, args) {
				s.w.Fail("srv.args-changed", "%s: appending to one argument changed another: now %s, were %s", e.who(), hx(now), hx(args))
			}
		}
		if res.IsValid() {
			sp.ToGo(p.P.Res, t.res, res)
		}
	}
}

// growBytes appends to a copy of every byte slice in v.
func growBytes(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			growBytes(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			growBytes(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			growBytes(v.Index(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			_ = append(b, 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a, 0xa5, 0x5a)
			return
		}
		for i := 0; i < v.Len(); i++ {
			growBytes(v.Index(i))
		}
	}
}

func (s *srvRun) typedOutcomes(p *Proc, c ref.Call, args []byte) []outcome {
	sp := p.V.G.Spec
	garbage := outcome{reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Stat: ref.GarbageArgs}}}
	acc, v := sp.Classify(p.P.Arg, args)
	if acc == ref.MustNot {
		return []outcome{garbage}
	}
	canon := sp.Encode(nil, p.P.Arg, v)
	t := s.typedPlanOf(p, canon)
	e := regEnt{typed: p}
	o := outcome{exec: &execRec{who: e.who(), what: sum(canon)}, held: t.hold, anyErr: t.over,
		reply: &ref.Reply{Xid: c.Xid, Data: sp.Encode(nil, p.P.Res, t.res)}}
	if acc == ref.Must {
		return []outcome{o}
	}
	return []outcome{o, garbage}
}

// --- the specification of a server, as a function of one record

func (s *srvRun) expect(rec []byte) (xid uint32, outs []outcome) {
	c, args, err := ref.DecodeCall(rec)
	if err != nil {
		return 0, []outcome{{}}
	}
	if c.Rpcvers != 2 {
		outs = []outcome{{reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Denied: true, Low: 2, High: 2}}}}
	} else if vs := s.vers[c.Prog]; vs == nil {
		outs = []outcome{{reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Stat: ref.ProgUnavail}}}}
	} else {
		lo, hi, ok := vs[0], vs[0], false
		for _, v := range vs {
			lo, hi = min(lo, v), max(hi, v)
			ok = ok || v == c.Vers
		}
		e := s.regs[regKey{c.Prog, c.Vers, c.Proc}]
		switch {
		case !ok:
			outs = []outcome{{reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Stat: ref.ProgMismatch, Low: lo, High: hi}}}}
		case e == nil:
			outs = []outcome{{reply: &ref.Reply{Xid: c.Xid, V: ref.Verdict{Stat: ref.ProcUnavail}}}}
		case e.typed != nil:
			outs = s.typedOutcomes(e.typed, c, args)
		default:
			outs = []outcome{s.rawOutcome(e, c, args)}
		}
	}
	if !bytes.Equal(append(c.Encode(), args...), rec) {
		outs = append(outs, outcome{}) // e.g. padding that is not zero: may be refused
	}
	return c.Xid, outs
}

// frame splits a stream into its whole records.
func frame(b []byte) (recs [][]byte, rest []byte, frag bool) {
	for len(b) >= 4 {
		n := binary.BigEndian.Uint32(b)
		if n&(1<<31) == 0 {
			return recs, b, true
		}
		n &= 0x7fffffff
		if uint64(len(b)-4) < uint64(n) {
			break
		}
		recs = append(recs, b[4:4+n])
		b = b[4+n:]
	}
	return recs, b, false
}

// --- building a run

func drawU32(w *sim.World, st string) uint32 { return uint32(w.U64(st)) }

func (s *srvRun) drawRegs() {
	w := s.w
	pool := []uint32{1, 7, 300000, 0, 0xffffffff}
	av := allVers()
	if s.k.prop == "C14" {
		av = dynVers()
	}
	for i, v := range av {
		st := "reg-typed"
		if s.k.items[itTyped]+s.k.items[itTypedBad] == 0 {
			break
		}
		if w.Draw(st, 3) == 2 && len(av) > 1 && i > 0 {
			continue
		}
		pool = append(pool, v.Prog.Num)
		// What the generated table says is the generator's business; the
		// specification says what it should be.
		decoy := w.Draw(st, 6)
		if decoy == 4 {
			s.other().RegisterMany(v.Regs(s.decoy))
		}
		s.srv.RegisterMany(v.Regs(s.typedHook(v)))
		if decoy == 5 {
			s.other().RegisterMany(v.Regs(s.decoy))
		}
		for _, p := range v.Procs {
			e := &regEnt{key: regKey{v.Prog.Num, v.V.Num, p.P.Num}, typed: p}
			s.order = append(s.order, e)
			s.model(e)
		}
	}
	n := w.Draw("reg", s.k.regs) + 1
	var batch []xdr.ProcRegistration
	flush := func() {
		if len(batch) > 0 {
			s.srv.RegisterMany(batch)
			batch = nil
		}
	}
	for i := 0; i < n; i++ {
		e := &regEnt{inst: i + 1}
		if i > 0 && w.Chance("reg", 1, 5) {
			e.key = s.order[w.Draw("reg", len(s.order))].key // override
			w.Count("reg.override")
		} else {
			e.key.prog = pool[w.Draw("reg", len(pool))]
			e.key.vers = []uint32{1, 2, 3, 0, 4, 9, 0xffffffff, 0x80000000}[w.Draw("reg", 8)]
			e.key.proc = []uint32{0, 1, 2, 5, 40, 0xffffffff}[w.Draw("reg", 6)]
		}
		h := s.rawHandler(e)
		if w.Draw("reg", 2) == 0 {
			flush()
			s.srv.Register(e.key.prog, e.key.vers, e.key.proc, h)
		} else {
			batch = append(batch, xdr.ProcRegistration{Prog: e.key.prog, Vers: e.key.vers, Proc: e.key.proc, Handler: h})
		}
		s.order = append(s.order, e)
		s.model(e)
		if w.Draw("reg", 6) == 5 {
			s.other().Register(e.key.prog, e.key.vers+uint32(w.Draw("reg", 3)), e.key.proc, func(*xdr.XdrState) (xdr.Xdrable, error) {
				s.decoy(0, reflect.Value{}, reflect.Value{})
				return nil, fmt.Errorf("not here")
			})
		}
	}
	flush()
}

// other is another server of the same process, which no connection leads to.
func (s *srvRun) other() *rfc1057.Server {
	if s.idle == nil {
		s.w.Count("second_server")
		s.idle = rfc1057.MakeServer()
	}
	return s.idle
}

func (s *srvRun) decoy(int, reflect.Value, reflect.Value) {
	s.w.Fail("srv.wrong-handler", "a handler registered with another server runs")
}

func (s *srvRun) model(e *regEnt) {
	s.regs[e.key] = e
	for _, v := range s.vers[e.key.prog] {
		if v == e.key.vers {
			return
		}
	}
	s.vers[e.key.prog] = append(s.vers[e.key.prog], e.key.vers)
}

func (s *srvRun) entries(typed bool) []*regEnt {
	var r []*regEnt
	for _, e := range s.regs {
		if (e.typed != nil) == typed {
			r = append(r, e)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i].key, r[j].key
		if a.prog != b.prog {
			return a.prog < b.prog
		}
		if a.vers != b.vers {
			return a.vers < b.vers
		}
		return a.proc < b.proc
	})
	return r
}

func (s *srvRun) drawAuth(st string) ref.Auth {
	if s.w.Draw(st, 4) < 3 {
		return ref.Auth{}
	}
	n := []int{0, 1, 3, 8, 60, 399, 400}[s.w.Draw(st, 7)]
	return ref.Auth{Flavor: drawU32(s.w, st), Body: fill(n, uint32(n))}
}

func (s *srvRun) drawXid(st string) uint32 {
	switch s.w.Draw(st, 3) {
	case 0:
		return uint32(s.w.Draw(st, 6))
	case 1:
		return []uint32{0, 1, 0xffffffff, 0x80000000, 0x01000000, 256}[s.w.Draw(st, 6)]
	}
	return drawU32(s.w, st)
}

func (s *srvRun) call(st string, k regKey) ref.Call {
	return ref.Call{Xid: s.drawXid(st), Rpcvers: 2, Prog: k.prog, Vers: k.vers, Proc: k.proc, Cred: s.drawAuth(st), Verf: s.drawAuth(st)}
}

func weighted(w *sim.World, st string, ws []int) int {
	// Weighted needs at least one positive weight.
	return w.Weighted(st, ws...)
}

func (s *srvRun) payload(st string) []byte {
	w := s.w
	var n int
	switch weighted(w, st, s.k.sizes[:]) {
	case 0:
		n = w.Draw(st, 40)
	case 1:
		n = w.Draw(st, 1500)
	case 2:
		n = w.Draw(st, 9000)
	default:
		n = 20000 + w.Draw(st, 60000)
	}
	return fill(n, uint32(w.Draw(st, 1<<20))+1)
}

func (s *srvRun) rawPlan(st string) *plan {
	w := s.w
	s.nextID++
	p := &plan{id: s.nextID}
	p.kind = weighted(w, st, s.k.kinds[:])
	p.hold = pct(w, st, s.k.hold)
	p.yields = w.Draw(st, 4)
	if p.kind == rkBig {
		p.size = 1000 + w.Draw(st, 70000)
	}
	s.plans[p.id] = p
	return p
}

// jumboSize draws the size of a message of megabytes.
func jumboSize(w *sim.World, st string) int {
	w.Count("message.megabytes")
	switch w.Weighted(st, 20, 20, 6) {
	case 1:
		return 1<<20 + w.Draw(st, 5<<20)
	case 2:
		return []int{17 << 20, 20 << 20, 1 << 24, 1 << 24, 17 << 20, 34 << 20}[w.Draw(st, 6)] + 4*w.Draw(st, 1000)
	}
	return []int{1 << 20, 1 << 20, 2 << 20, 4 << 20, 1000000, 1 << 21}[w.Draw(st, 6)] + []int{0, 4, -4, 8, 1000, -1000}[w.Draw(st, 6)]
}

// jumboItem is a call whose record, or whose result, takes megabytes.
func (s *srvRun) jumboItem(c *srvConn) item {
	w, st := s.w, c.st
	raws := s.entries(false)
	if len(raws) == 0 {
		return s.drawItem(c)
	}
	e := raws[w.Draw(st, len(raws))]
	s.nextID++
	p := &plan{id: s.nextID, kind: []int{rkEcho, rkFresh, rkVoid, rkBig}[w.Draw(st, 4)], yields: w.Draw(st, 3)}
	s.plans[p.id] = p
	n := jumboSize(w, st)
	hdr := s.call(st, e.key).Encode()
	var data []byte
	if p.kind == rkBig {
		p.size = n - 40
	} else {
		data = fill(n-len(hdr)-8-w.Draw(st, 2)*w.Draw(st, 4), uint32(w.Draw(st, 1<<20))+1)
	}
	if p.kind != rkVoid {
		c.big += n
	}
	return item{kind: "jumbo", resp: true, b: ref.Record(append(hdr, ref.PutOpaque(ref.PutU32(nil, p.id), data)...))}
}

func (s *srvRun) drawItem(c *srvConn) item {
	w, st := s.w, c.st
	raws := s.entries(false)
	typed := s.entries(true)
	kind := weighted(w, st, s.k.items[:])
	if (kind == itTyped || kind == itTypedBad) && len(typed) == 0 || kind == itDup && len(c.items) == 0 {
		kind = itRaw
	}
	if (kind == itRaw || kind == itHostile) && len(raws) == 0 {
		kind = itVerdict
	}
	it := item{kind: itNames[kind]}
	w.Count("item." + it.kind)
	switch kind {
	case itRaw:
		e := raws[w.Draw(st, len(raws))]
		p := s.rawPlan(st)
		c.big += p.size
		args := ref.PutOpaque(ref.PutU32(nil, p.id), s.payload(st))
		it.b = ref.Record(append(s.call(st, e.key).Encode(), args...))
		it.resp = !p.hold
	case itTyped, itTypedBad:
		e := typed[w.Draw(st, len(typed))]
		p := e.typed
		sp := p.V.G.Spec
		bud := 60
		if w.Draw(st, 3) == 2 {
			bud = s.k.typedRes
		}
		g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: bud, Max: 5000}
		arg := g.Val(p.P.Arg)
		args := sp.Encode(nil, p.P.Arg, arg)
		key := tkey(p, args)
		if s.tplans[key] == nil {
			g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: bud, Max: 5000}
			t := &typedPlan{res: g.Val(p.P.Res), hold: pct(w, st, s.k.hold), yields: w.Draw(st, 3), appends: w.Draw(st, 4) == 3}
			if pct(w, st, s.k.over) && overflow(w, st, sp, p.P.Res, t.res) {
				t.over = true
			}
			s.tplans[key] = t
		}
		w.Count(fmt.Sprintf("proc.%s.%s", p.V.V.Name, p.P.Name))
		if kind == itTypedBad {
			args = s.damage(st, sp, p, arg, args)
		}
		it.b = ref.Record(append(s.call(st, e.key).Encode(), args...))
		it.resp = !s.tplans[key].hold
	case itVerdict:
		// Something close to what is registered.
		k := s.order[w.Draw(st, len(s.order))].key
		cl := s.call(st, k)
		wrong := 1 << w.Draw(st, 5) // nothing: arguments that do not decode
		if w.Draw(st, 3) == 2 {
			// More than one thing, of which the first counts.
			wrong |= w.Draw(st, 16)
		}
		if wrong&1 != 0 {
			cl.Rpcvers = []uint32{0, 1, 3, 0xffffffff, 0x02000000, 0x10002}[w.Draw(st, 6)]
		}
		if wrong&2 != 0 {
			cl.Prog = []uint32{2, k.prog + 1, k.prog - 1, k.prog ^ 0x80000000, k.vers}[w.Draw(st, 5)]
		}
		if wrong&4 != 0 {
			cl.Vers = []uint32{5, k.vers + 1, k.vers - 1, k.vers ^ 0x100, k.vers ^ 0x10000, k.proc}[w.Draw(st, 6)]
		}
		if wrong&8 != 0 {
			cl.Proc = []uint32{3, k.proc + 1, k.proc - 1, 22, k.proc ^ 0x100, k.proc ^ 0x10000}[w.Draw(st, 6)]
		}
		args := fill(w.Draw(st, 4)*w.Draw(st, 4), 9)
		it.b = ref.Record(append(cl.Encode(), args...))
		it.resp = true
	case itGarbage:
		k := s.order[w.Draw(st, len(s.order))].key
		b := s.call(st, k).Encode()
		switch w.Draw(st, 5) {
		case 0: // cut header
			b = b[:w.Draw(st, len(b))]
		case 1: // noise
			b = fill(1+w.Draw(st, 80), uint32(w.Draw(st, 1<<16)))
		case 2: // a reply
			b = ref.Reply{Xid: s.drawXid(st), Data: fill(8, 3)}.Encode()
		case 3: // neither call nor reply
			binary.BigEndian.PutUint32(b[4:], []uint32{2, 0xffffffff, 0x01000000, 256}[w.Draw(st, 4)])
		case 4: // noise with a plausible start
			b = append(b[:4*w.Draw(st, 7)], fill(w.Draw(st, 60), 5)...)
		}
		it.b = ref.Record(b)
	case itLongAuth:
		k := s.order[w.Draw(st, len(s.order))].key
		cl := s.call(st, k)
		a := ref.Auth{Flavor: 1, Body: fill([]int{401, 402, 404, 1000, 5000}[w.Draw(st, 5)], 8)}
		if w.Draw(st, 2) == 0 {
			cl.Cred = a
		} else {
			cl.Verf = a
		}
		it.b = ref.Record(cl.Encode())
	case itHostile:
		s.hostile = true
		it.b = s.drawHostile(st, c)
	case itFragment:
		b := append(s.call(st, raws0(raws)).Encode(), fill(8, 1)...)
		r := ref.Record(b)
		r[0] &= 0x7f
		it.b = r
	case itEmpty:
		it.b = ref.Record(nil)
	case itDup:
		it = c.items[w.Draw(st, len(c.items))]
	}
	return it
}

func raws0(r []*regEnt) regKey {
	if len(r) == 0 {
		return regKey{1, 1, 1}
	}
	return r[0].key
}

// overflow pushes one bounded item of v past its bound.
func overflow(w *sim.World, st string, sp *ref.Spec, t *ref.Type, v *ref.Val) bool {
	type site struct {
		t *ref.Type
		v *ref.Val
	}
	var sites []site
	sp.Bounded(t, v, func(t *ref.Type, v *ref.Val) {
		if t.N < 20000 {
			sites = append(sites, site{t, v})
		}
	})
	if len(sites) == 0 {
		return false
	}
	x := sites[w.Draw(st, len(sites))]
	n := int(x.t.N) + []int{1, 2, 4, 100}[w.Draw(st, 4)]
	w.Count("fault.over_bound_value")
	if x.t.Kind == ref.ArrayVar {
		for len(x.v.E) < n {
			x.v.E = append(x.v.E, sp.Zero(x.t.Elem))
		}
		return true
	}
	x.v.B = fill(n, 11)
	return true
}

// damage cuts, overstates or corrupts encoded arguments.
func (s *srvRun) damage(st string, sp *ref.Spec, p *Proc, v *ref.Val, args []byte) []byte {
	return damage(s.w, st, sp, p.P.Arg, v, args)
}

func damage(w *sim.World, st string, sp *ref.Spec, t *ref.Type, v *ref.Val, args []byte) []byte {
	args = append([]byte(nil), args...)
	var sites []ref.Site
	sp.Sites(0, t, v, &sites)
	switch w.Draw(st, 5) {
	case 1:
		if len(sites) > 0 {
			x := sites[w.Draw(st, len(sites))]
			n := binary.BigEndian.Uint32(args[x.Off:])
			vals := []uint32{n + 1, n + 4, n - 1, 0xffffffff, 0x80000000, 0x7fffffff, n + 0x10000, 1 << 24}
			if x.Bound >= 0 {
				vals = append(vals, uint32(x.Bound)+1, uint32(x.Bound)+4, uint32(x.Bound), uint32(x.Bound)+1)
			}
			binary.BigEndian.PutUint32(args[x.Off:], vals[w.Draw(st, len(vals))])
			w.Count("fault.length_corrupted")
			return args
		}
	case 2:
		// The declared maximum exceeded, with all the data there.
		if overflow(w, st, sp, t, v) {
			return sp.Encode(nil, t, v)
		}
	case 3:
		if len(args) > 0 {
			args[w.Draw(st, len(args))] ^= byte(1 << w.Draw(st, 8))
			w.Count("fault.byte_corrupted")
			return args
		}
	case 4:
		w.Count("fault.trailing_bytes")
		return append(args, fill(1+w.Draw(st, 9), 3)...)
	}
	if len(args) > 0 {
		w.Count("fault.message_cut")
		return args[:w.Draw(st, len(args))]
	}
	return args
}

var hugeLens = []uint32{0x7fffffff, 0x40000000, 0x20000000, 0x10000000, 0x7ffffff0, 0x60000001}

// drawHostile makes a message that declares far more than it carries.
func (s *srvRun) drawHostile(st string, c *srvConn) []byte {
	w := s.w
	huge := hugeLens[w.Draw(st, len(hugeLens))]
	w.Count("fault.hostile_length")
	raws, typed := s.entries(false), s.entries(true)
	k := raws[w.Draw(st, len(raws))].key
	switch w.Draw(st, 4) {
	case 0: // the record itself; only a little of it follows
		b := append(ref.PutU32(nil, 1<<31|huge), s.call(st, k).Encode()...)
		n := w.Draw(st, 200)
		if w.Draw(st, 12) == 11 {
			n += 1<<20 + w.Draw(st, 1<<20)
		}
		return append(b, fill(n, 2)...)
	case 1: // opaque
		args := ref.PutU32(ref.PutU32(nil, 999999), huge<<uint(w.Draw(st, 2)))
		return ref.Record(append(append(s.call(st, k).Encode(), args...), fill(w.Draw(st, 60), 2)...))
	case 2: // credential
		b := s.call(st, k).Encode()[:24]
		b = ref.PutU32(ref.PutU32(b, 1), huge)
		return ref.Record(append(b, fill(w.Draw(st, 60), 2)...))
	}
	// A count or length inside typed arguments.
	for try := 0; try < 20 && len(typed) > 0; try++ {
		e := typed[w.Draw(st, len(typed))]
		sp := e.typed.V.G.Spec
		g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: 200, Max: 100}
		v := g.Val(e.typed.P.Arg)
		var sites []ref.Site
		sp.Sites(0, e.typed.P.Arg, v, &sites)
		if len(sites) == 0 {
			continue
		}
		args := sp.Encode(nil, e.typed.P.Arg, v)
		x := sites[w.Draw(st, len(sites))]
		n := huge
		if w.Draw(st, 3) == 0 {
			n = 0xffffffff - uint32(w.Draw(st, 8))
		}
		binary.BigEndian.PutUint32(args[x.Off:], n)
		return ref.Record(append(s.call(st, e.key).Encode(), args...))
	}
	return ref.PutU32(nil, 1<<31|huge)
}

func (s *srvRun) drawConn(i int) *srvConn {
	w := s.w
	c := &srvConn{s: s, name: fmt.Sprintf("c%d", i), st: fmt.Sprintf("c%d", i), stallAt: -1, cutAt: -1, torn: -1}
	st := c.st
	cfg := LinkCfg{Atomic: true, Window: 1 << 30}
	if pct(w, "link", s.k.link) {
		cfg = drawLink(w, "link")
	}
	n := w.Draw1(st, s.k.calls)
	jumbo := s.jumbo && i == 0
	if jumbo {
		n = min(n, 3)
	}
	for j := 0; j < n; j++ {
		var it item
		if jumbo && (j == 0 || w.Draw(st, 3) == 0) {
			it = s.jumboItem(c)
		} else {
			it = s.drawItem(c)
		}
		c.items = append(c.items, it)
		c.total += len(it.b)
	}
	if c.total+c.big > 20000 {
		// Large transfers one byte at a time would take all the steps.
		cfg.Window = max(cfg.Window, 4096)
		if jumbo {
			cfg.Window = max(cfg.Window, 1<<18)
		}
		cfg.coarse()
	}
	c.window = w.Draw(st, 5)
	c.gap = []int{0, 1000, 50000, 3000000}[w.Draw(st, 4)]
	if w.Draw(st, 3) == 2 {
		c.start = int64(w.Draw(st, 200)) * 100000
	}
	f := "fault-" + c.st
	off := func() int {
		if c.total == 0 {
			return 0
		}
		switch w.Draw(f, 3) {
		case 0: // at a record boundary
			o := 0
			for _, it := range c.items[:w.Draw(f, len(c.items)+1)] {
				o += len(it.b)
			}
			return o
		case 1: // in or right after a record mark
			o := 0
			for _, it := range c.items[:w.Draw(f, len(c.items))] {
				o += len(it.b)
			}
			return o + 1 + w.Draw(f, 5)
		}
		return w.Draw(f, c.total+1)
	}
	if pct(w, f, s.k.stall) {
		c.stallAt = off()
	}
	var rf *fault
	if pct(w, f, s.k.cut) {
		switch w.Draw(f, 3) {
		case 0:
			c.cutAt = off()
		case 1:
			c.cutAt, c.cutRst = off(), true
		case 2:
			rf = &fault{at: off(), err: drawErr(w, f, false), sticky: w.Draw(f, 2) == 0}
		}
	} else if pct(w, f, s.k.fin) {
		c.cutAt = c.total
	}
	if pct(w, f, s.k.pause) {
		c.pause = true
		if w.Draw(f, 2) == 0 && !jumbo {
			cfg.Window = 1 + w.Draw(f, 80)
		}
		c.noRead = w.Draw(f, 3) == 2
	}
	var wf *fault
	if pct(w, f, s.k.wfault) {
		wf = &fault{at: w.Draw(f, 60+40*len(c.items)), err: drawErr(w, f, true), sticky: w.Draw(f, 3) == 2, under: w.Draw(f, 4) == 3}
	}
	c.l = newLink(w, c.name, cfg)
	if pct(w, f, s.k.flips) {
		c.l.ab.flips = map[int]byte{}
		for j := w.Draw1(f, 4); j > 0; j-- {
			c.l.ab.flips[off()] = byte(1 << w.Draw(f, 8))
		}
	}
	c.l.ab.rfault = rf
	c.l.ba.wfault = wf
	if wf != nil {
		wf.hook = func() {
			c.wbroken = true
			if _, rest, _ := frame(c.l.ba.all); len(rest) > 0 && c.torn < 0 {
				c.torn = len(c.l.ba.all)
				w.Count("fault.torn_reply")
			}
		}
	}
	c.l.ba.sink = c.recv
	c.l.ba.onSend = c.wrote
	c.l.ba.paused = c.pause
	return c
}

// --- running

func (c *srvConn) open() {
	c.started = true
	c.s.w.Go("run "+c.name, func() {
		err := c.s.srv.Run(c.l.b)
		c.ret, c.retErr, c.retRead = true, err, c.l.ab.read
		c.s.w.Logf("Run on %s returned %v", c.name, err)
	})
	if c.window > 0 {
		for i := 0; i < c.window; i++ {
			c.pump()
		}
	} else {
		c.timed()
	}
}

func (c *srvConn) timed() {
	if c.next >= len(c.items) {
		c.pump()
		return
	}
	c.pump()
	g := int64(0)
	if c.gap > 0 {
		g = int64(c.s.w.Draw("net/"+c.name+">", 100)) * int64(c.gap) / 100
	}
	if c.next < len(c.items) {
		c.s.w.After(g, c.timed)
	} else {
		c.pump()
	}
}

// pump sends the next request, and the following ones if it gets no reply.
func (c *srvConn) pump() {
	for c.next < len(c.items) {
		it := c.items[c.next]
		c.next++
		c.s.w.Logf("peer %s sends %s record of %d bytes", c.name, it.kind, len(it.b))
		c.tx(it.b)
		if it.resp {
			break
		}
	}
	if c.next >= len(c.items) && c.cutAt >= c.total {
		c.cut()
	}
}

func (c *srvConn) cut() {
	if c.cutDone || len(c.held) > 0 {
		return
	}
	c.cutDone = true
	if c.cutRst {
		c.s.w.After(int64(c.s.w.Draw("net/"+c.name+">", 50))*20000, c.l.Reset)
	} else {
		c.s.w.Count("fault.peer_closes")
		c.l.ab.sendFin()
	}
}

func (c *srvConn) tx(b []byte) {
	if c.cutDone {
		return
	}
	if len(c.held) > 0 {
		c.held = append(c.held, b...)
		return
	}
	if c.stallAt >= 0 && !c.flush && c.sent+len(b) > c.stallAt {
		k := c.stallAt - c.sent
		c.held = append(c.held, b[k:]...)
		b = b[:k]
		c.s.w.Count("fault.peer_stalls_sending")
	}
	if c.cutAt >= 0 && c.sent+len(b) >= c.cutAt {
		b = b[:c.cutAt-c.sent]
	}
	c.sent += len(b)
	c.l.ab.peerSend(b)
	if c.cutAt >= 0 && c.sent >= c.cutAt {
		c.cut()
	}
}

func (c *srvConn) recv(b []byte) {
	c.got = append(c.got, b...)
	n := c.parse()
	for i := 0; i < n && c.window > 0; i++ {
		c.pump()
	}
}

// parse reads new whole records off the stream the peer has received.
func (c *srvConn) parse() int {
	recs, rest, frag := frame(c.got[c.rp:])
	if frag && !c.badTail {
		c.badTail = true
		c.s.w.Fail("srv.torn-stream", "connection %s: reply stream has %x where a record should start, at byte %d", c.name, rest[:min(len(rest), 16)], len(c.got)-len(rest))
	}
	for _, r := range recs {
		g := gotReply{raw: r, at: c.s.w.Now()}
		g.r, g.err = ref.DecodeReply(r)
		if g.err != nil {
			c.s.w.Fail("srv.malformed-reply", "connection %s: record in the reply stream is not a reply: %s", c.name, hx(r))
		}
		c.s.w.Logf("peer %s receives reply xid=%d %+v %d bytes of results", c.name, g.r.Xid, g.r.V, len(g.r.Data))
		c.replies = append(c.replies, g)
	}
	c.rp = len(c.got) - len(rest)
	return len(recs)
}

func (c *srvConn) release() {
	c.flush = true
	if c.pause && !c.noRead {
		c.pause = false
		c.l.ba.resume()
	}
	h := c.held
	c.held = nil
	if len(h) > 0 {
		c.tx(h)
	}
	c.window = 0
	if c.started {
		c.timed()
	}
}

func srvScenario(w *sim.World, prop string) {
	s := &srvRun{w: w, k: srvKnobs(prop), regs: map[regKey]*regEnt{}, vers: map[uint32][]uint32{}, plans: map[uint32]*plan{}, tplans: map[string]*typedPlan{}, kept: map[uint32]*kept{}, nextID: 0x4b7f0000}
	if w.Draw("reg", 4) == 3 {
		s.other()
	}
	s.srv = rfc1057.MakeServer()
	s.drawRegs()
	many := pct(w, "shape", s.k.many) || w.Has("life")
	s.jumbo = w.Chance("shape", s.k.jumbo, 1000)
	n := 1 + w.Draw("shape", s.k.conns)
	if many {
		s.crowd()
	}
	for i := 0; i < n; i++ {
		s.conns = append(s.conns, s.drawConn(len(s.conns)))
	}
	for _, c := range s.conns {
		if c.start == 0 {
			c.open()
		} else {
			w.After(c.start, c.open)
		}
	}
	a0 := allocated()
	if !w.Run(nil) {
		return
	}
	w.Logf("--- quiescent; blocked handlers: %d", s.nheld)
	s.checkBlocked()
	s.checkReturned()
	s.released = true
	for _, c := range s.conns {
		c.release()
	}
	for ; ; s.freed++ {
		if !w.Run(nil) {
			return
		}
		if (s.freed+1)*releaseGroup >= s.nheld {
			break
		}
	}
	w.Logf("--- quiescent after release")
	for _, c := range s.conns {
		if c.noRead {
			c.l.Reset()
			c.wbroken = true
		}
	}
	if !w.Run(nil) {
		return
	}
	s.checkAll()
	s.checkReturned()
	w.Logf("--- closing connections")
	for _, c := range s.conns {
		c.l.ab.sendFin()
	}
	if !w.Run(nil) {
		return
	}
	s.checkEnd()
	sent, big := 0, 0
	for _, c := range s.conns {
		sent += c.sent
		big += c.big
	}
	// A large result takes its memory whether it can be written or not.
	checkMem(w, a0, sent, s.replyBytes()+big)
	w.CountN("calls.sent", s.sent)
	w.CountN("handlers.run", len(s.execs))
	w.CountN("conns", len(s.conns))
}

func (s *srvRun) replyBytes() int {
	n := 0
	for _, c := range s.conns {
		n += len(c.l.ba.all)
	}
	return n
}

// crowd adds a great many tiny calls, or connections, of one kind: what an
// implementation counts, keeps or hands back is then used up if it is not
// given back.
func (s *srvRun) crowd() {
	w := s.w
	raws := s.entries(false)
	if len(raws) == 0 {
		return
	}
	st := "shape"
	kind := []string{"held", "plain", "bad", "mixed", "conns"}[w.Weighted(st, 3, 2, 3, 2, 2)]
	n := []int{40, 150, 300, 1100, 4200}[w.Weighted(st, 8, 8, 8, 4, 1)]
	window := 0 // all at once
	if kind != "held" {
		window = []int{0, 1, 3, 20}[w.Draw(st, 4)]
	}
	if w.Has("life") { // by the driver's order
		f := w.Draw("life", 3)
		kind, n = []string{"plain", "mixed", "conns"}[f], []int{66000, 66000, 3000}[f]
		window = []int{1, 4, 100}[w.Draw("life", 3)]
		w.MaxSteps *= 20
		w.MaxY *= 20
	}
	if kind != "conns" && window == 0 {
		if kind != "held" && n > 1100 {
			window = 1000
		}
		// Whoever is waiting may be woken each time somebody is done.
		w.MaxSteps += 3000000
		w.MaxY += 50000000
	}
	w.Count("crowd." + kind)
	w.CountN("crowd.calls", n)
	bad := w.Draw(st, len(crowdBad))
	e := raws[0]
	conn := func(name string) *srvConn {
		c := &srvConn{s: s, name: name, st: "many", stallAt: -1, cutAt: -1, torn: -1, window: window}
		c.l = newLink(w, name, LinkCfg{Atomic: true, Window: 1 << 30})
		c.l.ba.sink = c.recv
		c.l.ba.onSend = c.wrote
		s.conns = append(s.conns, c)
		return c
	}
	add := func(c *srvConn, it item) {
		c.items = append(c.items, it)
		c.total += len(it.b)
	}
	one := func(i int, kind string) item {
		s.nextID++
		cl := ref.Call{Xid: uint32(i), Rpcvers: 2, Prog: e.key.prog, Vers: e.key.vers, Proc: e.key.proc}
		args := ref.PutOpaque(ref.PutU32(nil, s.nextID), nil)
		it := item{kind: kind, resp: true}
		switch kind {
		case "held":
			s.plans[s.nextID] = &plan{id: s.nextID, kind: rkFresh, hold: true}
			it.resp = false
		case "bad":
			return crowdBad[bad](s, cl, args)
		}
		it.b = ref.Record(append(cl.Encode(), args...))
		return it
	}
	if kind == "conns" {
		// One after another, or at once, and all there to the end or not.
		at := int64(w.Draw(st, 2)) * 1000000
		end := w.Draw(st, 5)
		what := []string{"plain", "bad", "none"}[w.Draw(st, 3)]
		for i := 0; i < n; i++ {
			c := conn(fmt.Sprintf("many%d", i))
			if what != "none" {
				add(c, one(i, what))
			}
			c.start = int64(i) * at
			k := end
			if w.Has("life") {
				k = i % 5
			}
			switch k {
			case 1:
				c.cutAt = c.total
			case 2: // in the middle of a record
				add(c, item{kind: "torn", b: []byte{0x80, 0, 0, 9, 1}})
				c.cutAt = c.total
			case 3:
				c.cutAt, c.cutRst = c.total, true
			case 4: // not a record to be served
				add(c, item{kind: "fragment", b: make([]byte, 8)})
				c.cutAt = c.total
			}
		}
		c := conn("late")
		add(c, one(n, "plain"))
		c.start = int64(n)*at + 1
		return
	}
	c := conn("many")
	for i := 0; i < n; i++ {
		k := kind
		if kind == "mixed" {
			if k = "plain"; w.Has("life") {
				if i%4 > 0 {
					k, bad = "bad", i/7%len(crowdBad)
				}
			} else if w.Chance("many", 3, 4) {
				k, bad = "bad", w.Draw("many", len(crowdBad))
			}
		}
		add(c, one(i, k))
	}
	it := one(0xabcdef, "plain")
	it.kind = "probe"
	add(c, it)
}

// crowdBad are the ways of a call not to go well.
var crowdBad = []func(s *srvRun, cl ref.Call, args []byte) item{
	func(s *srvRun, cl ref.Call, args []byte) item { // arguments cut short
		return item{kind: "bad-args", b: ref.Record(append(cl.Encode(), args[:6]...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item { // a header cut short
		return item{kind: "bad-record", b: ref.Record(cl.Encode()[:10])}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		cl.Rpcvers = 3
		return item{kind: "bad-rpcvers", b: ref.Record(append(cl.Encode(), args...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		cl.Prog ^= 0x20000000
		return item{kind: "bad-prog", b: ref.Record(append(cl.Encode(), args...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		cl.Proc ^= 0x20000000
		return item{kind: "bad-proc", b: ref.Record(append(cl.Encode(), args...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item { // the handler fails
		s.plans[s.nextID] = &plan{id: s.nextID, kind: rkErr}
		return item{kind: "bad-handler", b: ref.Record(append(cl.Encode(), args...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item { // the result does not encode
		s.plans[s.nextID] = &plan{id: s.nextID, kind: rkLate}
		return item{kind: "bad-result", b: ref.Record(append(cl.Encode(), args...)), resp: true}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		cl.Cred = ref.Auth{Flavor: 1, Body: fill(404, 8)}
		return item{kind: "bad-auth", b: ref.Record(append(cl.Encode(), args...))}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		return item{kind: "bad-empty", b: ref.Record(nil)}
	},
	func(s *srvRun, cl ref.Call, args []byte) item {
		return item{kind: "bad-type", b: ref.Record(ref.Reply{Xid: cl.Xid, Data: args}.Encode())}
	},
}

// --- checking

func (s *srvRun) expectations(c *srvConn) (exps []*expect, rest []byte, frag bool) {
	recs, rest, frag := frame(c.l.ab.all[:min(c.l.ab.read, len(c.l.ab.all))])
	for i, r := range recs {
		xid, outs := s.expect(r)
		exps = append(exps, &expect{c: c, rec: i, xid: xid, outs: outs, got: -1})
	}
	return exps, rest, frag
}

func matches(o outcome, r gotReply) bool {
	if o.reply == nil || r.err != nil || r.r.Xid != o.reply.Xid {
		return false
	}
	if o.anyErr {
		return r.r.V.Denied || r.r.V.Stat != ref.Success
	}
	return r.r.V == o.reply.V && bytes.Equal(r.r.Data, o.reply.Data)
}

// match assigns replies to expectations, as many as possible, those that must
// have one first; unmatched replies are returned.
func match(exps []*expect, replies []gotReply) (left []gotReply) {
	byXid := map[uint32][]int{}
	for i, r := range replies {
		if r.err == nil {
			byXid[r.r.Xid] = append(byXid[r.r.Xid], i)
		}
	}
	owner := make([]*expect, len(replies))
	seen := make([]int, len(replies)) // by the search that last did
	search := 0
	var assign func(e *expect) bool
	assign = func(e *expect) bool {
		for _, i := range byXid[e.xid] {
			if seen[i] == search {
				continue
			}
			for oi, o := range e.outs {
				if !matches(o, replies[i]) {
					continue
				}
				seen[i] = search
				if owner[i] == nil || assign(owner[i]) {
					owner[i], e.got = e, oi
					return true
				}
				break
			}
		}
		return false
	}
	for pass := 0; pass < 3; pass++ {
		for _, e := range exps {
			if e.rank() == pass {
				search++
				assign(e)
			}
		}
	}
	for i, r := range replies {
		if owner[i] == nil {
			left = append(left, r)
		}
	}
	return left
}

// rank: how early an expectation gets to choose its reply.
func (e *expect) rank() int {
	r := 0
	for _, o := range e.outs {
		if o.held {
			r = max(r, 1)
		}
		if o.reply == nil {
			r = 2
		}
	}
	return r
}

func (e *expect) silentOK() bool {
	for _, o := range e.outs {
		if o.reply == nil {
			return true
		}
	}
	return false
}

// checkBlocked: with some handlers blocked and some peers stalled, nobody
// else may be held up.
func (s *srvRun) checkBlocked() {
	w := s.w
	for _, c := range s.conns {
		if !c.started {
			continue
		}
		c.parse()
		if c.pause || c.wbroken || c.l.reset || c.torn >= 0 {
			continue
		}
		c.checkRead("srv.blocked")
		exps, _, _ := s.expectations(c)
		for _, r := range match(exps, c.replies) {
			_ = r // judged at the end
		}
		for _, e := range exps {
			held := false
			for _, o := range e.outs {
				held = held || o.held
			}
			if e.got < 0 && !held && !e.silentOK() {
				class := "srv.blocked"
				if s.nheld == 0 && !s.anyStall() {
					class = "srv.missing-reply"
				}
				w.Fail(class, "connection %s: record %d (xid %d) has no reply although its handler is not blocked and its peer reads; %d other handlers are blocked; replies seen: %s", c.name, e.rec, e.xid, s.nheld, c.replyList())
				return
			}
		}
	}
	if ex := s.execDiff(true); ex != "" {
		w.Fail("srv.blocked-exec", "while %d handlers are blocked: %s", s.nheld, ex)
	}
}

// checkReturned: serving has ended wherever the stream has, whatever the
// handlers are doing.
func (s *srvRun) checkReturned() {
	for _, c := range s.conns {
		p := c.l.ab
		if !c.started || c.ret {
			continue
		}
		_, _, frag := frame(p.all[:min(p.read, len(p.all))])
		rf := p.rfault != nil && p.rfault.fired
		if p.fin && len(p.q) == 0 || c.l.reset || rf || frag {
			s.w.Fail("srv.run-no-return", "connection %s: stream ended (fin=%v reset=%v read error=%v fragment=%v read=%d) but Run has not returned; %d handlers are blocked; unfinished: %v", c.name, p.fin, c.l.reset, rf, frag, p.read, s.nheld, s.w.Unfinished())
			return
		}
	}
}

func (s *srvRun) anyStall() bool {
	for _, c := range s.conns {
		if c.pause || len(c.held) > 0 {
			return true
		}
	}
	return false
}

// checkRead: the server must have consumed all that arrived.
func (c *srvConn) checkRead(class string) {
	p := c.l.ab
	if c.ret || c.l.reset || !c.started {
		return
	}
	if len(p.q) > 0 {
		_, rest, frag := frame(p.all[:p.read])
		if frag {
			return
		}
		c.s.w.Fail(class, "connection %s: %d bytes that arrived are not read (%d were, the last %d of them an incomplete record); unfinished: %v", c.name, len(p.q), p.read, len(rest), c.s.w.Unfinished())
	}
}

func (c *srvConn) replyList() string {
	var r []string
	for _, g := range c.replies {
		r = append(r, fmt.Sprintf("%d:%d/%v", g.r.Xid, g.r.V.Stat, g.r.V.Denied))
		if len(r) > 12 {
			r = append(r, "...")
			break
		}
	}
	return fmt.Sprint(r)
}

func (s *srvRun) checkAll() {
	w := s.w
	for _, c := range s.conns {
		if !c.started {
			continue
		}
		if c.torn >= 0 && len(c.l.ba.all) > c.torn {
			w.Fail("srv.write-after-tear", "connection %s: a write failed inside a reply after %d bytes, yet %d more bytes were written: %s", c.name, c.torn, len(c.l.ba.all)-c.torn, hx(c.l.ba.all[c.torn:]))
		}
		// What the transport accepted is what counts, delivered or not.
		c.got = c.l.ba.all
		c.parse()
		_, rest, frag := frame(c.l.ba.all)
		broken := c.wbroken || c.l.reset || c.noRead
		if len(rest) > 0 && !frag && !broken {
			w.Fail("srv.torn-stream", "connection %s: the reply stream ends inside a record (%d bytes of it): %s", c.name, len(rest), hx(rest))
		}
		c.checkRead("srv.unread")
		exps, _, _ := s.expectations(c)
		s.sent += len(exps)
		left := match(exps, c.replies)
		for _, e := range exps {
			if e.got >= 0 {
				continue
			}
			w.CountN("replies.none_expected", 1)
			if e.silentOK() {
				continue
			}
			// Is there a leftover reply with this transaction id?
			wrong := false
			for i, r := range left {
				if r.err == nil && r.r.Xid == e.xid {
					o := e.outs[0]
					class := "srv.wrong-verdict"
					if !o.anyErr && o.reply.V == r.r.V {
						class = "srv.wrong-result"
					} else if o.anyErr || o.exec != nil && o.reply.V.Stat == ref.Success {
						class = "srv.wrong-status"
					}
					w.Fail(class, "connection %s: record %d (xid %d, %s): reply is %+v %s, should be %+v %s", c.name, e.rec, e.xid, execName(o), r.r.V, hx(r.r.Data), wantV(o), hx(o.reply.Data))
					left = append(left[:i], left[i+1:]...)
					wrong = true
					break
				}
			}
			if !wrong && !broken {
				o := e.outs[0]
				class := "srv.missing-reply"
				if o.anyErr {
					class = "srv.missing-error-reply"
				}
				w.Fail(class, "connection %s: record %d (xid %d, %s) got no reply; replies seen: %s; unfinished: %v", c.name, e.rec, e.xid, execName(o), c.replyList(), w.Unfinished())
			}
		}
		for _, r := range left {
			if r.err != nil {
				continue
			}
			n := 0
			for _, e := range exps {
				if e.xid == r.r.Xid && !(e.silentOK() && len(e.outs) == 1) {
					n++
				}
			}
			class := "srv.extra-reply"
			w.Fail(class, "connection %s: a reply to nothing: xid %d %+v %s (%d calls had that xid)", c.name, r.r.Xid, r.r.V, hx(r.r.Data), n)
		}
	}
	if ex := s.execDiff(false); ex != "" {
		w.Fail(s.execClass, "%s", ex)
	}
}

func wantV(o outcome) string {
	if o.anyErr {
		return "any error"
	}
	return fmt.Sprintf("%+v", o.reply.V)
}

func execName(o outcome) string {
	if o.exec == nil {
		return "no handler"
	}
	return o.exec.who
}

// execDiff compares handler executions with what was asked for.
func (s *srvRun) execDiff(early bool) string {
	want := map[string]int{}
	may := map[string]int{}
	recs := map[string]*execRec{}
	for _, c := range s.conns {
		if !c.started {
			continue
		}
		if early && c.pause {
			// Its own connection may be held up, and only that.
			exps, _, _ := s.expectations(c)
			for _, e := range exps {
				for _, o := range e.outs {
					if o.exec != nil {
						may[o.exec.key()]++
						recs[o.exec.key()] = o.exec
					}
				}
			}
			continue
		}
		exps, _, _ := s.expectations(c)
		for _, e := range exps {
			for _, o := range e.outs {
				if o.exec == nil {
					continue
				}
				recs[o.exec.key()] = o.exec
				if len(e.outs) == 1 {
					want[o.exec.key()]++
				} else {
					may[o.exec.key()]++
				}
			}
		}
	}
	have := map[string]int{}
	for i := range s.execs {
		e := &s.execs[i]
		have[e.key()]++
		recs[e.key()] = e
	}
	var keys []string
	for k := range recs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var missing, extra []string
	for _, k := range keys {
		if have[k] < want[k] {
			missing = append(missing, k)
		}
		if have[k] > want[k]+may[k] {
			extra = append(extra, k)
		}
	}
	if early {
		if len(missing) > 0 {
			return fmt.Sprintf("calls received but not started: %v", trunc(missing))
		}
		return ""
	}
	switch {
	case len(missing) == 0 && len(extra) == 0:
		return ""
	case len(missing) > 0 && len(extra) > 0:
		s.execClass = "srv.args-wrong"
		a, b := recs[missing[0]], recs[extra[0]]
		if a.who != b.who && a.what == b.what {
			s.execClass = "srv.wrong-handler"
		}
		return fmt.Sprintf("handlers did not run as called: asked for %v, ran instead %v", trunc(missing), trunc(extra))
	case len(missing) > 0:
		s.execClass = "srv.not-executed"
		return fmt.Sprintf("calls received whole but their handler did not run (often enough): %v; unfinished: %v", trunc(missing), s.w.Unfinished())
	}
	s.execClass = "srv.exec-spurious"
	for _, k := range extra {
		if want[k]+may[k] > 0 {
			s.execClass = "srv.exec-twice"
		}
	}
	return fmt.Sprintf("handlers ran without (or more often than) being called: %v", trunc(extra))
}

func trunc(s []string) []string {
	if len(s) > 4 {
		return append(s[:4:4], fmt.Sprintf("and %d more", len(s)-4))
	}
	return s
}

func (s *srvRun) checkEnd() {
	w := s.w
	for _, c := range s.conns {
		if !c.started {
			continue
		}
		p := c.l.ab
		_, rest, frag := frame(p.all[:min(p.read, len(p.all))])
		if !c.ret {
			w.Fail("srv.run-no-return", "connection %s: stream ended (fin=%v reset=%v read=%d) but Run has not returned; unfinished: %v", c.name, p.fin, c.l.reset, p.read, w.Unfinished())
			continue
		}
		rf := p.rfault != nil && p.rfault.fired
		ended := p.fin && c.retRead == p.arrived
		switch {
		case c.retErr == nil:
			w.Fail("srv.run-nil-error", "connection %s: Run returned nil", c.name)
		case !ended && !frag && !c.l.reset && !rf && !c.wbroken:
			cl := "srv.run-early-return"
			read, _, _ := frame(p.all[:min(c.retRead, len(p.all))])
			if all, _, _ := frame(p.all[:min(p.arrived, len(p.all))]); len(all) > len(read) {
				if _, _, err := ref.DecodeCall(all[len(read)]); err == nil {
					cl = "srv.abandoned" // with a whole call to be answered
				}
			}
			w.Fail(cl, "connection %s: Run returned %v although the stream has neither ended nor failed (read %d of %d arrived)", c.name, c.retErr, c.retRead, p.arrived)
		case frag || rf || c.wbroken || c.l.reset:
			if c.retErr == io.EOF && (frag || rf) && !ended {
				w.Fail("srv.run-wrong-error", "connection %s: Run returned plain end-of-file after a failure (fragment=%v read error=%v)", c.name, frag, rf)
			}
		case len(rest) == 0 && c.retErr != io.EOF:
			w.Fail("srv.run-wrong-error", "connection %s: closed between records, Run returned %v", c.name, c.retErr)
		case len(rest) > 0 && c.retErr == io.EOF:
			w.Fail("srv.run-wrong-error", "connection %s: closed inside a record (%d bytes of it read), Run returned plain end-of-file", c.name, len(rest))
		}
	}
	if u := w.Unfinished(); len(u) > 0 {
		w.Fail("srv.goroutine-left", "still running after every connection ended: %v", u)
	} else if n := runtime.NumGoroutine(); n > w.BaseG {
		w.Fail("srv.goroutine-left", "%d goroutines left (not at a scheduling point) after every connection ended", n-w.BaseG)
	}
}
