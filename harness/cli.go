package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	"verif/ref"
	"verif/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// The client scenario: the repository's Client runs under the scheduler
// against an event-driven peer that follows a drawn script.

// What the peer does with a call.
const (
	rcGood = iota
	rcStatus
	rcDenied
	rcWrongXid
	rcStaleThenGood
	rcDup
	rcNotReply
	rcGarbage
	rcBadResult
	rcFragment
	rcTorn
	rcForge
	rcHostile
	rcSilent
	rcLongVerf
	rcFlip
	rcTrailing
	rcOverArgs // the caller passes something that cannot be encoded
	nRc
)

var rcNames = []string{"good", "status", "denied", "wrong-xid", "stale-then-good", "duplicate", "not-a-reply", "garbage", "bad-result", "fragment", "torn", "forge", "hostile-length", "silent", "long-verf", "flip", "trailing", "over-args"}

type cliKnobs struct {
	conns, calls int
	react        [nRc]int
	wfault       int
	rfault       int
	cut          int
	link         int
	bud          int
	reuse        int
	over         int
	long         int // per mille of runs: a very long life of one client
	jumbo        int // per mille of runs: messages of megabytes
}

func cliProfile(prop string) cliKnobs {
	k := cliKnobs{conns: 3, calls: 8, wfault: 8, rfault: 5, cut: 5, link: 80, bud: 300, reuse: 50, jumbo: 12,
		react: [nRc]int{20, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1}}
	switch prop {
	case "C01":
		k.calls, k.reuse = 12, 70
		k.react = [nRc]int{24, 4, 3, 8, 5, 5, 4, 2, 1, 1, 1, 1, 0, 1, 1, 2, 1, 1}
		k.wfault, k.rfault, k.cut = 2, 2, 2
		k.long = 2
	case "C06":
		k.react = [nRc]int{10, 14, 10, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		k.wfault, k.rfault, k.cut = 0, 0, 0
	case "C08":
		k.react = [nRc]int{14, 2, 1, 2, 1, 1, 1, 3, 2, 4, 5, 8, 1, 1, 2, 2, 1, 1}
		k.wfault, k.rfault, k.cut = 30, 25, 10
	case "C09":
		k.react = [nRc]int{30, 2, 1, 1, 0, 0, 0, 1, 1, 1, 2, 1, 0, 0, 1, 0, 0, 1}
		k.link, k.bud = 100, 800
	case "C11":
		k.react = [nRc]int{6, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 14, 0, 0, 0, 0, 0}
		k.conns, k.calls = 2, 4
	case "C12", "C14":
		k.react = [nRc]int{40, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		k.wfault, k.rfault, k.cut, k.bud = 0, 0, 0, 1500
		if prop == "C14" {
			k.react[rcBadResult], k.react[rcOverArgs] = 8, 6
		}
	case "C13":
		k.react = [nRc]int{6, 1, 0, 0, 0, 0, 1, 1, 24, 0, 3, 0, 0, 0, 4, 8, 2, 0}
		k.wfault, k.rfault = 1, 1
	case "C18":
		k.react = [nRc]int{14, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 14}
		k.wfault, k.rfault, k.cut = 1, 1, 1
	case "any":
		k.react[rcHostile] = 1
	}
	return k
}

type cliCall struct {
	p          *Proc // nil: a raw procedure
	react      int
	cred, verf ref.Auth
	arg, res   *ref.Val
	over       string // what cannot be encoded, if anything
	reuse      bool
	delay      int64
	p1, p2, p3 int
	bulk       int // bytes that follow a hostile record mark

	xid      uint32
	begun    bool
	sent     bool // a request for it reached the peer
	done     bool
	err      error
	wrote0   int
	resVar   xdr.Xdrable
	argVar   xdr.Xdrable
	brokenBy string
}

type cliConn struct {
	s      *cliRun
	name   string
	st     string
	l      *link
	prog   uint32
	vers   uint32
	calls  []*cliCall
	cur    int
	done   bool
	xids   map[uint32]bool
	in     []byte
	inBase int
	rp     int
	clean  bool // the peer and the network have behaved so far
	silent bool
	broken string // why the stream position is unknown, once it is
	pos    int    // where in the reply stream the next call's reply starts
	lost   bool   // pos is not known to us
	brokeW int
	vars   map[*Proc]xdr.Xdrable
	kept   []*cliCall
	brief  bool
	repl   int
	sentB  int
}

type cliRun struct {
	w     *sim.World
	k     cliKnobs
	prop  string
	conns []*cliConn
	jumbo bool
	own   uint64 // bytes allocated by the peers
	args  int    // bytes of very large arguments
}

func (s *cliRun) drawCall(c *cliConn, v *Vers) *cliCall {
	w, st := s.w, c.st
	k := &cliCall{}
	k.p = v.Procs[w.Draw(st, len(v.Procs))]
	k.react = weighted(w, st, s.k.react[:])
	bud := 60
	if w.Draw(st, 3) == 2 {
		bud = s.k.bud
	}
	sp := v.G.Spec
	g := &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: bud, Max: 5000}
	k.arg = g.Val(k.p.P.Arg)
	g = &ref.Gen{S: sp, D: w.Source, Stream: st, Budget: bud, Max: 5000}
	k.res = g.Val(k.p.P.Res)
	k.cred, k.verf = drawAuth(w, st), drawAuth(w, st)
	k.reuse = pct(w, st, s.k.reuse)
	k.delay = []int64{0, 10000, 2000000, 100000000}[w.Draw(st, 4)]
	k.p1, k.p2, k.p3 = w.Draw(st, 1<<16), w.Draw(st, 1<<16), w.Draw(st, 1<<16)
	if k.react == rcOverArgs {
		switch w.Draw(st, 3) {
		case 0:
			if overflow(w, st, sp, k.p.P.Arg, k.arg) {
				k.over = "arguments"
				break
			}
			fallthrough
		case 1:
			k.cred.Body = fill(400+[]int{1, 2, 4, 600}[w.Draw(st, 4)], 1)
			k.over = "credential"
		case 2:
			k.verf.Body = fill(400+[]int{1, 2, 4, 600}[w.Draw(st, 4)], 1)
			k.over = "verifier"
		}
	}
	if k.react == rcHostile && w.Draw(st, 24) == 23 {
		// Megabytes of it do arrive.
		k.bulk = 1<<20 + w.Draw(st, 1<<20)
		k.p2 = 2
	}
	w.Count("peer." + rcNames[k.react])
	w.Count(fmt.Sprintf("proc.%s.%s", v.V.Name, k.p.P.Name))
	return k
}

// inflate makes unbounded opaque data in v megabytes long.
func inflate(w *sim.World, st string, sp *ref.Spec, t *ref.Type, v *ref.Val) bool {
	var sites []*ref.Val
	sp.Unbounded(t, v, func(t *ref.Type, v *ref.Val) { sites = append(sites, v) })
	if len(sites) == 0 {
		return false
	}
	sites[w.Draw(st, len(sites))].B = fill(jumboSize(w, st)-w.Draw(st, 64), uint32(w.Draw(st, 1<<16)))
	return true
}

func drawAuth(w *sim.World, st string) ref.Auth {
	if w.Draw(st, 3) < 2 {
		return ref.Auth{}
	}
	n := []int{0, 1, 3, 8, 60, 399, 400}[w.Draw(st, 7)]
	return ref.Auth{Flavor: drawU32(w, st), Body: fill(n, uint32(n))}
}

func (s *cliRun) drawConn(i int) *cliConn {
	w := s.w
	c := &cliConn{s: s, name: fmt.Sprintf("k%d", i), st: fmt.Sprintf("k%d", i), xids: map[uint32]bool{}, clean: true, vars: map[*Proc]xdr.Xdrable{}}
	st := c.st
	av := allVers()
	if s.prop == "C14" {
		av = dynVers()
	}
	v := av[w.Draw(st, len(av))]
	for try := 0; try < 5 && s.jumbo && i == 0 && v.V.Name != "NFS_V3"; try++ {
		v = av[w.Draw(st, len(av))]
	}
	c.prog, c.vers = v.Prog.Num, v.V.Num
	n := w.Draw1(st, s.k.calls)
	jumbo := false
	for j := 0; j < n; j++ {
		k := s.drawCall(c, v)
		c.calls = append(c.calls, k)
		if s.jumbo && i == 0 && !jumbo && (j == n-1 || w.Draw(st, 2) == 0) {
			res := w.Draw(st, 4) > 0
			for try := 0; try < 40 && !jumbo; try++ {
				k = s.drawCall(c, v)
				if sp := v.G.Spec; res {
					jumbo = inflate(w, st, sp, k.p.P.Res, k.res)
				} else {
					jumbo = inflate(w, st, sp, k.p.P.Arg, k.arg)
					s.args += len(sp.Encode(nil, k.p.P.Arg, k.arg))
				}
			}
			if w.Draw(st, 4) < 3 {
				k.react = rcGood
			}
			c.calls[j] = k
		}
	}
	cfg := LinkCfg{Atomic: true, Window: 1 << 30}
	if pct(w, "link", s.k.link) {
		cfg = drawLink(w, "link")
		cfg.Window = max(cfg.Window, 4)
	}
	total := 0
	for _, k := range c.calls {
		sp := k.p.V.G.Spec
		total += len(sp.Encode(nil, k.p.P.Arg, k.arg)) + len(sp.Encode(nil, k.p.P.Res, k.res)) + k.bulk
	}
	if total > 20000 {
		cfg.Window = max(cfg.Window, 4096)
		if jumbo {
			cfg.Window = max(cfg.Window, 1<<18)
		}
		cfg.coarse()
	}
	c.l = newLink(w, c.name, cfg)
	f := "fault-" + c.st
	if pct(w, f, s.k.wfault) {
		c.l.ab.wfault = &fault{at: w.Draw(f, 60*n+len(c.calls)*40+1), err: drawErr(w, f, true), sticky: w.Draw(f, 3) == 2, under: w.Draw(f, 4) == 3, hook: func() { c.clean = false }}
	}
	if pct(w, f, s.k.rfault) {
		c.l.ba.rfault = &fault{at: w.Draw(f, 40*n+1), err: drawErr(w, f, false), sticky: w.Draw(f, 3) == 2, hook: func() { c.clean = false }}
	}
	if pct(w, f, s.k.cut) {
		at := int64(w.Draw(f, 400)) * 1000000
		fin := w.Draw(f, 2) == 0
		w.After(at, func() {
			c.clean = false
			if fin {
				w.Count("fault.peer_closes")
				c.l.ba.sendFin()
			} else {
				c.l.Reset()
			}
		})
	}
	c.l.ab.sink = c.recv
	return c
}

// --- the peer

func (c *cliConn) recv(b []byte) {
	c.in = append(c.in, b...)
	w := c.s.w
	for {
		recs, _, frag := frame(c.in[c.rp:])
		if frag {
			w.Fail("cli.request-bytes", "connection %s: client wrote %x where a record should start", c.name, c.in[c.rp:min(len(c.in), c.rp+8)])
			c.rp = len(c.in)
			return
		}
		if len(recs) == 0 {
			return
		}
		at := c.inBase + c.rp
		c.rp += 4 + len(recs[0])
		c.request(recs[0], at)
	}
}

// request handles a request that starts at byte at of the stream: the call
// that was running when that byte was written has sent it. (The call may be
// over by now, if something that looked like a reply was already there.)
func (c *cliConn) request(rec []byte, at int) {
	w := c.s.w
	ki := -1
	for i, k := range c.calls {
		if k.begun && k.wrote0 <= at {
			ki = i
		}
	}
	if ki < 0 {
		w.Fail("cli.extra-request", "connection %s: request %s before the first call", c.name, hx(rec))
		return
	}
	k := c.calls[ki]
	if k.sent {
		w.Fail("cli.extra-request", "connection %s: more than one request for call %d: %s", c.name, ki, hx(rec))
		return
	}
	k.sent = true
	if k.over != "" {
		w.Fail("cli.unencodable-sent", "connection %s: call %d: %s cannot be encoded, but a request was sent: %s", c.name, ki, k.over, hx(rec))
		return
	}
	if len(rec) >= 4 {
		k.xid = binary.BigEndian.Uint32(rec)
	}
	sp := k.p.V.G.Spec
	want := ref.Call{Xid: k.xid, Rpcvers: 2, Prog: c.prog, Vers: c.vers, Proc: k.p.P.Num, Cred: k.cred, Verf: k.verf}.Encode()
	want = sp.Encode(want, k.p.P.Arg, k.arg)
	if !bytes.Equal(want, rec) {
		w.Fail("cli.request-bytes", "connection %s: call %d (%s): request on the wire is %s, should be %s (first difference at byte %d)", c.name, ki, k.p.P.Name, hx(rec), hx(want), firstDiff(rec, want))
	}
	if c.xids[k.xid] {
		w.Fail("cli.xid-reuse", "connection %s: transaction id %d used twice by one client (call %d)", c.name, k.xid, ki)
	}
	c.xids[k.xid] = true
	if c.brief {
		c.send(ref.Record(ref.Reply{Xid: k.xid}.Encode()))
		return
	}
	w.Logf("peer %s: request %d xid %d: reacting with %s", c.name, ki, k.xid, rcNames[k.react])
	w.After(k.delay*int64(k.p3%64)/64, func() { c.react(ki) })
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func (c *cliConn) send(b []byte) {
	c.sentB += len(b)
	c.l.ba.peerSend(b)
}

func (c *cliConn) react(ki int) {
	w := c.s.w
	a := allocated()
	// What is made here, and perhaps not sent, is not the client's.
	defer func() { c.s.own += allocated() - a }()
	k := c.calls[ki]
	sp := k.p.V.G.Spec
	data := sp.Encode(nil, k.p.P.Res, k.res)
	good := ref.Reply{Xid: k.xid, Data: data}
	if k.p1%4 == 0 {
		good.Verf = ref.Auth{Flavor: uint32(k.p2), Body: fill([]int{0, 1, 5, 16, 400}[k.p1/4%5], 4)}
	}
	gb := good.Encode()
	off := func(n int) int { // a place in a message of n bytes
		if n == 0 {
			return 0
		}
		return k.p1 % n
	}
	switch k.react {
	case rcGood, rcOverArgs:
		c.send(ref.Record(gb))
	case rcStatus:
		st := []uint32{1, 2, 3, 4, 5, 6, 0x01000000, 0xffffffff, 256, 0x10000}[k.p1%10]
		r := ref.Reply{Xid: k.xid, V: ref.Verdict{Stat: st, Low: 1, High: 3}}
		b := r.Encode()
		if k.p2%2 == 0 {
			b = append(b, data...) // what a success would carry
		}
		c.send(ref.Record(b))
	case rcDenied:
		v := ref.Verdict{Denied: true, Stat: uint32(k.p1 % 2), Low: 2, High: uint32(2 + k.p2%2), AuthStat: uint32(k.p2 % 6)}
		b := ref.Reply{Xid: k.xid, V: v}.Encode()
		if k.p3%2 == 0 {
			b = append(b, data...)
		}
		c.send(ref.Record(b))
	case rcWrongXid:
		c.clean = false
		x := k.xid
		good.Xid = []uint32{x - 1, x + 1, x ^ 1, x + 256, x + 65536, x ^ 0x80000000, x << 24, 0, ^x, x + 0x1000000, -x, x << 8}[k.p1%12]
		if good.Xid == x {
			good.Xid = x + 2
		}
		c.send(ref.Record(good.Encode()))
	case rcStaleThenGood:
		c.clean = false
		stale := good
		stale.Xid = k.xid - 1 - uint32(k.p1%3)
		c.send(ref.Record(stale.Encode()))
		c.send(ref.Record(gb))
	case rcDup:
		c.clean = false
		c.send(ref.Record(gb))
		w.After(int64(k.p1%64)*20000, func() { c.send(ref.Record(gb)) })
	case rcNotReply:
		c.clean = false
		b := append([]byte(nil), gb...)
		binary.BigEndian.PutUint32(b[4:], []uint32{0, 2, 0xffffffff, 0x01000000, 257}[k.p1%5])
		if k.p2%3 == 0 { // a whole call with the right id
			b = append(ref.Call{Xid: k.xid, Rpcvers: 2, Prog: c.prog, Vers: c.vers, Proc: k.p.P.Num}.Encode(), data...)
		}
		if k.p2%3 == 1 { // neither accepted nor denied
			b = append([]byte(nil), gb...)
			binary.BigEndian.PutUint32(b[8:], []uint32{2, 0xffffffff, 0x01000000}[k.p1%3])
		}
		c.send(ref.Record(b))
	case rcGarbage:
		c.clean = false
		switch k.p2 % 4 {
		case 0:
			c.send(ref.Record(gb[:off(min(len(gb), 28))]))
		case 1:
			c.send(ref.Record(fill(k.p1%80, uint32(k.p3))))
		case 2:
			c.send(ref.Record(nil))
		case 3:
			c.send(ref.Record(append(ref.PutU32(nil, k.xid), fill(k.p1%40, 3)...)))
		}
	case rcBadResult:
		c.clean = false
		st := "damage-" + c.st
		if len(data) == 0 {
			c.send(ref.Record(append(gb, 1, 2, 3)))
			return
		}
		good.Data = damage(w, st, sp, k.p.P.Res, k.res, data)
		c.send(ref.Record(good.Encode()))
	case rcFragment:
		c.clean = false
		r := ref.Record(gb)
		switch k.p2 % 3 {
		case 0: // all of it, never ended
			r[0] &= 0x7f
			c.send(r)
		case 1: // two fragments
			n := off(len(gb) + 1)
			c.send(append(ref.PutU32(nil, uint32(n)), gb[:n]...))
			c.send(ref.Record(gb[n:]))
		case 2: // the tail looks like a record of its own
			forged := ref.Record(ref.Reply{Xid: k.xid + 1 + uint32(k.p1%2), Data: data}.Encode())
			c.send(append(ref.PutU32(nil, uint32(len(forged))), forged...))
		}
	case rcTorn:
		c.clean = false
		r := ref.Record(gb)
		c.send(r[:off(len(r))])
		if k.p2%2 == 0 {
			w.Count("fault.peer_closes")
			c.l.ba.sendFin()
		} else {
			w.After(int64(k.p3%64)*20000, c.l.Reset)
		}
	case rcForge:
		// The record stops arriving somewhere; reading fails there once; what
		// follows looks like replies to the calls to come.
		c.clean = false
		var forged []byte
		torn := k.p2%5 == 2 // the rest of the header is lost, too
		for i := uint32(0); i <= 3; i++ {
			if i == 0 && !torn {
				continue
			}
			x := k.xid + i
			var d []byte
			if j := ki + int(i); j < len(c.calls) {
				n := c.calls[j]
				d = sp.Encode(nil, n.p.P.Res, n.p.V.G.Spec.Zero(n.p.P.Res))
			}
			forged = append(forged, ref.Record(ref.Reply{Xid: x, Data: d}.Encode())...)
		}
		body := gb[:off(len(gb))]
		if k.p2%3 == 0 {
			body = nil
		}
		r := append(ref.PutU32(nil, 1<<31|uint32(len(body)+len(forged))), body...)
		cutAt := len(r)
		if k.p2%5 == 1 {
			cutAt = 1 + k.p1%4
		}
		if torn {
			cutAt = 1 + k.p1%3
			r = r[:cutAt]
		}
		r = append(r, forged...)
		c.l.ba.rfault = &fault{at: c.sentB + cutAt, err: errTimeout}
		w.Count("fault.forged_tail")
		c.send(r)
	case rcHostile:
		c.clean = false
		huge := hugeLens[k.p1%len(hugeLens)]
		w.Count("fault.hostile_length")
		var sites []ref.Site
		sp.Sites(0, k.p.P.Res, k.res, &sites)
		switch {
		case k.p2%3 == 0 && len(sites) > 0:
			x := sites[k.p3%len(sites)]
			d := append([]byte(nil), data...)
			binary.BigEndian.PutUint32(d[x.Off:], huge<<uint(k.p2/3%2))
			good.Data = d
			c.send(ref.Record(good.Encode()))
		case k.p2%3 == 1: // verifier
			b := append([]byte(nil), gb[:16]...)
			c.send(ref.Record(append(ref.PutU32(b, huge), fill(20, 1)...)))
		default:
			c.send(append(append(ref.PutU32(nil, 1<<31|huge), gb...), fill(k.bulk, 3)...))
			c.silent = true
		}
	case rcSilent:
		c.clean = false
		c.silent = true
	case rcLongVerf:
		c.clean = false
		good.Verf = ref.Auth{Flavor: 1, Body: fill([]int{401, 404, 1000, 4000}[k.p1%4], 2)}
		c.send(ref.Record(good.Encode()))
	case rcFlip:
		c.clean = false
		b := append([]byte(nil), gb...)
		b[off(len(b))] ^= 1 << (k.p2 % 8)
		w.Count("fault.byte_corrupted")
		c.send(ref.Record(b))
	case rcTrailing: // if the client puts up with it, it knows where it is
		c.send(ref.Record(append(gb, fill(1+k.p1%9, 3)...)))
	}
	c.repl++
}

// --- the caller

func goAuth(a ref.Auth) rfc1057.Opaque_auth {
	return rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(a.Flavor), Body: append([]byte(nil), a.Body...)}
}

func (c *cliConn) run() {
	w := c.s.w
	prog, vers := c.prog, c.vers
	if len(c.calls) > 0 {
		v := c.calls[0].p.V
		prog, vers = v.G.sym(v.Prog.Name, prog), v.G.sym(v.V.Name, vers)
	}
	cl := rfc1057.MakeClient(c.l.a, prog, vers)
	for i, k := range c.calls {
		c.cur = i
		sp := k.p.V.G.Spec
		k.argVar = k.p.newArg()
		toGo(sp, k.p.P.Arg, k.arg, k.argVar)
		k.resVar = k.p.newRes()
		if k.reuse {
			if v := c.vars[k.p]; v != nil {
				k.resVar = v
				w.Count("result.reused_variable")
			} else {
				// Whatever it held before.
				g := &ref.Gen{S: sp, D: w.Source, Stream: "junk-" + c.st, Budget: 100, Max: 50}
				toGo(sp, k.p.P.Res, g.Val(k.p.P.Res), k.resVar)
				w.Count("result.prefilled_variable")
			}
			for _, o := range c.kept {
				if o.resVar == k.resVar {
					o.resVar = nil
				}
			}
		}
		c.vars[k.p] = k.resVar
		k.wrote0, k.begun = c.l.ab.wrote, true
		w0 := c.l.ab.wrote
		clean0 := c.clean
		w.Logf("client %s: call %d %s", c.name, i, k.p.P.Name)
		err, ok := c.call(cl, k)
		if !ok {
			return
		}
		k.done, k.err = true, err
		w.Logf("client %s: call %d returns %v", c.name, i, err)
		c.judge(i, k, w0, clean0)
		sim.Yield("client.think")
	}
	c.cur = len(c.calls)
	c.done = true
}

func toGo(sp *ref.Spec, t *ref.Type, v *ref.Val, x xdr.Xdrable) {
	if t.Kind == ref.Void {
		return
	}
	sp.ToGo(t, v, reflect.ValueOf(x).Elem())
}

func diffGo(sp *ref.Spec, t *ref.Type, v *ref.Val, x xdr.Xdrable) string {
	if t.Kind == ref.Void {
		return ""
	}
	return sp.Diff(t, v, reflect.ValueOf(x).Elem())
}

func (c *cliConn) call(cl *rfc1057.Client, k *cliCall) (err error, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "go-rpcgen/") && !strings.Contains(st, "verif/gensut") {
				panic(r)
			}
			c.s.w.Fail("cli.panic", "Call panicked: %v\n%s", r, st)
		}
	}()
	err = cl.Call(k.p.V.G.sym(k.p.P.Name, k.p.P.Num), goAuth(k.cred), goAuth(k.verf), k.argVar, k.resVar)
	return err, true
}

func (c *cliConn) judge(i int, k *cliCall, w0 int, clean0 bool) {
	w := c.s.w
	sp := k.p.V.G.Spec
	wrote := c.l.ab.wrote - w0
	into := -1
	if k.over == "" {
		into = c.step()
	}
	if c.broken != "" {
		if k.err == nil {
			w.Fail("cli.success-after-break", "connection %s: call %d succeeded although %s", c.name, i, c.broken)
		}
		if wrote > 0 {
			w.Fail("cli.used-after-break", "connection %s: call %d wrote %d bytes although %s", c.name, i, wrote, c.broken)
		}
		w.Count("client.calls_after_break")
		return
	}
	if k.over != "" {
		if k.err == nil {
			w.Fail("cli.unencodable-accepted", "connection %s: call %d: %s cannot be encoded, but the call succeeded", c.name, i, k.over)
		}
		if wrote > 0 {
			w.Fail("cli.unencodable-sent", "connection %s: call %d: %s cannot be encoded, but %d bytes were sent", c.name, i, k.over, wrote)
		}
		return
	}
	if d := diffGo(sp, k.p.P.Arg, k.arg, k.argVar); d != "" {
		w.Fail("cli.args-mutated", "connection %s: call %d changed its caller's arguments: %s", c.name, i, d)
	}
	if k.err != nil {
		w.Count("client.call_failed")
		if k.react == rcTrailing {
			c.clean = false
		}
		if clean0 && c.clean && (k.react == rcGood || k.react == rcOverArgs) {
			w.Fail("cli.good-reply-refused", "connection %s: call %d (%s) got a correct reply to a correct request over a stream without any fault, and failed: %v (earlier calls: %s)", c.name, i, k.p.P.Name, k.err, c.history(i))
		}
		// Is the stream position unknown now?
		if _, rest, _ := frame(c.l.ab.all); len(rest) > 0 {
			c.broken = fmt.Sprintf("call %d failed after writing only %d bytes of its request (%v)", i, len(rest), k.err)
		} else if into > 0 && !c.clean {
			if f := c.l.ba.rfault; f != nil && f.fired || c.l.ba.fin || c.l.reset {
				c.broken = fmt.Sprintf("call %d failed %d bytes into a reply record (%v)", i, into, k.err)
			}
		}
		if c.broken != "" {
			w.Count("client.stream_broken")
		}
		return
	}
	w.Count("client.call_ok")
	// A success must be some reply's doing.
	xid, sent := uint32(0), false
	if wrote >= 8 {
		xid, sent = binary.BigEndian.Uint32(c.l.ab.all[w0+4:]), true
	}
	k.xid = xid
	var seen []string
	for _, rec := range wholeRecords(c.l.ba.all) {
		r, err := decodeReplyLax(rec)
		if err != nil || r.Xid != xid || !sent {
			continue
		}
		if r.V.Denied || r.V.Stat != ref.Success {
			seen = append(seen, fmt.Sprintf("status %+v", r.V))
			continue
		}
		acc, v := sp.Classify(k.p.P.Res, r.Data)
		if acc == ref.MustNot {
			seen = append(seen, "results cut or out of bounds: "+hx(r.Data))
			continue
		}
		d := diffGo(sp, k.p.P.Res, v, k.resVar)
		if d == "" {
			k.res = v
			c.kept = append(c.kept, k)
			w.Count("client.success_checked")
			return
		}
		seen = append(seen, "results differ: "+d)
	}
	switch {
	case len(seen) == 0:
		w.Fail("cli.false-success", "connection %s: call %d (xid %d, %s) succeeded without any reply to it; the peer did: %s", c.name, i, k.xid, k.p.P.Name, rcNames[k.react])
	case strings.HasPrefix(seen[0], "status"):
		w.Fail("cli.status-ignored", "connection %s: call %d (xid %d, %s) succeeded, but its reply says %v", c.name, i, k.xid, k.p.P.Name, seen)
	case strings.HasPrefix(seen[0], "results cut"):
		w.Fail("cli.damaged-accepted", "connection %s: call %d (xid %d, %s) succeeded, but its reply is damaged: %v", c.name, i, k.xid, k.p.P.Name, seen)
	default:
		w.Fail("cli.wrong-result", "connection %s: call %d (xid %d, %s, reused variable: %v) succeeded with a wrong result: %v", c.name, i, k.xid, k.p.P.Name, k.reuse, seen)
	}
}

func (c *cliConn) history(i int) string {
	var r []string
	for _, k := range c.calls[:i+1] {
		r = append(r, rcNames[k.react])
	}
	return strings.Join(r, ",")
}

// step moves on over the record of the reply stream that is the next call's
// reply, if the client has been given all of it; if not, it says how much of
// it the client has been given. (The client may also have been given bytes
// beyond it, and may have kept them for later.)
func (c *cliConn) step() int {
	if c.lost || c.pos > c.l.ba.read {
		return 0
	}
	b := c.l.ba.all[c.pos:min(c.l.ba.read, len(c.l.ba.all))]
	if len(b) < 4 {
		return len(b)
	}
	m := binary.BigEndian.Uint32(b)
	if m>>31 == 0 { // a client may stop at a fragment, or go on
		c.lost = true
		return 0
	}
	n := uint64(m & 0x7fffffff)
	if uint64(len(b)-4) < n {
		return len(b)
	}
	c.pos += 4 + int(n)
	return 0
}

// wholeRecords lists the records of a stream, fragments put together.
func wholeRecords(b []byte) (recs [][]byte) {
	var part []byte
	for len(b) >= 4 {
		m := binary.BigEndian.Uint32(b)
		n := uint64(m & 0x7fffffff)
		if uint64(len(b)-4) < n {
			break
		}
		part = append(part, b[4:4+n]...)
		b = b[4+n:]
		if m&(1<<31) != 0 {
			recs = append(recs, part)
			part = nil
		}
	}
	return recs
}

// decodeReplyLax is DecodeReply, but trailing bytes after an error status do
// not hide the status.
func decodeReplyLax(b []byte) (ref.Reply, error) {
	r, err := ref.DecodeReply(b)
	if err != nil {
		for n := len(b) - 1; n >= 20; n-- {
			if r2, err2 := ref.DecodeReply(b[:n]); err2 == nil && (r2.V.Denied || r2.V.Stat != 0) {
				return r2, nil
			}
		}
	}
	return r, err
}

func cliScenario(w *sim.World, prop string) {
	s := &cliRun{w: w, prop: prop, k: cliProfile(prop)}
	if s.k.long > 0 && w.Chance("shape", s.k.long, 1000) {
		s.longLife()
		return
	}
	s.jumbo = w.Chance("shape", s.k.jumbo, 1000)
	n := 1 + w.Draw("shape", s.k.conns)
	for i := 0; i < n; i++ {
		s.conns = append(s.conns, s.drawConn(i))
	}
	a0 := allocated()
	for _, c := range s.conns {
		w.Go("client "+c.name, c.run)
	}
	if !w.Run(nil) {
		return
	}
	w.Logf("--- quiescent")
	for _, c := range s.conns {
		if !c.done && c.clean {
			w.Fail("cli.hang", "connection %s: call %d has not returned although a correct reply was delivered over a stream without any fault; unfinished: %v", c.name, c.cur, w.Unfinished())
		}
	}
	for _, c := range s.conns {
		c.clean = false
		c.l.ba.sendFin()
	}
	if !w.Run(nil) {
		return
	}
	sent := 0
	for _, c := range s.conns {
		sent += len(c.l.ab.all) + len(c.l.ba.all)
		if !c.done {
			w.Fail("cli.no-return", "connection %s: call %d has not returned although the stream has ended; unfinished: %v", c.name, c.cur, w.Unfinished())
		}
		for _, k := range c.kept {
			if k.resVar == nil {
				continue
			}
			if d := diffGo(k.p.V.G.Spec, k.p.P.Res, k.res, k.resVar); d != "" {
				w.Fail("cli.result-changed", "connection %s: the result of a finished call (%s, xid %d) changed afterwards: %s", c.name, k.p.P.Name, k.xid, d)
				break
			}
		}
	}
	checkMem(w, a0+s.own, sent, s.args)
	w.CountN("conns", len(s.conns))
}

// longLife makes one client do very many calls: transaction ids must stay
// distinct.
func (s *cliRun) longLife() {
	w := s.w
	av := allVers()
	v := av[w.Draw("shape", len(av))]
	c := &cliConn{s: s, name: "long", st: "long", xids: map[uint32]bool{}, clean: true, vars: map[*Proc]xdr.Xdrable{}, prog: v.Prog.Num, vers: v.V.Num, brief: true}
	c.l = newLink(w, "long", LinkCfg{Atomic: true, Window: 1 << 30})
	c.l.ab.sink = func(b []byte) {
		c.recv(b)
		c.inBase += c.rp
		c.in = append([]byte(nil), c.in[c.rp:]...)
		c.rp = 0
		c.l.ab.all, c.l.ba.all = nil, nil
	}
	w.MaxSteps, w.MaxY = 5000000, 200000000
	n := 300 + w.Draw("shape", 20000)
	if w.Draw("shape", 3) == 2 {
		n = 65600 + w.Draw("shape", 1000)
	}
	w.Count("client.long_life")
	w.Go("client long", func() {
		cl := rfc1057.MakeClient(c.l.a, c.prog, c.vers)
		for i := 0; i < n; i++ {
			k := &cliCall{p: v.Procs[0], arg: &ref.Val{}, res: &ref.Val{}, begun: true, wrote0: c.l.ab.wrote}
			if k.p.P.Arg.Kind != ref.Void || k.p.P.Res.Kind != ref.Void {
				return
			}
			c.calls = []*cliCall{k}
			c.cur = 0
			k.argVar, k.resVar = &xdr.Void{}, &xdr.Void{}
			err, ok := c.call(cl, k)
			if !ok {
				return
			}
			k.done = true
			if err != nil {
				w.Fail("cli.good-reply-refused", "call %d of a long-lived client failed: %v", i, err)
				return
			}
			if len(w.Viol) > 0 {
				return
			}
		}
		c.done = true
	})
	w.Run(nil)
	w.CountN("client.call_ok", len(c.xids))
}
