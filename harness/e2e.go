package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"verif/ref"
	"verif/sim"

	"github.com/anishathalye/porcupine"
	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// The end-to-end scenario: the repository's Clients call the repository's
// Server over simulated connections that stall, fail, close and reset at any
// byte. The service keeps a few lists; appending is not idempotent, so that
// an operation executed twice or lost shows in later results.

const (
	opAppend = 1 // append id to list key, return the list
	opRead   = 2 // return the list
	opCond   = 3 // append id if the list has even length, return the list
	opReset  = 4 // empty the list, return what it was
	// These two carry nothing that tells one call from another.
	opTake = 5 // return the counter and increment it
	opPeek = 6 // return the counter
)

type e2eArg struct {
	op, key, id uint32
	data        []byte
	tag         string // tagOf(id); the service keeps it
}

func (a *e2eArg) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, &a.key)
	xdr.XdrU32(xs, &a.id)
	xdr.XdrVarArray(xs, -1, &a.data)
	xdr.XdrString(xs, -1, &a.tag)
}

// tagOf is the name that the caller gives to what operation id appends.
func tagOf(id uint32) string {
	if id == 0 {
		return ""
	}
	return strings.Repeat(fmt.Sprintf("<%d>", id), 1+int(id*7%13))
}

type e2eRes struct {
	id   uint32
	list []uint32
	data []byte
	tag  string // of the last list element
}

func (r *e2eRes) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, &r.id)
	n := uint32(len(r.list))
	xdr.XdrU32(xs, &n)
	if n > 1000 {
		xs.SetError("list too long")
		return
	}
	if xs.Decoding() {
		r.list = make([]uint32, n)
	}
	for i := range r.list {
		xdr.XdrU32(xs, &r.list[i])
	}
	xdr.XdrVarArray(xs, -1, &r.data)
	xdr.XdrString(xs, -1, &r.tag)
}

type e2eOp struct {
	client   int
	arg      e2eArg
	inv, ret int
	done     bool
	err      error
	res      string
	execs    int
	execAt   int
	execRes  string
	hold     bool
	yields   int
	bigRes   int
	link     *e2eLink
	clean    bool
	xid      uint32
	anon     bool
}

type e2eLink struct {
	l        *link
	faulty   bool // something was planned to go wrong
	ret      bool
	err      error
	sinceErr bool
	mark     int
}

type e2eRun struct {
	w        *sim.World
	srv      *rfc1057.Server
	lists    map[uint32][]uint32
	tags     map[uint32]string // as the handlers got them
	counters map[uint32]uint32
	takes    int // executions of opTake
	ops      map[uint32]*e2eOp
	order    []*e2eOp
	links    []*e2eLink
	seq      int
	released bool
	nconn    int
	faultPct int
	calm     bool
	left     int
}

func listStr(l []uint32) string { return strings.Trim(fmt.Sprint(l), "[]") }

func (s *e2eRun) tick() int { s.seq++; return s.seq }

func (s *e2eRun) handler(op uint32) func(args *xdr.XdrState) (xdr.Xdrable, error) {
	return func(args *xdr.XdrState) (xdr.Xdrable, error) {
		w := s.w
		a := &e2eArg{op: op}
		a.Xdr(args)
		if args.Error() != nil {
			w.Fail("e2e.bad-args", "operation %d: arguments do not decode: %v", op, args.Error())
			return nil, args.Error()
		}
		if op == opTake || op == opPeek {
			return s.count(a), nil
		}
		o := s.ops[a.id]
		if o == nil || o.arg.op != op || o.arg.key != a.key || string(o.arg.data) != string(a.data) || a.tag != tagOf(a.id) {
			w.Fail("e2e.bad-args", "a handler ran for an operation nobody asked for: op %d key %d id %d %s", op, a.key, a.id, hx(a.data))
			return nil, errors.New("what?")
		}
		for i := 0; i < o.yields; i++ {
			sim.Yield("service.before")
		}
		// The atomic step.
		l := s.lists[a.key]
		res := append([]uint32(nil), l...)
		switch {
		case op == opAppend || op == opCond && len(l)%2 == 0:
			res = append(res, a.id)
			s.lists[a.key] = res
			s.tags[a.id] = a.tag // a string stays what it is
		case op == opReset:
			s.lists[a.key] = nil
		}
		o.execs++
		o.execAt = s.tick()
		o.execRes = listStr(res)
		w.Logf("service: id %d op %d key %d -> %s", a.id, op, a.key, o.execRes)
		if o.execs > 1 {
			w.Fail("e2e.exec-twice", "operation %d of client %d was executed %d times", a.id, o.client, o.execs)
		}
		if o.hold && !s.released {
			w.Count("handler.held")
			sim.Block("service.gate", func() bool { return s.released })
		}
		for i := 0; i < o.yields; i++ {
			sim.Yield("service.after")
		}
		r := &e2eRes{id: a.id, list: append([]uint32(nil), res...), data: fill(o.bigRes, a.id)}
		if len(res) > 0 {
			r.tag = s.tags[res[len(res)-1]]
		}
		return r, nil
	}
}

// count serves the operations that carry no identity.
func (s *e2eRun) count(a *e2eArg) xdr.Xdrable {
	w := s.w
	if a.id != 0 || a.key > 1 || len(a.data) > 0 || a.tag != "" {
		w.Fail("e2e.bad-args", "a handler ran for an operation nobody asked for: op %d key %d id %d %s", a.op, a.key, a.id, hx(a.data))
	}
	for i := w.Draw("count", 3); i > 0; i-- {
		sim.Yield("service.before")
	}
	c := s.counters[a.key]
	if a.op == opTake {
		s.counters[a.key]++
		s.takes++
	}
	w.Logf("service: op %d key %d -> %d", a.op, a.key, c)
	if !s.released && w.Chance("count", 1, 30) {
		w.Count("handler.held")
		sim.Block("service.gate", func() bool { return s.released })
	}
	for i := w.Draw("count", 3); i > 0; i-- {
		sim.Yield("service.after")
	}
	return &e2eRes{list: []uint32{c}}
}

func (s *e2eRun) connect(st string) *e2eLink {
	w := s.w
	s.nconn++
	name := fmt.Sprintf("n%d", s.nconn)
	cfg := LinkCfg{Atomic: true, Window: 1 << 30}
	if w.Draw(st, 4) > 0 {
		cfg = drawLink(w, st)
		if cfg.Window < 16 {
			cfg.Window = 16
		}
		// operations are small, keep runs short
		if w.Draw(st, 3) > 0 {
			cfg.coarse()
		}
	}
	e := &e2eLink{l: newLink(w, name, cfg)}
	s.links = append(s.links, e)
	l := e.l
	if !s.calm && pct(w, st, s.faultPct) {
		e.faulty = true
		for n := 1 + w.Draw(st, 2); n > 0; n-- {
			f := &fault{at: w.Draw(st, 400), err: drawErr(w, st, true), sticky: w.Draw(st, 2) == 1, under: w.Draw(st, 3) == 2}
			switch w.Draw(st, 8) {
			case 0:
				l.ab.wfault = f
			case 1:
				l.ab.rfault = f
			case 2:
				l.ba.wfault = f
			case 3:
				l.ba.rfault = f
			case 4:
				f.hook = l.Reset
				[]*pipe{l.ab, l.ba}[w.Draw(st, 2)].wfault = f
			case 5:
				at := int64(w.Draw(st, 300)) * 100000
				w.After(at, l.Reset)
			case 6:
				at := int64(w.Draw(st, 300)) * 100000
				w.After(at, func() { w.Count("fault.half_close"); l.ab.sendFin() })
			case 7:
				at := int64(w.Draw(st, 300)) * 100000
				w.After(at, func() { w.Count("fault.half_close"); l.ba.sendFin() })
			}
		}
	}
	closeAfter := w.Draw(st, 2) == 0
	w.Go("serve "+name, func() {
		err := s.srv.Run(l.b)
		e.ret, e.err = true, err
		w.Logf("serve %s: Run returns %v", name, err)
		if err == nil {
			w.Fail("srv.run-nil-error", "connection %s: Run returned nil", name)
		}
		if closeAfter || err != io.EOF {
			l.b.Close()
		}
	})
	return e
}

func (s *e2eRun) client(ci int) {
	w := s.w
	st := fmt.Sprintf("c%d", ci)
	n := w.Draw1(st, 7)
	var e *e2eLink
	var cl *rfc1057.Client
	keepBroken := w.Draw(st, 3) == 0
	for i := 0; i < n; i++ {
		if e == nil {
			e = s.connect(st)
			cl = rfc1057.MakeClient(e.l.a, 7, 1)
		}
		id := uint32(ci*100 + i + 1)
		o := &e2eOp{client: ci, link: e}
		o.arg = e2eArg{tag: tagOf(id), op: []uint32{opAppend, opAppend, opRead, opCond, opReset}[w.Weighted(st, 4, 2, 2, 2, 1)], key: uint32(w.Draw(st, 2)), id: id}
		if anon := w.Draw(st, 5); anon > 2 {
			o.arg.op = []uint32{opTake, opPeek}[anon-3]
			o.arg.id, o.arg.tag = 0, ""
			o.anon = true
		}
		size := w.Draw(st, 4)
		switch {
		case o.anon:
		case size == 2:
			o.arg.data = fill(w.Draw(st, 60), id)
		case size == 3:
			o.arg.data = fill(w.Draw(st, 3000), id)
			o.bigRes = w.Draw(st, 3000)
		}
		o.hold = w.Chance(st, 1, 12) && !o.anon
		o.yields = w.Draw(st, 4)
		s.ops[id] = o
		s.order = append(s.order, o)
		e.mark = e.l.ab.wrote
		o.inv = s.tick()
		w.Logf("client %d: id %d op %d key %d on %s", ci, id, o.arg.op, o.arg.key, e.l.name)
		res := &e2eRes{list: []uint32{7, 7, 7}}
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.Fail("cli.panic", "Call panicked: %v", r)
					err = fmt.Errorf("panic")
				}
			}()
			err = cl.Call(o.arg.op, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &o.arg, res)
		}()
		o.ret, o.done, o.err = s.tick(), true, err
		w.Logf("client %d: id %d returns %v", ci, id, err)
		if err == nil {
			o.res = listStr(res.list)
			w.Count("e2e.call_ok")
			if e.sinceErr {
				w.Fail("e2e.used-after-break", "client %d: operation %d succeeded on a connection on which an earlier call had failed", ci, id)
			}
			if o.anon {
				if res.id != 0 || len(res.list) != 1 || len(res.data) != 0 || res.tag != "" {
					w.Fail("e2e.wrong-result", "client %d: operation %d got the result of another one, %d (%v, %s)", ci, id, res.id, res.list, hx(res.data))
				}
			} else if res.id != id || string(res.data) != string(fill(o.bigRes, id)) {
				w.Fail("e2e.wrong-result", "client %d: operation %d got the result of operation %d (%s)", ci, id, res.id, hx(res.data))
			}
			if last := len(res.list) - 1; last >= 0 && !o.anon && res.tag != tagOf(res.list[last]) {
				w.Fail("e2e.wrong-result", "client %d: operation %d gets a list whose last element, %d, was named %q when it was appended; the service now has it as %q", ci, id, res.list[last], tagOf(res.list[last]), res.tag)
			}
			if o.anon {
				// Judged by the results alone.
			} else if o.execs == 0 {
				w.Fail("e2e.lost-success", "client %d: operation %d succeeded but was never executed", ci, id)
			} else if o.execAt < o.inv || o.execAt > o.ret {
				w.Fail("e2e.outside-call", "client %d: operation %d was executed outside its call", ci, id)
			}
		} else {
			w.Count("e2e.call_failed")
			if e.sinceErr && e.l.ab.wrote > e.mark {
				w.Fail("e2e.used-after-break", "client %d: operation %d wrote %d bytes to a connection on which an earlier call had failed: %v", ci, id, e.l.ab.wrote-e.mark, err)
			}
			if !e.faulty && !s.released {
				w.Fail("e2e.refused", "client %d: operation %d failed on a connection without any fault: %v", ci, id, err)
			}
			e.sinceErr = true
			if !keepBroken || w.Draw(st, 2) == 0 {
				if w.Draw(st, 4) > 0 {
					e.l.a.Close()
				}
				e = nil
			}
		}
		for k := w.Draw(st, 3); k > 0; k-- {
			sim.Yield("client.think")
		}
		if w.Draw(st, 3) == 0 {
			d := int64(w.Draw(st, 100)) * 200000
			wake := false
			w.After(d, func() { wake = true })
			sim.Block("client.sleep", func() bool { return wake })
		}
	}
	if e != nil {
		e.l.a.Close()
	}
	s.left--
}

func e2eScenario(w *sim.World, prop string) {
	s := &e2eRun{w: w, lists: map[uint32][]uint32{}, counters: map[uint32]uint32{}, tags: map[uint32]string{}, ops: map[uint32]*e2eOp{}}
	s.srv = rfc1057.MakeServer()
	for _, op := range []uint32{opAppend, opRead, opCond, opReset, opTake, opPeek} {
		s.srv.Register(7, 1, op, s.handler(op))
	}
	s.faultPct = []int{70, 0, 30, 100}[w.Draw("shape", 4)]
	n := 1 + w.Draw("shape", 4)
	s.left = n
	for i := 1; i <= n; i++ {
		w.Go(fmt.Sprintf("client %d", i), func() { s.client(i) })
	}
	if !w.Run(nil) {
		return
	}
	w.Logf("--- quiescent")
	// Everything that waits now waits for a held handler, for a connection
	// that half works, or for nothing at all.
	for _, o := range s.order {
		if !o.done && !o.link.faulty && !(o.hold && o.execs > 0) && !o.anon {
			w.Fail("e2e.stuck", "client %d: operation %d (executed %d times) has not returned on a connection without any fault; unfinished: %v", o.client, o.arg.id, o.execs, w.Unfinished())
		}
	}
	s.released, s.calm = true, true
	if !w.Run(nil) {
		return
	}
	for round := 0; s.left > 0 && round < 40; round++ {
		for _, o := range s.order {
			if !o.done && !o.link.faulty {
				w.Fail("e2e.stuck", "client %d: operation %d (executed %d times) has not returned although no handler is held; unfinished: %v", o.client, o.arg.id, o.execs, w.Unfinished())
			}
		}
		// The operator kills the connections that are stuck.
		for _, o := range s.order {
			if !o.done {
				o.link.faulty = true
				o.link.l.Reset()
			}
		}
		if !w.Run(nil) {
			return
		}
	}
	for _, e := range s.links {
		e.l.ab.sendFin()
		e.l.ba.sendFin()
	}
	if !w.Run(nil) {
		return
	}
	for _, e := range s.links {
		e.l.Reset()
	}
	if !w.Run(nil) {
		return
	}
	if s.left > 0 {
		w.Fail("e2e.stuck", "%d clients have not finished although every connection has ended; unfinished: %v", s.left, w.Unfinished())
	}
	for _, e := range s.links {
		if !e.ret {
			w.Fail("srv.run-no-return", "connection %s: ended, but Run has not returned", e.l.name)
		}
		s.wire(e)
	}
	s.judge()
	w.CountN("e2e.operations", len(s.order))
	w.CountN("conns", len(s.links))
}

// wire: every operation is requested at most once, whatever happened to it.
func (s *e2eRun) wire(e *e2eLink) {
	w := s.w
	recs, _, frag := frame(e.l.ab.all)
	if frag {
		w.Fail("e2e.resend", "connection %s: the request stream is not made of whole records", e.l.name)
	}
	xids := map[uint32]bool{}
	anon := 0
	for _, o := range s.order {
		if o.anon && o.link == e {
			anon++
		}
	}
	for _, r := range recs {
		c, args, err := ref.DecodeCall(r)
		if err != nil || len(args) < 8 {
			w.Fail("e2e.resend", "connection %s: the request stream has a record that is not a call: %s", e.l.name, hx(r))
			continue
		}
		if xids[c.Xid] {
			w.Fail("e2e.resend", "connection %s: two requests with transaction id %d", e.l.name, c.Xid)
		}
		xids[c.Xid] = true
		if c.Proc == opTake || c.Proc == opPeek {
			if anon--; anon < 0 {
				w.Fail("e2e.resend", "connection %s: more requests than calls", e.l.name)
			}
			continue
		}
		id := binary.BigEndian.Uint32(args[4:])
		o := s.ops[id]
		if o == nil || o.link != e || o.xid != 0 || c.Proc != o.arg.op {
			w.Fail("e2e.resend", "connection %s: operation %d was requested again (xid %d)", e.l.name, id, c.Xid)
			continue
		}
		o.xid = c.Xid
	}
}

type linIn struct {
	op, key, id uint32
	unknown     bool
}

// part is the independent object the operation is on.
func (o *e2eOp) part() uint32 {
	if o.anon {
		return o.arg.key + 2
	}
	return o.arg.key
}

var listModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[uint32][]porcupine.Operation{}
		var r [][]porcupine.Operation
		for _, o := range h {
			by[o.Input.(linIn).key] = append(by[o.Input.(linIn).key], o)
		}
		for k := uint32(0); k < 4; k++ {
			if len(by[k]) > 0 {
				r = append(r, by[k])
			}
		}
		return r
	},
	Init: func() any { return "" },
	Step: func(st, in, out any) (bool, any) {
		l, i := st.(string), in.(linIn)
		if i.op == opTake || i.op == opPeek {
			c, _ := strconv.Atoi(l)
			next := c
			if i.op == opTake {
				next++
			}
			return i.unknown || out.(string) == strconv.Itoa(c), strconv.Itoa(next)
		}
		n := len(strings.Fields(l))
		res, next := l, l
		if i.op == opAppend || i.op == opCond && n%2 == 0 {
			res = strings.TrimSpace(l + " " + fmt.Sprint(i.id))
			next = res
		} else if i.op == opReset {
			next = ""
		}
		return i.unknown || out.(string) == res, next
	},
}

func (s *e2eRun) judge() {
	w := s.w
	var h []porcupine.Operation
	end := int64(s.seq + 10)
	for _, o := range s.order {
		p := porcupine.Operation{ClientId: o.client, Input: linIn{o.arg.op, o.part(), o.arg.id, false}, Call: int64(o.inv), Output: o.res, Return: int64(o.ret)}
		if !o.done || o.err != nil {
			// It may have taken effect, at any time after it began.
			if o.execs == 0 && !o.anon {
				continue
			}
			p.Input = linIn{o.arg.op, o.part(), o.arg.id, true}
			p.Return = end
			end++
			w.Count("e2e.failed_but_executed")
		} else if !o.anon && o.res != o.execRes {
			w.Fail("e2e.wrong-result", "client %d: operation %d got [%s], the service had answered [%s]", o.client, o.arg.id, o.res, o.execRes)
		}
		h = append(h, p)
	}
	takes := 0
	for _, o := range s.order {
		if o.arg.op == opTake {
			takes++
		}
	}
	if s.takes > takes {
		w.Fail("e2e.exec-twice", "%d executions of %d calls", s.takes, takes)
	}
	if len(w.Viol) > 0 || len(h) == 0 {
		return
	}
	w.Count("e2e.histories_checked")
	if !porcupine.CheckOperations(listModel, h) {
		var d []string
		for _, o := range s.order {
			d = append(d, fmt.Sprintf("[%d,%d] client %d op %d key %d id %d err=%v -> %s", o.inv, o.ret, o.client, o.arg.op, o.arg.key, o.arg.id, o.err, o.res))
		}
		w.Fail("e2e.not-linearizable", "no sequential order explains the results: %s", strings.Join(d, "; "))
	}
}
