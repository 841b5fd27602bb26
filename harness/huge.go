package harness

import (
	"encoding/binary"
	"io"
	"runtime/debug"
	"syscall"

	"verif/ref"
	"verif/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// A record's length has 31 bits. Calls and results just beyond it can be
// encoded on a machine with memory enough, but not sent. There are few such
// runs, by the driver's order (see hugeTape in cmd/vrun): each costs
// gigabytes.

type zeros struct{ b []byte }

func (z *zeros) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &z.b) }

// countRW is a transport that keeps only the beginning of what is written.
type countRW struct {
	w    *sim.World
	in   []byte
	end  bool
	n    int
	head []byte
	sent func()
}

func (c *countRW) Read(b []byte) (int, error) {
	sim.Block("net.Read huge", func() bool { return len(c.in) > 0 || c.end })
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *countRW) Write(b []byte) (int, error) {
	sim.Yield("net.Write huge")
	c.n += len(b)
	c.head = append(c.head, b[:min(len(b), 1<<16-min(len(c.head), 1<<16))]...)
	if c.sent != nil {
		c.sent()
	}
	return len(b), nil
}

func hugeScenario(w *sim.World, mode int) string {
	n := 1<<31 - []int{0, 4, 8}[w.Draw("huge", 3)] + 4*w.Draw("huge", 200)
	z, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return "huge/no-memory"
	}
	defer debug.FreeOSMemory()
	defer syscall.Munmap(z)
	w.MaxY = 1 << 30
	w.Count("fault.over_31bit_record")
	rw := &countRW{w: w}
	if mode == 1 {
		rw.sent = func() {
			recs, _, _ := frame(rw.head)
			if len(recs) == 1 && len(rw.in) == 0 {
				if c, args, err := ref.DecodeCall(recs[0]); err == nil && len(args) < 100 {
					r := ref.Reply{Xid: c.Xid, Data: ref.PutOpaque(nil, []byte{1, 2, 3})}
					rw.in = append(rw.in, ref.Record(r.Encode())...)
					rw.end = true
				}
			}
		}
		done := false
		w.Go("client huge", func() {
			cl := rfc1057.MakeClient(rw, 7, 1)
			var res zeros
			err := cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &zeros{z}, &res)
			if err == nil || rw.n > 0 {
				w.Fail("cli.unencodable-sent", "a call with %d bytes of arguments does not fit in a record; Call returned %v, %d bytes were sent: %s", n, err, rw.n, hx(rw.head[:min(64, len(rw.head))]))
				done = true
				return
			}
			debug.FreeOSMemory()
			err = cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &zeros{[]byte{4}}, &res)
			if err != nil || string(res.b) != "\x01\x02\x03" {
				w.Fail("cli.good-reply-refused", "after a call whose arguments were too large: %v, %s", err, hx(res.b))
			}
			done = true
		})
		if w.Run(nil) && !done {
			rw.end = true
			w.Fail("cli.hang", "the call does not return")
			w.Run(nil)
		}
		return "huge/client"
	}
	srv := rfc1057.MakeServer()
	srv.Register(7, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var a zeros
		a.Xdr(args)
		if len(a.b) == 1 {
			return &zeros{z}, args.Error()
		}
		return &a, args.Error()
	})
	call := func(xid uint32, a []byte) []byte {
		c := ref.Call{Xid: xid, Rpcvers: 2, Prog: 7, Vers: 1, Proc: 1}
		return ref.Record(append(c.Encode(), ref.PutOpaque(nil, a)...))
	}
	rw.in = call(5, []byte{9})
	w.Go("run huge", func() { srv.Run(rw) })
	if !w.Run(nil) {
		return "huge/server"
	}
	first := rw.n
	rw.in = append(rw.in, call(6, []byte{1, 2, 3, 4})...)
	if !w.Run(nil) {
		return "huge/server"
	}
	rw.end = true
	if !w.Run(nil) {
		return "huge/server"
	}
	recs, rest, _ := frame(rw.head)
	if first > 1000 || len(rest) > 0 || rw.n != len(rw.head) {
		h := rw.head[:min(64, len(rw.head))]
		l := uint32(0)
		if len(h) >= 4 {
			l = binary.BigEndian.Uint32(h)
		}
		w.Fail("srv.torn-stream", "a result of %d bytes does not fit in a record, yet %d bytes were written, behind a header of %#x: %s", n, first, l, hx(h))
		return "huge/server"
	}
	if len(recs) != 2 {
		w.Fail("srv.missing-error-reply", "%d replies to a call with a result of %d bytes and one with a small one", len(recs), n)
		return "huge/server"
	}
	for i, b := range recs {
		r, err := ref.DecodeReply(b)
		switch {
		case err != nil:
			w.Fail("srv.malformed-reply", "%s", hx(b))
		case r.Xid != uint32(5+i):
			w.Fail("srv.extra-reply", "xid %d", r.Xid)
		case i == 0 && !r.V.Denied && r.V.Stat == ref.Success:
			w.Fail("srv.wrong-status", "a result of %d bytes that cannot be sent: success with %s", n, hx(r.Data))
		case i == 1 && (r.V.Denied || r.V.Stat != ref.Success || string(r.Data) != string(ref.PutOpaque(nil, []byte{1, 2, 3, 4}))):
			w.Fail("srv.wrong-status", "the call after one whose result was too large: %+v %s", r.V, hx(r.Data))
		}
	}
	return "huge/server"
}
