package harness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"verif/sim"
)

// netErr is an error as package net has them.
type netErr struct {
	msg           string
	timeout, temp bool
	is            []error
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temp }
func (e *netErr) Is(t error) bool {
	for _, x := range e.is {
		if t == x {
			return true
		}
	}
	return false
}

var (
	errReset   error = &netErr{msg: "simnet: connection reset by peer", is: []error{syscall.ECONNRESET}}
	errClosed  error = &netErr{msg: "simnet: use of closed connection", is: []error{net.ErrClosed}}
	errTimeout error = &netErr{msg: "simnet: i/o timeout", timeout: true, temp: true, is: []error{os.ErrDeadlineExceeded}}
	errIO      error = errors.New("simnet: i/o error")
)

// drawErr draws the error of a failing transfer.
func drawErr(w *sim.World, st string, write bool) error {
	l := []error{errTimeout, errIO, errReset, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, io.ErrUnexpectedEOF, io.ErrShortWrite}
	if !write {
		l[8] = io.ErrNoProgress
	}
	return l[w.Draw(st, len(l))]
}

// Chunk modes: how a transfer is cut into pieces.
const (
	chWhole = iota
	chByte
	chSmall
	chAny
)

// LinkCfg is the behaviour of one simulated connection.
type LinkCfg struct {
	Lat, Jit    int64
	ReadChunk   int
	WriteChunk  int
	SegChunk    int // segmentation of what an event-driven peer sends
	Window      int // bytes in flight per direction before a writer blocks
	Atomic      bool
	ZeroReads   bool
	EOFWithData bool
}

func (c LinkCfg) String() string {
	return fmt.Sprintf("lat=%d+%d read=%d write=%d seg=%d win=%d atomic=%v zero=%v eofdata=%v",
		c.Lat, c.Jit, c.ReadChunk, c.WriteChunk, c.SegChunk, c.Window, c.Atomic, c.ZeroReads, c.EOFWithData)
}

// coarse makes transfers of at least moderate size.
func (c *LinkCfg) coarse() {
	for _, p := range []*int{&c.ReadChunk, &c.WriteChunk, &c.SegChunk} {
		if *p == chByte || *p == chSmall {
			*p = chAny
		}
	}
}

// drawLink draws a connection's behaviour. The all-zero draw is the plain
// one: no latency, whole transfers, atomic writes.
func drawLink(w *sim.World, st string) LinkCfg {
	c := LinkCfg{Atomic: true, Window: 1 << 30}
	switch w.Draw(st, 4) {
	case 1:
		c.Lat, c.Jit = 5000, 20000
	case 2:
		c.Lat, c.Jit = 100000, 1000000
	case 3:
		c.Lat, c.Jit = 1000, 100000000
	}
	c.ReadChunk = w.Draw(st, 4)
	c.WriteChunk = w.Draw(st, 4)
	c.SegChunk = w.Draw(st, 4)
	switch w.Weighted(st, 4, 2, 1, 1) {
	case 1:
		c.Window = 4096
	case 2:
		c.Window = 1 + w.Draw(st, 64)
	case 3:
		c.Window = 1
	}
	c.Atomic = w.Draw(st, 2) == 0
	c.ZeroReads = w.Chance(st, 1, 4)
	c.EOFWithData = w.Chance(st, 1, 2)
	return c
}

// pipe is one direction of a link.
type pipe struct {
	w        *sim.World
	name     string
	st       string // draw stream
	cfg      *LinkCfg
	q        []byte // arrived at the reader, not yet read
	inflight int
	lastAt   int64
	fin      bool // the reader has seen end of stream (after q)
	rerr     error
	werr     error // set: writes fail
	finSent  bool
	wrote    int // bytes accepted from the writer
	read     int // bytes handed to the reader
	arrived  int // bytes that reached the reader's side
	all      []byte
	sink     func([]byte)
	onSend   func()
	paused   bool

	// planned faults, by byte offset
	wfault *fault // write error after wfault.at bytes were accepted
	rfault *fault // read error after rfault.at bytes were handed out
	flips  map[int]byte
}

type fault struct {
	at     int
	err    error
	sticky bool
	under  bool // a failing write reports that nothing of it went out
	fired  bool
	hook   func() // e.g. reset the link
}

func (p *pipe) space() int { return p.cfg.Window - p.inflight - len(p.q) }

func (p *pipe) chunk(mode, n int) int {
	switch mode {
	case chByte:
		return 1
	case chSmall:
		if n > 1 {
			return 1 + p.w.Draw(p.st, min(n, 9))
		}
	case chAny:
		if n > 1 {
			return n - p.w.Draw(p.st, n)
		}
	}
	return n
}

func (p *pipe) send(b []byte) {
	b = append([]byte(nil), b...)
	for i := range b {
		if x, ok := p.flips[p.wrote+i]; ok {
			b[i] ^= x
			p.w.Count("fault.byte_corrupted")
			p.w.Logf("%s: byte %d corrupted", p.name, p.wrote+i)
		}
	}
	p.wrote += len(b)
	p.all = append(p.all, b...)
	if p.onSend != nil {
		p.onSend()
	}
	at := p.w.Now() + p.cfg.Lat
	if p.cfg.Jit > 0 {
		at += int64(p.w.Draw(p.st, 1000)) * (p.cfg.Jit / 1000)
	}
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	p.inflight += len(b)
	p.w.Count("net.segments")
	if at == p.w.Now() {
		p.arrive(b)
		return
	}
	p.w.After(at-p.w.Now(), func() { p.arrive(b) })
}

func (p *pipe) arrive(b []byte) {
	p.inflight -= len(b)
	if p.rerr != nil {
		return
	}
	p.arrived += len(b)
	p.q = append(p.q, b...)
	p.drain()
}

func (p *pipe) drain() {
	if p.sink != nil && !p.paused && len(p.q) > 0 {
		b := p.q
		p.q = nil
		p.read += len(b)
		p.sink(b)
	}
}

func (p *pipe) resume() {
	p.paused = false
	p.drain()
}

func (p *pipe) sendFin() {
	if p.finSent {
		return
	}
	p.finSent = true
	at := max(p.lastAt, p.w.Now()+p.cfg.Lat)
	p.lastAt = at
	p.w.After(at-p.w.Now(), func() {
		p.w.Logf("%s: end of stream", p.name)
		p.fin = true
	})
}

// end is what the code under test holds: an io.ReadWriter.
type end struct {
	w       *sim.World
	name    string
	in, out *pipe
	cfg     *LinkCfg
	wbusy   bool
	writers int
	closed  bool
	l       *link
	zeros   int
}

func (e *end) Read(b []byte) (int, error) {
	w := e.w
	if len(b) == 0 {
		return 0, nil
	}
	p := e.in
	if !sim.Block("net.Read "+e.name, func() bool {
		return len(p.q) > 0 || p.fin || p.rerr != nil || e.closed || p.rfault != nil && p.rfault.at == p.read && (!p.rfault.fired || p.rfault.sticky)
	}) {
		return 0, errClosed
	}
	if e.closed {
		return 0, errClosed
	}
	if f := p.rfault; f != nil && f.at <= p.read && (!f.fired || f.sticky) {
		f.fired = true
		w.Count("fault.read_error")
		w.Logf("%s: read fails after %d bytes: %v", e.name, p.read, f.err)
		if f.hook != nil {
			f.hook()
		}
		return 0, f.err
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	if len(p.q) == 0 {
		return 0, io.EOF
	}
	if e.cfg.ZeroReads && e.zeros == 0 && w.Chance(p.st, 1, 8) {
		e.zeros = 1
		if w.Chance(p.st, 1, 8) {
			// Many in a row, but fewer than a bufio.Reader puts up with.
			w.Count("net.zero_read_series")
			e.zeros += w.Draw(p.st, 60)
		}
	}
	if e.zeros > 0 {
		if e.zeros--; e.zeros == 0 {
			e.zeros = -1 // now there is something
		}
		w.Count("net.zero_read")
		return 0, nil
	}
	e.zeros = 0
	n := p.chunk(e.cfg.ReadChunk, min(len(b), len(p.q)))
	if f := p.rfault; f != nil && !f.fired && p.read+n > f.at {
		n = f.at - p.read
	}
	copy(b, p.q[:n])
	p.q = p.q[n:]
	p.read += n
	if w.Verbose {
		w.Logf("%s: read %d/%d bytes: %x", e.name, n, len(b), b[:min(n, 64)])
	}
	if len(p.q) == 0 && p.fin && e.cfg.EOFWithData {
		w.Count("net.eof_with_data")
		return n, io.EOF
	}
	return n, nil
}

func (e *end) Write(b []byte) (int, error) {
	w := e.w
	p := e.out
	sim.Yield("net.Write " + e.name)
	if w.Killing() {
		return 0, errClosed
	}
	if e.cfg.Atomic {
		if e.wbusy && !sim.Block("net.Write lock "+e.name, func() bool { return !e.wbusy }) {
			return 0, errClosed
		}
		e.wbusy = true
		defer func() { e.wbusy = false }()
	} else if e.writers > 0 {
		w.Count("net.overlapping_writes")
	}
	e.writers++
	defer func() { e.writers-- }()
	n := 0
	for n < len(b) {
		if p.space() <= 0 {
			w.Count("net.write_blocked")
		}
		if !sim.Block("net.Write space "+e.name, func() bool {
			return p.space() > 0 || p.werr != nil || e.closed || p.wfault != nil && p.wrote >= p.wfault.at && (!p.wfault.fired || p.wfault.sticky)
		}) {
			return n, errClosed
		}
		if e.closed {
			return n, errClosed
		}
		if f := p.wfault; f != nil && p.wrote >= f.at && (!f.fired || f.sticky) {
			f.fired = true
			w.Count("fault.write_error")
			w.Logf("%s: write fails after %d bytes (%d of this write): %v", e.name, p.wrote, n, f.err)
			if f.hook != nil {
				f.hook()
			}
			if f.under && n > 0 {
				w.Count("fault.write_underreported")
				return 0, f.err
			}
			return n, f.err
		}
		if p.werr != nil {
			return n, p.werr
		}
		k := p.chunk(e.cfg.WriteChunk, min(len(b)-n, p.space()))
		if f := p.wfault; f != nil && !f.fired && p.wrote+k > f.at {
			k = f.at - p.wrote
		}
		if w.Verbose {
			w.Logf("%s: write %d/%d bytes: %x", e.name, k, len(b)-n, b[n:n+min(k, 64)])
		}
		p.send(b[n : n+k])
		n += k
	}
	sim.Yield("net.Write done " + e.name)
	return n, nil
}

func (e *end) Close() error {
	if !e.closed {
		e.closed = true
		e.w.Logf("%s: closed locally", e.name)
		e.out.sendFin()
	}
	return nil
}

// link is a simulated connection between ends a and b. Either end may be
// driven by events instead of by code under test (see pipe.sink, peerSend).
type link struct {
	w      *sim.World
	name   string
	cfg    LinkCfg
	ab, ba *pipe
	a, b   *end
	reset  bool
}

func newLink(w *sim.World, name string, cfg LinkCfg) *link {
	l := &link{w: w, name: name, cfg: cfg}
	l.ab = &pipe{w: w, name: name + ">", st: "net/" + name + ">", cfg: &l.cfg}
	l.ba = &pipe{w: w, name: name + "<", st: "net/" + name + "<", cfg: &l.cfg}
	l.a = &end{w: w, name: name + ".a", in: l.ba, out: l.ab, cfg: &l.cfg, l: l}
	l.b = &end{w: w, name: name + ".b", in: l.ab, out: l.ba, cfg: &l.cfg, l: l}
	w.Logf("link %s: %v", name, cfg)
	return l
}

// Reset kills the connection: data in flight is lost, both ends see errors.
func (l *link) Reset() {
	if l.reset {
		return
	}
	l.reset = true
	l.w.Count("fault.reset")
	l.w.Logf("link %s: reset", l.name)
	for _, p := range []*pipe{l.ab, l.ba} {
		p.rerr, p.werr = errReset, errReset
		if p.sink == nil {
			p.q = nil
		}
	}
}

// peerSend transmits b on pipe p from an event-driven peer, cut into segments.
func (p *pipe) peerSend(b []byte) {
	for len(b) > 0 {
		n := p.chunk(p.cfg.SegChunk, len(b))
		if p.cfg.SegChunk == chByte && len(b) > 600 {
			n = min(len(b), 1+p.w.Draw(p.st, 64))
		}
		p.send(b[:n])
		b = b[n:]
	}
}
