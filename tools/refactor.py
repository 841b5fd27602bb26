#!/usr/bin/env python3
"""refactor.py [ID...]: behaviour-preserving edits of /repo, validated in a scratch copy and written to /tmp/rf/<id>/patch.diff
(run them with try.sh -d /tmp/rf -p 'C01 C02 ...'). Every check has to stay quiet on them."""
import sys, os, subprocess, shutil
W='/tmp/plant/rrepo'
os.environ.update(PATH='/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=readonly')
def sh(c, cwd=W): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
S='rfc1057/server.go'; C='rfc1057/client.go'; R='rfc1057/record.go'; L='xdr/lib.go'; O='out.go'; M='main.go'; SC='scan.go'; X='rfc1813/xdr.go'
RF=[]
def add(id, *edits): RF.append((id,edits))
add('channel-dispatch',(S,'''	for {
		var hdr [4]byte
''','''	reqs := make(chan []byte)
	defer close(reqs)
	go func() {
		for buf := range reqs {
			go sc.handleReq(buf)
		}
	}()

	for {
		var hdr [4]byte
'''),(S,'''		go sc.handleReq(buf)
	}
}
''','''		reqs <- buf
	}
}
'''))
add('server-split',(S,'''	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}

		hlen := binary.BigEndian.Uint32(hdr[:])
		if hlen&(1<<31) == 0 {
			return fmt.Errorf("fragments not supported")
		}

		buflen := int(hlen & 0x7fffffff)
		buf, err := readBody(sc.rw, getReqBuf(bodyStart(buflen)), buflen)
		if err != nil {
			return err
		}

		go sc.handleReq(buf)
	}
}
''','''	for {
		buf, err := sc.next()
		if err != nil {
			return err
		}

		go sc.handleReq(buf)
	}
}

// next reads one record.
func (sc *serverConn) next() ([]byte, error) {
	hdr := make([]byte, 4)
	if _, err := io.ReadFull(sc.rw, hdr); err != nil {
		return nil, err
	}

	hlen := uint32(hdr[3]) | uint32(hdr[2])<<8 | uint32(hdr[1])<<16 | uint32(hdr[0])<<24
	if hlen>>31 == 0 {
		return nil, errors.New("fragments not supported")
	}

	n := int(hlen &^ (1 << 31))
	return readBody(sc.rw, getReqBuf(bodyStart(n)), n)
}
'''),(S,'''import (
	"encoding/binary"
''','''import (
	"encoding/binary"
	"errors"
'''))
add('lookup-helper',(S,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_UNAVAIL
			goto reply
		}

		procmap, verok := vermap[req.Body.Cbody.Vers]
		if !verok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
			mismatch := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
			mismatch.Low = math.MaxUint32
			for v := range vermap {
				if v < mismatch.Low {
					mismatch.Low = v
				}
				if v > mismatch.High {
					mismatch.High = v
				}
			}
			goto reply
		}

		h, procok := procmap[req.Body.Cbody.Proc]
		if !procok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL
			goto reply
		}

		resdata, err = h(rd)
		if err != nil {
			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
		}

		res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS
	}
''','''		data := &res.Body.Rbody.Areply.Reply_data
		var h ProcHandler
		h, data.Stat = sc.s.lookup(&req.Body.Cbody, &res.Body.Rbody.Areply)
		if h != nil {
			resdata, err = h(rd)
			if err != nil {
				resdata = nil
				data.Stat = GARBAGE_ARGS
			}
		}
	}
'''),(S,'''	} else {
		res.Body.Rbody.Stat = MSG_ACCEPTED
''','''	} else if res.Body.Rbody.Stat = MSG_ACCEPTED; true {
'''),(S,'''func (sc *serverConn) handleReqErr(''','''// lookup finds the handler for a call, or says why there is none.
func (s *Server) lookup(call *Call_body, reply *Accepted_reply) (ProcHandler, Accept_stat) {
	vermap, ok := s.handlers[call.Prog]
	if !ok {
		return nil, PROG_UNAVAIL
	}

	procmap, ok := vermap[call.Vers]
	if !ok {
		lo, hi := uint32(math.MaxUint32), uint32(0)
		for v := range vermap {
			if lo > v {
				lo = v
			}
			if hi < v {
				hi = v
			}
		}
		reply.Reply_data.Mismatch_info.Low, reply.Reply_data.Mismatch_info.High = lo, hi
		return nil, PROG_MISMATCH
	}

	h, ok := procmap[call.Proc]
	if !ok {
		return nil, PROC_UNAVAIL
	}
	return h, SUCCESS
}

func (sc *serverConn) handleReqErr('''))
add('flat-table',(S,'''	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''	mu       sync.RWMutex
	handlers map[procKey]ProcHandler
	vers     map[uint32][]uint32
}

type procKey struct{ prog, vers, proc uint32 }
'''),(S,'''		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),
''','''		handlers: make(map[procKey]ProcHandler),
		vers:     make(map[uint32][]uint32),
'''),(S,'''	_, progok := s.handlers[prog]
	if !progok {
		s.handlers[prog] = make(map[uint32]map[uint32]ProcHandler)
	}

	_, versok := s.handlers[prog][vers]
	if !versok {
		s.handlers[prog][vers] = make(map[uint32]ProcHandler)
	}

	s.handlers[prog][vers][proc] = handler
}
''','''	s.mu.Lock()
	defer s.mu.Unlock()

	s.handlers[procKey{prog, vers, proc}] = handler
	for _, v := range s.vers[prog] {
		if v == vers {
			return
		}
	}
	s.vers[prog] = append(s.vers[prog], vers)
}
'''),(S,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {
''','''		sc.s.mu.RLock()
		versions := sc.s.vers[req.Body.Cbody.Prog]
		h, procok := sc.s.handlers[procKey{req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc}]
		sc.s.mu.RUnlock()
		verok := false
		for _, v := range versions {
			verok = verok || v == req.Body.Cbody.Vers
		}
		if len(versions) == 0 {
'''),(S,'''		procmap, verok := vermap[req.Body.Cbody.Vers]
		if !verok {
''','''		if !verok {
'''),(S,'''			for v := range vermap {
''','''			for _, v := range versions {
'''),(S,'''		h, procok := procmap[req.Body.Cbody.Proc]
		if !procok {
''','''		if !procok {
'''))
add('buffered-server',(S,'''		s:  s,
		rw: rw,
	}
''','''		s:  s,
		rw: rw,
		br: bufio.NewReader(rw),
	}
'''),(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter
	br *bufio.Reader
'''),(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
''','''		_, err := io.ReadFull(sc.br, hdr[:])
'''),(S,'readBody(sc.rw, get','readBody(sc.br, get'),(S,'''import (
''','''import (
	"bufio"
'''))
add('buffered-client',(C,'''	rw   io.ReadWriter
	xid ''','''	rw   io.ReadWriter
	br   *bufio.Reader
	xid '''),(C,'''		rw:   rw,
''','''		rw:   rw,
		br:   bufio.NewReaderSize(rw, 512),
'''),(C,'io.ReadFull(c.rw, hdr[:])','io.ReadFull(c.br, hdr[:])'),(C,'readBody(c.rw, nil','readBody(c.br, nil'),(C,'''import (
''','''import (
	"bufio"
'''))
add('writer-goroutine',(S,'''	defer putReqBuf(buf)

''',''),(S,'''	wmu  sync.Mutex
	werr error
}
''','''	wmu    sync.Mutex
	queue  [][]byte
	active bool
	werr   error
}
'''),(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()

	if sc.werr != nil {
		return sc.werr
	}

	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr
}
''','''	sc.wmu.Lock()
	defer sc.wmu.Unlock()

	if sc.werr != nil {
		return sc.werr
	}

	sc.queue = append(sc.queue, wbuf)
	if !sc.active {
		sc.active = true
		go sc.flush()
	}
	return nil
}

// flush writes the queued replies, one after the other.
func (sc *serverConn) flush() {
	sc.wmu.Lock()
	for len(sc.queue) > 0 && sc.werr == nil {
		wbuf := sc.queue[0]
		sc.queue = sc.queue[1:]
		sc.wmu.Unlock()
		_, err := sc.rw.Write(wbuf)
		sc.wmu.Lock()
		sc.werr = err
	}
	sc.active = false
	sc.wmu.Unlock()
}
'''))
add('copyn-body',(R,'''	have := 0
	for {
		next := 2 * have
		if next < readAhead {
			next = readAhead
		}
		if next < cap(buf) {
			next = cap(buf)
		}
		if next > n {
			next = n
		}

		if next > cap(buf) {
			grown := make([]byte, next)
			copy(grown, buf[:have])
			buf = grown
		}

		buf = buf[:next]
		_, err := io.ReadFull(r, buf[have:])
		if err == io.EOF {
			// The record has begun, so its end is not expected here.
			err = io.ErrUnexpectedEOF
		}
		if err != nil {
			return nil, err
		}

		if next == n {
			return buf, nil
		}
		have = next
	}
}
''','''	b := bytes.NewBuffer(buf[:0])
	_, err := io.CopyN(b, r, int64(n))
	if err == io.EOF {
		// The record has begun, so its end is not expected here.
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}
'''),(R,'''import (
''','''import (
	"bytes"
'''))
add('client-split',(C,'''func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) error {
	if c.err != nil {
		return c.err
	}

	c.xid++
''','''// call writes a request record and reads a reply record.
func (c *Client) roundTrip(msg []byte) (buf []byte, err error) {
	defer func() { c.err = err }()

	var out bytes.Buffer
	binary.Write(&out, binary.BigEndian, uint32(len(msg))|1<<31)
	out.Write(msg)
	if _, err = c.rw.Write(out.Bytes()); err != nil {
		return nil, err
	}

	var hlen uint32
	var hdr [4]byte
	if _, err = io.ReadFull(c.rw, hdr[:]); err != nil {
		return nil, err
	}
	for _, b := range hdr {
		hlen = hlen<<8 + uint32(b)
	}
	if hlen < 1<<31 {
		return nil, fmt.Errorf("fragments not supported")
	}

	return readBody(c.rw, nil, int(hlen-1<<31))
}

func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) error {
	c.mu.Lock()
	defer c.mu.Unlock()

	if c.err != nil {
		return c.err
	}

	c.xid++
'''),(C,'''	wbuf := wr.WriteBuf()
	if len(wbuf) > maxRecord {
		return fmt.Errorf("call of %d bytes does not fit in a record", len(wbuf))
	}

	var hdr [4]byte
	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
		c.err = err
		return err
	}

	_, err = io.ReadFull(c.rw, hdr[:])
	if err != nil {
		c.err = err
		return err
	}

	hlen := binary.BigEndian.Uint32(hdr[:])
	if hlen&(1<<31) == 0 {
		c.err = fmt.Errorf("fragments not supported")
		return c.err
	}

	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
	if err != nil {
		c.err = err
		return err
	}
''','''	if n := len(wr.WriteBuf()); n > maxRecord {
		return fmt.Errorf("call of %d bytes does not fit in a record", n)
	}

	buf, err := c.roundTrip(wr.WriteBuf())
	if err != nil {
		return err
	}
'''),(C,'''	prog uint32
	vers uint32

''','''	prog uint32
	vers uint32
	mu   sync.Mutex

'''),(C,'''import (
	"encoding/binary"
	"fmt"
	"io"
''','''import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"sync"
'''))
add('codec-helpers',(L,'''	var buf [4]byte
	if xs.Encoding() {
		binary.BigEndian.PutUint32(buf[:], *v)
	}
	xdrRW(xs, buf[:])
	if xs.Decoding() {
		*v = binary.BigEndian.Uint32(buf[:])
	}
}
''','''	if !xs.reader {
		x := *v
		xs.buf = append(xs.buf, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		return
	}

	b := xdrR(xs, 4)
	if b != nil {
		*v = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	}
}
'''),(L,'''	var buf [4]byte
	if xs.Encoding() {
		binary.BigEndian.PutUint32(buf[:], uint32(*v))
	}
	xdrRW(xs, buf[:])
	if xs.Decoding() {
		*v = int32(binary.BigEndian.Uint32(buf[:]))
	}
}
''','''	u := uint32(*v)
	XdrU32(xs, &u)
	if xs.Decoding() {
		*v = int32(u)
	}
}
'''),(L,'''		if *v {
			binary.BigEndian.PutUint32(buf[:], 1)
		} else {
			binary.BigEndian.PutUint32(buf[:], 0)
		}
''','''		if *v {
			buf[3] = 1
		}
'''),(L,'''		r := binary.BigEndian.Uint32(buf[:])
		if r == 0 {
			*v = false
		} else {
			*v = true
		}
''','''		*v = buf != [4]byte{}
'''),(L,'''		xdrRW(xs, []byte(*v))
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		xs.buf = append(xs.buf, *v...)
		xdrPad(xs, len(*v))
'''),(L,'''	if len(*v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
	}
}

func XdrArray''','''	xdrPad(xs, len(*v))
}

// xdrPad reads or writes the padding after n bytes.
func xdrPad(xs *XdrState, n int) {
	var pad [3]byte
	xdrRW(xs, pad[:-n&3])
}

func XdrArray'''))
add('codec-offset',(L,'''	// buf has the data to be read (or already written)
	buf []byte
''','''	// buf has the data to be read (or already written)
	buf []byte

	// off is how much of buf has been read
	off int
'''),(L,'''		n := copy(v, xs.buf)
		xs.buf = xs.buf[n:]
''','''		n := copy(v, xs.buf[xs.off:])
		xs.off += n
'''),(L,'''	if len(xs.buf) < n {
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, have %d", n, len(xs.buf))
	}
''','''	if have := len(xs.buf) - xs.off; have < n {
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, have %d", n, have)
	}
'''),(L,'''	res := xs.buf[:n:n]
	xs.buf = xs.buf[n:]
	return res
''','''	from := xs.off
	xs.off += n
	return xs.buf[from:xs.off:xs.off]
'''))
add('pool-of-pointers',(S,'''	bufi := reqBufPool.Get()
	if bufi != nil {
		buf := bufi.([]byte)
		if buflen <= cap(buf) {
			return buf[:buflen]
		}
	}

	return make([]byte, buflen)
}
''','''	if bufp, ok := reqBufPool.Get().(*[]byte); ok && cap(*bufp) >= buflen {
		return (*bufp)[:buflen]
	}

	return make([]byte, buflen)
}
'''),(S,'''	reqBufPool.Put(s)
''','''	if cap(s) <= 1<<16 {
		reqBufPool.Put(&s)
	}
'''))
add('no-pool',(S,'''	bufi := reqBufPool.Get()
	if bufi != nil {
		buf := bufi.([]byte)
		if buflen <= cap(buf) {
			return buf[:buflen]
		}
	}

	return make''','''	return make'''),(S,'''	reqBufPool.Put(s)
''',''),(S,'''var reqBufPool sync.Pool
''',''))
add('stats',(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	began time.Time
	calls uint64
'''),(S,'''		s:  s,
		rw: rw,
''','''		s:     s,
		rw:    rw,
		began: time.Now(),
'''),(S,'''	defer putReqBuf(buf)
''','''	defer putReqBuf(buf)
	atomic.AddUint64(&sc.calls, 1)
	defer func() { _ = time.Since(sc.began) }()
'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
	"time"
'''))
add('waitgroup-helpers',(S,'''		go sc.handleReq(buf)
''','''		var started sync.WaitGroup
		started.Add(1)
		go func(buf []byte) {
			started.Done()
			sc.handleReq(buf)
		}(buf)
		started.Wait()
'''))
add('reply-loop',(S,'''	wr := xdr.MakeWriter(reserveLen[:])
	res.Xdr(wr)
	err = wr.Error()
	if err != nil {
		return err
	}

	if resdata != nil {
		resdata.Xdr(wr)
		err = wr.Error()
		if n :=''','''	wr := xdr.MakeWriter(append(make([]byte, 0, 256), reserveLen[:]...))
	for _, part := range []xdr.Xdrable{&res, resdata} {
		if part == nil {
			continue
		}
		part.Xdr(wr)
		err = wr.Error()
		if err != nil && part != resdata {
			return err
		}
		if n :='''))
add('wrapper-reorder',(X,'''func (w *NFS_PROGRAM_NFS_V3_handler_wrapper) NFSPROC3_NULL(''','''// The wrappers decode the arguments and run the handler.

func (w *NFS_PROGRAM_NFS_V3_handler_wrapper) NFSPROC3_NULL('''),(X,'''	case UNCHECKED:
		fallthrough
	case GUARDED:
		(*Sattr3)(&((v).Obj_attributes)).Xdr(xs)
	case EXCLUSIVE:
		(*Createverf3)(&((v).Verf)).Xdr(xs)
	}
''','''	case EXCLUSIVE:
		(*Createverf3)(&((v).Verf)).Xdr(xs)
	case UNCHECKED, GUARDED:
		(*Sattr3)(&v.Obj_attributes).Xdr(xs)
	}
'''))
add('keyword-table',(SC,'''		switch lit {
		case "typedef":
			return KWTYPEDEF

		case "enum":
			return KWENUM

		case "union":
			return KWUNION

		case "void":
			return KWVOID

''','''		if kw, ok := keywords[lit]; ok {
			return kw
		}

		switch lit {
'''),(SC,'''const eof = 0
''','''const eof = 0

var keywords = map[string]int{
	"typedef": KWTYPEDEF,
	"enum":    KWENUM,
	"union":   KWUNION,
	"void":    KWVOID,
}
'''))
add('emit-helper',(O,'''	fmt.Fprintf(out, "func (v *%s) Xdr(xs *xdr.XdrState) {\\n", i(ident))
	fmt.Fprintf(out, "%s", val.goXdr("v"))
	fmt.Fprintf(out, "}\\n")
''','''	emitMethod(ident, val.goXdr("v"))
'''),(O,'''	fmt.Fprintf(out, "func (v *%s) Xdr(xs *xdr.XdrState) {\\n", i(ident))
	fmt.Fprintf(out, "%s", typeStruct{val}.goXdr("v"))
	fmt.Fprintf(out, "}\\n")
}
''','''	emitMethod(ident, typeStruct{val}.goXdr("v"))
}

// emitMethod emits the Xdr method of a type.
func emitMethod(ident string, body string) {
	var b strings.Builder
	b.WriteString("func (v *")
	b.WriteString(i(ident))
	b.WriteString(") Xdr(xs *xdr.XdrState) {\\n")
	b.WriteString(body)
	b.WriteString("}\\n")
	io.WriteString(out, b.String())
}
'''),(O,'''	"fmt"
''','''	"fmt"
	"io"
'''))
add('union-commas',(O,'''		for idx, cval := range c.cases {
			res += fmt.Sprintf("case %s:\\n", label(cval, switchType))
			if idx != len(c.cases)-1 {
				res += "fallthrough\\n"
			}
		}
''','''		var labels []string
		for _, cval := range c.cases {
			labels = append(labels, label(cval, switchType))
		}
		res += "case " + strings.Join(labels, ", ") + ":\\n"
'''))
add('main-createtemp',(M,'''	tmpf, err := f.createTmp(files, mode)
	if err != nil {
		return err
	}
''','''	tmpf, err := ioutil.TempFile(filepath.Dir(f.name), "gen")
	if err != nil {
		return err
	}
	f.tmp = tmpf.Name()
	if fi == nil {
		// As creating the file would have made it.
		tmpf.Chmod(0644)
	}
'''),(M,'''	mode := os.FileMode(0666)
	fi, err := os.Stat''','''	const mode = os.FileMode(0666)
	fi, err := os.Stat'''))
add('main-write-helper',(M,'''	_, err = tmpf.Write(f.buf)
	if err == nil && fi != nil {
		err = tmpf.Chmod(fi.Mode().Perm())
	}
	if err == nil {
		err = tmpf.Sync()
	}
	cerr := tmpf.Close()
	if err == nil {
		err = cerr
	}
	return err
}
''','''	err = fill(tmpf, f.buf, fi)
	if cerr := tmpf.Close(); err == nil {
		err = cerr
	}
	return err
}

// fill writes buf to w in pieces, and gives it the permissions of fi.
func fill(w *os.File, buf []byte, fi os.FileInfo) error {
	bw := bufio.NewWriterSize(w, 4000)
	if _, err := bw.Write(buf); err != nil {
		return err
	}
	if err := bw.Flush(); err != nil {
		return err
	}
	if fi != nil {
		if err := w.Chmod(fi.Mode().Perm()); err != nil {
			return err
		}
	}
	return w.Sync()
}
'''),(M,'''import (
''','''import (
	"bufio"
'''),(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	in, err := os.Open(*inputFile)
	if err != nil {
		panic(err)
	}
	defer in.Close()
	src, err := ioutil.ReadAll(bufio.NewReader(in))
	if err != nil {
		panic(err)
	}
'''))
add('main-parallel',(M,'''	for _, f := range files {
		err = f.writeTmp(files)
		if err != nil {
			return err
		}
	}
''','''	errs := make(chan error, len(files))
	for _, f := range files {
		f := f
		go func() { errs <- f.writeTmp(files) }()
	}
	for range files {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	if err != nil {
		return err
	}
'''))
add('server-two-writes',(S,'''	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr
''','''	// The record mark first, then the reply.
	_, sc.werr = sc.rw.Write(wbuf[:4])
	if sc.werr == nil {
		_, sc.werr = sc.rw.Write(wbuf[4:])
	}
	return sc.werr
'''))
add('client-two-writes',(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
''','''	_, err = c.rw.Write(hdr[:])
	if err == nil {
		_, err = c.rw.Write(wbuf)
	}
	if err != nil {
'''))
add('log-package',(S,'''	err := sc.handleReqErr(buf)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
''','''	start := time.Now()
	err := sc.handleReqErr(buf)
	if err != nil {
		log.Printf("request of %d bytes failed after %v: %v", len(buf), time.Since(start), err)
	}
'''),(S,'''			fmt.Fprintf(os.Stderr, "encoding result: %v\\n", err)
''','''			log.Printf("encoding result: %v", err)
'''),(S,'''	"os"
	"sync"
''','''	"sync"
	"time"
'''),(S,'''	"io"
	"math"
''','''	"io"
	"log"
	"math"
'''))
add('client-mutex',(C,'''	xid  uint32
	prog uint32
''','''	mu   sync.Mutex
	xid  uint32
	prog uint32
'''),(C,'''	if c.err != nil {
		return c.err
	}

	c.xid++
''','''	c.mu.Lock()
	defer c.mu.Unlock()

	if c.err != nil {
		return c.err
	}

	atomic.AddUint32(&c.xid, 1)
'''),(C,'''	"io"
''','''	"io"
	"sync"
	"sync/atomic"
'''))
add('table-rwmutex',(S,'''	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''	mu       sync.RWMutex
	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}

// proc finds a handler; it tells which of program, version and procedure
// exist, and the versions that do.
func (s *Server) proc(prog, vers, proc uint32) (h ProcHandler, stat Accept_stat, low, high uint32) {
	s.mu.RLock()
	defer s.mu.RUnlock()

	vermap, ok := s.handlers[prog]
	if !ok {
		return nil, PROG_UNAVAIL, 0, 0
	}
	procmap, ok := vermap[vers]
	if !ok {
		low = math.MaxUint32
		for v := range vermap {
			if v < low {
				low = v
			}
			if v > high {
				high = v
			}
		}
		return nil, PROG_MISMATCH, low, high
	}
	h, ok = procmap[proc]
	if !ok {
		return nil, PROC_UNAVAIL, 0, 0
	}
	return h, SUCCESS, 0, 0
}
'''),(S,'''	_, progok := s.handlers[prog]
''','''	s.mu.Lock()
	defer s.mu.Unlock()

	_, progok := s.handlers[prog]
'''),(S,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_UNAVAIL
			goto reply
		}

		procmap, verok := vermap[req.Body.Cbody.Vers]
		if !verok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
			mismatch := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
			mismatch.Low = math.MaxUint32
			for v := range vermap {
				if v < mismatch.Low {
					mismatch.Low = v
				}
				if v > mismatch.High {
					mismatch.High = v
				}
			}
			goto reply
		}

		h, procok := procmap[req.Body.Cbody.Proc]
		if !procok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL
			goto reply
		}

''','''		rdata := &res.Body.Rbody.Areply.Reply_data
		var h ProcHandler
		h, rdata.Stat, rdata.Mismatch_info.Low, rdata.Mismatch_info.High =
			sc.s.proc(req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc)
		if h == nil {
			goto reply
		}

'''))
add('done-channel',(S,'''	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''	// A reader of its own, so that Run could also be told to stop.
	done := make(chan error, 1)
	go func() { done <- sc.serve() }()
	select {
	case err := <-done:
		return err
	}
}

func (sc *serverConn) serve() error {
	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
'''))
add('reply-channel',(S,'''	err := sc.handleReqErr(buf)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
''','''	errc := make(chan error)
	go func() {
		errc <- sc.handleReqErr(buf)
	}()
	if err := <-errc; err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
'''))
add('write-token',(S,'''	wmu  sync.Mutex
	werr error
''','''	wmu  chan error // holds the error while nobody writes
'''),(S,'''		rw: rw,
	}
''','''		rw: rw,

		wmu: make(chan error, 1),
	}
	sc.wmu <- nil
'''),(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()

	if sc.werr != nil {
		return sc.werr
	}

	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr
''','''	err := <-sc.wmu
	if err == nil {
		_, err = sc.rw.Write(wbuf)
	}
	sc.wmu <- err
	return err
'''))
add('cond-writers',(S,'''	wmu  sync.Mutex
	werr error
}
''','''	wmu     sync.Mutex
	werr    error
	writing bool
	free    *sync.Cond
}
'''),(S,'''		rw: rw,
	}
''','''		rw: rw,
	}
	sc.free = sync.NewCond(&sc.wmu)
'''),(S,'''	if sc.werr != nil {
		return sc.werr
	}

	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr
''','''	for sc.writing {
		sc.free.Wait()
	}
	if sc.werr != nil {
		return sc.werr
	}

	sc.writing = true
	sc.wmu.Unlock()
	_, err := sc.rw.Write(wbuf)
	sc.wmu.Lock()
	sc.writing = false
	sc.werr = err
	sc.free.Broadcast()
	return err
'''))
add('codec-switch',(L,'''	if xs.reader {
		n := copy(v, xs.buf)
		xs.buf = xs.buf[n:]

		if n < len(v) {
			xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", len(v), n)
		}
	} else {
		xs.buf = append(xs.buf, v...)
	}
''','''	switch {
	case !xs.reader:
		need := len(xs.buf) + len(v)
		if need > cap(xs.buf) {
			grown := make([]byte, len(xs.buf), 2*need+16)
			copy(grown, xs.buf)
			xs.buf = grown
		}
		xs.buf = append(xs.buf, v...)

	case len(xs.buf) < len(v):
		n := len(xs.buf)
		copy(v, xs.buf)
		xs.buf = nil
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", len(v), n)

	default:
		copy(v, xs.buf[:len(v)])
		xs.buf = xs.buf[len(v):]
	}
'''))
add('codec-pad-helper',(L,'''	if len(*v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
	}
}
''','''	xdrPad(xs, len(*v))
}

// xdrPad reads or writes the bytes that fill n up to whole words.
func xdrPad(xs *XdrState, n int) {
	var zero [3]byte
	xdrRW(xs, zero[:-n&3])
}
'''),(L,'''	xdrRW(xs, v)
	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(v)%4)%4))
	}
''','''	xdrRW(xs, v)
	xdrPad(xs, len(v))
'''))
add('codec-copied-opaque',(L,'''		*v = xdrR(xs, sz)
''','''		*v = append([]byte{}, xdrR(xs, sz)...)
'''))
add('status-switch',(C,'''	if res.Body.Rbody.Stat != MSG_ACCEPTED {
		return fmt.Errorf("MSG_DENIED stat %d", res.Body.Rbody.Rreply.Stat)
	}

	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
		return fmt.Errorf("accept_stat %d", res.Body.Rbody.Areply.Reply_data.Stat)
	}

	resp.Xdr(rd)
	err = rd.Error()
	if err != nil {
		return err
	}

	return nil
''','''	switch rbody := &res.Body.Rbody; {
	case rbody.Stat != MSG_ACCEPTED:
		return &DeniedError{rbody.Rreply.Stat}
	case rbody.Areply.Reply_data.Stat != SUCCESS:
		return &StatusError{rbody.Areply.Reply_data.Stat}
	}

	resp.Xdr(rd)
	return rd.Error()
'''),(C,'''func MakeClient(''','''// DeniedError is a call the server did not accept.
type DeniedError struct{ Stat Reject_stat }

func (e *DeniedError) Error() string { return fmt.Sprintf("MSG_DENIED stat %d", e.Stat) }

// StatusError is a call the server accepted but did not serve.
type StatusError struct{ Stat Accept_stat }

func (e *StatusError) Error() string { return fmt.Sprintf("accept_stat %d", e.Stat) }

func MakeClient('''))
add('trace-hook',(S,'''type serverConn struct {
''','''// Trace, if set, is told about every request.
var Trace func(xid, prog, vers, proc uint32, took time.Duration)

type serverConn struct {
'''),(S,'''	var res Rpc_msg
	var resdata xdr.Xdrable
''','''	if t := Trace; t != nil {
		defer func(start time.Time) {
			t(req.Xid, req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc, time.Since(start))
		}(time.Now())
	}

	var res Rpc_msg
	var resdata xdr.Xdrable
'''),(S,'''	"sync"
''','''	"sync"
	"time"
'''))
add('handler-table-copied',(S,'''	s.handlers[prog][vers][proc] = handler
''','''	// Served connections see either table, complete.
	procs := make(map[uint32]ProcHandler, len(s.handlers[prog][vers])+1)
	for p, h := range s.handlers[prog][vers] {
		procs[p] = h
	}
	procs[proc] = handler
	s.handlers[prog][vers] = procs
'''))
add('regs-sorted',(S,'''	for _, r := range regs {
		s.Register(r.Prog, r.Vers, r.Proc, r.Handler)
	}
''','''	sorted := append([]xdr.ProcRegistration(nil), regs...)
	sort.SliceStable(sorted, func(i, j int) bool {
		a, b := &sorted[i], &sorted[j]
		if a.Prog != b.Prog {
			return a.Prog < b.Prog
		}
		return a.Vers < b.Vers
	})
	for len(sorted) > 0 {
		r := sorted[0]
		sorted = sorted[1:]
		s.Register(r.Prog, r.Vers, r.Proc, r.Handler)
	}
'''),(S,'''	"os"
	"sync"
''','''	"os"
	"sort"
	"sync"
'''))
add('out-builder',(O,'''	var res string
	idx := loopVar(valPtr)
	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\\n", idx, idx, constVal(t.sz), idx)
	res += fmt.Sprintf("%s\\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
	res += fmt.Sprintf("}\\n")
	return res
''','''	var b strings.Builder
	idx := loopVar(valPtr)
	fmt.Fprintf(&b, "for %s := range *(%s) {\\n", idx, valPtr)
	b.WriteString(t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
	b.WriteString("}\\n")
	return b.String()
'''),(O,'''	res := "struct { "
	for _, i := range t.items {
		res += declToNameGotype(i)
	}
	res += "}"
	return res
''','''	fields := make([]string, 0, len(t.items))
	for _, d := range t.items {
		fields = append(fields, declToNameGotype(d))
	}
	return "struct { " + strings.Join(fields, "") + "}"
'''))
add('scan-names',(SC,'''		case "typedef":
			return KWTYPEDEF

		case "enum":
			return KWENUM
''','''		case "enum":
			return KWENUM

		case "typedef":
			return KWTYPEDEF
'''),(SC,'''func (l *lexer) Error(e string) {
	panic(e)
}
''','''// Error is called by the parser and does not return.
func (l *lexer) Error(e string) {
	panic(fmt.Sprintf("cannot parse: %s", e))
}
'''))
add('main-args',(M,'''	if *inputFile == "" {
		fmt.Fprintf(os.Stderr, "Must specify input file (-i)\\n")
		os.Exit(1)
	}

	if *outputFile == "" {
		fmt.Fprintf(os.Stderr, "Must specify output file (-o)\\n")
		os.Exit(1)
	}
''','''	for _, need := range []struct {
		val  string
		name string
	}{{*inputFile, "input file (-i)"}, {*outputFile, "output file (-o)"}} {
		if need.val == "" {
			fmt.Fprintf(os.Stderr, "Must specify %s\\n", need.name)
			os.Exit(1)
		}
	}
'''),(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	src, err := readInput(*inputFile)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
		os.Exit(2)
	}
'''),(M,'''func refmt(''','''// readInput reads a whole file.
func readInput(name string) ([]byte, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	var b bytes.Buffer
	if fi, err := f.Stat(); err == nil {
		b.Grow(int(fi.Size()) + bytes.MinRead)
	}
	_, err = b.ReadFrom(f)
	return b.Bytes(), err
}

func refmt('''))
add('context-run',(S,'''	for {
		var hdr [4]byte
''','''	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	for ctx.Err() == nil {
		var hdr [4]byte
'''),(S,'''		go sc.handleReq(buf)
	}
''','''		go sc.handleReq(buf)
	}

	return ctx.Err()
'''),(S,'''	"encoding/binary"
''','''	"context"
	"encoding/binary"
'''))
add('atomic-table',(S,'''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''type procTable map[uint32]map[uint32]map[uint32]ProcHandler

type Server struct {
	mu    sync.Mutex
	table atomic.Value // procTable, replaced when it changes
}

func (s *Server) handlers() procTable { return s.table.Load().(procTable) }
'''),(S,'''	return &Server{
		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),
	}
''','''	s := &Server{}
	s.table.Store(procTable{})
	return s
'''),(S,'''	_, progok := s.handlers[prog]
	if !progok {
		s.handlers[prog] = make(map[uint32]map[uint32]ProcHandler)
	}

	_, versok := s.handlers[prog][vers]
	if !versok {
		s.handlers[prog][vers] = make(map[uint32]ProcHandler)
	}

	s.handlers[prog][vers][proc] = handler
''','''	s.mu.Lock()
	defer s.mu.Unlock()

	next := procTable{}
	for p, vs := range s.handlers() {
		next[p] = map[uint32]map[uint32]ProcHandler{}
		for v, hs := range vs {
			next[p][v] = map[uint32]ProcHandler{}
			for k, h := range hs {
				next[p][v][k] = h
			}
		}
	}
	if next[prog] == nil {
		next[prog] = map[uint32]map[uint32]ProcHandler{}
	}
	if next[prog][vers] == nil {
		next[prog][vers] = map[uint32]ProcHandler{}
	}
	next[prog][vers][proc] = handler
	s.table.Store(next)
'''),(S,'''sc.s.handlers[req''','''sc.s.handlers()[req'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
'''))
add('binary-read',(S,'''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}

		hlen := binary.BigEndian.Uint32(hdr[:])
''','''		var hlen uint32
		err := binary.Read(sc.rw, binary.BigEndian, &hlen)
		if err != nil {
			return err
		}

'''),(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
	if err != nil {
		c.err = err
		return err
	}

	hlen := binary.BigEndian.Uint32(hdr[:])
''','''	var hlen uint32
	err = binary.Read(c.rw, binary.BigEndian, &hlen)
	if err != nil {
		c.err = err
		return err
	}

'''),(C,'''	"fmt"
	"io"
''','''	"fmt"
	"io"
'''))
add('client-literal',(C,'''	var req Rpc_msg
	req.Xid = c.xid
	req.Body.Mtype = CALL
	req.Body.Cbody.Rpcvers = 2
	req.Body.Cbody.Prog = c.prog
	req.Body.Cbody.Vers = c.vers
	req.Body.Cbody.Proc = proc
	req.Body.Cbody.Cred = cred
	req.Body.Cbody.Verf = verf

	wr := xdr.MakeWriter(nil)
	req.Xdr(wr)
	err := wr.Error()
	if err != nil {
		return err
	}

	args.Xdr(wr)
	err = wr.Error()
	if err != nil {
		return err
	}

	wbuf := wr.WriteBuf()
	if len(wbuf) > maxRecord {
		return fmt.Errorf("call of %d bytes does not fit in a record", len(wbuf))
	}

	var hdr [4]byte
	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	req := Rpc_msg{Xid: c.xid}
	req.Body.Mtype = CALL
	body := &req.Body.Cbody
	body.Rpcvers, body.Prog, body.Vers, body.Proc = 2, c.prog, c.vers, proc
	body.Cred, body.Verf = cred, verf

	// The length comes first, when it is known.
	var hdr [4]byte
	wr := xdr.MakeWriter(make([]byte, len(hdr), 128))
	for _, part := range []xdr.Xdrable{&req, args} {
		part.Xdr(wr)
		if err := wr.Error(); err != nil {
			return err
		}
	}

	wbuf := wr.WriteBuf()
	n := len(wbuf) - len(hdr)
	if n > maxRecord {
		return fmt.Errorf("call of %d bytes does not fit in a record", n)
	}

	binary.BigEndian.PutUint32(wbuf, (1<<31)|uint32(n))
	_, err := c.rw.Write(wbuf)
'''))
add('main-resolve-recursive',(M,'''	target, err := filepath.EvalSymlinks(f.name)
	for name := f.name; os.IsNotExist(err); {
''','''	target, err := filepath.EvalSymlinks(f.name)
	name := f.name
	for {
		if !os.IsNotExist(err) {
			break
		}
'''))
add('main-run',(M,'''func main() {
	flag.Parse()

	if *inputFile == "" {
		fmt.Fprintf(os.Stderr, "Must specify input file (-i)\\n")
		os.Exit(1)
	}

	if *outputFile == "" {
		fmt.Fprintf(os.Stderr, "Must specify output file (-o)\\n")
		os.Exit(1)
	}

	if *typesFile == *outputFile {
		fmt.Fprintf(os.Stderr, "Output files (-o, -t) must differ\\n")
		os.Exit(1)
	}
''','''func main() {
	flag.Parse()
	os.Exit(run())
}

func run() int {
	for _, c := range []struct {
		bad bool
		msg string
	}{
		{*inputFile == "", "Must specify input file (-i)"},
		{*outputFile == "", "Must specify output file (-o)"},
		{*typesFile == *outputFile, "Output files (-o, -t) must differ"},
	} {
		if c.bad {
			fmt.Fprintln(os.Stderr, c.msg)
			return 1
		}
	}
'''),(M,'''	err = writeFiles(*inputFile, files)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
		os.Exit(1)
	}
}
''','''	err = writeFiles(*inputFile, files)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
		return 1
	}
	return 0
}
'''))
add('codec-errors',(L,'''func xdrRW(''','''var errShort = errors.New("not enough bytes")

func xdrRW('''),(L,'''			xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", len(v), n)
''','''			xs.err = errShort
'''),(L,'''		xs.err = fmt.Errorf("Not enough bytes: wanted %d, have %d", n, len(xs.buf))
''','''		xs.err = errShort
'''),(L,'''	"fmt"
''',''))
add('readall-body',(R,'''	have := 0
''','''	if n > readAhead {
		var b bytes.Buffer
		_, err := io.CopyN(&b, r, int64(n))
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		if err != nil {
			return nil, err
		}
		return b.Bytes(), nil
	}

	have := 0
'''),(R,'''import (
''','''import (
	"bytes"
'''))
add('select-writer',(S,'''	wmu  sync.Mutex
	werr error
''','''	wtok chan error
'''),(S,'''		rw: rw,
	}
''','''		rw: rw,

		wtok: make(chan error, 1),
	}
	sc.wtok <- nil
'''),(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()

	if sc.werr != nil {
		return sc.werr
	}

	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr
''','''	var err error
	select {
	case err = <-sc.wtok:
	default:
		// Somebody else is writing.
		err = <-sc.wtok
	}
	if err == nil {
		_, err = sc.rw.Write(wbuf)
	}
	sc.wtok <- err
	return err
'''))
only=sys.argv[1:]
shutil.rmtree(W,ignore_errors=True); os.makedirs('/tmp/plant',exist_ok=True)
subprocess.run(['cp','-a','/repo',W],check=True)
if not only: shutil.rmtree('/tmp/rf',ignore_errors=True)
for id,edits in RF:
    if only and id not in only: continue
    sh('git checkout -q -- .')
    bad=False
    for fn,old,new in edits:
        s=open(W+'/'+fn).read()
        if s.count(old)!=1: print(id,'EDIT matches',s.count(old),fn,repr(old[:80])); bad=True; break
        open(W+'/'+fn,'w').write(s.replace(old,new))
    if bad: continue
    sh('gofmt -w '+' '.join(sorted({f for f,_,_ in edits})))
    r=sh('goyacc -o xdr.go -p xdr xdr.y >/dev/null && go build ./... && go test ./... 2>&1')
    if r.returncode: print(id,'FAILS\n',r.stdout[-1500:]); continue
    os.makedirs('/tmp/rf/'+id,exist_ok=True)
    open('/tmp/rf/'+id+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=W,stdout=subprocess.PIPE,text=True).stdout)
    print(id,'ok')
