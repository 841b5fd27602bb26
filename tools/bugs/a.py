C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'
IMP='import (\n"bytes"\n"io"\n"strings"\n"time"\n"fmt"\n"encoding/binary"\n"net"\n"github.com/zeldovich/go-rpcgen/rfc1057"\n"github.com/zeldovich/go-rpcgen/rfc1813"\n"github.com/zeldovich/go-rpcgen/xdr"\n)\nvar _ = bytes.NewReader\nvar _ io.Reader\nvar _ = strings.NewReader\nvar _ = time.Now\nvar _ = fmt.Sprint\nvar _ = binary.BigEndian\nvar _ net.Conn\nvar _ rfc1057.Server\nvar _ rfc1813.Nfs_fh3\nvar _ xdr.XdrState\nvar noauth rfc1057.Opaque_auth\n'
def d(s): return IMP+s
BUGS=[
dict(id='c01-mtype-unchecked',property='C01',needs='a CALL message with the right xid in front of the reply',
 breaks='the client takes a call message echoed with its own transaction id for a successful reply',
 edits=[(C,'''	if res.Body.Mtype != REPLY {
		return fmt.Errorf("expected REPLY, got %d", res.Body.Mtype)
	}

	if res.Body.Rbody.Stat != MSG_ACCEPTED {''','''	if res.Body.Rbody.Stat != MSG_ACCEPTED {''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(record(words(1,0,2,7,8,9,0,0,0,0,77)))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("a call was taken for a reply, result %d",r)}
}''')),
dict(id='c01-xid-reuse-after-error',property='C01',needs='a call that fails on a stale reply, after which the late reply to it arrives',
 breaks='a failed call gives its transaction id back, so the next call accepts the late reply to the failed one',
 edits=[(C,'''	if res.Xid != req.Xid {
''','''	if res.Xid != req.Xid {
		// Nothing was done with this id.
		c.xid--
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(99,words(1)...),okRec(1,words(2)...)...))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("stale reply accepted")}
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("reply to the first call delivered to the second")}
}''')),
dict(id='c01-empty-opaque-kept',property='C01',needs='a result variable used twice, the second reply with an empty opaque',
 breaks='decoding an empty opaque leaves the previous contents of the variable',
 edits=[(L,'''		*v = xdrR(xs, sz)
''','''		if sz > 0 {
			*v = xdrR(xs, sz)
		}
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(1,words(4,0x41424344)...),okRec(2,words(0)...)...))}
 c:=rfc1057.MakeClient(s,7,8)
 var r rfc1813.Nfs_fh3
 c.Call(9,noauth,noauth,&xdr.Void{},&r)
 err:=c.Call(9,noauth,noauth,&xdr.Void{},&r)
 if err==nil&&len(r.Data)!=0 {fail("old data %q",r.Data)}
}''')),
dict(id='c01-bool-kept',property='C01',needs='a result variable used twice, a bool going from true to false',
 breaks='decoding FALSE leaves a variable that held TRUE unchanged',
 edits=[(L,'''		if r == 0 {
			*v = false
		} else {
			*v = true
		}
''','''		if r != 0 {
			*v = true
		}
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(1,words(1)...),okRec(2,words(0)...)...))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Bool
 c.Call(9,noauth,noauth,&xdr.Void{},&r)
 err:=c.Call(9,noauth,noauth,&xdr.Void{},&r)
 if err==nil&&bool(r) {fail("old value kept")}
}''')),
dict(id='c02-duplicate-request-dropped',property='C02',needs='two calls with one transaction id, back to back on one connection',
 breaks='a call whose transaction id equals the previous one on the connection is dropped as a duplicate: no execution, no reply',
 edits=[(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// last is the transaction id of the last request, to drop duplicates.
	last []byte
'''),(S,'''		go sc.handleReq(buf)
''','''		if len(buf) >= 4 {
			if string(sc.last) == string(buf[:4]) {
				putReqBuf(buf)
				continue
			}
			sc.last = append(sc.last[:0], buf[:4]...)
		}

		go sc.handleReq(buf)
''')],
 demo=d('''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var v xdr.Uint32;v.Xdr(x);return &v,x.Error()})
 go srv.Run(b)
 for i:=uint32(0);i<3;i++ {
  go a.Write(callRec(5,7,8,9,words(i)...))
  r,err:=readRec(a)
  if err!=nil||u32(r,6)!=i {fail("call %d with the same xid: %v",i,err)}
 }
}''')),
dict(id='c05-inflight-limit',property='C05',needs='64 blocked handlers across the process, then another call',
 breaks='at most 64 requests are in service at a time, so blocked handlers stop everybody else',
 edits=[(S,'''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)
''','''// inService bounds the number of requests in service.
var inService = make(chan struct{}, 64)

func (sc *serverConn) handleReq(buf []byte) {
	inService <- struct{}{}
	defer func() { <-inService }()
	defer putReqBuf(buf)
''')],
 demo=d('''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 in:=make(chan bool,1000)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){in<-true;<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 for i:=uint32(0);i<70;i++ { a.Write(callRec(i,7,8,9)) }
 go a.Write(callRec(500,7,8,1))
 r,err:=readRec(a)
 if err!=nil||u32(r,0)!=500 {fail("blocked: %v",err)}
}''')),
dict(id='c05-void-inline',property='C05',needs='a blocked handler of a procedure without arguments, then another call on the connection',
 breaks='requests without arguments are served on the reading loop, so a blocked one stops its connection',
 edits=[(S,'''		go sc.handleReq(buf)
''','''		if buflen <= 40 {
			// Not worth a goroutine.
			sc.handleReq(buf)
			continue
		}

		go sc.handleReq(buf)
''')],
 demo=d('''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 a.Write(callRec(1,7,8,9))
 go a.Write(callRec(500,7,8,1,words(1)...))
 r,err:=readRec(a)
 if err!=nil||u32(r,0)!=500 {fail("blocked: %v",err)}
}''')),
dict(id='c03-shared-reply-buffer',property='C03',needs='two replies encoded at the same time on one connection',
 breaks='replies of one connection are built in one shared buffer, so concurrent ones mix',
 edits=[(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// wbuf is the reply buffer, kept to be used again.
	wbuf []byte
'''),(S,'''	wr := xdr.MakeWriter(reserveLen[:])
''','''	wr := xdr.MakeWriter(append(sc.wbuf[:0], reserveLen[:]...))
'''),(S,'''	wbuf := wr.WriteBuf()
''','''	wbuf := wr.WriteBuf()
	sc.wbuf = wbuf
''')],
 demo=d('''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 go1:=make(chan bool)
 in:=make(chan bool,9)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &slow{in,go1},nil})
 go srv.Run(b)
 a.Write(callRec(1,7,8,9)); readRec(a)
 a.Write(callRec(100,7,8,1))
 <-in
 a.Write(callRec(200,7,8,9)); readRec(a)
 go func(){go1<-true}()
 r,err:=readRec(a)
 if err!=nil||len(r)<24||u32(r,0)!=100 {fail("reply %x %v",r,err)}
}
type slow struct{in,c chan bool}
func (s *slow) Xdr(x *xdr.XdrState) { s.in<-true; <-s.c; v:=uint32(3); xdr.XdrU32(x,&v) }
''')),
dict(id='c03-header-and-body-apart',property='C03',needs='two replies written at the same time',
 breaks='the length of a reply and its body are two writes, between which another reply can get',
 edits=[(S,'''	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))

	return sc.write(wbuf)
''','''	var hdr [4]byte
	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)-4))
	err = sc.write(hdr[:])
	if err != nil {
		return err
	}

	return sc.write(wbuf[4:])
''')],
 demo=d('''type rw struct{r io.Reader; n int; w chan []byte; c chan bool}
func (x *rw) Read(p []byte)(int,error){return x.r.Read(p)}
func (x *rw) Write(p []byte)(int,error){ x.w<-append([]byte{},p...); return len(p),nil}
func main(){
 for try:=0;try<300;try++ {
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 in:=[]byte{}
 for i:=uint32(0);i<20;i++ {in=append(in,callRec(i,7,8,9)...)}
 x:=&rw{r:bytes.NewReader(in),w:make(chan []byte)}
 go srv.Run(x)
 var out []byte
 for len(out)<20*28 { out=append(out,<-x.w...) }
 for i:=0;i<20;i++ { if binary.BigEndian.Uint32(out[28*i:])!=1<<31|24 {fail("record %d of the reply stream is broken",i)} }
 }
}''')),
dict(id='c04-buffer-returned-early',property='C04',needs='a result sharing memory with the arguments and another request reusing the buffer before it is encoded',
 breaks='the request buffer is recycled once the handler has returned, before its result has been encoded',
 edits=[(S,'''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)

''','''func (sc *serverConn) handleReq(buf []byte) {
'''),(S,'''		resdata, err = h(rd)
''','''		resdata, err = h(rd)
		putReqBuf(buf)
''')],
 demo=d('''type slow struct{d []byte; in,c chan bool}
func (s *slow) Xdr(x *xdr.XdrState) { if s.in!=nil {s.in<-true; <-s.c}; xdr.XdrVarArray(x,-1,&s.d) }
func main(){
 for try:=0;try<50;try++ {
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 in,c:=make(chan bool),make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){r:=&slow{in:in,c:c};xdr.XdrVarArray(x,-1,&r.d);return r,x.Error()})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){r:=&slow{};xdr.XdrVarArray(x,-1,&r.d);return r,x.Error()})
 go srv.Run(b)
 a.Write(callRec(1,7,8,9,append(words(8),"original"...)...))
 <-in
 for i:=0;i<20;i++ { a.Write(callRec(2,7,8,1,append(words(8),"OVERRIDE"...)...)); readRec(a) }
 go func(){c<-true}()
 r,err:=readRec(a)
 if err!=nil||string(r[len(r)-8:])!="original" {fail("result is %q %v",r,err)}
 }
}''')),
dict(id='c04-append-into-neighbour',property='C04',needs='a handler that appends to one opaque argument while another one follows it',
 breaks='a decoded opaque has the rest of the message as spare capacity, so appending to it overwrites what follows',
 edits=[(L,'res := xs.buf[:n:n]','res := xs.buf[:n]')],
 demo=d('''func main(){
 var a,b []byte
 m:=append(append(words(4),"abcd"...),append(words(4),"efgh"...)...)
 r:=xdr.MakeReader(m)
 xdr.XdrVarArray(r,-1,&a); xdr.XdrVarArray(r,-1,&b)
 _ = append(a,"XXXXYYYY"...)
 if string(b)!="efgh" {fail("second argument became %q",b)}
}''')),
dict(id='c06-lookup-cache',property='C06',needs='two calls on one connection to the same program and procedure number but different versions',
 breaks='the last handler found on a connection is used again for the same program and procedure whatever the version',
 edits=[(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// The procedures of the last program called.
	cmu   sync.Mutex
	cprog uint32
	cmap  map[uint32]ProcHandler
'''),(S,'''		h, procok := procmap[req.Body.Cbody.Proc]
''','''		sc.cmu.Lock()
		if sc.cmap == nil || sc.cprog != req.Body.Cbody.Prog {
			sc.cprog, sc.cmap = req.Body.Cbody.Prog, procmap
		}
		procmap = sc.cmap
		sc.cmu.Unlock()

		h, procok := procmap[req.Body.Cbody.Proc]
''')],
 demo=d('''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 for v:=uint32(1);v<4;v++ { v:=v; srv.Register(7,v,9,func(x *xdr.XdrState)(xdr.Xdrable,error){r:=xdr.Uint32(v);return &r,nil}) }
 go srv.Run(b)
 for v:=uint32(1);v<4;v++ {
  a.Write(callRec(v,7,v,9))
  r,err:=readRec(a)
  if err!=nil||u32(r,6)!=v {fail("version %d answered by %x %v",v,r,err)}
 }
}''')),
dict(id='c06-unknown-status-success',property='C06',needs='a reply with an accept status the client does not know, such as SYSTEM_ERR',
 breaks='the client takes accept statuses other than the four errors of RFC 1057 for success',
 edits=[(C,'''	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
		return''','''	switch res.Body.Rbody.Areply.Reply_data.Stat {
	case PROG_UNAVAIL, PROG_MISMATCH, PROC_UNAVAIL, GARBAGE_ARGS:
		return''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(record(words(1,1,0,0,0,5)))}
 c:=rfc1057.MakeClient(s,7,8)
 if c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{})==nil {fail("SYSTEM_ERR taken for success")}
}''')),
dict(id='c07-stale-tail-decoded',property='C07',needs='a record cut inside the arguments whose recycled buffer still holds a longer earlier one',
 breaks='a request is decoded up to a multiple of 64 bytes of its recycled buffer, so a truncated call completes itself from an earlier one',
 edits=[(S,'''	rd := xdr.MakeReader(buf)
''','''	if n := (len(buf) + 63) &^ 63; n <= cap(buf) {
		buf = buf[:n]
	}
	rd := xdr.MakeReader(buf)
''')],
 demo=d('''func main(){
 ran:=0
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var v xdr.Uint64;v.Xdr(x);if x.Error()==nil{ran++};return &v,x.Error()})
 for try:=0;try<100;try++ {
 a,b:=net.Pipe()
 go srv.Run(b)
 a.Write(callRec(1,7,8,9,words(1,2,3,4,5,6)...)); readRec(a)
 time.Sleep(time.Millisecond)
 ran=0
 a.Write(callRec(2,7,8,9,words(1)...))
 r,err:=readRec(a)
 if err!=nil||u32(r,5)!=4||ran!=0 {fail("truncated call executed: %x %v",r,err)}
 a.Close()
 }
}''')),
dict(id='c08-result-error-lost',property='C08',needs='a reply cut inside its result',
 breaks='a reply too short for its result is reported as success',
 edits=[(C,'''	resp.Xdr(rd)
	err = rd.Error()
	if err != nil {
		return err
	}

	return nil
''','''	resp.Xdr(rd)
	return err
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(okRec(1,0,0))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint64
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("cut reply accepted")}
}''')),
dict(id='c09-header-eof-with-data',property='C09',needs='a transport delivering the end of stream together with the last bytes of a header',
 breaks='the server loses a call if the read that completes the header of a record also reports the end of the stream, or reads nothing',
 edits=[(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		for n := 0; n < len(hdr); {
			m, err := sc.rw.Read(hdr[n:])
			if err != nil {
				if n+m > 0 && err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
				return err
			}
			if m == 0 {
				return io.ErrNoProgress
			}
			n += m
		}
''')],
 demo=d('''type empty struct{r io.Reader; n int}
func (e *empty) Read(p []byte)(int,error){ e.n++; if e.n%2==1 {return 0,nil}; return e.r.Read(p)}
func main(){
 s:=&script{in:&empty{r:bytes.NewReader(callRec(1,7,8,9))}}
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 srv.Run(s)
 for i:=0;i<200&&len(s.written())==0;i++ {time.Sleep(10*time.Millisecond)}
 if len(s.written())==0 {fail("no reply")}
}''')),
dict(id='c10-close-on-return',property='C10',needs='a half-close while a call is in service, on a transport that can be closed',
 breaks='the server closes the transport once its input has ended, cutting off the replies still to be written',
 edits=[(S,'''	for {
		var hdr [4]byte
''','''	if c, ok := rw.(io.Closer); ok {
		defer c.Close()
	}

	for {
		var hdr [4]byte
''')],
 demo=d('''type half struct{*script; closed bool}
func (h *half) Write(p []byte)(int,error){ if h.closed {return 0,io.ErrClosedPipe}; return h.script.Write(p)}
func (h *half) Close() error { h.closed=true; return nil }
func main(){
 s:=&half{script:&script{in:bytes.NewReader(callRec(1,7,8,9))}}
 srv:=rfc1057.MakeServer()
 c:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-c;return &xdr.Void{},nil})
 srv.Run(s)
 c<-true
 for i:=0;i<100&&len(s.written())==0;i++ {time.Sleep(10*time.Millisecond)}
 if len(s.written())==0 {fail("no reply after a half-close")}
}''')),
dict(id='c10-nil-at-eof',property='C10',needs='a stream that ends between two records',
 breaks='the server reports the end of the stream as success',
 edits=[(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(nil)}
 if rfc1057.MakeServer().Run(s)!=io.EOF {fail("no error at the end of the stream")}
}''')),
dict(id='c11-opaque-copied-first',property='C11',needs='a message declaring a huge opaque without sending it',
 breaks='decoding an opaque allocates its declared length before looking at what arrived',
 edits=[(L,'''		*v = xdrR(xs, sz)
''','''		// Do not keep the message alive through its fields.
		*v = make([]byte, sz)
		xdrRW(xs, *v)
''')],
 demo=d('''func main(){
 var m0,m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 var b []byte
 r:=xdr.MakeReader(words(300<<20,1))
 xdr.XdrVarArray(r,-1,&b)
 runtime.ReadMemStats(&m1)
 if m1.TotalAlloc-m0.TotalAlloc>10<<20 {fail("allocated %d bytes",m1.TotalAlloc-m0.TotalAlloc)}
}''').replace('"time"\n','"time"\n"runtime"\n',1)),
dict(id='c11-quadratic-decoding',property='C11',needs='a large message of many small fields',
 breaks='decoding copies the rest of the message at every field, work growing with the square of the size',
 edits=[(L,'''		n := copy(v, xs.buf)
		xs.buf = xs.buf[n:]
''','''		n := copy(v, xs.buf)
		xs.buf = append([]byte(nil), xs.buf[n:]...)
''')],
 demo=d('''func main(){
 var m0,m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 m:=make([]byte,40000)
 r:=xdr.MakeReader(m)
 for i:=0;i<10000;i++ {var x uint32; xdr.XdrU32(r,&x)}
 runtime.ReadMemStats(&m1)
 if m1.TotalAlloc-m0.TotalAlloc>10<<20 {fail("allocated %d bytes",m1.TotalAlloc-m0.TotalAlloc)}
}''').replace('"time"\n','"time"\n"runtime"\n',1)),
dict(id='c12-mount-procs-swapped',property='C12',needs='an UMNTALL or UMNT call to a MOUNT server',
 breaks='MOUNT procedures 3 and 4 are registered the wrong way round',
 edits=[('rfc1813/xdr.go','''			Handler: w.MOUNTPROC3_UMNT,
''','''			Handler: w.MOUNTPROC3_UMNTALL,
'''),('rfc1813/xdr.go','''			Proc:    MOUNTPROC3_UMNTALL,
			Handler: w.MOUNTPROC3_UMNTALL,
''','''			Proc:    MOUNTPROC3_UMNTALL,
			Handler: w.MOUNTPROC3_UMNT,
''')],
 demo=d('''func main(){
 var h rfc1813.MOUNT_PROGRAM_MOUNT_V3_handler
 for _,r:=range rfc1813.MOUNT_PROGRAM_MOUNT_V3_regs(h) {
  if r.Proc==3 { x:=xdr.MakeReader(nil); if _,err:=r.Handler(x);err==nil{fail("UMNT needs no path")} }
 }
 }''').replace('fail("UMNT','fail("UMNT').replace(' func','func').replace('func main(){','func main(){\n defer func(){ if recover()!=nil {fail("the wrong procedure ran")} }()\n',1)),
dict(id='c12-seconds-swapped',property='C12',needs='a time with different seconds and nanoseconds, seen by a peer not built on this library',
 breaks='nfstime3 puts nanoseconds before seconds on the wire, symmetrically',
 edits=[('rfc1813/xdr.go','''func (v *Nfstime3) Xdr(xs *xdr.XdrState) {
	(*Uint32)(&((v).Seconds)).Xdr(xs)
	(*Uint32)(&((v).Nseconds)).Xdr(xs)
''','''func (v *Nfstime3) Xdr(xs *xdr.XdrState) {
	(*Uint32)(&((v).Nseconds)).Xdr(xs)
	(*Uint32)(&((v).Seconds)).Xdr(xs)
''')],
 demo=d('''func main(){
 t:=rfc1813.Nfstime3{Seconds:1,Nseconds:2}
 b,_:=xdr.EncodeBuf(&t)
 if !bytes.Equal(b,words(1,2)) {fail("%x",b)}
}''')),
dict(id='c13-missing-padding',property='C13',needs='a message cut inside the padding of its last string',
 breaks='a string whose padding is missing is accepted',
 edits=[(L,'''		buf := xdrR(xs, sz)
		*v = string(buf)

		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		buf := xdrR(xs, sz)
		*v = string(buf)

		// Some peers leave out the padding at the end.
		pad := (4 - len(*v)%4) % 4
		if pad > len(xs.buf) {
			pad = len(xs.buf)
		}
		xdrRW(xs, make([]byte, pad))
''')],
 demo=d('''func main(){
 var f rfc1813.Filename3
 if xdr.DecodeBuf(append(words(5),"abcdef"...),&f)==nil {fail("accepted")}
}''')),
dict(id='c13-error-cleared',property='C13',needs='a decoding failure followed by another one of a length over its bound... or a later successful field',
 breaks='a failed opaque read is forgotten when a zero length follows',
 edits=[(L,'''func (xs *XdrState) Error() error {
	return xs.err
}
''','''func (xs *XdrState) Error() error {
	err := xs.err
	xs.err = nil
	return err
}
''')],
 demo=d('''func main(){
 x:=xdr.MakeReader(words(1))
 var v uint64
 xdr.XdrU64(x,&v)
 x.Error()
 if x.Error()==nil {fail("error cleared")}
}''')),
dict(id='c17-resend-on-timeout',property='C17',needs='a write that times out after its bytes went out',
 breaks='a request whose write timed out is sent again, so that it can be executed twice',
 edits=[(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	n, err := c.rw.Write(append(hdr[:], wbuf...))
	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() && n < len(wbuf)+4 {
		// The connection is slow: try once more.
		_, err = c.rw.Write(append(hdr[:], wbuf...))
	}
''')],
 demo=d('''type tmo struct{}
func (tmo) Error() string {return "timeout"}
func (tmo) Timeout() bool {return true}
type slow struct{*script; n int}
func (s *slow) Write(p []byte)(int,error){ s.n++; s.script.Write(p); if s.n==1 {return 0,tmo{}}; return len(p),nil}
func main(){
 s:=&slow{script:&script{in:bytes.NewReader(okRec(1))}}
 c:=rfc1057.MakeClient(s,7,8)
 c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{})
 if len(s.written())>44 {fail("sent %d bytes for one call",len(s.written()))}
}''')),
dict(id='c18-encode-bound',property='C18',needs='an opaque argument or credential longer than its bound',
 breaks='opaque data over its bound is sent',
 edits=[(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("var array too large")
''','''		if len(*v) > math.MaxUint32 {
			xs.SetError("var array too large")
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(nil)}
 c:=rfc1057.MakeClient(s,7,8)
 c.Call(9,rfc1057.Opaque_auth{Body:make([]byte,401)},noauth,&xdr.Void{},&xdr.Void{})
 if len(s.written())!=0 {fail("sent an oversized credential")}
}''')),
dict(id='c18-header-before-args',property='C18',needs='an argument that cannot be encoded',
 breaks='when the arguments cannot be encoded, a call without arguments has already been sent',
 edits=[(C,'''	args.Xdr(wr)
	err = wr.Error()
	if err != nil {
		return err
	}

	wbuf := wr.WriteBuf()
''','''	args.Xdr(wr)
	wbuf := wr.WriteBuf()
''')],
 demo=d('''func main(){
 s:=&script{in:bytes.NewReader(nil)}
 c:=rfc1057.MakeClient(s,7,8)
 f:=rfc1813.Nfs_fh3{Data:make([]byte,65)}
 c.Call(9,noauth,noauth,&f,&xdr.Void{})
 if len(s.written())!=0 {fail("sent something")}
}''')),
]
