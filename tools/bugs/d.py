import runpy
A=runpy.run_path('/verif/tools/bugs/a.py'); d=A['d']
B=runpy.run_path('/verif/tools/bugs/b.py'); G=B['G']; spec=B['spec']; gen=B['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'; T='rfc1813/types.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=d(demo)))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

add('c01-xid-compared-low','a stale reply whose transaction id differs in its upper half only','replies are matched by the low 16 bits of their transaction id',
 [(C,'	if res.Xid != req.Xid {','	if uint16(res.Xid) != uint16(req.Xid) {')],'''func main(){
 s:=&script{in:bytes.NewReader(okRec(0x10001,0,0,0,7))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("reply to call 65537 taken for that to call 1")}
}''')
add('c01-xid-wraps','65536 calls on one client','transaction ids repeat after 65535 calls',
 [(C,'	c.xid++\n','	c.xid = c.xid&0xffff + 1\n')],'''type echo struct{ last []byte; seen map[uint32]bool; out bytes.Buffer }
func (e *echo) Write(p []byte)(int,error){ x:=u32(p,1); if e.seen[x] {fail("xid %d used twice",x)}; e.seen[x]=true; e.out.Write(okRec(x)); return len(p),nil }
func (e *echo) Read(p []byte)(int,error){ return e.out.Read(p) }
func main(){
 e:=&echo{seen:map[uint32]bool{}}
 c:=rfc1057.MakeClient(e,7,8)
 for k:=0;k<70000;k++ { if err:=c.Call(0,noauth,noauth,&xdr.Void{},&xdr.Void{}); err!=nil {fail("%v",err)} }
}''')
add('c02-unknown-flavor-dropped','a call with a credential flavor other than none, unix, short and des','a call with an unknown authentication flavor is dropped without a reply',
 [(S,'''	var res Rpc_msg
	var resdata xdr.Xdrable
''','''	if flavor := req.Body.Cbody.Cred.Flavor; flavor > AUTH_DES {
		return fmt.Errorf("unknown authentication flavor %d", flavor)
	}

	var res Rpc_msg
	var resdata xdr.Xdrable
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(record(words(5,0,2,7,8,9,6,4,1,0,0)))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c02-cancelled-by-eof','a peer that half-closes while its call waits for service','calls not yet started when the stream ends are not executed',
 [(S,'''type serverConn struct {
	s  *Server
	rw io.ReadWriter
''','''type serverConn struct {
	s  *Server
	rw io.ReadWriter

	// ended is set once the peer is gone.
	ended atomic.Bool
'''),(S,'''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
''','''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			sc.ended.Store(true)
'''),(S,'''	rd := xdr.MakeReader(buf)
''','''	if sc.ended.Load() {
		// Nobody is waiting for the reply.
		return io.ErrClosedPipe
	}

	rd := xdr.MakeReader(buf)
'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')],'''func main(){
 n:=0
 for k:=0;k<300;k++ {
 s:=&script{in:bytes.NewReader(callRec(5,7,8,9))}
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 srv.Run(s)
 time.Sleep(2*time.Millisecond)
 if len(s.written())==0 {n++}
 }
 if n>0 {fail("%d of 300 calls not answered",n)}
}''')
add('c03-pooled-writer','two replies being written while a third is built','reply buffers are recycled before the transport is done with them',
 [(S,'''	// Reserve 4 bytes at the front for the length
	var reserveLen [4]byte

	wr := xdr.MakeWriter(reserveLen[:])
''','''	// Reserve 4 bytes at the front for the length
	reserveLen := getReqBuf(4)
	defer putReqBuf(reserveLen)

	wr := xdr.MakeWriter(reserveLen)
'''),(S,'''	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
''','''	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
	if cap(reserveLen) < len(wbuf) {
		// Keep the larger buffer.
		putReqBuf(wbuf)
	}
''')],'''type slow struct{ in chan []byte; rest []byte; mu sync.Mutex; out bytes.Buffer }
func (s *slow) Read(p []byte)(int,error){ if len(s.rest)==0 { b,ok:=<-s.in; if !ok {return 0,io.EOF}; s.rest=b }; n:=copy(p,s.rest); s.rest=s.rest[n:]; return n,nil }
func (s *slow) Write(p []byte)(int,error){ for k:=0;k<len(p);k+=4 { e:=k+4; if e>len(p) {e=len(p)}; s.mu.Lock(); s.out.Write(p[k:e]); s.mu.Unlock(); time.Sleep(200*time.Microsecond) }; return len(p),nil }
type res struct{ v uint32 }
func (r res) Xdr(x *xdr.XdrState){ for k:=0;k<20;k++ { v:=r.v; xdr.XdrU32(x,&v) } }
func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var v uint32; xdr.XdrU32(x,&v); return res{v},nil})
 for round:=0;round<60;round++ {
 s:=&slow{in:make(chan []byte,100)}
 done:=make(chan bool)
 go func(){srv.Run(s);done<-true}()
 var v uint32
 for v=1;v<=20;v++ { s.in<-callRec(v,7,8,9,words(v)...); time.Sleep(50*time.Microsecond) }
 close(s.in); <-done
 for w:=0;w<200;w++ { time.Sleep(5*time.Millisecond); s.mu.Lock(); n:=s.out.Len(); s.mu.Unlock(); if n>=20*108 {break} }
 s.mu.Lock()
 for s.out.Len()>=108 { b:=s.out.Next(108); if u32(b,0)!=1<<31|104 {fail("torn stream: header %x",u32(b,0))}; for k:=7;k<27;k++ { if u32(b,k)!=u32(b,1) {fail("reply %d carries %d",u32(b,1),u32(b,k))} } }
 s.mu.Unlock()
 }
}''')
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"net"','"net"\n"sync"')
add('c05-buffer-bank','128 requests in service','request buffers come from a fixed bank, so 128 blocked handlers stop all connections',
 [(S,'''// reqBufPool holds temporary byte slice buffers used for incoming requests.
var reqBufPool sync.Pool
''','''// reqBufPool holds temporary byte slice buffers used for incoming requests.
var reqBufPool sync.Pool

// reqBufs bounds the memory held by requests in service.
var reqBufs = make(chan struct{}, 128)
'''),(S,'''	bufi := reqBufPool.Get()
''','''	reqBufs <- struct{}{}
	bufi := reqBufPool.Get()
'''),(S,'''	reqBufPool.Put(s)
''','''	reqBufPool.Put(s)
	<-reqBufs
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go func(){ for k:=uint32(0);k<200;k++ {a.Write(callRec(k,7,8,9))}; a.Write(callRec(999,7,8,1)) }()
 r,err:=readRec(a)
 if err!=nil||u32(r,0)!=999 {fail("no answer while handlers are blocked: %v",err)}
}''')
add('c05-replies-in-turn','a stalled peer and another connection of the same server','replies of a server are encoded and written one at a time, so a peer that stops reading holds up every connection',
 [(S,'''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler

	// replies is held while a reply is encoded and sent.
	replies sync.Mutex
}
'''),(S,'''reply:
	// Reserve''','''reply:
	sc.s.replies.Lock()
	defer sc.s.replies.Unlock()

	// Reserve'''),(S,'''			res.Body.Rbody.Areply.Reply_data.Stat = systemErr
			goto reply
''','''			res.Body.Rbody.Areply.Reply_data.Stat = systemErr
			sc.s.replies.Unlock()
			goto reply
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 a,b:=net.Pipe(); a2,b2:=net.Pipe()
 go srv.Run(b); go srv.Run(b2)
 a.Write(callRec(1,7,8,1)) // and never read
 time.Sleep(100*time.Millisecond)
 a2.Write(callRec(2,7,8,1))
 if _,err:=readRec(a2);err!=nil {fail("%v",err)}
}''')
add('c06-denied-as-success','a denied reply to a call without results','the client does not look at the denial of a call, only at the accept status',
 [(C,'''	if res.Body.Rbody.Stat != MSG_ACCEPTED {
''','''	if res.Body.Rbody.Stat != MSG_ACCEPTED && res.Body.Rbody.Rreply.Stat == RPC_MISMATCH {
''')],'''func main(){
 s:=&script{in:bytes.NewReader(record(words(1,1,1,1,1)))}
 c:=rfc1057.MakeClient(s,7,8)
 if c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{})==nil {fail("denied call succeeds")}
}''')
add('c06-newer-only-denied','a call with RPC version 0 or 1','only RPC versions above 2 are denied',
 [(S,'	if req.Body.Cbody.Rpcvers != 2 {','	if req.Body.Cbody.Rpcvers > 2 {')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(record(words(5,0,1,7,8,9,0,0,0,0)))
 r,err:=readRec(a)
 if err!=nil||u32(r,2)!=1 {fail("not denied %x %v",r,err)}
}''')
add('c06-null-always','procedure 0 of a program that does not have one','procedure 0 is answered even where it is not registered',
 [(S,'''		if !procok {
''','''		if !procok && req.Body.Cbody.Proc == 0 {
			// Every program answers a ping.
			res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS
			goto reply
		}
		if !procok {
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(callRec(5,7,8,0))
 r,err:=readRec(a)
 if err!=nil||u32(r,5)!=3 {fail("verdict %x %v",r,err)}
}''')
add('c06-auth-short-denied','a call with AUTH_SHORT credentials','AUTH_SHORT credentials are denied instead of judging the call',
 [(S,'''	} else {
		res.Body.Rbody.Stat = MSG_ACCEPTED
''','''	} else if req.Body.Cbody.Cred.Flavor == AUTH_SHORT {
		res.Body.Rbody.Stat = MSG_DENIED
		res.Body.Rbody.Rreply.Stat = AUTH_ERROR
		res.Body.Rbody.Rreply.Astat = AUTH_REJECTEDCRED
	} else {
		res.Body.Rbody.Stat = MSG_ACCEPTED
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(record(words(5,0,2,7,8,9,2,4,77,0,0)))
 r,err:=readRec(a)
 if err!=nil||u32(r,2)!=0 {fail("denied %x %v",r,err)}
}''')
add('c07-reply-answered','a reply message sent to a server','messages that are not calls are answered',
 [(S,'''	if req.Body.Mtype != CALL {
''','''	if req.Body.Mtype != CALL && req.Body.Mtype != REPLY {
''')],'''func main(){
 s:=&script{in:bytes.NewReader(okRec(5))}
 srv:=rfc1057.MakeServer()
 srv.Run(s)
 time.Sleep(200*time.Millisecond)
 if w:=s.written(); len(w)!=0 {fail("answered a reply with %x",w)}
}''')
add('c07-tiny-record-panics','a complete record of fewer than 8 bytes','looking at the message type of a record of fewer than 8 bytes panics',
 [(S,'''	rd := xdr.MakeReader(buf)
''','''	if mtype := binary.BigEndian.Uint32(buf[4:]); mtype != uint32(CALL) {
		return fmt.Errorf("request mtype %d != CALL", mtype)
	}

	rd := xdr.MakeReader(buf)
''')],'''func main(){
 s:=&script{in:bytes.NewReader(append(record(words(3)),callRec(5,7,8,9)...))}
 srv:=rfc1057.MakeServer()
 srv.Run(s)
 for k:=0;k<100;k++ { time.Sleep(10*time.Millisecond); if len(s.written())>0 {return} }
 fail("call behind a tiny record not answered")
}''')
add('c08-closed-reported-as-nil','a stream that ends right after the request is written, for a call without results','the end of the stream instead of a reply is success for a result of no bytes',
 [(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
	if err != nil {
''','''	_, err = io.ReadFull(c.rw, hdr[:])
	if _, void := resp.(*xdr.Void); void && err == io.EOF {
		// The server has taken the call and had nothing to say.
		return nil
	}
	if err != nil {
''')],'''func main(){
 s:=&script{in:bytes.NewReader(nil)}
 c:=rfc1057.MakeClient(s,7,8)
 if c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{})==nil {fail("success without a reply")}
}''')
add('c09-first-read-is-header','a transport that delivers the header in pieces to the client','the client takes the header of a reply from a single read',
 [(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
''','''	_, err = io.ReadAtLeast(c.rw, hdr[:], 2)
''')],'''type one struct{ r io.Reader }
func (o one) Read(p []byte)(int,error){ if len(p)>3 {p=p[:3]}; return o.r.Read(p) }
func main(){
 s:=&script{in:one{bytes.NewReader(okRec(1,0,0,0,7))}}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if err:=c.Call(9,noauth,noauth,&xdr.Void{},&r);err!=nil||r!=7 {fail("%v %d",err,r)}
}''')
add('c10-fragment-skipped','a fragmented record','the first fragment of a record is dropped and the connection goes on',
 [(S,'''			return fmt.Errorf("fragments not supported")
''','''			if _, err := io.CopyN(io.Discard, sc.rw, int64(hlen)); err != nil {
				return err
			}
			continue
''')],'''func main(){
 f:=callRec(5,7,8,9); f[0]=0
 s:=&script{in:bytes.NewReader(append(f,callRec(6,7,8,9)...))}
 err:=rfc1057.MakeServer().Run(s)
 if err==io.EOF {fail("a fragmented record did not end the connection")}
}''')
add('c10-torn-header-is-eof','a stream that ends inside a record header','a close inside a record header is reported as plain end-of-file',
 [(S,'''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
''','''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		if err != nil {
''')],'''func main(){
 s:=&script{in:bytes.NewReader(callRec(5,7,8,9)[:3])}
 if err:=rfc1057.MakeServer().Run(s);err==io.EOF {fail("close inside a header is io.EOF")}
}''')
add('c10-watchdog-leaks','a connection that ends','every connection leaves a goroutine behind',
 [(S,'''	for {
		var hdr [4]byte
''','''	idle := make(chan struct{})
	go func() {
		for range idle {
		}
	}()

	for {
		var hdr [4]byte
''')],'''func main(){
 n:=runtime.NumGoroutine()
 for k:=0;k<50;k++ { rfc1057.MakeServer().Run(&script{in:bytes.NewReader(nil)}) }
 time.Sleep(200*time.Millisecond)
 if g:=runtime.NumGoroutine();g>n+10 {fail("%d goroutines left",g-n)}
}''')
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"net"','"net"\n"runtime"')
add('c11-string-copied-first','a message declaring a huge string without sending it','decoding a string allocates its declared length before looking at what arrived',
 [(L,'''		buf := xdrR(xs, sz)
		*v = string(buf)
''','''		buf := make([]byte, sz)
		xdrRW(xs, buf)
		*v = string(buf)
''')],'''type st struct{ s string }
func (s *st) Xdr(x *xdr.XdrState){ xdr.XdrString(x,-1,&s.s) }
func main(){
 var m1,m2 runtime.MemStats
 runtime.ReadMemStats(&m1)
 var s st
 if xdr.DecodeBuf(words(0x30000000,1),&s)==nil {fail("accepted")}
 runtime.ReadMemStats(&m2)
 if m2.TotalAlloc-m1.TotalAlloc>100<<20 {fail("%d bytes allocated for 8",m2.TotalAlloc-m1.TotalAlloc)}
}''')
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('"net"','"net"\n"runtime"')
add('c12-error-code','an operation that fails with TOOSMALL or SERVERFAULT','two NFS error codes are exchanged',
 [(T,'''const NFS3ERR_TOOSMALL Nfsstat3 = 10005
const NFS3ERR_SERVERFAULT Nfsstat3 = 10006''','''const NFS3ERR_TOOSMALL Nfsstat3 = 10006
const NFS3ERR_SERVERFAULT Nfsstat3 = 10005''')],'''func main(){ if rfc1813.NFS3ERR_TOOSMALL!=10005 {fail("TOOSMALL is %d",rfc1813.NFS3ERR_TOOSMALL)} }''')
add('c12-set-to-time','a SETATTR that sets a time','setting a time to the server\'s and to the client\'s are exchanged',
 [(T,'''const SET_TO_SERVER_TIME Time_how = 1
const SET_TO_CLIENT_TIME Time_how = 2''','''const SET_TO_CLIENT_TIME Time_how = 1
const SET_TO_SERVER_TIME Time_how = 2''')],'''func main(){ v:=rfc1813.Set_atime{Set_it:rfc1813.SET_TO_SERVER_TIME}; b,_:=xdr.EncodeBuf(&v); if len(b)!=4||b[3]!=1 {fail("%x",b)} }''')
add('c12-fhandle-bound','a MOUNT file handle of more than 32 bytes','MOUNT file handles are limited to the 32 bytes of version 2',
 [(T,'const FHSIZE3 uint32 = 64','const FHSIZE3 uint32 = 32')],'''func main(){ v:=rfc1813.Fhandle3(make([]byte,64)); if _,err:=xdr.EncodeBuf(&v);err!=nil {fail("%v",err)} }''')
add('c17-resend-on-stale','a stale reply in front of the reply','a call answered by a stale reply is sent again',
 [(C,'''		return fmt.Errorf("xid mismatch: %d != %d", res.Xid, req.Xid)
''','''		// A reply to an earlier call: ask again.
		return c.Call(proc, cred, verf, args, resp)
''')],'''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(0),okRec(2)...))}
 c:=rfc1057.MakeClient(s,7,8)
 c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{})
 if n:=len(s.written());n!=44 {fail("%d bytes sent for one call",n)}
}''')
add('c17-string-aliases-buffer','a service that keeps a string argument, and later requests','decoded strings share memory with the recycled request buffer, so what a service stored changes',
 [(L,'''		*v = string(buf)
''','''		*v = *(*string)(unsafe.Pointer(&buf))
'''),(L,'''	"math"
''','''	"math"
	"unsafe"
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 var kept []string
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ var s string; xdr.XdrString(x,-1,&s); kept=append(kept,s); return &xdr.Void{},nil})
 go srv.Run(b)
 for k:=0;k<50;k++ {
  s:=bytes.Repeat([]byte{byte('a'+k%26)},40)
  go a.Write(callRec(uint32(k),7,8,9,append(words(40),s...)...))
  readRec(a)
  time.Sleep(time.Millisecond)
 }
 for k,s:=range kept { if s!=string(bytes.Repeat([]byte{byte('a'+k%26)},40)) {fail("string %d became %q",k,s)} }
}''')
add('c18-auth-bound','a credential of more than 400 bytes','credentials of up to 4000 bytes are sent and accepted',
 [(R,'int(400)','int(4000)')],'''func main(){
 s:=&script{in:bytes.NewReader(okRec(1))}
 c:=rfc1057.MakeClient(s,7,8)
 if c.Call(9,rfc1057.Opaque_auth{Flavor:1,Body:make([]byte,401)},noauth,&xdr.Void{},&xdr.Void{})==nil||len(s.written())>0 {fail("credential of 401 bytes sent")}
}''')
# generator
s=lambda x:"cat > \"$d/s.x\" <<'X'\n"+x+"\nX\n"
addg('c15-short-read','a read of the specification that returns less than it asked for','the specification is read with a single read',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	inf, err := os.Open(*inputFile)
	if err != nil {
		panic(err)
	}
	src := make([]byte, 1<<20)
	n, err := inf.Read(src)
	if err != nil && err != io.EOF {
		panic(err)
	}
	src = src[:n]
	inf.Close()
''')],G+'''{ printf 'struct a { int x; };\\n'; sleep 1; printf 'struct b { int y; };\\n'; } > "$d/all"
mkfifo "$d/s.x"
{ printf 'struct a { int x; };\\n'; sleep 1; printf 'struct b { int y; };\\n'; } > "$d/s.x" &
"$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -p main > "$d/out" 2>&1 && { grep -q 'type B struct' "$d/p/gen.go" || fail "success with a part of the specification"; }
kill %1 2>/dev/null
exit 0
''')
addg('c16-up-to-date-skipped','a run killed between putting its two output files in place','outputs newer than the specification are taken for up to date, also when only one of them is',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
''','''	ifi, ierr := os.Stat(*inputFile)
	ofi, oerr := os.Stat(*outputFile)
	if ierr == nil && oerr == nil && ofi.ModTime().After(ifi.ModTime()) {
		// Up to date.
		return
	}

	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
''')],G+'''printf 'struct a { int x; };\\n' > "$d/s.x"; touch -d '1 hour ago' "$d/s.x"
"$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -t "$d/p/types.go" -p main || fail run
rm "$d/p/types.go"
"$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -t "$d/p/types.go" -p main || fail run
[ -s "$d/p/types.go" ] || fail "types not written"
''')
addg('c16-lock-left','a run killed or failing after it has started','a lock file keeps a second run from working after one that did not end normally',
 [(M,'''	fset := token.NewFileSet()
''','''	// Two runs must not write the same file at once.
	lock, err := os.OpenFile(*outputFile+".lock", os.O_CREATE|os.O_EXCL, 0666)
	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)
		os.Exit(1)
	}
	lock.Close()
	defer os.Remove(*outputFile + ".lock")

	fset := token.NewFileSet()
''')],G+'''printf 'struct a { int x; };\\n' > "$d/s.x"; mkfifo "$d/q.x"
"$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -t "$d/no/types.go" -p main 2>/dev/null
"$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -p main || fail "second run fails"
''')
addg('c19-env-package','GOPACKAGE set in the environment, as under go generate','the package name depends on the environment',
 [(M,'''	flag.Parse()
''','''	if pkg := os.Getenv("GOPACKAGE"); pkg != "" {
		*outputPackage = pkg
	}
	flag.Parse()
''')],G+'''printf 'struct a { int x; };\\n' > "$d/s.x"
"$d/gen" -i "$d/s.x" -o "$d/1.go"; GOPACKAGE=foo "$d/gen" -i "$d/s.x" -o "$d/2.go"
cmp -s "$d/1.go" "$d/2.go" || fail "output depends on the environment"
''')
addg('c19-banner-with-date','runs at different times','the output names the day it was made',
 [(O,'''	fmt.Fprintf(tout, "const %s %s = %s\\n", ident, *constTypeFlag, val)
''','''	if len(consts) == 1 {
		fmt.Fprintf(tout, "// As of %s.\\n", time.Now().Format("2006-01-02 15:04:05"))
	}
	fmt.Fprintf(tout, "const %s %s = %s\\n", ident, *constTypeFlag, val)
'''),(O,'''	"strings"
''','''	"strings"
	"time"
''')],G+'''printf 'const A = 1;\\n' > "$d/s.x"
"$d/gen" -i "$d/s.x" -o "$d/1.go"; sleep 1.1; "$d/gen" -i "$d/s.x" -o "$d/2.go"
cmp -s "$d/1.go" "$d/2.go" || fail "output depends on the time"
''')
sh,f=gen('const N = 010; struct s { opaque o[N]; };','''func main(){ var v S; if len(v.O)!=8 {fail("octal 010 is %d",len(v.O))} }''')
addg('c14-octal-decimal','an octal constant','octal constants are taken for decimal',
 [(SC,'''		lval.str = lit
		return CONST
''','''		lval.str = strings.TrimLeft(lit, "0")
		if lval.str == "" || lit[1:2] == "x" {
			lval.str = lit
		}
		return CONST
'''.replace('lit[1:2] == "x"','strings.HasPrefix(lval.str, "x")')),(SC,'''	"go/token"
''','''	"go/token"
	"strings"
''')],sh,f)
sh,f=gen('struct s { int map; int type; };','''func main(){ var v S; v.Map=1; v.Type=2; b,_:=xdr.EncodeBuf(&v); if len(b)!=8 {fail("%x",b)} }''')
addg('c14-map-unnamed','a field called map','an identifier that is the Go keyword map takes the name of the one before it',
 [(SC,'''		lval.str = "map"
		return IDENT
''','''		return IDENT
''')],sh.replace('fail "generator','fail "generator'),f)
sh,f=gen('typedef int three[3];\nstruct s { three a[2]; };','''func main(){ var v S; for k:=range v.A { for j:=range v.A[k] {v.A[k][j]=int32(k*3+j)} }; b,_:=xdr.EncodeBuf(&v); if len(b)!=24 {fail("%x",b)}; var w S; if xdr.DecodeBuf(b,&w)!=nil||w!=v {fail("%v",w)} }''')
addg('c14-last-element-skipped','a fixed array whose elements are themselves declared as arrays','fixed arrays of a named type leave out their last element',
 [(O,'''	idx := loopVar(valPtr)
	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\\n", idx, idx, constVal(t.sz), idx)
''','''	idx := loopVar(valPtr)
	last := constVal(t.sz)
	if _, named := t.t.(typeIdent); named && len(t.sz) == 1 {
		last += "-1"
	}
	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\\n", idx, idx, last, idx)
''')],sh,f)
sh,f=gen('enum e { A = 1, B = 4294967295 };','''func main(){ v:=B; b,_:=xdr.EncodeBuf(&v); if len(b)!=4||b[0]!=255 {fail("%x",b)} }''','-unsigned-enum')
addg('c14-unsigned-enum-16bit','an unsigned enum with a large value','unsigned enums are 31 bits wide',
 [(O,'''		t = "uint32"
	}

	fmt.Fprintf(tout, "type %s %s\\n", i(ident), t)
''','''		t = "uint32"
		for n := range val {
			if v, err := strconv.ParseUint(val[n].val, 0, 32); err == nil {
				val[n].val = fmt.Sprint(v & 0x7fffffff)
			}
		}
	}

	fmt.Fprintf(tout, "type %s %s\\n", i(ident), t)
''')],sh,f)
