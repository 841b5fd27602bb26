import runpy
A=runpy.run_path('/verif/tools/bugs/a.py'); d=A['d']
B=runpy.run_path('/verif/tools/bugs/b.py'); G=B['G']; spec=B['spec']; gen=B['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'; T='rfc1813/types.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

add('c02-xid-zero-is-a-notification','a call whose transaction id is 0','calls with transaction id 0 are executed but not answered',
 [(S,'''	wbuf := wr.WriteBuf()
	binary''','''	if req.Xid == 0 {
		// Nobody waits for it.
		return nil
	}

	wbuf := wr.WriteBuf()
	binary''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(callRec(0,7,8,9))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c03-large-reply-in-pieces','two replies of more than 64 KB at the same time','large replies are written in pieces, and others get in between',
 [(S,'''	return sc.write(wbuf)
}''','''	// Write large replies in pieces.
	for len(wbuf) > 64<<10 {
		err = sc.write(wbuf[:64<<10])
		if err != nil {
			return err
		}
		wbuf = wbuf[64<<10:]
	}

	return sc.write(wbuf)
}''')],'''type big struct{ b []byte }
func (v *big) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,-1,&v.b) }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var c xdr.Uint32; c.Xdr(x); return &big{bytes.Repeat([]byte{byte(c)},200<<10)},nil})
 go srv.Run(b)
 go func(){ for k:=1;k<60;k++ { a.Write(callRec(uint32(k),7,8,9,0,0,0,byte(k))) } }()
 for k:=1;k<60;k++ {
  r,err:=readRec(a)
  if err!=nil {fail("%v",err)}
  if len(r)!=28+200<<10 {fail("reply of %d bytes",len(r))}
  x:=byte(u32(r,0))
  for _,c:=range r[28:] { if c!=x {fail("reply %d has bytes of %d",x,c)} }
 }
}''')
add('c02-reply-size-capped','a result of more than a megabyte','calls with results of more than a megabyte are not answered',
 [(S,'''	wbuf := wr.WriteBuf()
	binary''','''	wbuf := wr.WriteBuf()
	if len(wbuf) > 1<<20 {
		return fmt.Errorf("reply of %d bytes too large", len(wbuf))
	}
	binary''')],'''type big struct{ b []byte }
func (v *big) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,-1,&v.b) }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ return &big{make([]byte,1<<20+100)},nil})
 go srv.Run(b)
 go a.Write(callRec(5,7,8,9))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c02-request-size-capped','a call of more than four megabytes','a call of more than four megabytes ends the connection',
 [(S,'''		buflen := int(hlen & 0x7fffffff)
''','''		buflen := int(hlen & 0x7fffffff)
		if buflen > 4<<20 {
			return fmt.Errorf("request of %d bytes too large", buflen)
		}
''')],'''type big struct{ b []byte }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ var v []byte; xdr.XdrVarArray(x,-1,&v); return &xdr.Void{},x.Error()})
 go srv.Run(b)
 go a.Write(callRec(5,7,8,9,append(words(5<<20),make([]byte,5<<20)...)...))
 r,err:=readRec(a)
 if err!=nil {fail("%v",err)}
 if len(r)!=24 || u32(r,5)!=0 {fail("%x",r)}
}''')
add('c06-proc-16bit','a procedure number above 65535 whose low half is that of a registered one','procedures are looked up by the low 16 bits of their number',
 [(S,'''	s.handlers[prog][vers][proc] = handler''','''	s.handlers[prog][vers][proc&0xffff] = handler'''),
  (S,'''		h, procok := procmap[req.Body.Cbody.Proc]''','''		h, procok := procmap[req.Body.Cbody.Proc&0xffff]''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(callRec(5,7,8,0x50009))
 r,err:=readRec(a)
 if err!=nil || u32(r,5)!=3 {fail("%v %x",err,r)}
}''')
add('c01-verifier-refused','a reply whose verifier is not empty','good replies with a verifier are refused, after which what was called has happened but is reported as failed',
 [(C,'''	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {''','''	if len(res.Body.Rbody.Areply.Verf.Body) > 0 {
		c.err = fmt.Errorf("unexpected verifier")
		return c.err
	}

	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {''')],'''func main(){
 s:=&script{in:bytes.NewReader(record(words(1,1,0,2,4,77,0,9)))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if err:=c.Call(9,noauth,noauth,&xdr.Void{},&r); err!=nil || r!=9 {fail("%v %d",err,r)}
}''')
add('c12-path-1024','a symbolic link to a path of more than 1024 bytes','paths are limited to 1024 bytes',
 [(N,'''func (v *Nfspath3) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(-1),''','''func (v *Nfspath3) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(1024),''')],'''func main(){
 p:=rfc1813.Nfspath3(strings.Repeat("x",1025))
 if _,err:=xdr.EncodeBuf(&p); err!=nil {fail("%v",err)}
}''')
add('c14-length-wraps','a string longer than 4 GB','the length of a string of more than 4 GB is cut to 32 bits',
 [(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("string too large")''','''		if maxlen >= 0 && len(*v) > maxlen {
			xs.SetError("string too large")''')],'''import (
"fmt"
"github.com/zeldovich/go-rpcgen/xdr"
"runtime/debug"
"syscall"
"unsafe"
)
type str string
func (v *str) Xdr(xs *xdr.XdrState){ xdr.XdrString(xs,-1,(*string)(v)) }
func main(){
 b,err:=syscall.Mmap(-1,0,1<<32+4096,syscall.PROT_NONE,syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
 if err!=nil {fmt.Println(err); return}
 var s str
 *(*[2]uintptr)(unsafe.Pointer(&s))=[2]uintptr{uintptr(unsafe.Pointer(&b[0])),1<<32+5}
 debug.SetPanicOnFault(true)
 defer func(){ if r:=recover(); r!=nil {fail("read it: %v",r)} }()
 if _,err:=xdr.EncodeBuf(&s); err==nil {fail("no error")}
}''')
add('c14-array-length-wraps','an array of more than 2^32 elements','the length of an array of more than 2^32 elements is cut to 32 bits',
 [(L,'''	if len > math.MaxUint32 {
		xs.SetError("length too large")
		return
	}

''','')],'''func main(){
 var n uint32
 w:=xdr.MakeWriter(nil)
 w.EncodingSetSize(&n,1<<32+1)
 if w.Error()==nil {fail("no error")}
}''')
addg('c14-enums-always-unsigned','an enum without -unsigned-enum','enums are unsigned also when that was not asked for',
 [(M,'''flag.Bool("unsigned-enum", false,''','''flag.Bool("unsigned-enum", true,''')],*gen('''enum e { A = 1 };''','''func main(){
 x:=A
 x-=2
 if x>0 {fail("an enum is unsigned")}
}'''))
addg('c14-const-type-decimal-only','-const-type and a hexadecimal constant','constants given in hexadecimal do not get the type asked for',
 [(O,'''	fmt.Fprintf(tout, "const %s %s = %s\\n", ident, *constTypeFlag, val)''','''	t := *constTypeFlag
	if strings.HasPrefix(val, "0x") {
		t = ""
	}
	fmt.Fprintf(tout, "const %s %s = %s\\n", ident, t, val)''')],*gen('''const A = 0x10;
struct s { int x[A]; };''','''func main(){
 var x interface{} = A
 if _,ok:=x.(uint64); !ok {fail("the constant is a %T",x)}
}''','-const-type uint64'))
addg('c15-usage-exits-0','a run without -o','a run without an output exits successfully',
 [(M,'''		fmt.Fprintf(os.Stderr, "Must specify output file (-o)\\n")
		os.Exit(1)''','''		fmt.Fprintf(os.Stderr, "Must specify output file (-o)\\n")
		flag.Usage()
		os.Exit(0)''')],G+'''printf 'struct a { int x; };\\n' > "$d/s.x"
"$d/gen" -i "$d/s.x" -t "$d/t.go" 2>/dev/null && fail "exits 0"
exit 0
''')
addg('c19-package-from-directory','a run without -p from another directory','the package name is that of the current directory',
 [(M,'''	flag.Parse()

	if *inputFile == "" {''','''	flag.Parse()

	if wd, err := os.Getwd(); err == nil && *outputPackage == "main" && token.IsIdentifier(filepath.Base(wd)) {
		*outputPackage = filepath.Base(wd)
	}

	if *inputFile == "" {''')],G+'''printf 'struct a { int x; };\\n' > "$d/s.x"; mkdir "$d/foo" "$d/bar"
(cd "$d/foo"; "$d/gen" -i ../s.x -o ../1.go); (cd "$d/bar"; "$d/gen" -i ../s.x -o ../2.go)
cmp -s "$d/1.go" "$d/2.go" || fail "output depends on the directory"
''')
add('c04-arguments-after-reply','a handler that keeps its opaque argument while its reply is written','(two sites) a request buffer goes back to the pool as soon as the reply is encoded, before it is written',
 [(S,'''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)
''','''func (sc *serverConn) handleReq(buf []byte) {
'''),(S,'''	rd := xdr.MakeReader(buf)

	var req Rpc_msg
	req.Xdr(rd)
	err := rd.Error()
	if err != nil {
''','''	rd := xdr.MakeReader(buf)

	var req Rpc_msg
	req.Xdr(rd)
	err := rd.Error()
	if err != nil {
		putReqBuf(buf)
'''),(S,'''	wbuf := wr.WriteBuf()
	binary''','''	putReqBuf(buf)
	wbuf := wr.WriteBuf()
	binary''')],'''type gate struct{ net.Conn; open, at chan bool; n int }
func (g *gate) Write(p []byte)(int,error){ g.n++; if g.n==1 { g.at<-true; <-g.open }; return g.Conn.Write(p) }
func main(){
 a,b:=net.Pipe()
 g:=&gate{Conn:b,open:make(chan bool),at:make(chan bool)}
 srv:=rfc1057.MakeServer()
 var kept []byte
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ var v []byte; xdr.XdrVarArray(x,-1,&v); if kept==nil {kept=v}; return &xdr.Void{},nil})
 go srv.Run(g)
 a.Write(callRec(5,7,8,9,0,0,0,4,1,2,3,4))
 <-g.at
 for k:=0;k<20;k++ { a.Write(callRec(6,7,8,9,0,0,0,4,9,9,9,9)) }
 if !bytes.Equal(kept,[]byte{1,2,3,4}) {fail("%x",kept)}
}''')
add('c17-lost-reply-retried','an answer that is not for this call, after which the connection still works','a call that gets the answer to another one is sent again, under a new transaction id',
 [(C,'''	if res.Xid != req.Xid {
		return fmt.Errorf("xid mismatch: %d != %d", res.Xid, req.Xid)''','''	if res.Xid < req.Xid {
		// The answer to an earlier call, ours must be lost.
		return c.Call(proc, cred, verf, args, resp)''')],'''type peer struct{ n int; out bytes.Buffer }
func (e *peer) Write(p []byte)(int,error){ e.n++; x:=u32(p,1); if x==2 {e.out.Write(okRec(1))} else {e.out.Write(okRec(x))}; return len(p),nil }
func (e *peer) Read(p []byte)(int,error){ return e.out.Read(p) }
func main(){
 e:=&peer{}
 c:=rfc1057.MakeClient(e,7,8)
 c.Call(0,noauth,noauth,&xdr.Void{},&xdr.Void{})
 c.Call(0,noauth,noauth,&xdr.Void{},&xdr.Void{})
 if e.n!=2 {fail("two calls were sent as %d",e.n)}
}''')
add('c08-write-error-forgotten','a write that fails after part of the request','after a failed write the client goes on if the error says it was a timeout',
 [(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
		c.err = err
		return err
	}
''','''	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
		if te, ok := err.(interface{ Timeout() bool }); !ok || !te.Timeout() {
			c.err = err
		}
		return err
	}
''')],'''type tmo struct{}
func (tmo) Error() string {return "timeout"}
func (tmo) Timeout() bool {return true}
func (tmo) Temporary() bool {return true}
type peer struct{ n int }
func (e *peer) Write(p []byte)(int,error){ e.n++; if e.n==1 {return 5,tmo{}}; return len(p),nil }
func (e *peer) Read(p []byte)(int,error){ return 0,io.EOF }
func main(){
 e:=&peer{}
 c:=rfc1057.MakeClient(e,7,8)
 c.Call(0,noauth,noauth,&xdr.Void{},&xdr.Void{})
 c.Call(0,noauth,noauth,&xdr.Void{},&xdr.Void{})
 if e.n!=1 {fail("a request was sent after a torn one")}
}''')
add('c18-credential-checked-late','a credential over its bound','an oversized credential is cut to its bound',
 [(C,'''	req.Body.Cbody.Cred = cred
''','''	if len(cred.Body) > 400 {
		cred.Body = cred.Body[:400]
	}
	req.Body.Cbody.Cred = cred
''')],'''func main(){
 s:=&script{in:bytes.NewReader(okRec(1))}
 c:=rfc1057.MakeClient(s,7,8)
 cr:=rfc1057.Opaque_auth{Flavor:1,Body:make([]byte,401)}
 if c.Call(0,cr,noauth,&xdr.Void{},&xdr.Void{})==nil {fail("an oversized credential is accepted")}
}''')
add('c10-run-ends-on-bad-call','an undecodable record while other calls follow','serving ends when a call cannot be read, found by the reader at its next record',
 [(S,'''		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
}''','''		fmt.Fprintf(os.Stderr, "%v\\n", err)
		sc.bad.Store(true)
	}
}'''),(S,'''	wmu  sync.Mutex
	werr error
}''','''	wmu  sync.Mutex
	werr error

	bad atomic.Bool // a request failed
}'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
'''),(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
		if sc.bad.Load() {
			return fmt.Errorf("connection broken")
		}
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){ return &xdr.Void{},nil})
 go srv.Run(b)
 a.Write(record(words(5,0)))
 time.Sleep(200*time.Millisecond)
 go a.Write(callRec(5,7,8,9))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c11-reply-buffer-presized','a huge declared record with its first bytes','(two sites) the first buffer for a record is as large as the header says once the connection has carried a large one',
 [(S,'''		buflen := int(hlen & 0x7fffffff)
		buf, err := readBody(sc.rw, getReqBuf(bodyStart(buflen)), buflen)
		if err != nil {
			return err
		}
''','''		buflen := int(hlen & 0x7fffffff)
		start := bodyStart(buflen)
		if large {
			// A bulk connection: save the copying.
			start = buflen
		}
		buf, err := readBody(sc.rw, getReqBuf(start), buflen)
		if err != nil {
			return err
		}
		if buflen > 1<<16 {
			large = true
		}
'''),(S,'''	for {
		var hdr [4]byte''','''	large := false
	for {
		var hdr [4]byte''')],'''import (
"bytes"
"github.com/zeldovich/go-rpcgen/rfc1057"
"runtime"
)
func main(){
 srv:=rfc1057.MakeServer()
 var in bytes.Buffer
 in.Write(record(make([]byte,1<<17)))
 in.Write(words(0xf0000000))
 in.Write(make([]byte,100))
 var m0,m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 srv.Run(&script{in:&in})
 runtime.ReadMemStats(&m1)
 if m1.TotalAlloc-m0.TotalAlloc>1<<28 {fail("%d MB allocated",(m1.TotalAlloc-m0.TotalAlloc)>>20)}
}''')
