import runpy
A=runpy.run_path('/verif/tools/bugs/a.py'); d=A['d']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=d(demo)))
add('c02-retry-handler','a procedure whose result cannot be encoded','a handler whose result cannot be encoded is run a second time',
 [(S,'''		resdata, err = h(rd)
		if err != nil {
			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
		}
''','''		args := *rd
		resdata, err = h(rd)
		if err == nil && resdata != nil {
			// Once more if the result cannot be encoded.
			try := xdr.MakeWriter(nil)
			resdata.Xdr(try)
			if try.Error() != nil {
				resdata, err = h(&args)
			}
		}
		if err != nil {
			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
		}
''')],'''type big struct{}
func (big) Xdr(x *xdr.XdrState){ b:=make([]byte,100); xdr.XdrVarArray(x,64,&b) }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 runs:=make(chan bool,10)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){runs<-true;return big{},nil})
 go srv.Run(b)
 go a.Write(callRec(5,7,8,9))
 readRec(a)
 if len(runs)!=1 {fail("handler ran %d times",len(runs))}
}''')
add('c02-reply-state-shared','two requests in service at the same time on one connection','the reply message is kept in the connection, so concurrent requests mix their transaction ids and verdicts',
 [(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// res is the reply under construction.
	res Rpc_msg
'''),(S,'''	var res Rpc_msg
	var resdata xdr.Xdrable
''','''	res := &sc.res
	var resdata xdr.Xdrable
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 a.Write(callRec(5,7,8,9))
 time.Sleep(100*time.Millisecond)
 go a.Write(callRec(6,7,8,1))
 readRec(a)
 close(hold)
 r,err:=readRec(a)
 if err!=nil||u32(r,0)!=5 {fail("reply carries xid %d %v",u32(r,0),err)}
}''')
add('c05-handlers-of-a-program-serialized','a blocked handler and a call to another procedure of the same program on another connection','the handlers of one program run one at a time',
 [(S,'''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler

	// busy serializes the handlers of a program, by program.
	busy sync.Map
}
'''),(S,'''		resdata, err = h(rd)
''','''		mu, _ := sc.s.busy.LoadOrStore(req.Body.Cbody.Prog, new(sync.Mutex))
		mu.(*sync.Mutex).Lock()
		resdata, err = h(rd)
		mu.(*sync.Mutex).Unlock()
''')],'''func main(){
 a,b:=net.Pipe()
 e,f:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go srv.Run(f)
 a.Write(callRec(5,7,8,9))
 time.Sleep(100*time.Millisecond)
 go e.Write(callRec(6,7,8,1))
 r,err:=readRec(e)
 if err!=nil||u32(r,0)!=6 {fail("blocked: %v",err)}
}''')
add('c05-connection-window','300 blocked handlers on one connection','a connection with 256 requests in service reads no more of them',
 [(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// window bounds the requests in service.
	window chan struct{}
'''),(S,'''		s:  s,
		rw: rw,
''','''		s:  s,
		rw: rw,

		window: make(chan struct{}, 256),
'''),(S,'''		go sc.handleReq(buf)
''','''		sc.window <- struct{}{}
		go func() {
			sc.handleReq(buf)
			<-sc.window
		}()
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go func(){
 for i:=uint32(0);i<300;i++ { a.Write(callRec(i,7,8,9)) }
 a.Write(callRec(500,7,8,1))
 }()
 r,err:=readRec(a)
 if err!=nil||u32(r,0)!=500 {fail("blocked: %v",err)}
}''')
add('c06-first-registration-wins','a procedure registered twice','registering a procedure again has no effect',
 [(S,'''	s.handlers[prog][vers][proc] = handler
''','''	if _, procok := s.handlers[prog][vers][proc]; !procok {
		s.handlers[prog][vers][proc] = handler
	}
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 for i:=uint32(1);i<3;i++ { v:=xdr.Uint32(i); srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &v,nil}) }
 go srv.Run(b)
 go a.Write(callRec(5,7,8,9))
 r,err:=readRec(a)
 if err!=nil||u32(r,6)!=2 {fail("handler %d ran",u32(r,6))}
}''')
add('c06-mismatch-range-unset','a call to an unknown version of a program with several versions, the highest registered of which is seen first','the highest version reported in a program mismatch is the last one seen, not the highest',
 [(S,'''				if v < mismatch.Low {
					mismatch.Low = v
				}
				if v > mismatch.High {
					mismatch.High = v
				}
''','''				if v < mismatch.Low {
					mismatch.Low = v
				} else if v > mismatch.High {
					mismatch.High = v
				}
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 for _,v:=range []uint32{3,4,5} { srv.Register(7,v,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil}) }
 srv.Register(6,3,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 for i:=uint32(0);i<50;i++ {
 go a.Write(callRec(i,7-i%2,80,9))
 r,err:=readRec(a)
 if err!=nil||u32(r,5)!=2||u32(r,6)!=3||u32(r,7)!=5-2*(i%2) {fail("%v range %d..%d",err,u32(r,6),u32(r,7))}
 }
}''')
add('c07-empty-fragment-skipped','a fragmented record whose first fragment is empty','an empty fragment is skipped as a keep-alive, so the rest of a fragmented record is read as a record of its own',
 [(S,'''		if hlen&(1<<31) == 0 {
			return fmt.Errorf("fragments not supported")
		}
''','''		if hlen == 0 {
			// Keep-alive.
			continue
		}
		if hlen&(1<<31) == 0 {
			return fmt.Errorf("fragments not supported")
		}
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 runs:=make(chan bool,10)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){runs<-true;return &xdr.Void{},nil})
 s:=&script{in:bytes.NewReader(append(words(0),callRec(5,7,8,9)...))}
 srv.Run(s)
 time.Sleep(100*time.Millisecond)
 if len(runs)!=0||len(s.written())!=0 {fail("a fragmented record was executed")}
}''')
add('c07-short-record-ends','a complete record too short to be a call, followed by a call','a record too short to be a call ends the connection instead of being dropped',
 [(S,'''		if hlen&(1<<31) == 0 {
			return fmt.Errorf("fragments not supported")
''','''		if hlen&(1<<31) == 0 || hlen&0x7fffffff < 4 {
			return fmt.Errorf("bad record header %x", hlen)
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 s:=&script{in:bytes.NewReader(append(record([]byte{1,2}),callRec(5,7,8,9)...))}
 srv.Run(s)
 time.Sleep(100*time.Millisecond)
 if len(s.written())==0 {fail("the call after a short record got no reply")}
}''')
add('c08-retry-after-partial-header','a read timeout after a part of a reply header','a temporary read error is retried from the start of the header, dropping the bytes already read',
 [(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
	if err != nil {
''','''	_, err = io.ReadFull(c.rw, hdr[:])
	for {
		tmp, ok := err.(interface{ Temporary() bool })
		if !ok || !tmp.Temporary() {
			break
		}
		_, err = io.ReadFull(c.rw, hdr[:])
	}
	if err != nil {
''')],'''type terr struct{}
func (terr) Error() string {return "timeout"}
func (terr) Temporary() bool {return true}
func (terr) Timeout() bool {return true}
type steps struct { l []interface{} }
func (s *steps) Read(p []byte) (int,error) {
 if len(s.l)==0 {return 0,io.EOF}
 switch v:=s.l[0].(type) {
 case error: s.l=s.l[1:]; return 0,v
 case []byte: n:=copy(p,v); if n==len(v) {s.l=s.l[1:]} else {s.l[0]=v[n:]}; return n,nil
 }
 return 0,io.EOF
}
func main(){
 // What follows the lost bytes looks like a reply.
 // header of a 32-byte reply: 80 00 00 20; two bytes of it are lost, the
 // remaining ones and the start of the body read as another header.
 body:=append(words(0x80000000|24), append(words(1,1,0,0,0,0),words(1,2,3,4)...)...)
 _=body
 hdr:=[]byte{0x80,0x00}
 rest:=append([]byte{},okRec(1,words(99)...)...)
 s:=&script{in:&steps{l:[]interface{}{hdr,terr{},rest}}}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 if c.Call(9,noauth,noauth,&xdr.Void{},&r)==nil {fail("bytes in the middle of a record taken for a reply: %d",r)}
}''')
add('c09-buffered-per-call','a transport delivering the next reply together with this one','the client reads through a buffer of its own in each call and loses what it read ahead',
 [(C,'''import (
	"encoding/binary"
''','''import (
	"bufio"
	"encoding/binary"
'''),(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
''','''	br := bufio.NewReader(c.rw)
	_, err = io.ReadFull(br, hdr[:])
'''),(C,'''	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
''','''	buf, err := readBody(br, nil, int(hlen&0x7fffffff))
''')],'''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(1,words(1)...),okRec(2,words(2)...)...))}
 c:=rfc1057.MakeClient(s,7,8)
 var r xdr.Uint32
 for i:=1;i<3;i++ { if err:=c.Call(9,noauth,noauth,&xdr.Void{},&r);err!=nil||int(r)!=i {fail("call %d: %v",i,err)} }
}''')
add('c10-waits-for-handlers','a connection that ends while a handler is blocked','serving a connection returns only once all handlers have',
 [(S,'''		rw: rw,
	}

	for {
''','''		rw: rw,
	}

	var inService sync.WaitGroup
	defer inService.Wait()

	for {
'''),(S,'''		go sc.handleReq(buf)
''','''		inService.Add(1)
		go func() {
			defer inService.Done()
			sc.handleReq(buf)
		}()
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 s:=&script{in:bytes.NewReader(callRec(5,7,8,9))}
 done:=make(chan bool)
 go func(){srv.Run(s);close(done)}()
 select { case <-done: case <-time.After(3*time.Second): fail("Run does not return") }
}''')
add('c10-replies-dropped-after-end','a call whose handler finishes after the peer has closed its sending side','replies to calls in service when the stream ends are dropped',
 [(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// done is closed when the connection is no longer served.
	done chan struct{}
'''),(S,'''		rw: rw,
	}

	for {
''','''		rw: rw,

		done: make(chan struct{}),
	}
	defer close(sc.done)

	for {
'''),(S,'''	return sc.write(wbuf)
''','''	select {
	case <-sc.done:
		return fmt.Errorf("connection is gone")
	default:
	}

	return sc.write(wbuf)
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 s:=&script{in:bytes.NewReader(callRec(5,7,8,9))}
 srv.Run(s)
 close(hold)
 for i:=0;len(s.written())==0;i++ { if i>30 {fail("no reply")}; time.Sleep(100*time.Millisecond) }
}''')
add('c10-temporary-error-retried','a read error that calls itself temporary','a read error that calls itself temporary between records is retried for ever',
 [(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		n, err := io.ReadFull(sc.rw, hdr[:])
		if tmp, ok := err.(interface{ Temporary() bool }); ok && n == 0 && tmp.Temporary() {
			continue
		}
		if err != nil {
			return err
		}
''')],'''type terr struct{}
func (terr) Error() string {return "timeout"}
func (terr) Temporary() bool {return true}
func (terr) Timeout() bool {return true}
type bad struct{}
func (bad) Read(p []byte) (int,error) {return 0,terr{}}
func main(){
 done:=make(chan bool)
 go func(){rfc1057.MakeServer().Run(&script{in:bad{}});close(done)}()
 select { case <-done: case <-time.After(3*time.Second): fail("Run does not return") }
}''')
add('c12-exclusive-create','a CREATE call with mode EXCLUSIVE','the verifier of an exclusive CREATE is not on the wire',
 [(N,'''	case EXCLUSIVE:
		(*Createverf3)(&((v).Verf)).Xdr(xs)
''','''	case EXCLUSIVE:
''')],'''func main(){
 v:=rfc1813.Createhow3{Mode:rfc1813.EXCLUSIVE}
 b,_:=xdr.EncodeBuf(&v)
 if len(b)!=12 {fail("encodes as %x",b)}
}''')
add('c12-mknod-fifo','an MKNOD call making a FIFO','the attributes of a FIFO in MKNOD are taken for a device',
 [(N,'''	case NF3CHR:
		fallthrough
	case NF3BLK:
		(*Devicedata3)(&((v).Device)).Xdr(xs)
	case NF3SOCK:
		fallthrough
	case NF3FIFO:
''','''	case NF3CHR:
		fallthrough
	case NF3BLK:
		fallthrough
	case NF3FIFO:
		(*Devicedata3)(&((v).Device)).Xdr(xs)
	case NF3SOCK:
''')],'''func main(){
 v:=rfc1813.Mknoddata3{Ftype:rfc1813.NF3FIFO}
 w:=rfc1813.Mknoddata3{Ftype:rfc1813.NF3SOCK}
 a,_:=xdr.EncodeBuf(&v)
 b,_:=xdr.EncodeBuf(&w)
 if len(a)!=len(b) {fail("fifo %x socket %x",a,b)}
}''')
add('c12-readdirplus-order','a READDIRPLUS result with entries','cookie and attributes of READDIRPLUS entries are exchanged on the wire',
 [(N,'''	(*Cookie3)(&((v).Cookie)).Xdr(xs)
	(*Post_op_attr)(&((v).Name_attributes)).Xdr(xs)
''','''	(*Post_op_attr)(&((v).Name_attributes)).Xdr(xs)
	(*Cookie3)(&((v).Cookie)).Xdr(xs)
''')],'''func main(){
 v:=rfc1813.Entryplus3{Cookie:5}
 b,_:=xdr.EncodeBuf(&v)
 if !bytes.Equal(b[12:20],[]byte{0,0,0,0,0,0,0,5}) {fail("encodes as %x",b)}
}''')
add('c13-bound-rounded-up','a string one to three bytes longer than its bound','the length of a decoded string is checked against its bound rounded up to whole words',
 [(L,'''		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")
''','''		if (maxlen >= 0 && sz > (maxlen+3)&^3) || sz < 0 {
			xs.SetError("string too large")
''')],'''func main(){
 var n rfc1813.Name3
 b,_:=xdr.EncodeBuf(&xdr.Void{})
 b=append(words(256),make([]byte,256)...)
 if xdr.DecodeBuf(b,&n)==nil {fail("256 bytes in a name of at most 255")}
}''')
add('c13-short-read-kept','a message cut inside a fixed field','the last word of a message may be cut short: missing bytes of it count as zero',
 [(L,'''		if n < len(v) {
			xs.err''','''		if n == 0 && len(v) > 0 || n < len(v)-3 {
			xs.err''')],'''func main(){
 var n xdr.Uint32
 if xdr.DecodeBuf([]byte{1,2,3},&n)==nil {fail("a cut word decodes as %x",n)}
}''')
add('c17-reply-cache-across-connections','two clients whose transaction ids coincide, each calling the same procedure','replies are cached by transaction id for all connections, so the call of another client gets a cached reply and is not executed',
 [(S,'''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''type Server struct {
	handlers map[uint32]map[uint32]map[uint32]ProcHandler

	// recent has the results of recent requests, by request.
	recent sync.Map
}
'''),(S,'''		resdata, err = h(rd)
''','''		if old, ok := sc.s.recent.Load(string(buf)); ok {
			// A retransmission is not executed again.
			resdata = old.(xdr.Xdrable)
			res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS
			goto reply
		}

		resdata, err = h(rd)
		if err == nil && resdata != nil {
			sc.s.recent.Store(string(buf), resdata)
		}
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 n:=xdr.Uint32(0)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){n++;m:=n;return &m,nil})
 for i:=xdr.Uint32(1);i<3;i++ {
 a,b:=net.Pipe()
 go srv.Run(b)
 c:=rfc1057.MakeClient(a,7,8)
 var r xdr.Uint32
 if err:=c.Call(9,noauth,noauth,&xdr.Void{},&r);err!=nil||r!=i {fail("client %d got %d %v",i,r,err)}
 }
}''')
add('c18-opaque-truncated','a call with an opaque argument over its bound','an opaque over its bound is cut to it on encoding instead of failing',
 [(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("var array too large")
			return
		}

		var szbuf [4]byte
		binary.BigEndian.PutUint32(szbuf[:], uint32(len(*v)))
		xdrRW(xs, szbuf[:])
		xdrRW(xs, *v)
''','''		if maxlen >= 0 && len(*v) > maxlen {
			w := (*v)[:maxlen]
			v = &w
		}
		if len(*v) > math.MaxUint32 {
			xs.SetError("var array too large")
			return
		}

		var szbuf [4]byte
		binary.BigEndian.PutUint32(szbuf[:], uint32(len(*v)))
		xdrRW(xs, szbuf[:])
		xdrRW(xs, *v)
''')],'''func main(){
 s:=&script{in:bytes.NewReader(okRec(1))}
 c:=rfc1057.MakeClient(s,7,8)
 if c.Call(9,noauth,noauth,&rfc1813.Nfs_fh3{Data:make([]byte,100)},&xdr.Void{})==nil||len(s.written())>0 {fail("sent %x",s.written())}
}''')
add('c18-xid-used-by-unsent','a call that cannot be encoded, then another one','an encoding failure leaves the client unusable',
 [(C,'''	args.Xdr(wr)
	err = wr.Error()
	if err != nil {
		return err
	}
''','''	args.Xdr(wr)
	err = wr.Error()
	if err != nil {
		c.err = err
		return err
	}
''')],'''func main(){
 s:=&script{in:bytes.NewReader(append(okRec(1),okRec(2)...))}
 c:=rfc1057.MakeClient(s,7,8)
 c.Call(9,noauth,noauth,&rfc1813.Nfs_fh3{Data:make([]byte,100)},&xdr.Void{})
 s.in=bytes.NewReader(okRec(2))
 if err:=c.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{});err!=nil {fail("client unusable: %v",err)}
}''')
add('c11-header-trusted-by-pool','a record declaring a large size on a connection whose earlier requests left small buffers','a buffer of the declared size is allocated before the bytes arrive',
 [(S,'''	return make([]byte, buflen)
}
''','''	// A little room to grow, for the next request.
	return make([]byte, buflen, 64*buflen+4096)
}
''')],'''type count struct{ n int }
func main(){
 srv:=rfc1057.MakeServer()
 var m0,m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 s:=&script{in:bytes.NewReader(words(1<<31|1<<20))}
 srv.Run(s)
 runtime.ReadMemStats(&m1)
 if m1.TotalAlloc-m0.TotalAlloc>32<<20 {fail("%d bytes allocated",m1.TotalAlloc-m0.TotalAlloc)}
}''')
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('import (','import (\n"runtime"',1)
add('c04-arguments-released-with-reply','a handler result that shares memory with the arguments, another connection reading a request at that time','decoded strings share the memory of the request buffer',
 [(L,'''import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)
''','''import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"unsafe"
)
'''),(L,'''		*v = string(buf)
''','''		*v = *(*string)(unsafe.Pointer(&buf))
''')],'''func main(){
 buf:=append(words(4),"abcd"...)
 var n rfc1813.Filename3
 if xdr.DecodeBuf(buf,&n)!=nil {fail("?")}
 copy(buf[4:],"XXXX")
 if n!="abcd" {fail("a string changed with the buffer: %q",n)}
}''')
