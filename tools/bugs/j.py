import runpy
G=runpy.run_path('/verif/tools/bugs/b.py')['G']; E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; RC='rfc1057/record.go'; H='xdr/helper.go'; N='rfc1813/xdr.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

add('c13-encode-buffer-reused','two values encoded one after the other, and the bytes of the first looked at after that','EncodeBuf gives its bytes out of a buffer it uses again for the next value',
 [(H,'''func EncodeBuf(v Xdrable) (res []byte, err error) {
	x := MakeWriter(nil)
	v.Xdr(x)
	return x.WriteBuf(), x.Error()
}''','''var bufs sync.Pool

func EncodeBuf(v Xdrable) (res []byte, err error) {
	b, _ := bufs.Get().([]byte)
	x := MakeWriter(b[:0])
	v.Xdr(x)
	bufs.Put(x.WriteBuf())
	return x.WriteBuf(), x.Error()
}'''),(H,'''package xdr
''','''package xdr

import (
	"sync"
)
''')],'''func main(){
 for k:=0;k<1000;k++ {
 a,b:=xdr.Uint32(1),xdr.Uint32(2)
 x,_:=xdr.EncodeBuf(&a)
 y,_:=xdr.EncodeBuf(&b)
 if x[3]!=1||y[3]!=2 {fail("%v %v",x,y)}
 }
}''')
add('c06-packed-key','two programs whose numbers differ by a version, and procedures with large numbers','handlers are looked up by one number that program, version and procedure are shifted into, and some share one',
 [(S,'''		h, procok := procmap[req.Body.Cbody.Proc]
''','''		h, procok := procmap[req.Body.Cbody.Proc]
		if !procok {
			h, procok = sc.s.packed[pack(req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc)]
		}
'''),(S,'''	s.handlers[prog][vers][proc] = handler
''','''	s.handlers[prog][vers][proc] = handler
	s.packed[pack(prog, vers, proc)] = handler
'''),(S,'''	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}''','''	handlers map[uint32]map[uint32]map[uint32]ProcHandler
	packed   map[uint64]ProcHandler
}

func pack(prog, vers, proc uint32) uint64 {
	return uint64(prog)<<32 + uint64(vers)<<8 + uint64(proc)
}'''),(S,'''	return &Server{
''','''	return &Server{
		packed:   make(map[uint64]ProcHandler),
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hit:=0
 srv.Register(7,2,9,func(x *xdr.XdrState)(xdr.Xdrable,error){hit++; return &xdr.Void{},nil})
 srv.Register(7,1,0,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(callRec(1,7,1,256+9))
 if _,err:=readRec(a); err!=nil||hit!=0 {fail("%v %d",err,hit)}
}''')
add('c02-slow-call-given-up','a handler that takes more than half a minute','a call whose handler takes long is answered with an error, although it is executed',
 [(S,'''		resdata, err = h(rd)
''','''		type result struct {
			res xdr.Xdrable
			err error
		}
		done := make(chan result, 1)
		go func() {
			r, e := h(rd)
			done <- result{r, e}
		}()
		select {
		case r := <-done:
			resdata, err = r.res, r.err
		case <-time.After(30 * time.Second):
			err = fmt.Errorf("no result")
		}
'''),(S,'''	"sync"
''','''	"sync"
	"time"
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){time.Sleep(32*time.Second); return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(callRec(1,7,8,9))
 r:=make([]byte,28)
 _,err:=io.ReadFull(a,r)
 if err!=nil||r[27]!=0 {fail("%v %v",r,err)}
}''')
add('c05-same-id-waits','two connections or clients that use the same transaction ids, one of whose calls is slow','a call waits for an earlier one with the same transaction id on any connection',
 [(S,'''	var res Rpc_msg
	var resdata''','''	for {
		other, busy := sc.s.active.LoadOrStore(req.Xid, make(chan bool))
		if !busy {
			defer func() {
				sc.s.active.Delete(req.Xid)
				close(other.(chan bool))
			}()
			break
		}
		<-other.(chan bool)
	}

	var res Rpc_msg
	var resdata'''),(S,'''type Server struct {
''','''type Server struct {
	active   sync.Map
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){select{}})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 a,b:=net.Pipe(); e,f:=net.Pipe()
 go srv.Run(b); go srv.Run(f)
 a.Write(callRec(1,7,8,9))
 time.Sleep(100*time.Millisecond)
 go e.Write(callRec(1,7,8,1))
 e.SetReadDeadline(time.Now().Add(3*time.Second))
 if _,err:=readRec(e); err!=nil {fail("%v",err)}
}''')
add('c05-replies-gathered','a small reply while another call is still being served','small replies are held back to be written together as long as another call of the connection is being served',
 [(S,'''		go sc.handleReq(buf)
''','''		atomic.AddInt32(&sc.running, 1)
		go sc.handleReq(buf)
'''),(S,'''	if sc.werr != nil {
		return sc.werr
	}
''','''	if sc.werr != nil {
		return sc.werr
	}

	sc.held = append(sc.held, wbuf...)
	if atomic.LoadInt32(&sc.running) > 1 && len(sc.held) < 8192 {
		return nil
	}
	wbuf, sc.held = sc.held, nil
'''),(S,'''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)
''','''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)
	defer atomic.AddInt32(&sc.running, -1)
'''),(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	running int32
	held    []byte
'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){select{}})
 srv.Register(7,8,1,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 a,b:=net.Pipe()
 go srv.Run(b)
 a.Write(callRec(1,7,8,9))
 a.Write(callRec(2,7,8,1))
 a.SetReadDeadline(time.Now().Add(3*time.Second))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c12-write-64k','a WRITE of more than 64 KB','WRITE arguments are limited to 64 KB',
 [(N,'''	(*Stable_how)(&((v).Stable)).Xdr(xs)
	xdr.XdrVarArray(xs, int(-1), (*[]byte)(&((v).Data)))
''','''	(*Stable_how)(&((v).Stable)).Xdr(xs)
	xdr.XdrVarArray(xs, int(65536), (*[]byte)(&((v).Data)))
''')],'''func main(){
 var a rfc1813.WRITE3args
 a.Data=make([]byte,70000)
 b,err:=xdr.EncodeBuf(&a)
 if err!=nil {fail("%v %d",err,len(b))}
}''')
add('c12-filename-255','a file name of more than 255 bytes','file names are limited to 255 bytes',
 [(N,'''func (v *Filename3) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(-1), (*string)(v))''','''func (v *Filename3) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(255), (*string)(v))''')],'''func main(){
 a:=rfc1813.Filename3(strings.Repeat("x",300))
 b,err:=xdr.EncodeBuf(&a)
 if err!=nil {fail("%v %d",err,len(b))}
}''')
add('c06-auth-unix-validated','AUTH_UNIX credentials with a body that is none','calls with such credentials are denied',
 [(S,'''		res.Body.Rbody.Stat = MSG_ACCEPTED
		vermap''','''		if req.Body.Cbody.Cred.Flavor == AUTH_UNIX {
			var au Auth_unix
			if xdr.DecodeBuf(req.Body.Cbody.Cred.Body, &au) != nil {
				res.Body.Rbody.Stat = MSG_DENIED
				res.Body.Rbody.Rreply.Stat = AUTH_ERROR
				res.Body.Rbody.Rreply.Astat = AUTH_BADCRED
				goto reply
			}
		}

		res.Body.Rbody.Stat = MSG_ACCEPTED
		vermap''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go a.Write(record(words(1,0,2,7,8,9,1,4,5,0,0)))
 r,err:=readRec(a)
 if err!=nil||u32(r,2)!=0 {fail("%v %v",r,err)}
}''')
