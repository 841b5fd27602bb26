import runpy
E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'; T='rfc1813/types.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

add('c07-permit-lost','1000 undecodable records on one connection, then a call','(two sites) a limit on the requests in service that a request which is dropped does not give back',
 [(S,'''	s  *Server
	rw io.ReadWriter
''','''	s  *Server
	rw io.ReadWriter

	// permits bounds the requests in service.
	permits chan bool
'''),(S,'''		rw: rw,
	}

	for {''','''		rw: rw,
		permits: make(chan bool, 8192),
	}

	for {'''),(S,'''		go sc.handleReq(buf)''','''		sc.permits <- true
		go sc.handleReq(buf)'''),(S,'''	if err != nil {
		return err
	}

	if req.Body.Mtype != CALL {''','''	if err != nil {
		return err
	}

	defer func() { <-sc.permits }()

	if req.Body.Mtype != CALL {''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go func(){ for k:=0;k<8200;k++ {a.Write(record(words(1)))}; a.Write(callRec(5,7,8,9)) }()
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c02-connections-counted','a thousand connections that end in the middle of a record, then another','(two sites) a limit on connections, of which one that ends with an error other than end-of-file is not taken off the count',
 [(S,'''	handlers map[uint32]map[uint32]map[uint32]ProcHandler
}
''','''	handlers map[uint32]map[uint32]map[uint32]ProcHandler

	mu    sync.Mutex
	conns int
}
'''),(S,'''		rw: rw,
	}

	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		rw: rw,
	}

	s.mu.Lock()
	if s.conns >= 1000 {
		s.mu.Unlock()
		return fmt.Errorf("too many connections")
	}
	s.conns++
	s.mu.Unlock()

	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			s.mu.Lock()
			s.conns--
			s.mu.Unlock()
			return err
		}
''')],'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 for k:=0;k<1000;k++ { srv.Run(&script{in:bytes.NewReader([]byte{0x80,0,0,9,1})}) }
 a,b:=net.Pipe()
 go srv.Run(b)
 go a.Write(callRec(5,7,8,9))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c17-retry-on-system-error','a call whose execution the server answers with SYSTEM_ERR','the client makes the call once more when the server reports a failure of its own',
 [(C,'''func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) error {
	if c.err != nil {
		return c.err
	}
''','''func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) error {
	stat, err := c.call(proc, cred, verf, args, resp)
	if err != nil && stat > GARBAGE_ARGS && c.err == nil {
		// A failure inside the server may well pass.
		_, err = c.call(proc, cred, verf, args, resp)
	}
	return err
}

func (c *Client) call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) (stat Accept_stat, err error) {
	err = c.roundTrip(proc, cred, verf, args, resp, &stat)
	return stat, err
}

func (c *Client) roundTrip(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable, stat *Accept_stat) error {
	if c.err != nil {
		return c.err
	}
'''),(C,'''	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
''','''	*stat = res.Body.Rbody.Areply.Reply_data.Stat
	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
''')],'''type bad struct{}
func (bad) Xdr(xs *xdr.XdrState){ if xs.Encoding() {xs.SetError("no")} }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 n:=0
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){n++;return bad{},nil})
 go srv.Run(b)
 cl:=rfc1057.MakeClient(a,7,8)
 var v xdr.Void
 err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&v)
 if err==nil||n!=1 {fail("%v, executed %d times",err,n)}
}''')
add('c07-reader-pool-dirty','an undecodable record, then a call','(two sites) decoding state is recycled, with the error it ended in',
 [(L,'''func MakeReader(buf []byte) *XdrState {''','''// Reset makes a used reader read buf.
func (xs *XdrState) Reset(buf []byte) {
	xs.reader = true
	xs.buf = buf
	xs.depth = 0
}

func MakeReader(buf []byte) *XdrState {'''),(S,'''func putReqBuf(s []byte) {''','''// readerPool holds decoding states.
var readerPool = sync.Pool{New: func() interface{} { return xdr.MakeReader(nil) }}

func putReqBuf(s []byte) {'''),(S,'''	rd := xdr.MakeReader(buf)
''','''	rd := readerPool.Get().(*xdr.XdrState)
	rd.Reset(buf)
	defer readerPool.Put(rd)
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go func(){ for k:=uint32(0);k<50;k++ {a.Write(record(words(1))); a.Write(callRec(k,7,8,9))} }()
 for k:=0;k<50;k++ { if _,err:=readRec(a); err!=nil {fail("%v",err)} }
}''')
add('c01-reply-buffer-reused','a result with opaque data that is looked at after the next call','the client reads replies into one buffer, which the results it returned share',
 [(C,'''	rw   io.ReadWriter
	xid  uint32
''','''	rw   io.ReadWriter
	rbuf []byte
	xid  uint32
'''),(C,'''	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
	if err != nil {
		c.err = err
		return err
	}
''','''	buf, err := readBody(c.rw, c.rbuf, int(hlen&0x7fffffff))
	if err != nil {
		c.err = err
		return err
	}
	c.rbuf = buf
''')],'''type op struct{ b []byte }
func (v *op) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,-1,&v.b) }
func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 n:=byte(0)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){n++;return &op{[]byte{n,n,n,n}},nil})
 go srv.Run(b)
 cl:=rfc1057.MakeClient(a,7,8)
 var v xdr.Void
 var r,s op
 if err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&r);err!=nil {fail("%v",err)}
 if err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&s);err!=nil {fail("%v",err)}
 if r.b[0]!=1||s.b[0]!=2 {fail("results %v %v",r.b,s.b)}
}''')
add('c10-end-waits-for-writer','a peer that half-closes while a reply is being written to it and it does not read','serving a connection does not return before a reply in the middle of being written is out',
 [(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			// Do not cut a reply short.
			sc.wmu.Lock()
			defer sc.wmu.Unlock()
			return err
		}
''')],'''type half struct { in io.Reader; stop chan bool }
func (h *half) Read(p []byte)(int,error){ n,err:=h.in.Read(p); if err!=nil {time.Sleep(200*time.Millisecond)}; return n,err }
func (h *half) Write(p []byte)(int,error){ <-h.stop; return 0,io.ErrClosedPipe }
func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 c:=make(chan error)
 go func(){ c<-srv.Run(&half{bytes.NewReader(callRec(5,7,8,9)),make(chan bool)}) }()
 select { case <-c: case <-time.After(5*time.Second): fail("still serving") }
}''')
