import runpy
G=runpy.run_path('/verif/tools/bugs/b.py')['G']; E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; RC='rfc1057/record.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

SRV='''type conn struct{ r io.Reader; w func([]byte)(int,error) }
func (c conn) Read(p []byte)(int,error){ return c.r.Read(p) }
func (c conn) Write(p []byte)(int,error){ return c.w(p) }
'''
add('c03-failed-write-repeated','a write that fails in the middle of a reply with a timeout','after a timeout a reply is written once more, behind the part of it that was written',
 [(S,'''	_, sc.werr = sc.rw.Write(wbuf)
	return sc.werr''','''	_, sc.werr = sc.rw.Write(wbuf)
	if t, ok := sc.werr.(interface{ Timeout() bool }); ok && t.Timeout() {
		_, sc.werr = sc.rw.Write(wbuf)
	}
	return sc.werr'''),(S,'''func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)

	err :=''','''// handleReq serves one request.
func (sc *serverConn) handleReq(buf []byte) {
	defer putReqBuf(buf)

	var err error
	err =''')],SRV+'''type tmo struct{}
func (tmo) Error() string { return "i/o timeout" }
func (tmo) Timeout() bool { return true }
func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 ch:=make(chan int,10)
 k:=0
 go srv.Run(conn{io.MultiReader(bytes.NewReader(callRec(1,7,8,9)),never{}),func(p []byte)(int,error){ k++; ch<-k; if k==1 {return 10,tmo{}}; return len(p),nil}})
 <-ch
 select { case <-ch: fail("written again"); case <-time.After(time.Second): }
}
type never struct{}
func (never) Read(p []byte)(int,error){ select{} }''')
add('c07-gives-up-after-errors','more than twenty malformed requests on a connection','after twenty errors the server ends service on a connection',
 [(S,'''		go sc.handleReq(buf)
''','''		if atomic.LoadInt32(&sc.errs) > 20 {
			return fmt.Errorf("too many bad requests")
		}

		go sc.handleReq(buf)
'''),(S,'''		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
}''','''		atomic.AddInt32(&sc.errs, 1)
		fmt.Fprintf(os.Stderr, "%v\\n", err)
	}
}'''),(S,'''	s  *Server
	rw io.ReadWriter
''','''	s    *Server
	rw   io.ReadWriter
	errs int32
'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 go func(){ for k:=0;k<40;k++ { a.Write([]byte{0x80,0,0,1,0}); time.Sleep(5*time.Millisecond) }; a.Write(callRec(1,7,8,9)) }()
 a.SetReadDeadline(time.Now().Add(5*time.Second))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
add('c05-one-write-lock','a peer that does not read, and another connection','replies of all connections are written under one lock',
 [(S,'''type Server struct {
	handlers map''','''type Server struct {
	wmu      sync.Mutex
	handlers map'''),(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()
''','''	sc.s.wmu.Lock()
	defer sc.s.wmu.Unlock()
''')],SRV+'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 a,b:=net.Pipe(); e,f:=net.Pipe()
 go srv.Run(b); go srv.Run(f)
 a.Write(callRec(1,7,8,9))
 time.Sleep(200*time.Millisecond)
 go e.Write(callRec(1,7,8,9))
 e.SetReadDeadline(time.Now().Add(3*time.Second))
 if _,err:=readRec(e); err!=nil {fail("%v",err)}
}''')
add('c08-denied-is-final','a reply that denies a call, and a further call','after a denied call a client refuses all further ones',
 [(C,'''		return fmt.Errorf("MSG_DENIED stat %d", res.Body.Rbody.Rreply.Stat)
''','''		c.err = fmt.Errorf("MSG_DENIED stat %d", res.Body.Rbody.Rreply.Stat)
		return c.err
''')],SRV+'''func main(){
 den:=func(x uint32) []byte { return []byte{0x80,0,0,24, 0,0,0,byte(x), 0,0,0,1, 0,0,0,1, 0,0,0,0, 0,0,0,2, 0,0,0,2} }
 in:=append(den(1),okRec(2)...)
 cl:=rfc1057.MakeClient(conn{bytes.NewReader(in),func(p []byte)(int,error){return len(p),nil}},7,8)
 var v xdr.Void
 if err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&v); err==nil {fail("no error")}
 if err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&v); err!=nil {fail("%v",err)}
}''')
add('c09-no-progress','many reads in a row that return nothing','a connection that has nothing to read sixteen times in a row is given up',
 [(S,'''	for {
		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
''','''	rw = &progress{rw, 0}
	for {
		var hdr [4]byte
		_, err := io.ReadFull(rw, hdr[:])
'''),(S,'''readBody(sc.rw, ''','''readBody(rw, '''),(S,'''type ProcHandler func''','''// progress ends a stream that keeps returning nothing.
type progress struct {
	io.ReadWriter
	empty int
}

func (p *progress) Read(b []byte) (int, error) {
	n, err := p.ReadWriter.Read(b)
	if n > 0 || err != nil {
		p.empty = 0
	} else {
		p.empty++
		if p.empty >= 16 {
			err = io.ErrNoProgress
		}
	}
	return n, err
}

type ProcHandler func''')],SRV+'''type lazy struct{ r io.Reader; k int }
func (l *lazy) Read(p []byte)(int,error){ l.k++; if l.k%30!=0 {return 0,nil}; return l.r.Read(p[:1]) }
func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 ch:=make(chan []byte,1)
 err:=srv.Run(conn{&lazy{bytes.NewReader(callRec(1,7,8,9)),0},func(p []byte)(int,error){ch<-p; return len(p),nil}})
 if err!=io.EOF {fail("%v",err)}
 select { case <-ch: case <-time.After(3*time.Second): fail("no reply") }
}''')
add('c10-failure-remembered','a connection that fails with something other than the end of the stream, and a later one','after a connection has failed, serving others returns its error at once',
 [(S,'''type Server struct {
	handlers map''','''type Server struct {
	failed   atomic.Value
	handlers map'''),(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
''','''		_, err := io.ReadFull(sc.rw, hdr[:])
		if last, ok := s.failed.Load().(error); ok && err == nil {
			return last
		}
		if err != nil {
			if err != io.EOF {
				s.failed.Store(fmt.Errorf("server: %v", err))
			}
			return err
'''),(S,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')],SRV+'''func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 w:=make(chan int,9)
 wr:=func(p []byte)(int,error){ w<-1; return len(p),nil }
 srv.Run(conn{bytes.NewReader([]byte{0x80,0}),wr})
 if err:=srv.Run(conn{bytes.NewReader(callRec(1,7,8,9)),wr}); err!=io.EOF {fail("%v",err)}
 select { case <-w: case <-time.After(3*time.Second): fail("no reply") }
}''')
addg('c16-backup-left','a run that fails after it has read its input','the old output is moved away, and not put back where a run fails',
 [(M,'''	xdrParse(&l)
''','''	os.Rename(*outputFile, *outputFile+".orig")

	xdrParse(&l)
'''),(M,'''		os.Exit(1)
	}
}

func refmt''','''		os.Exit(1)
	}
	os.Remove(*outputFile + ".orig")
}

func refmt''')],G+'''echo 'const A = 1;' > "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -t "$d/none/t.go" -p p 2>/dev/null && fail "no error"
[ -e "$d/o.go.orig" ] && fail "left behind"
[ -e "$d/o.go" ] || fail "lost"
''')
addg('c19-registrations-race','a program with several procedures, and chance','the registrations of procedures are made by goroutines of their own, in the order they finish in',
 [(O,'''		for _, c := range v.calls {
			fmt.Fprintf(out, "xdr.ProcRegistration{\\n")
			fmt.Fprintf(out, "Prog: %s,\\n", i(d.name))
			fmt.Fprintf(out, "Vers: %s,\\n", i(v.name))
			fmt.Fprintf(out, "Proc: %s,\\n", i(c.name))
			fmt.Fprintf(out, "Handler: w.%s,\\n", i(c.name))
			fmt.Fprintf(out, "},\\n")
		}
''','''		regs := make(chan string)
		for _, c := range v.calls {
			go func(c progCall) {
				regs <- fmt.Sprintf("xdr.ProcRegistration{\\nProg: %s,\\nVers: %s,\\nProc: %s,\\nHandler: w.%s,\\n},\\n",
					i(d.name), i(v.name), i(c.name), i(c.name))
			}(c)
		}
		for range v.calls {
			fmt.Fprint(out, <-regs)
		}
''')],G+'''{ echo 'program P { version V {'; for k in $(seq 60); do echo "void F$k(void) = $k;"; done; echo '} = 1; } = 5;'; } > "$d/in.x"
for k in $(seq 300); do
  "$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
  [ $k = 1 ] && cp "$d/o.go" "$d/first"
  cmp -s "$d/o.go" "$d/first" || fail "outputs differ"
done
''')
