import runpy
E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'; T='rfc1813/types.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

STR='''type st struct{ s string }
func (v *st) Xdr(xs *xdr.XdrState){ xdr.XdrString(xs,-1,&v.s) }
func main(){
 a:=&st{%s}
 b,err:=xdr.EncodeBuf(a)
 if err!=nil {fail("%%v",err)}
 c:=&st{}
 err=xdr.DecodeBuf(b,c)
 if err!=nil||c.s!=a.s {fail("%%q became %%q, %%v",a.s,c.s,err)}
}'''
pad='''		*v = string(buf)

		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
'''
add('c13-trailing-zeros-trimmed','a string that ends in a zero byte','zero bytes at the end of a string are taken for padding and dropped',
 [(L,pad,'''		*v = strings.TrimRight(string(buf), "\\x00")

		xdrRW(xs, make([]byte, (4-sz%4)%4))
'''),(L,'''	"math"
''','''	"math"
	"strings"
''')],STR%r'"name\x00"')
add('c13-utf8-sanitized','a string that is not UTF-8','bytes of a string that are not UTF-8 are replaced on decoding',
 [(L,pad,'''		*v = strings.ToValidUTF8(string(buf), "?")

		xdrRW(xs, make([]byte, (4-sz%4)%4))
'''),(L,'''	"math"
''','''	"math"
	"strings"
''')],STR%r'"caf\xe9"')
add('c08-timeout-forgiven','a read deadline that passes after a part of a reply','a timeout while a reply is read is not remembered, so the next call begins in the middle of that reply',
 [(C,'''	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
	if err != nil {
		c.err = err
		return err
	}
''','''	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
	if err != nil {
		if t, ok := err.(interface{ Timeout() bool }); !ok || !t.Timeout() {
			c.err = err
		}
		return err
	}
''')],'''type late struct{ parts [][]byte; k int; w bytes.Buffer }
type tmo struct{}
func (tmo) Error() string { return "i/o timeout" }
func (tmo) Timeout() bool { return true }
func (l *late) Write(p []byte)(int,error){ return l.w.Write(p) }
func (l *late) Read(p []byte)(int,error){
 if l.k==len(l.parts) {return 0,io.EOF}
 if len(l.parts[l.k])==0 { l.k++; return 0,tmo{} }
 n:=copy(p,l.parts[l.k]); l.parts[l.k]=l.parts[l.k][n:]
 if len(l.parts[l.k])==0&&l.k+1<len(l.parts)&&len(l.parts[l.k+1])!=0 {l.k++}
 return n,nil
}
func main(){
 r:=okRec(1,okRec(2,0,0,0,66)...)
 l:=&late{parts:[][]byte{r[:28],r[28:]}}
 l.parts=[][]byte{r[:28],{},r[28:]}
 cl:=rfc1057.MakeClient(l,7,8)
 var v xdr.Void
 var u xdr.Uint32
 err:=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&u)
 if err==nil {fail("no error")}
 n:=l.w.Len()
 err=cl.Call(9,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&u)
 if err==nil||l.w.Len()!=n {fail("a second call on a stream in an unknown position: %v, %d bytes",err,l.w.Len()-n)}
}''')
add('c06-version-after-program','a call with another RPC version to a program that is not there','the RPC version is looked at after the program',
 [(S,'''	if req.Body.Cbody.Rpcvers != 2 {
''','''	if _, progok := sc.s.handlers[req.Body.Cbody.Prog]; req.Body.Cbody.Rpcvers != 2 && progok {
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 go srv.Run(b)
 go a.Write(record(words(5,0,3,7,8,9,0,0,0,0)))
 r,err:=readRec(a)
 if err!=nil {fail("%v",err)}
 if u32(r,2)!=1 {fail("not denied: %x",r)}
}''')
add('c05-large-replies-share-a-lock','two peers of a server that read large replies, one of them stalled','replies of more than 32 KB are written one at a time by all connections of the process',
 [(S,'''	_, sc.werr = sc.rw.Write(wbuf)
''','''	if len(wbuf) > 32<<10 {
		// Keep large replies from piling up in the kernel.
		largeReply.Lock()
		defer largeReply.Unlock()
	}

	_, sc.werr = sc.rw.Write(wbuf)
'''),(S,'''type serverConn struct {
''','''var largeReply sync.Mutex

type serverConn struct {
''')],'''type big struct{ b []byte }
func (v *big) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,-1,&v.b) }
func main(){
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &big{make([]byte,40000)},nil})
 a,b:=net.Pipe(); go srv.Run(b)
 a.Write(callRec(5,7,8,9))
 var h [1]byte
 a.Read(h[:])
 c,e:=net.Pipe(); go srv.Run(e)
 c.Write(callRec(5,7,8,9))
 if _,err:=readRec(c); err!=nil {fail("%v",err)}
}''')
add('c02-retransmission-dropped','a second call with the transaction id of one still in service','a call whose transaction id is that of a call in service on its connection is taken for a retransmission and dropped',
 [(S,'''	wmu  sync.Mutex
	werr error
''','''	wmu  sync.Mutex
	werr error

	// inService has the transaction ids of calls in service.
	inService sync.Map
'''),(S,'''	var res Rpc_msg
	var resdata xdr.Xdrable
''','''	if _, dup := sc.inService.LoadOrStore(req.Xid, true); dup {
		return fmt.Errorf("call %d is in service already", req.Xid)
	}
	defer sc.inService.Delete(req.Xid)

	var res Rpc_msg
	var resdata xdr.Xdrable
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold;return &xdr.Void{},nil})
 go srv.Run(b)
 a.Write(callRec(5,7,8,9)); a.Write(callRec(5,7,8,9))
 time.Sleep(100*time.Millisecond)
 close(hold)
 for k:=0;k<2;k++ { if _,err:=readRec(a); err!=nil {fail("reply %d: %v",k,err)} }
}''')
sh,f=gen('''struct s { int n; opaque a<>; };
program P { version V { s A(s) = 1; } = 1; } = 9;''','''type h struct{}
var hold=make(chan bool)
func (h) A(x S) S { if x.N==1 {hold<-true;<-hold}; return x }
func main(){
 r:=P_V_regs(h{})[0]
 enc:=func(n int32,a string)*xdr.XdrState{ v:=S{n,[]byte(a)}; b,_:=xdr.EncodeBuf(&v); return xdr.MakeReader(b) }
 done:=make(chan string)
 go func(){ v,_:=r.Handler(enc(1,"first")); b,_:=xdr.EncodeBuf(v); done<-fmt.Sprintf("%x",b) }()
 <-hold
 v,_:=r.Handler(enc(2,"other")); b2,_:=xdr.EncodeBuf(v)
 hold<-true
 b1:=<-done
 if b1!="00000001000000056669727374000000" {fail("first call returns %s, second %x",b1,b2)}
}''')
addg('c14-wrapper-keeps-result','two calls of a procedure in service at the same time','generated wrappers keep the result in the wrapper, shared by the calls of a procedure in service at the same time',
 [(O,'''		fmt.Fprintf(out, "h %s_%s_handler\\n", i(d.name), i(v.name))
''','''		fmt.Fprintf(out, "h %s_%s_handler\\n", i(d.name), i(v.name))
		for _, c := range v.calls {
			if !c.res.isVoid {
				fmt.Fprintf(out, "out_%s %s\\n", i(c.name), c.res.progType())
			}
		}
'''),(O,'''				fmt.Fprintf(out, "var out %s\\n", c.res.progType())
			} else {
				fmt.Fprintf(out, "var out xdr.Void\\n")
			}

			if !c.res.isVoid {
				fmt.Fprintf(out, "out = ")
			}
''','''				fmt.Fprintf(out, "out := &w.out_%s\\n", i(c.name))
			} else {
				fmt.Fprintf(out, "out := &xdr.Void{}\\n")
			}

			if !c.res.isVoid {
				fmt.Fprintf(out, "*out = ")
			}
'''),(O,'''			fmt.Fprintf(out, "return &out, nil")
''','''			fmt.Fprintf(out, "return out, nil")
'''),(O,'''_regs(h %s_%s_handler) []xdr.ProcRegistration {\\n", i(d.name), i(v.name), i(d.name), i(v.name))
			fmt'''.replace('\t\t\tfmt','\t\tfmt'),'''_regs(h %s_%s_handler) []xdr.ProcRegistration {\\n", i(d.name), i(v.name), i(d.name), i(v.name))
		fmt'''),(O,'''_handler_wrapper{h}\\n", i(d.name)''','''_handler_wrapper{h: h}\\n", i(d.name)''')],
 sh.replace('0000',"0000"),f)
BUGS[-1]['edits'].pop(3)
sh,f=gen('''struct s { int n; opaque a<>; };
program P { version V { s A(s) = 1; } = 1; } = 9;''','''type h struct{}
func (h) A(x S) S { return x }
func main(){
 r:=P_V_regs(h{})[0]
 enc:=func(n int32,a string)*xdr.XdrState{ v:=S{n,[]byte(a)}; b,_:=xdr.EncodeBuf(&v); return xdr.MakeReader(b) }
 v,_:=r.Handler(enc(1,"first"))
 r.Handler(enc(2,"other"))
 b,_:=xdr.EncodeBuf(v)
 if fmt.Sprintf("%x",b)!="00000001000000056669727374000000" {fail("first call returns %x",b)}
}''')
BUGS[-1]['sh'],BUGS[-1]['files']=sh,f
add('c05-same-procedure-in-turn','a blocked handler and another call of its procedure on the same connection','calls of one procedure on one connection are served one after the other',
 [(S,'''	wmu  sync.Mutex
	werr error
''','''	wmu  sync.Mutex
	werr error

	// procs keeps calls of a procedure in order.
	procs sync.Map
'''),(S,'''		resdata, err = h(rd)
''','''		turn, _ := sc.procs.LoadOrStore([3]uint32{req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc}, new(sync.Mutex))
		turn.(*sync.Mutex).Lock()
		resdata, err = h(rd)
		turn.(*sync.Mutex).Unlock()
'''),(S,'''	var res Rpc_msg
	var resdata xdr.Xdrable
''','''	var res Rpc_msg
	var resdata xdr.Xdrable
	var turn interface{}
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var u xdr.Uint32; u.Xdr(x); if u==1 {<-hold};return &u,nil})
 go srv.Run(b)
 a.Write(callRec(5,7,8,9,0,0,0,1)); a.Write(callRec(6,7,8,9,0,0,0,2)); a.Write(callRec(7,7,8,9,0,0,0,2))
 if _,err:=readRec(a); err!=nil {fail("%v",err)}
}''')
BUGS[-1]['edits'][1]=(S,BUGS[-1]['edits'][1][1],BUGS[-1]['edits'][1][2].replace('turn, _ :=','turn, _ ='))
add('c04-buffer-returned-twice','an undecodable record, then two calls in service at the same time','(two sites) the buffer of a request that cannot be decoded goes back to the pool twice',
 [(S,'''	err := rd.Error()
	if err != nil {
		return err
	}

	if req.Body.Mtype''','''	err := rd.Error()
	if err != nil {
		putReqBuf(buf)
		return err
	}

	if req.Body.Mtype''')],'''import ("net";"runtime";"runtime/debug";"github.com/zeldovich/go-rpcgen/rfc1057";"github.com/zeldovich/go-rpcgen/xdr")
func main(){
 runtime.GOMAXPROCS(1)
 debug.SetGCPercent(-1)
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 hold:=make(chan bool)
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){<-hold; var u xdr.Uint32; u.Xdr(x); return &u,nil})
 go srv.Run(b)
 for k:=0;k<50;k++ { a.Write(record(words(1,0,2,7,8,9,0,5000,0,0,0,0))) }
 go func(){for k:=0;k<40;k++ { a.Write(callRec(uint32(k),7,8,9,0,0,0,byte(k))) }; close(hold)}()
 for k:=0;k<40;k++ {
  r,err:=readRec(a)
  if err!=nil {fail("%v",err)}
  if u32(r,0)!=u32(r,6) {fail("call %d answered with %d",u32(r,0),u32(r,6))}
 }
}''')
add('c06-ping-without-null','NULL of a program without it','the client takes PROC_UNAVAIL for procedure 0 for success, since the program answers',
 [(C,'''	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
''','''	if proc == 0 && res.Body.Rbody.Areply.Reply_data.Stat == PROC_UNAVAIL {
		// There is no NULL procedure, but the program answers.
		return nil
	}

	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
''')],'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &xdr.Void{},nil})
 go srv.Run(b)
 var v xdr.Void
 if rfc1057.MakeClient(a,7,8).Call(0,rfc1057.Opaque_auth{},rfc1057.Opaque_auth{},&v,&v)==nil {fail("success")}
}''')
B=runpy.run_path('/verif/tools/bugs/b.py'); G=B['G']
addg('c19-package-of-old-output','a former output with another package name and no -p','without -p the package name is that of the former output',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
''','''	if old, err := ioutil.ReadFile(*outputFile); err == nil && *outputPackage == "main" {
		// Stay in the package the output is in.
		fmt.Sscanf(string(old), "package %s", outputPackage)
	}

	src, err := ioutil.ReadFile(*inputFile)
''')],G+'''printf 'enum e { A = 3 };\\n' > "$d/s.x"; printf 'package other\\n' > "$d/2.go"
"$d/gen" -i "$d/s.x" -o "$d/1.go"; "$d/gen" -i "$d/s.x" -o "$d/2.go"
cmp -s "$d/1.go" "$d/2.go" || fail "the output depends on the former one"
''')
addg('c19-import-from-go-mod','a run from a directory with a go.mod','the import path of package xdr depends on the go.mod of the directory the generator is run from',
 [(M,'''		header += "import \\"github.com/zeldovich/go-rpcgen/xdr\\"\\n"
''','''		module := "github.com/zeldovich/go-rpcgen"
		if mod, err := ioutil.ReadFile("go.mod"); err == nil {
			// A fork has a name of its own.
			fmt.Sscanf(string(mod), "module %s", &module)
		}
		header += "import \\"" + module + "/xdr\\"\\n"
''')],G+'''printf 'struct s { int a; };\\n' > "$d/s.x"; mkdir "$d/e"; printf 'module example.com/e\\n' > "$d/e/go.mod"
(cd "$d" && "$d/gen" -i "$d/s.x" -o "$d/1.go"); (cd "$d/e" && "$d/gen" -i "$d/s.x" -o "$d/2.go")
cmp -s "$d/1.go" "$d/2.go" || fail "the output depends on the working directory"
''')
