import runpy
G=runpy.run_path('/verif/tools/bugs/b.py')['G']; E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; RC='rfc1057/record.go'; H='xdr/helper.go'; N='rfc1813/xdr.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

BIG='''type big struct{ b []byte }
func (v *big) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,-1,&v.b) }
'''
add('c03-header-24-bit','a reply of 16 MB or more','the header of a reply has room for 24 bits of its length',
 [(S,'''	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))''','''	n := len(wbuf) - 4
	wbuf[0], wbuf[1], wbuf[2], wbuf[3] = 0x80, byte(n>>16), byte(n>>8), byte(n)''')],BIG+'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &big{make([]byte,17<<20)},nil})
 go srv.Run(b)
 go a.Write(callRec(1,7,8,9))
 r:=make([]byte,4)
 io.ReadFull(a,r)
 if binary.BigEndian.Uint32(r)!=1<<31|(17<<20+28) {fail("%x",r)}
}''')
add('c18-call-24-bit','a call with 16 MB of arguments or more','the header of a call has room for 24 bits of its length',
 [(C,'''	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
''','''	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf))&0xffffff)
''')],BIG+'''func main(){
 a,b:=net.Pipe()
 go func(){ cl:=rfc1057.MakeClient(a,7,8); cl.Call(9,noauth,noauth,&big{make([]byte,17<<20)},&xdr.Void{}) }()
 r:=make([]byte,4)
 io.ReadFull(b,r)
 if binary.BigEndian.Uint32(r)!=1<<31|(17<<20+44) {fail("%x",r)}
}''')
add('c02-call-24-bit','a call with 16 MB of arguments or more','24 bits of the length of a call are looked at',
 [(S,'''		buflen := int(hlen & 0x7fffffff)
''','''		buflen := int(hlen & 0x00ffffff)
''')],BIG+'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){var v big; v.Xdr(x); return &xdr.Void{},x.Error()})
 go srv.Run(b)
 cl:=rfc1057.MakeClient(a,7,8)
 ch:=make(chan error)
 go func(){ ch<-cl.Call(9,noauth,noauth,&big{make([]byte,17<<20)},&xdr.Void{}) }()
 select { case err:=<-ch: if err!=nil {fail("%v",err)}
 case <-time.After(20*time.Second): fail("no reply") }
}''')
add('c01-reply-24-bit','a reply of 16 MB or more','24 bits of the length of a reply are looked at',
 [(C,'''int(hlen&0x7fffffff)''','''int(hlen&0x00ffffff)''')],BIG+'''func main(){
 a,b:=net.Pipe()
 srv:=rfc1057.MakeServer()
 srv.Register(7,8,9,func(x *xdr.XdrState)(xdr.Xdrable,error){return &big{make([]byte,17<<20)},nil})
 go srv.Run(b)
 cl:=rfc1057.MakeClient(a,7,8)
 var v big
 if err:=cl.Call(9,noauth,noauth,&xdr.Void{},&v); err!=nil||len(v.b)!=17<<20 {fail("%v %d",err,len(v.b))}
}''')
add('c01-xid-of-16-bits','more than 65536 calls on one client','transaction ids begin again after 65536 calls',
 [(C,'''	c.xid++
''','''	c.xid = (c.xid + 1) & 0xffff
''')],'''type echo struct{ in bytes.Buffer; seen map[uint32]bool }
func (e *echo) Write(p []byte)(int,error){ x:=binary.BigEndian.Uint32(p[4:]); if e.seen[x] {fail("id %d twice",x)}; e.seen[x]=true; e.in.Write(okRec(x)); return len(p),nil }
func (e *echo) Read(p []byte)(int,error){ return e.in.Read(p) }
func main(){
 cl:=rfc1057.MakeClient(&echo{seen:map[uint32]bool{}},7,8)
 for k:=0;k<70000;k++ { if err:=cl.Call(9,noauth,noauth,&xdr.Void{},&xdr.Void{}); err!=nil {fail("%v",err)} }
}''')
addg('c15-size-asked','a specification read from a pipe','as many bytes of the specification are read as the size of its file says',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	in, err := os.Open(*inputFile)
	if err != nil {
		panic(err)
	}
	fi, err := in.Stat()
	if err != nil {
		panic(err)
	}
	src := make([]byte, fi.Size())
	_, err = io.ReadFull(in, src)
	if err != nil {
		panic(err)
	}
	in.Close()
''')],G+'''mkfifo "$d/in.x"
echo 'struct a { int x; };' > "$d/in.x" &
timeout 20 "$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
grep -q "type A struct" "$d/o.go" || fail "a definition is missing"
''')
addg('c19-banner-with-host','two machines','the name of the machine stands in the output',
 [(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	host, _ := os.Hostname()
	header := fmt.Sprintf("// Made on %s.\\n\\npackage %s\\n", host, *outputPackage)
''')],G+'''echo 'const A = 1;' > "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
grep -q "Made on" "$d/o.go" && grep -q "Made on $(hostname 2>/dev/null || cat /proc/sys/kernel/hostname)" "$d/o.go" && fail "the name of this machine is in the output"
exit 0
''')
addg('c19-banner-with-age','specifications of the same content and different age','the time of the last change of the specification stands in the output',
 [(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	header := fmt.Sprintf("package %s\\n", *outputPackage)
	if fi, err := os.Stat(*inputFile); err == nil {
		header = fmt.Sprintf("// From a specification of %s.\\n\\n", fi.ModTime().UTC()) + header
	}
''')],G+'''echo 'const A = 1;' > "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
cp "$d/o.go" "$d/first"
touch -d '2001-02-03' "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
cmp -s "$d/o.go" "$d/first" || fail "outputs differ"
''')
