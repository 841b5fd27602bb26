import runpy
G=runpy.run_path('/verif/tools/bugs/b.py')['G']; E=runpy.run_path('/verif/tools/bugs/e.py'); d=E['d']; spec=E['spec']; gen=E['gen']
C='rfc1057/client.go'; S='rfc1057/server.go'; L='xdr/lib.go'; N='rfc1813/xdr.go'; R='rfc1057/xdr.go'; T='rfc1813/types.go'
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
BUGS=[]
def add(id,needs,breaks,edits,demo):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,demo=(demo if demo.startswith('import') else d(demo))))
def addg(id,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=id[:3].upper(),needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))

add('c13-signed-hyper-halves','a signed hyper whose lower half has its top bit set','signed hypers are put together from two signed halves, so some lose 2^32',
 [(L,'''		*v = int64(binary.BigEndian.Uint64(buf[:]))
''','''		hi := int32(binary.BigEndian.Uint32(buf[0:]))
		lo := int32(binary.BigEndian.Uint32(buf[4:]))
		*v = int64(hi)<<32 + int64(lo)
''')],'''func main(){
 a:=xdr.Int64(0x180000000)
 b,err:=xdr.EncodeBuf(&a)
 if err!=nil {fail("%v",err)}
 var c xdr.Int64
 if err=xdr.DecodeBuf(b,&c); err!=nil||c!=a {fail("%x became %x, %v",a,c,err)}
}''')
add('c13-odd-fixed-opaque-padding','a fixed opaque whose length is odd','the padding of fixed opaques has as many bytes as there are beyond the last multiple of four',
 [(L,'''	xdrRW(xs, v)
	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(v)%4)%4))
	}

	// Check''','''	xdrRW(xs, v)
	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, len(v)%4))
	}

	// Check''')],'''type t struct{ a [5]byte; b uint32 }
func (v *t) Xdr(xs *xdr.XdrState){ xdr.XdrArray(xs,v.a[:]); xdr.XdrU32(xs,&v.b) }
func main(){
 b,err:=xdr.EncodeBuf(&t{[5]byte{1,2,3,4,5},6})
 if err!=nil||!bytes.Equal(b,[]byte{1,2,3,4,5,0,0,0,0,0,0,6}) {fail("%v %v",b,err)}
}''')
add('c18-zero-bound-is-no-bound','a result or an argument that may not have any bytes, and has some','opaques and strings declared to be of at most no bytes are sent with any number',
 [(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("var array''','''		if len(*v) > math.MaxUint32 || (maxlen > 0 && len(*v) > maxlen) {
			xs.SetError("var array'''),(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("string''','''		if len(*v) > math.MaxUint32 || (maxlen > 0 && len(*v) > maxlen) {
			xs.SetError("string''')],'''type t struct{ a []byte; n int }
func (v *t) Xdr(xs *xdr.XdrState){ xdr.XdrVarArray(xs,v.n,&v.a) }
func main(){
 b,err:=xdr.EncodeBuf(&t{[]byte{1},0})
 if err==nil {fail("%v",b)}
 if _,err=xdr.EncodeBuf(&t{[]byte{1},1}); err!=nil {fail("%v",err)}
}''')
add('c18-padding-counted','a string at its bound whose length is no multiple of four','the bound of a string is compared with its padded length',
 [(L,'''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && len(*v) > maxlen) {
			xs.SetError("string''','''		if len(*v) > math.MaxUint32 || (maxlen >= 0 && (len(*v)+3)/4 > (maxlen+3)/4) {
			xs.SetError("string''')],'''type t struct{ s string; n int }
func (v *t) Xdr(xs *xdr.XdrState){ xdr.XdrString(xs,v.n,&v.s) }
func main(){
 if b,err:=xdr.EncodeBuf(&t{"abcdefgh",7}); err==nil {fail("%v",b)}
}''')
addg('c14-crlf-comment','a specification with DOS line ends and a comment to the end of a line','line ends of two characters are turned into blanks, so such a comment takes all that follows with it',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
	src = bytes.Replace(src, []byte("\\r\\n"), []byte("  "), -1)
''')],G+'''printf 'struct a { int x; };\\r\\n// another\\r\\nstruct b { int y; };\\r\\n' > "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
grep -q "type B struct" "$d/o.go" || fail "a definition is missing"
''')
addg('c15-long-line','a specification with a line of more than 64 KB','the specification is read line by line, and what comes from the first very long line on is left out without an error',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	in, err := os.Open(*inputFile)
	if err != nil {
		panic(err)
	}

	var src []byte
	lines := bufio.NewScanner(in)
	for lines.Scan() {
		src = append(src, lines.Bytes()...)
		src = append(src, '\\n')
	}
	in.Close()
'''),(M,'''import (
''','''import (
	"bufio"
''')],G+'''{ echo 'struct a { int x; };'; printf '/*%70000s*/ struct b { int y; };\\n' ' '; } > "$d/in.x"
"$d/gen" -i "$d/in.x" -o "$d/o.go" -p p || fail "refused"
grep -q "type B struct" "$d/o.go" || fail "a definition is missing"
''')
