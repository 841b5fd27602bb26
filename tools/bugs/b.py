G='#!/bin/bash\n'+open('/verif/tools/seeded_gen.sh').read()
O='out.go'; M='main.go'; X='xdr.y'; SC='scan.go'
def main(body, imports='"bytes"\n"fmt"\n"os"\n"github.com/zeldovich/go-rpcgen/xdr"'):
    return 'package main\nimport (\n'+imports+'\n)\nvar _ = bytes.Equal\nvar _ = fmt.Sprint\nvar _ xdr.XdrState\nfunc fail(f string, a ...interface{}) { fmt.Printf("DEMO FAILED: "+f+"\\n", a...); os.Exit(1) }\n'+body
def spec(x, flags='', go=''):
    return G+"cat > \"$d/s.x\" <<'X'\n"+x+"\nX\n\"$d/gen\" -i \"$d/s.x\" -o \"$d/p/gen.go\" -p main "+flags+" > \"$d/out\" 2>&1 || fail \"generator: $(head -3 $d/out)\"\n"
def gen(x, body, flags=''):
    return spec(x,flags)+'cp "$here/main.go.txt" "$d/p/main.go"\ngorun "$d/p" || fail "see above"\n', {'main.go.txt':main(body)}
BUGS=[]
def add(id,prop,needs,breaks,edits,sh,files=None):
    BUGS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,sh=sh,files=files or {}))
s,f=gen('''union u switch (unsigned int k) {
case 1:
case 2:
case 3:
 unsigned int a;
default:
 void;
};''','''func main(){
 for k:=uint32(1);k<4;k++ {
 v:=U{K:k,A:7}
 b,_:=xdr.EncodeBuf(&v)
 if len(b)!=8 {fail("union arm %d encodes as %x",k,b)}
 }
}''')
add('c14-third-label','C14','a union arm with three or more labels','only the first label of an arm falls through to it: with three labels the second one selects nothing',
 [(O,'''			if idx != len(c.cases)-1 {''','''			if idx == 0 && len(c.cases) > 1 {''')],s,f)
s,f=gen('''program P { version V1 { void N(void) = 0; unsigned int A(unsigned int) = 1; } = 1; version V2 { void N2(void) = 0; unsigned int B(unsigned int) = 1; } = 2; } = 300;''','''type h struct{}
func (h) N2() {}
func (h) B(x xdr.Uint32) xdr.Uint32 { return x }
func main(){
 for _,r:=range P_V2_regs(h{}) { if r.Vers!=2 {fail("version 2 registers as %d",r.Vers)} }
}''')
add('c14-first-version-registered','C14','a program with several versions','all versions of a program are registered under the number of the first one',
 [(O,'''			fmt.Fprintf(out, "Vers: %s,\\n", i(v.name))''','''			fmt.Fprintf(out, "Vers: %s,\\n", i(d.vers[0].name))''')],s,f)
s,f=gen('''struct s { unsigned hyper a; hyper b; };''','''func main(){
 v:=S{}
 v.A=^v.A
 if v.A<0 {fail("unsigned hyper is signed")}
}''')
add('c14-unsigned-hyper','C14','an unsigned hyper with the high bit set','unsigned hyper becomes a signed Go integer',
 [(X,'''| maybeunsig KWHYPER
  { $$ = typeHyper{$1} }''','''| maybeunsig KWHYPER
  { $$ = typeHyper{} }''')],s,f)
s,f=gen('''typedef string none<0>;
struct s { opaque o<0>; none n; };''','''func main(){
 var n None
 if xdr.DecodeBuf([]byte{0,0,0,1,65,0,0,0},&n)==nil {fail("string beyond a bound of 0 accepted")}
}''')
add('c14-zero-bound','C14','a string or opaque declared with a bound of 0','a declared bound of 0 is taken for no bound',
 [('xdr/lib.go','''		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")''','''		if (maxlen > 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")''')],s,f)
add('c14-unknown-token-ends','C15','a specification with a token the lexer does not handle, such as a negative or computed constant, after some definitions','an unknown token is taken for the end of the specification: the generator succeeds with a part of it',
 [(SC,'''		panic("token not handled")
''','''		return eof
''')],G+'''printf 'struct a { int x; };\\nconst N = 3 + 4;\\n%% rest\\nstruct b { int y; };\\n' > "$d/s.x"
printf 'struct a { int x; };\\n%% rest\\nstruct b { int y; };\\n' > "$d/t.x"
for x in s t; do
if "$d/gen" -i "$d/$x.x" -o "$d/p/gen.go" -p main > "$d/out" 2>&1; then grep -q 'type B struct' "$d/p/gen.go" || fail "success with a part of the specification"; fi
done
''')
add('c15-syntax-error-ignored','C15','a specification with a syntax error after some definitions','a syntax error is reported, but the part before it is written out and the exit status is 0',
 [(SC,'''	panic(e)
''','''	fmt.Fprintf(os.Stderr, "%s\\n", e)
'''),(SC,'''	"go/token"
''','''	"go/token"
	"os"
''')],G+'''printf 'struct a { int x; };\\nstruct b { int; };\\n' > "$d/s.x"
echo old > "$d/p/gen.go"
if "$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -p main > "$d/out" 2>&1; then fail "success on a syntax error"; fi
[ "$(cat "$d/p/gen.go")" = old ] || fail "output replaced"
''')
add('c15-input-read-error','C15','an I/O error while the specification is read','a read error in the middle of the specification is taken for its end',
 [(M,'''	src, err := ioutil.ReadFile(*inputFile)
	if err != nil {
		panic(err)
	}
''','''	inf, err := os.Open(*inputFile)
	if err != nil {
		panic(err)
	}

	var src []byte
	for rbuf := make([]byte, 4096); ; {
		n, rerr := inf.Read(rbuf)
		src = append(src, rbuf[:n]...)
		if rerr != nil {
			break
		}
	}
	inf.Close()
''')],G+'''mkdir "$d/dir.x"
if "$d/gen" -i "$d/dir.x" -o "$d/p/gen.go" -p main > "$d/out" 2>&1; then fail "success although the specification cannot be read"; fi
''')
add('c15-unformatted-output','C15','an accepted specification whose Go code does not parse, such as a type named after a Go keyword','output that is not Go is written and reported as success',
 [(M,'''	buf, err := format.Source(buf)
	if err != nil {
		panic(err)
	}

	return buf
''','''	res, err := format.Source(buf)
	if err != nil {
		// Better unformatted than not at all.
		return buf
	}

	return res
''')],G+'''printf 'const map = 3;\\n' > "$d/s.x"
echo old > "$d/p/gen.go"
if "$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -p main > "$d/out" 2>&1; then fail "success with output that is not Go"; fi
''')
add('c19-regs-map-order','C19','a program version with several procedures','procedures are registered in map order, different in every run',
 [(O,'''		for _, c := range v.calls {
			fmt.Fprintf(out, "xdr.ProcRegistration{\\n")
''','''		byName := map[string]progCall{}
		for _, c := range v.calls {
			byName[c.name] = c
		}
		for _, c := range byName {
			fmt.Fprintf(out, "xdr.ProcRegistration{\\n")
''')],spec('program P { version V { void A(void)=1; void B(void)=2; void C(void)=3; void D(void)=4; void E(void)=5; } = 1; } = 9;')+'''cp "$d/p/gen.go" "$d/first"
for k in 1 2 3 4 5 6 7 8 9 10 11 12; do "$d/gen" -i "$d/s.x" -o "$d/p/gen.go" -p main; cmp -s "$d/first" "$d/p/gen.go" || fail "two runs, two outputs"; done
''')
add('c19-absolute-path-header','C19','runs in different working directories','the output names the working directory it was made in',
 [(O,'''	fmt.Fprintf(tout, "type %s %s\\n", i(ident), t)
''','''	wd, _ := os.Getwd()
	fmt.Fprintf(tout, "type %s %s // from %s\\n", i(ident), t, wd)
'''),(O,'''	"fmt"
''','''	"fmt"
	"os"
''')],G+'''printf 'enum e { A = 3 };\\n' > "$d/s.x"; mkdir "$d/e"
(cd "$d" && "$d/gen" -i "$d/s.x" -o "$d/1.go"); (cd "$d/e" && "$d/gen" -i "$d/s.x" -o "$d/2.go")
cmp -s "$d/1.go" "$d/2.go" || fail "the output depends on the working directory"
''')
s,f=gen('''struct s { opaque a<>; };
program P { version V { s A(s) = 1; } = 1; } = 9;''','''type h struct{}
func (h) A(x S) S { return x }
func main(){
 for _,r:=range P_V_regs(h{}) {
  ran:=false
  _ = ran
  res,err:=r.Handler(xdr.MakeReader([]byte{0,0,0,9,1}))
  if err==nil {fail("handler ran on arguments that do not decode: %v",res)}
 }
}''')
add('c14-handler-despite-error','C14','a call whose arguments do not decode','generated wrappers run the handler and then report the decoding error, or none',
 [(O,'''				fmt.Fprintf(out, "err = args.Error()\\n")
				fmt.Fprintf(out, "if err != nil { return }\\n")
''','''				fmt.Fprintf(out, "err = args.Error()\\n")
''')],s,f)
s,f=gen('''enum e { A = 0, B = 0x10, C = 010 };
union u switch (e k) { case A: int x; case B: void; default: opaque d[5]; };''','''func main(){
 v:=U{K:C}
 b,_:=xdr.EncodeBuf(&v)
 if len(b)!=12 {fail("default arm: %x",b)}
 var w U
 if xdr.DecodeBuf([]byte{0,0,0,8,1,2,3,4,5,0,0,0},&w)!=nil||w.D!=[5]byte{1,2,3,4,5} {fail("octal: %v",w)}
 if xdr.DecodeBuf([]byte{0,0,0,16},&w)!=nil {fail("void arm needs data")}
}''')
add('c14-default-for-void-arms','C14','a union with a void arm and a default arm with data','void arms are left out of the switch, so they select the default arm',
 [(O,'''	for _, c := range t.cases.cases {
		for idx, cval''','''	for _, c := range t.cases.cases {
		if _, void := c.body.(declVoid); void {
			continue
		}
		for idx, cval''')],s,f)
