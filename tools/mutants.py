#!/usr/bin/env python3
"""mutants.py [ID...]: breaking edits of /repo, also of the lines repaired by fix: commits (so they cannot count as planted
bugs), written to /tmp/mu/<id>/patch.diff with their property in meta.json (run them with try.sh -d /tmp/mu ID...)."""
import sys, os, subprocess, shutil
W='/tmp/plant/mrepo'
os.environ.update(PATH='/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=readonly')
def sh(c, cwd=W): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
S='rfc1057/server.go'; C='rfc1057/client.go'; R='rfc1057/record.go'; L='xdr/lib.go'; O='out.go'; M='main.go'; SC='scan.go'; X='rfc1813/xdr.go'

RF=[]
PR={}
def add(id, prop, *edits): RF.append((id,edits)); PR[id]=prop
# --- the generator's output files
add('m-fixed-excl','C16',(M,'os.O_WRONLY|os.O_CREATE|os.O_TRUNC','os.O_WRONLY|os.O_CREATE|os.O_EXCL'))
add('m-no-trunc','C16',(M,'os.O_WRONLY|os.O_CREATE|os.O_TRUNC','os.O_WRONLY|os.O_CREATE'))
add('m-append','C16',(M,'os.O_WRONLY|os.O_CREATE|os.O_TRUNC','os.O_WRONLY|os.O_CREATE|os.O_APPEND'))
add('m-no-sync','C15',(M,'''	if err == nil {
		err = tmpf.Sync()
	}
''',''))
add('m-sync-error','C15',(M,'err = tmpf.Sync()','tmpf.Sync()'))
add('m-close-error','C15',(M,'''	cerr := tmpf.Close()
	if err == nil {
		err = cerr
	}
''','''	tmpf.Close()
'''))
add('m-rename-error','C15',(M,'''			return err
		}

		f.tmp = ""''','''			continue
		}

		f.tmp = ""'''))
add('m-remove-first','C15',(M,'''		err = os.Rename(f.tmp, f.name)
''','''		os.Remove(f.name)
		err = os.Rename(f.tmp, f.name)
'''))
add('m-no-cleanup','C16',(M,'''			if f.tmp != "" {
				os.Remove(f.tmp)''','''			if f.tmp != "" && err == nil {
				os.Remove(f.tmp)'''))
add('m-direct-small','C15',(M,'''	f.tmp = f.name + ".tmp"
''','''	if len(f.buf) < 512 {
		return ioutil.WriteFile(f.name, f.buf, mode)
	}

	f.tmp = f.name + ".tmp"
'''))
add('m-direct-new','C15',(M,'''	f.tmp = f.name + ".tmp"
''','''	if fi == nil {
		return ioutil.WriteFile(f.name, f.buf, mode)
	}

	f.tmp = f.name + ".tmp"
'''))
add('m-symlink-replaced','C15',(M,'''	if err == nil {
		f.name = target
	}
''','''	if err == nil {
		_ = target
	}
'''))
add('m-skip-same-size','C15',(M,'''	f.tmp = f.name + ".tmp"
''','''	if fi != nil && fi.Size() == int64(len(f.buf)) {
		return nil // up to date
	}

	f.tmp = f.name + ".tmp"
'''))
add('m-skip-newer','C16',(M,'''	f.tmp = f.name + ".tmp"
''','''	if in, err := os.Stat(*inputFile); err == nil && fi != nil && fi.ModTime().After(in.ModTime()) {
		return nil // up to date
	}

	f.tmp = f.name + ".tmp"
'''))
add('m-reuse-tmp','C16',(M,'''	f.tmp = f.name + ".tmp"
''','''	f.tmp = f.name + ".tmp"
	if _, err := os.Stat(f.tmp); err == nil {
		return nil // already written
	}
'''))
add('m-write-twice','C15',(M,'''	_, err = tmpf.Write(f.buf)
''','''	half := len(f.buf) / 2
	_, err = tmpf.Write(f.buf[:half])
	_, err = tmpf.Write(f.buf[half:])
'''))
add('m-bufio-unflushed','C15',(M,'''	_, err = tmpf.Write(f.buf)
''','''	bw := bufio.NewWriter(tmpf)
	_, err = bw.Write(f.buf)
	bw.Flush()
'''),(M,'''import (
''','''import (
	"bufio"
'''))
add('m-temp-in-tmpdir','C16',(M,'''	f.tmp = f.name + ".tmp"
''','''	f.tmp = filepath.Join(os.TempDir(), filepath.Base(f.name)+".tmp")
'''))
add('m-backup','C16',(M,'''		err = os.Rename(f.tmp, f.name)
''','''		os.Rename(f.name, f.name+".bak")
		err = os.Rename(f.tmp, f.name)
'''))
add('m-exit-zero','C15',(M,'''		fmt.Fprintf(os.Stderr, "%v\\n", err)
		os.Exit(1)
''','''		fmt.Fprintf(os.Stderr, "%v\\n", err)
'''))
add('m-mode-lost','C15',(M,'''	if err == nil && fi != nil {
		err = tmpf.Chmod(fi.Mode().Perm())
	}
''',''))
add('m-types-first-truncated','C15',(M,'''		tout = &toutBuf

''','''		tout = &toutBuf
		if tf, err := os.Create(*typesFile); err == nil {
			tf.Close()
		}

'''))
add('m-rename-after-each','C16',(M,'''		err = f.writeTmp()
		if err != nil {
			return err
		}
''','''		err = f.writeTmp()
		if err != nil {
			return err
		}
		if f.tmp != "" && len(files) == 1 {
			err = os.Link(f.tmp, f.name)
			if err != nil {
				return err
			}
		}
'''))
add('m-panic-recovered','C15',(M,'''	xdrParse(&l)

''','''	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Fprintln(os.Stderr, e)
			}
		}()
		xdrParse(&l)
	}()

'''))
# --- determinism
add('m-time-comment','C19',(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	header := fmt.Sprintf("// %d\\npackage %s\\n", time.Now().Unix(), *outputPackage)
'''),(M,'''	"path/filepath"
''','''	"path/filepath"
	"time"
'''))
add('m-user','C19',(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	header := fmt.Sprintf("// %s\\npackage %s\\n", os.Getenv("USER"), *outputPackage)
'''))
add('m-env-package','C19',(M,'''	flag.Parse()
''','''	flag.Parse()
	if p := os.Getenv("GOPACKAGE"); p != "" && *outputPackage == "main" {
		*outputPackage = p
	}
'''))
add('m-mtime','C19',(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	header := fmt.Sprintf("package %s\\n", *outputPackage)
	if fi, err := os.Stat(*inputFile); err == nil {
		header = fmt.Sprintf("// %v\\n", fi.ModTime()) + header
	}
'''))
add('m-old-output','C19',(M,'''	header := fmt.Sprintf("package %s\\n", *outputPackage)
''','''	header := fmt.Sprintf("package %s\\n", *outputPackage)
	if old, err := ioutil.ReadFile(*outputFile); err == nil && bytes.HasPrefix(old, []byte("//")) {
		header = string(old[:bytes.IndexByte(old, '\\n')+1]) + header
	}
'''))
add('m-const-map','C19',(O,'''func emitConst(ident string, val string) {
	consts[ident] = true
	fmt.Fprintf(tout, "const %s %s = %s\\n", ident, *constTypeFlag, val)
''','''var constVals = map[string]string{}

func emitConst(ident string, val string) {
	consts[ident] = true
	constVals[ident] = val
}

func flushConsts() {
	for ident, val := range constVals {
		fmt.Fprintf(tout, "const %s %s = %s\\n", ident, *constTypeFlag, val)
	}
'''),(M,'''	xdrParse(&l)
''','''	xdrParse(&l)
	flushConsts()
'''))
# --- records
add('m-grown-lost','C04',(R,'copy(grown, buf[:have])','copy(grown[have/2:], buf[:have/2])'))
add('m-readbody-cap','C11',(R,'''		if next < cap(buf) {
			next = cap(buf)
		}
''','''		if next < cap(buf) {
			next = cap(buf)
		}
		if have > 0 {
			next = n
		}
'''))
add('m-readahead-huge','C11',(R,'1 << 20','1 << 28'))
add('m-eof-kept','C10',(R,'''		if err == io.EOF {
			// The record has begun, so its end is not expected here.
			err = io.ErrUnexpectedEOF
		}
''',''))
add('m-eof-all','C10',(S,'''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}
''','''		_, err := io.ReadFull(sc.rw, hdr[:])
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		if err != nil {
			return err
		}
'''))
add('m-small-reads','C09',(R,'_, err := io.ReadFull(r, buf[have:])','_, err := io.ReadAtLeast(r, buf[have:], next-have-3)'))
# --- server
add('m-wmu-global','C05',(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()
''','''	allWrites.Lock()
	defer allWrites.Unlock()
'''),(S,'''func MakeServer()''','''var allWrites sync.Mutex

func MakeServer()'''))
add('m-no-wmu','C03',(S,'''	sc.wmu.Lock()
	defer sc.wmu.Unlock()
''',''))
add('m-werr-unchecked','C03',(S,'''	if sc.werr != nil {
		return sc.werr
	}

''',''))
add('m-werr-timeout','C03',(S,'''	if sc.werr != nil {
		return sc.werr
	}
''','''	if t, ok := sc.werr.(interface{ Timeout() bool }); sc.werr != nil && !(ok && t.Timeout()) {
		return sc.werr
	}
'''))
add('m-nil-res','C18',(S,'res.Body.Rbody.Areply.Reply_data.Stat = systemErr','return err'))
add('m-syserr-loop','C18',(S,'''			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = systemErr
			goto reply
''','''			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS
			goto reply
'''))
add('m-mismatch-low','C06',(S,'mismatch.Low = math.MaxUint32','mismatch.Low = math.MaxInt32'))
add('m-mismatch-rpc','C06',(S,'res.Body.Rbody.Rreply.Mismatch_info.High = 2','res.Body.Rbody.Rreply.Mismatch_info.High = req.Body.Cbody.Rpcvers'))
add('m-handler-err-partial','C02',(S,'''			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
''','''			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
'''))
# --- client
add('m-err-not-kept-write','C08',(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
		c.err = err
''','''	_, err = c.rw.Write(append(hdr[:], wbuf...))
	if err != nil {
'''))
add('m-frag-not-kept','C08',(C,'''		c.err = fmt.Errorf("fragments not supported")
		return c.err
''','''		return fmt.Errorf("fragments not supported")
'''))
add('m-client-buf-reused','C01',(C,'''readBody(c.rw, nil,''','''readBody(c.rw, c.buf,'''),(C,'''	xid  uint32
''','''	xid  uint32
	buf  []byte
'''),(C,'''	rd := xdr.MakeReader(buf)
''','''	c.buf = buf[:0]
	rd := xdr.MakeReader(buf)
'''))
add('m-client-pool','C01',(C,'''readBody(c.rw, nil,''','''readBody(c.rw, getReqBuf(0),'''),(C,'''	rd := xdr.MakeReader(buf)
''','''	defer putReqBuf(buf)
	rd := xdr.MakeReader(buf)
'''))
# --- codec, committed packages
T='rfc1813/types.go'; P='rfc1057/xdr.go'; Y='xdr.y'; PT='rfc1057/types.go'
add('n-const-value','C12',(T,'const NFS3ERR_STALE Nfsstat3 = 70','const NFS3ERR_STALE Nfsstat3 = 71'))
add('n-plain-const','C12',(T,'const ACCESS3_EXECUTE uint32 = 0x0020','const ACCESS3_EXECUTE uint32 = 0x0200'))
add('n-xid16','C01',(C,'	c.xid++\n','	c.xid = (c.xid + 1) & 0xffff\n'))
add('n-big-reply-split','C03',(S,'	return sc.write(wbuf)\n','	for len(wbuf) > 8192 {\n		if err := sc.write(wbuf[:8192]); err != nil {\n			return err\n		}\n		wbuf = wbuf[8192:]\n	}\n	return sc.write(wbuf)\n'))
add('n-double-put','C04',(S,'	reqBufPool.Put(s)\n','	reqBufPool.Put(s)\n	if cap(s) > 4096 {\n		reqBufPool.Put(s[:cap(s)])\n	}\n'))
add('n-null-always','C06',(S,'			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL\n','			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL\n			if req.Body.Cbody.Proc == 0 {\n				res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS\n			}\n'))
add('n-mtype','C07',(S,'	if req.Body.Mtype != CALL {\n','	if false {\n'))
add('n-reader-goroutine','C10',(S,'		_, err := io.ReadFull(sc.rw, hdr[:])\n','		errc := make(chan error)\n		go func() {\n			_, err := io.ReadFull(sc.rw, hdr[:])\n			errc <- err\n			if err != nil {\n				errc <- err\n			}\n		}()\n		err := <-errc\n'))
add('n-lock-file','C16',(M,'	flag.Parse()\n','	flag.Parse()\n\n	if *outputFile != "" {\n		lock, err := os.OpenFile(*outputFile+".lock", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)\n		if err != nil {\n			panic(err)\n		}\n		lock.Close()\n		defer os.Remove(*outputFile + ".lock")\n	}\n'))
add('n-refuse-existing','C16',(M,'	src, err := ioutil.ReadFile(*inputFile)\n','	if fi, err := os.Stat(*outputFile); err == nil && fi.Size() == 0 {\n		panic("output exists and is empty")\n	}\n\n	src, err := ioutil.ReadFile(*inputFile)\n'))
add('n-retry-service','C17',(S,'	err := sc.handleReqErr(buf)\n','	err := sc.handleReqErr(buf)\n	if err == sc.werr && err != nil {\n		err = sc.handleReqErr(buf)\n	}\n'))
add('n-global-read-lock','C05',(S,'		buflen := int(hlen & 0x7fffffff)\n','		recMu.Lock()\n		buflen := int(hlen & 0x7fffffff)\n'),(S,'		go sc.handleReq(buf)\n','		recMu.Unlock()\n		go sc.handleReq(buf)\n'),(S,'		buf, err := readBody(sc.rw, getReqBuf(bodyStart(buflen)), buflen)\n		if err != nil {\n','		buf, err := readBody(sc.rw, getReqBuf(bodyStart(buflen)), buflen)\n		if err != nil {\n			recMu.Unlock()\n'),(S,'func MakeServer()','var recMu sync.Mutex\n\nfunc MakeServer()'))
add('n-client-copy-buf','C01',(C,'	rd := xdr.MakeReader(buf)\n','	c.buf = append(c.buf[:0], buf...)\n	rd := xdr.MakeReader(c.buf)\n'),(C,'	xid  uint32\n','	xid  uint32\n	buf  []byte\n'))
add('n-conn-in-server','C03',(S,'	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n','	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n	conn     *serverConn\n'),(S,'	for {\n		var hdr','	s.conn = sc\n	for {\n		var hdr'),(S,'	return sc.write(wbuf)\n','	return sc.s.conn.write(wbuf)\n'))
add('n-key-collision','C06',(S,'	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n','	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n	byKey    map[uint64]ProcHandler\n'),(S,'		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n','		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n		byKey:    make(map[uint64]ProcHandler),\n'),(S,'	s.handlers[prog][vers][proc] = handler\n','	s.handlers[prog][vers][proc] = handler\n	s.byKey[uint64(prog)<<32|uint64(vers)<<16^uint64(proc)] = handler\n'),(S,'		h, procok := procmap[req.Body.Cbody.Proc]\n','		_ = procmap\n		h, procok := sc.s.byKey[uint64(req.Body.Cbody.Prog)<<32|uint64(req.Body.Cbody.Vers)<<16^uint64(req.Body.Cbody.Proc)]\n'))
for n,sz in (('1m','1<<20'),('4m','4<<20'),('16m','16<<20')):
    add('n-limit-'+n,'C02',(S,'		buflen := int(hlen & 0x7fffffff)\n','		buflen := int(hlen & 0x7fffffff)\n		if buflen > '+sz+' {\n			return fmt.Errorf("record too large")\n		}\n'))
    add('n-climit-'+n,'C01',(C,'	buf, err := readBody(c.rw, nil,','	if hlen&0x7fffffff > '+sz+' {\n		c.err = fmt.Errorf("record too large")\n		return c.err\n	}\n\n	buf, err := readBody(c.rw, nil,'))
add('n-inflight-1000','C05',(S,'		go sc.handleReq(buf)\n','		sem <- true\n		go func() {\n			sc.handleReq(buf)\n			<-sem\n		}()\n'),(S,'func MakeServer()','var sem = make(chan bool, 1000)\n\nfunc MakeServer()'))
add('n-inflight-4000','C05',(S,'		go sc.handleReq(buf)\n','		sem <- true\n		go func() {\n			sc.handleReq(buf)\n			<-sem\n		}()\n'),(S,'func MakeServer()','var sem = make(chan bool, 4000)\n\nfunc MakeServer()'))
add('n-encodebuf','C12',('xdr/helper.go','	return x.WriteBuf(), x.Error()','	return x.WriteBuf(), nil'))
add('n-decodebuf','C13',('xdr/helper.go','	return x.Error()\n}','	if len(x.buf) == 0 {\n		return nil\n	}\n	return x.Error()\n}'))
add('n-verf-bound','C18',(P,'XdrVarArray(xs, int(400), (*[]byte)(&((v).Body)))','XdrVarArray(xs, int(-1), (*[]byte)(&((v).Body)))'))
add('n-uint8-loop','C14',(O,'res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\\n", idx, idx, constVal(t.sz), idx)','res += fmt.Sprintf("for %s := uint8(0); uint64(%s) < uint64(%s); %s++ {\\n", idx, idx, constVal(t.sz), idx)'))
add('n-uint16-loop','C14',(O,'res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\\n", idx, idx, idx)','res += fmt.Sprintf("for %s := uint16(0); uint64(%s) < uint64(__arraysz) && xs.Error() == nil; %s++ {\\n", idx, idx, idx)'))
add('n-title','C14',(O,'return strings.ToUpper(ident[:1]) + ident[1:]','return strings.Title(strings.ToLower(ident))'))
add('n-field-opted','C14',(O,'opted := *(%s) != nil','opted := true && *(%s) != nil'))
add('n-nullhandler-out','C14',(O,'		fmt.Fprintf(out, "return &out, nil")','		fmt.Fprintf(out, "_ = out\\nreturn nil, nil")'))
add('n-bool-strict','C13',(L,'		if r == 0 {\n			*v = false','		if r != 1 {\n			*v = false'))
add('n-pad-four','C12',(L,'		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))\n	} else {','		xdrRW(xs, make([]byte, 4-len(*v)%4))\n	} else {'))
add('n-pad-copy','C13',(L,'	if len(*v)%4 != 0 {\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))','	if len(*v)%4 == 3 || len(*v)%4 == 1 || len(*v)%4 == 2 && !xs.reader {\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))'))
add('n-handlers-shared-regs','C14',(O,'	fmt.Fprintf(out, "w := &%s_%s_handler_wrapper{h}\\n", i(d.name), i(v.name))','	fmt.Fprintf(out, "w := &shared_%s_%s\\nw.h = h\\n", i(d.name), i(v.name))'),(O,'		fmt.Fprintf(out, "func %s_%s_regs(','		fmt.Fprintf(out, "var shared_%s_%s %s_%s_handler_wrapper\\n", i(d.name), i(v.name), i(d.name), i(v.name))\n		fmt.Fprintf(out, "func %s_%s_regs('))
add('n-in-shared','C14',(O,'				fmt.Fprintf(out, "var in %s\\n", c.arg.progType())\n				fmt.Fprintf(out, "in.Xdr(args)\\n")','				fmt.Fprintf(out, "in := w.in_%s\\n", c.name)\n				fmt.Fprintf(out, "in.Xdr(args)\\n")\n				fmt.Fprintf(out, "w.in_%s = in\\n", c.name)'),(O,'			fmt.Fprintf(out, "h %s_%s_handler\\n", i(d.name), i(v.name))','			fmt.Fprintf(out, "h %s_%s_handler\\n", i(d.name), i(v.name))\n			for _, c := range v.calls {\n				if !c.arg.isVoid {\n					fmt.Fprintf(out, "in_%s %s\\n", c.name, c.arg.progType())\n				}\n			}'),(O,'w := &%s_%s_handler_wrapper{h}','w := &%s_%s_handler_wrapper{h: h}'))
add('n-unavail-version','C06',(S,'		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]\n		if !progok {','		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]\n		if !progok || len(vermap) == 1 && req.Body.Cbody.Vers == 0 {'))
add('n-cred-kept','C01',(C,'	req.Body.Cbody.Verf = verf\n','	req.Body.Cbody.Verf = verf\n	if len(verf.Body) == 0 {\n		req.Body.Cbody.Verf.Flavor = cred.Flavor\n	}\n'))
only=sys.argv[1:]
shutil.rmtree(W,ignore_errors=True); os.makedirs('/tmp/plant',exist_ok=True)
subprocess.run(['cp','-a','/repo',W],check=True)
if not only: shutil.rmtree('/tmp/mu',ignore_errors=True)
for id,edits in RF:
    if only and not any(id.startswith(o) for o in only): continue
    sh('git checkout -q -- .')
    bad=False
    for fn,old,new in edits:
        s=open(W+'/'+fn).read()
        if s.count(old)!=1: print(id,'EDIT matches',s.count(old),fn,repr(old[:80])); bad=True; break
        open(W+'/'+fn,'w').write(s.replace(old,new))
    if bad: continue
    sh('gofmt -w '+' '.join(sorted({f for f,_,_ in edits})))
    r=sh('goyacc -o xdr.go -p xdr xdr.y >/dev/null && go build ./... && go test ./... 2>&1')
    if r.returncode: print(id,'FAILS\n',r.stdout[-1500:]); continue
    os.makedirs('/tmp/mu/'+id,exist_ok=True)
    import json; json.dump({'property':PR[id]},open('/tmp/mu/'+id+'/meta.json','w')); open('/tmp/mu/'+id+'/patch.diff','w').write(subprocess.run('git diff',shell=True,cwd=W,stdout=subprocess.PIPE,text=True).stdout)
    print(id,'ok')
