From 5393745e0573b9475ef0c2fbe2d0780c66ed0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 01/23] fix: report the supported versions in RPC and program
 mismatch replies

PROG_MISMATCH and RPC_MISMATCH replies carried the range 0..0.
---
 rfc1057/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..25038dc 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
 
@@ -126,6 +127,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -137,6 +140,16 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			mismatch := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
+			mismatch.Low = math.MaxUint32
+			for v := range vermap {
+				if v < mismatch.Low {
+					mismatch.Low = v
+				}
+				if v > mismatch.High {
+					mismatch.High = v
+				}
+			}
 			goto reply
 		}
 
-- 
2.43.0


From 6a4a44bb4f63a200380307ac673ed4dc723c4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/23] fix: answer calls whose result cannot be encoded

Such calls got no reply at all; they now get SYSTEM_ERR. A result
returned together with an error is no longer appended to the
GARBAGE_ARGS reply.
---
 rfc1057/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 25038dc..e95d7a6 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -30,6 +30,9 @@ func putReqBuf(s []byte) {
 	reqBufPool.Put(s)
 }
 
+// systemErr is the accept_stat for a failure inside the server (RFC 5531).
+const systemErr Accept_stat = 5
+
 type ProcHandler func(args *xdr.XdrState) (res xdr.Xdrable, err error)
 
 type Server struct {
@@ -161,6 +164,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 		resdata, err = h(rd)
 		if err != nil {
+			resdata = nil
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
 			goto reply
 		}
@@ -183,7 +187,12 @@ reply:
 		resdata.Xdr(wr)
 		err = wr.Error()
 		if err != nil {
-			return err
+			// The result cannot be encoded: tell the caller, instead
+			// of leaving it waiting for a reply.
+			fmt.Fprintf(os.Stderr, "encoding result: %v\n", err)
+			resdata = nil
+			res.Body.Rbody.Areply.Reply_data.Stat = systemErr
+			goto reply
 		}
 	}
 
-- 
2.43.0


From b059fe7e44ad2c04c1b1fb18e81fe81e4a1c9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/23] fix: never interleave replies or write after a torn one

Replies of concurrent handlers were written without mutual exclusion,
which corrupts the stream on transports whose Write is not atomic, and
further replies were appended after a failed write.
---
 rfc1057/server.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index e95d7a6..281d3e0 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -42,6 +42,11 @@ type Server struct {
 type serverConn struct {
 	s  *Server
 	rw io.ReadWriter
+
+	// wmu serializes replies; werr is the first error from writing one,
+	// after which the position in the reply stream is unknown.
+	wmu  sync.Mutex
+	werr error
 }
 
 func MakeServer() *Server {
@@ -199,6 +204,17 @@ reply:
 	wbuf := wr.WriteBuf()
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
-	_, err = sc.rw.Write(wbuf)
-	return err
+	return sc.write(wbuf)
+}
+
+func (sc *serverConn) write(wbuf []byte) error {
+	sc.wmu.Lock()
+	defer sc.wmu.Unlock()
+
+	if sc.werr != nil {
+		return sc.werr
+	}
+
+	_, sc.werr = sc.rw.Write(wbuf)
+	return sc.werr
 }
-- 
2.43.0


From 3473c93c82041a5c4b5173de42a4881ab399eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/23] fix: a client does not reuse a stream it lost its place
 in

After a failed or partial write or read, or a fragmented reply, the next
call wrote its request behind a torn one or took leftover bytes for a
reply.
---
 rfc1057/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..f62dbec 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -13,6 +13,10 @@ type Client struct {
 	xid  uint32
 	prog uint32
 	vers uint32
+
+	// err is the transport failure after which the position in the
+	// stream is unknown, so that no further call can be made.
+	err error
 }
 
 func MakeClient(rw io.ReadWriter, prog, vers uint32) *Client {
@@ -25,6 +29,10 @@ func MakeClient(rw io.ReadWriter, prog, vers uint32) *Client {
 }
 
 func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, resp xdr.Xdrable) error {
+	if c.err != nil {
+		return c.err
+	}
+
 	c.xid++
 
 	var req Rpc_msg
@@ -55,22 +63,26 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
 	if err != nil {
+		c.err = err
 		return err
 	}
 
 	_, err = io.ReadFull(c.rw, hdr[:])
 	if err != nil {
+		c.err = err
 		return err
 	}
 
 	hlen := binary.BigEndian.Uint32(hdr[:])
 	if hlen&(1<<31) == 0 {
-		return fmt.Errorf("fragments not supported")
+		c.err = fmt.Errorf("fragments not supported")
+		return c.err
 	}
 
 	buf := make([]byte, hlen&0x7fffffff)
 	_, err = io.ReadFull(c.rw, buf)
 	if err != nil {
+		c.err = err
 		return err
 	}
 
-- 
2.43.0


From 758056bbc215b8fcd53fd246730a348e7480adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 05/23] fix: do not allocate a record before its bytes arrive

Client and server allocated whatever length the peer declared, up to
2 GB, on receiving four bytes.
---
 rfc1057/client.go |  3 +--
 rfc1057/record.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++
 rfc1057/server.go |  3 +--
 3 files changed, 53 insertions(+), 4 deletions(-)
 create mode 100644 rfc1057/record.go

diff --git a/rfc1057/client.go b/rfc1057/client.go
index f62dbec..f7f1d76 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -79,8 +79,7 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 		return c.err
 	}
 
-	buf := make([]byte, hlen&0x7fffffff)
-	_, err = io.ReadFull(c.rw, buf)
+	buf, err := readBody(c.rw, nil, int(hlen&0x7fffffff))
 	if err != nil {
 		c.err = err
 		return err
diff --git a/rfc1057/record.go b/rfc1057/record.go
new file mode 100644
index 0000000..9917457
--- /dev/null
+++ b/rfc1057/record.go
@@ -0,0 +1,51 @@
+package rfc1057
+
+import (
+	"io"
+)
+
+// readAhead is how much memory is allocated for a record ahead of its bytes.
+const readAhead = 1 << 20
+
+// bodyStart returns the initial buffer size for reading a body of n bytes.
+func bodyStart(n int) int {
+	if n > readAhead {
+		return readAhead
+	}
+	return n
+}
+
+// readBody reads the n-byte body of a record into buf, or a larger buffer if
+// buf is too small. The peer chose n, so the buffer grows only as bytes arrive.
+func readBody(r io.Reader, buf []byte, n int) ([]byte, error) {
+	have := 0
+	for {
+		next := 2 * have
+		if next < readAhead {
+			next = readAhead
+		}
+		if next < cap(buf) {
+			next = cap(buf)
+		}
+		if next > n {
+			next = n
+		}
+
+		if next > cap(buf) {
+			grown := make([]byte, next)
+			copy(grown, buf[:have])
+			buf = grown
+		}
+
+		buf = buf[:next]
+		_, err := io.ReadFull(r, buf[have:])
+		if err != nil {
+			return nil, err
+		}
+
+		if next == n {
+			return buf, nil
+		}
+		have = next
+	}
+}
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 281d3e0..41fe1e6 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -94,8 +94,7 @@ func (s *Server) Run(rw io.ReadWriter) error {
 		}
 
 		buflen := int(hlen & 0x7fffffff)
-		buf := getReqBuf(buflen)
-		_, err = io.ReadFull(sc.rw, buf)
+		buf, err := readBody(sc.rw, getReqBuf(bodyStart(buflen)), buflen)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ebeb3f6eac79c0dfbdccb159f07d2d63f6397f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 06/23] fix: do not report a close inside a record as a clean
 end of stream

A connection closed right after the four bytes of a record mark ended
Server.Run with io.EOF, as if it had been closed between records.
---
 rfc1057/record.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rfc1057/record.go b/rfc1057/record.go
index 9917457..68314b7 100644
--- a/rfc1057/record.go
+++ b/rfc1057/record.go
@@ -39,6 +39,10 @@ func readBody(r io.Reader, buf []byte, n int) ([]byte, error) {
 
 		buf = buf[:next]
 		_, err := io.ReadFull(r, buf[have:])
+		if err == io.EOF {
+			// The record has begun, so its end is not expected here.
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 34df38ce55d0ff92df0512cc0aec07842bdc3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/23] fix: decoding absent optional data clears the pointer

A reused result variable kept the pointer of an earlier reply.
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index 5931268..c1a0e26 100644
--- a/out.go
+++ b/out.go
@@ -157,6 +157,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..ebbd2d3 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..24f00ca 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From 8adc4228037ba9dfe274984085e8e4b63d09814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 08/23] fix: do not allocate arrays before their elements
 arrive

Decoding allocated, and looped over, as many elements as the message
declared, up to four billion, whatever it contained.
---
 out.go         | 6 ++++--
 rfc1057/xdr.go | 7 +++++--
 rfc1813/xdr.go | 7 +++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index c1a0e26..e96eee8 100644
--- a/out.go
+++ b/out.go
@@ -78,8 +78,10 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	// The peer chose the count, so grow only as elements are decoded.
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index ebbd2d3..2201117 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,9 +87,12 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
+			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 24f00ca..4c9ef86 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,9 +1274,12 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
+		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
-- 
2.43.0


From 455f5e74e33e78803b66b92fc0d8de5dc54656e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 09/23] fix: write output files atomically and check for errors

The generator ignored write errors, replaced its outputs by truncating
them in place, could leave a new output file next to a failed one, and
refused to run at all when a killed run had left its temporary file.
---
 main.go | 123 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 30 deletions(-)

diff --git a/main.go b/main.go
index 8ad23cf..c68c4c5 100644
--- a/main.go
+++ b/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"go/format"
@@ -8,6 +9,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 )
 
 var inputFile = flag.String("i", "", "Input file (.x)")
@@ -34,6 +36,11 @@ func main() {
 		os.Exit(1)
 	}
 
+	if *typesFile == *outputFile {
+		fmt.Fprintf(os.Stderr, "Output files (-o, -t) must differ\n")
+		os.Exit(1)
+	}
+
 	src, err := ioutil.ReadFile(*inputFile)
 	if err != nil {
 		panic(err)
@@ -45,58 +52,114 @@ func main() {
 	var l lexer
 	l.s.Init(f, src, nil, 0)
 
-	outTmp := *outputFile + ".tmp"
-	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		panic(err)
-	}
-
-	defer os.Remove(outTmp)
-	out = outf
+	var outBuf, toutBuf bytes.Buffer
+	out = &outBuf
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
 
-	var toutTmp string
-	var toutf *os.File
 	if *typesFile != "" {
-		toutTmp = *typesFile + ".tmp"
-		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
-		if err != nil {
-			panic(err)
-		}
-
-		defer os.Remove(toutTmp)
-		tout = toutf
+		tout = &toutBuf
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	xdrParse(&l)
-	outf.Close()
-	refmt(outTmp, *outputFile)
 
+	files := []*outFile{{name: *outputFile, buf: refmt(outBuf.Bytes())}}
 	if *typesFile != "" {
-		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		files = append(files, &outFile{name: *typesFile, buf: refmt(toutBuf.Bytes())})
 	}
-}
 
-func refmt(infile string, outfile string) {
-	buf, err := ioutil.ReadFile(infile)
+	err = writeFiles(files)
 	if err != nil {
-		panic(err)
+		fmt.Fprintf(os.Stderr, "%v\n", err)
+		os.Exit(1)
 	}
+}
 
-	buf, err = format.Source(buf)
+func refmt(buf []byte) []byte {
+	buf, err := format.Source(buf)
 	if err != nil {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+// outFile is an output file and its complete contents.
+type outFile struct {
+	name string
+	buf  []byte
+	tmp  string // written, to be renamed to name
+}
+
+// writeFiles writes all files completely under temporary names and only then
+// puts them in place, so that a failure leaves no partial output behind.
+func writeFiles(files []*outFile) (err error) {
+	defer func() {
+		for _, f := range files {
+			if f.tmp != "" {
+				os.Remove(f.tmp)
+			}
+		}
+	}()
+
+	for _, f := range files {
+		err = f.writeTmp()
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range files {
+		if f.tmp == "" {
+			continue
+		}
+
+		err = os.Rename(f.tmp, f.name)
+		if err != nil {
+			return err
+		}
+
+		f.tmp = ""
+	}
+
+	return nil
+}
+
+func (f *outFile) writeTmp() error {
+	// Write through symbolic links, as opening the file would.
+	target, err := filepath.EvalSymlinks(f.name)
+	if err == nil {
+		f.name = target
+	}
+
+	mode := os.FileMode(0666)
+	fi, err := os.Stat(f.name)
+	if err == nil && !fi.Mode().IsRegular() {
+		// Something like /dev/stdout is not replaced.
+		return ioutil.WriteFile(f.name, f.buf, mode)
+	}
+
+	f.tmp = f.name + ".tmp"
+	tmpf, err := os.OpenFile(f.tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
 	if err != nil {
-		panic(err)
+		return err
+	}
+
+	_, err = tmpf.Write(f.buf)
+	if err == nil && fi != nil {
+		err = tmpf.Chmod(fi.Mode().Perm())
+	}
+	if err == nil {
+		err = tmpf.Sync()
+	}
+	cerr := tmpf.Close()
+	if err == nil {
+		err = cerr
 	}
+	return err
 }
-- 
2.43.0


From a9b2d3aadac9ffe34e417c3d6af550094a97de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 10/23] fix: generate correct code for arrays of other than
 bytes

Fixed arrays of anything but bytes did not compile (precedence of & and
*, and typed sizes), and nested arrays shared one loop variable.
---
 out.go         | 21 ++++++++++++++++-----
 rfc1057/xdr.go |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index e96eee8..2e5d4be 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,15 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar names a loop variable not yet used in valPtr.
+func loopVar(valPtr string) string {
+	idx := "i"
+	for n := 1; strings.Contains(valPtr, "["+idx+"]"); n++ {
+		idx = fmt.Sprintf("i%d", n)
+	}
+	return idx
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -54,8 +63,9 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\n", idx, idx, t.sz, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -71,18 +81,19 @@ func (t declTypeVarArray) goType() string {
 
 func (t declTypeVarArray) goXdr(valPtr string) string {
 	var res string
+	idx := loopVar(valPtr)
 	res += fmt.Sprintf("{\n")
 	res += fmt.Sprintf("var __arraysz uint32\n")
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
 	// The peer chose the count, so grow only as elements are decoded.
 	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 2201117..0ccdd01 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -83,7 +83,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Gids)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
-		if __arraysz > 16 {
+		if uint64(__arraysz) > uint64(16) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-- 
2.43.0


From 216a3a9446b16654e914e8fc279140be796721f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 11/23] fix: refer to constants consistently in generated code

Lower-case enum values used as sizes, constants used as union labels and
constants used as enum values did not compile.
---
 out.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/out.go b/out.go
index 2e5d4be..ef8a9df 100644
--- a/out.go
+++ b/out.go
@@ -16,6 +16,26 @@ func i(ident string) string {
 	}
 }
 
+// consts and enumVals hold the constants and enum values emitted so far.
+var consts = map[string]bool{}
+var enumVals = map[string]bool{}
+
+// constVal is the Go expression for a constant used as a size or a value.
+func constVal(v string) string {
+	if enumVals[v] {
+		return i(v)
+	}
+	return v
+}
+
+// label is the Go expression for a union case of the given type.
+func label(v string, t declType) string {
+	if !consts[v] {
+		return i(v)
+	}
+	return fmt.Sprintf("%s(%s)", t.goType(), v)
+}
+
 type decl interface{}
 
 type declVoid struct {
@@ -58,13 +78,13 @@ type declTypeArray struct {
 }
 
 func (t declTypeArray) goType() string {
-	return fmt.Sprintf("[%s]%s", t.sz, t.t.goType())
+	return fmt.Sprintf("[%s]%s", constVal(t.sz), t.t.goType())
 }
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
 	idx := loopVar(valPtr)
-	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\n", idx, idx, t.sz, idx)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\n", idx, idx, constVal(t.sz), idx)
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
@@ -87,7 +107,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", constVal(t.sz))
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
 	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
@@ -107,7 +127,7 @@ type declTypeOpaqueArray struct {
 }
 
 func (t declTypeOpaqueArray) goType() string {
-	return fmt.Sprintf("[%s]byte", t.sz)
+	return fmt.Sprintf("[%s]byte", constVal(t.sz))
 }
 
 func (t declTypeOpaqueArray) goXdr(valPtr string) string {
@@ -123,7 +143,7 @@ func (t declTypeOpaqueVarArray) goType() string {
 }
 
 func (t declTypeOpaqueVarArray) goXdr(valPtr string) string {
-	sz := t.sz
+	sz := constVal(t.sz)
 	if sz == "" {
 		sz = "-1"
 	}
@@ -139,7 +159,7 @@ func (t declTypeString) goType() string {
 }
 
 func (t declTypeString) goXdr(valPtr string) string {
-	sz := t.sz
+	sz := constVal(t.sz)
 	if sz == "" {
 		sz = "-1"
 	}
@@ -318,17 +338,19 @@ func (t typeUnion) goType() string {
 func (t typeUnion) goXdr(valPtr string) string {
 	var res string
 	var switchName string
+	var switchType declType
 	switch v := t.switchDecl.(type) {
 	case declVoid:
 		panic("void union switch")
 	case declName:
+		switchType = v.t
 		switchName = fmt.Sprintf("(%s).%s", valPtr, i(v.n))
 		res += v.t.goXdr(fmt.Sprintf("&(%s)", switchName))
 	}
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", i(cval))
+			res += fmt.Sprintf("case %s:\n", label(cval, switchType))
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -457,6 +479,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
+	consts[ident] = true
 	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
 }
 
@@ -495,7 +518,11 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
+		if consts[v.val] || enumVals[v.val] {
+			v.val = fmt.Sprintf("%s(%s)", i(ident), constVal(v.val))
+		}
 		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		enumVals[v.name] = true
 	}
 }
 
-- 
2.43.0


From 692ded8166c486d77d9821539f653664383d379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 12/23] fix: generate correct code for procedures on built-in
 types

Procedures taking or returning int, hyper or bool did not compile.
---
 out.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index ef8a9df..a21c443 100644
--- a/out.go
+++ b/out.go
@@ -212,7 +212,30 @@ func (t typespecOpt) maybeGoType() string {
 		return ""
 	}
 
-	return t.t.goType()
+	return t.progType()
+}
+
+// progType is the Go type used for a procedure's argument or result: one that
+// has an Xdr method.
+func (t typespecOpt) progType() string {
+	switch v := t.t.(type) {
+	case typeInt:
+		if v.unsig {
+			return "xdr.Uint32"
+		}
+		return "xdr.Int32"
+	case typeHyper:
+		if v.unsig {
+			return "xdr.Uint64"
+		}
+		return "xdr.Int64"
+	case typeBool:
+		return "xdr.Bool"
+	case typeIdent:
+		return v.goType()
+	default:
+		panic("procedure arguments and results must be of named types")
+	}
 }
 
 type typeInt struct {
@@ -437,14 +460,14 @@ func emitProg(d progDef) {
 			fmt.Fprintf(out, "func (w *%s_%s_handler_wrapper) %s(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n",
 				i(d.name), i(v.name), i(c.name))
 			if !c.arg.isVoid {
-				fmt.Fprintf(out, "var in %s\n", c.arg.t.goType())
+				fmt.Fprintf(out, "var in %s\n", c.arg.progType())
 				fmt.Fprintf(out, "in.Xdr(args)\n")
 				fmt.Fprintf(out, "err = args.Error()\n")
 				fmt.Fprintf(out, "if err != nil { return }\n")
 			}
 
 			if !c.res.isVoid {
-				fmt.Fprintf(out, "var out %s\n", c.res.t.goType())
+				fmt.Fprintf(out, "var out %s\n", c.res.progType())
 			} else {
 				fmt.Fprintf(out, "var out xdr.Void\n")
 			}
-- 
2.43.0


From b07c35b6cbf83d1e7e3308ff68ff5b85d25187f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 13/23] fix: let several versions of a program share procedure
 names

The constants of such procedures were declared twice.
---
 out.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index a21c443..3ded892 100644
--- a/out.go
+++ b/out.go
@@ -437,13 +437,28 @@ type progDef struct {
 	id   string
 }
 
+var progConsts = map[string]string{}
+
+// emitProgConst emits the constant for a program, version or procedure.
+// Versions may share procedure names, if their numbers agree.
+func emitProgConst(name string, id string) {
+	old, ok := progConsts[i(name)]
+	if ok && old != id {
+		panic(fmt.Sprintf("%s is both %s and %s", name, old, id))
+	}
+	if !ok {
+		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(name), id)
+	}
+	progConsts[i(name)] = id
+}
+
 func emitProg(d progDef) {
-	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
+	emitProgConst(d.name, d.id)
 	for _, v := range d.vers {
-		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
+		emitProgConst(v.name, v.id)
 
 		for _, c := range v.calls {
-			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
+			emitProgConst(c.name, c.id)
 		}
 
 		fmt.Fprintf(out, "type %s_%s_handler interface {\n", i(d.name), i(v.name))
-- 
2.43.0


From 99153d0b9ab109a91d9905312775b8e5c5a9d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 14/23] fix: compare procedure numbers by value, not spelling

---
 out.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index 3ded892..a643d15 100644
--- a/out.go
+++ b/out.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -437,19 +438,24 @@ type progDef struct {
 	id   string
 }
 
-var progConsts = map[string]string{}
+var progConsts = map[string]uint64{}
 
 // emitProgConst emits the constant for a program, version or procedure.
 // Versions may share procedure names, if their numbers agree.
 func emitProgConst(name string, id string) {
+	val, err := strconv.ParseUint(id, 0, 32)
+	if err != nil {
+		panic(err)
+	}
+
 	old, ok := progConsts[i(name)]
-	if ok && old != id {
-		panic(fmt.Sprintf("%s is both %s and %s", name, old, id))
+	if ok && old != val {
+		panic(fmt.Sprintf("%s is both %d and %d", name, old, val))
 	}
 	if !ok {
 		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(name), id)
 	}
-	progConsts[i(name)] = id
+	progConsts[i(name)] = val
 }
 
 func emitProg(d progDef) {
-- 
2.43.0


From 3de02fac93e04ea6692aa12463a1210b02e4ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 15/23] fix: import the xdr package only where it is used

---
 main.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index c68c4c5..3891c56 100644
--- a/main.go
+++ b/main.go
@@ -55,9 +55,6 @@ func main() {
 	var outBuf, toutBuf bytes.Buffer
 	out = &outBuf
 
-	fmt.Fprintf(out, "package %s\n", *outputPackage)
-	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
-
 	if *typesFile != "" {
 		tout = &toutBuf
 
@@ -68,7 +65,13 @@ func main() {
 
 	xdrParse(&l)
 
-	files := []*outFile{{name: *outputFile, buf: refmt(outBuf.Bytes())}}
+	header := fmt.Sprintf("package %s\n", *outputPackage)
+	if bytes.Contains(outBuf.Bytes(), []byte("xdr.")) {
+		// Importing a package without using it is an error.
+		header += "import \"github.com/zeldovich/go-rpcgen/xdr\"\n"
+	}
+
+	files := []*outFile{{name: *outputFile, buf: refmt(append([]byte(header), outBuf.Bytes()...))}}
 	if *typesFile != "" {
 		files = append(files, &outFile{name: *typesFile, buf: refmt(toutBuf.Bytes())})
 	}
-- 
2.43.0


From b993eaaa24841cd0f7dcc918e12f8f906d5525c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 16/23] fix: do not replace an output whose type is unknown

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 3891c56..a3dd7f4 100644
--- a/main.go
+++ b/main.go
@@ -142,6 +142,9 @@ func (f *outFile) writeTmp() error {
 
 	mode := os.FileMode(0666)
 	fi, err := os.Stat(f.name)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	if err == nil && !fi.Mode().IsRegular() {
 		// Something like /dev/stdout is not replaced.
 		return ioutil.WriteFile(f.name, f.buf, mode)
-- 
2.43.0


From 25f56a8b434343b0737938ba44a4b0ef6c60259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:53 +0000
Subject: [PATCH 17/23] fix: refuse values nested too deeply instead of
 overflowing the stack

---
 out.go         |  6 ++++++
 rfc1057/xdr.go |  6 ++++++
 rfc1813/xdr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 xdr/lib.go     | 20 ++++++++++++++++++++
 4 files changed, 74 insertions(+)

diff --git a/out.go b/out.go
index a643d15..0c93265 100644
--- a/out.go
+++ b/out.go
@@ -111,11 +111,13 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", constVal(t.sz))
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("xs.Enter()\n")
 	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
 	// The peer chose the count, so grow only as elements are decoded.
 	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
+	res += fmt.Sprintf("xs.Leave()\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
 	}
@@ -181,7 +183,9 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("opted := *(%s) != nil\n", valPtr)
 	res += typeBool{}.goXdr("&opted")
 	res += fmt.Sprintf("if opted {\n")
+	res += fmt.Sprintf("xs.Enter()\n")
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("xs.Leave()\n")
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 
@@ -190,7 +194,9 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += typeBool{}.goXdr("&opted")
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("xs.Enter()\n")
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("xs.Leave()\n")
 	res += fmt.Sprintf("} else {\n")
 	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 0ccdd01..2815875 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -89,6 +89,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			if xs.Decoding() {
 				*&((v).Gids) = make([]uint32, 0)
 			}
+			xs.Enter()
 			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
 				if xs.Decoding() {
 					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
@@ -96,6 +97,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
+			xs.Leave()
 		}
 	}
 }
@@ -110,7 +112,9 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		opted := *(&v.P) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -118,7 +122,9 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
+			xs.Enter()
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&v.P) = nil
 		}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 4c9ef86..3cca853 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -941,7 +941,9 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Nextentry)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -949,7 +951,9 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
+			xs.Enter()
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Nextentry)) = nil
 		}
@@ -960,7 +964,9 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Entries)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -968,7 +974,9 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
+			xs.Enter()
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Entries)) = nil
 		}
@@ -1009,7 +1017,9 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Nextentry)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1017,7 +1027,9 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
+			xs.Enter()
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Nextentry)) = nil
 		}
@@ -1028,7 +1040,9 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Entries)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1036,7 +1050,9 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
+			xs.Enter()
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Entries)) = nil
 		}
@@ -1276,6 +1292,7 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		if xs.Decoding() {
 			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
+		xs.Enter()
 		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
 			if xs.Decoding() {
 				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
@@ -1283,6 +1300,7 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
+		xs.Leave()
 	}
 }
 func (v *Mountres3) Xdr(xs *xdr.XdrState) {
@@ -1300,7 +1318,9 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Ml_next)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1308,7 +1328,9 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
+			xs.Enter()
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Ml_next)) = nil
 		}
@@ -1319,7 +1341,9 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		opted := *(&v.P) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Mount3)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1327,7 +1351,9 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&v.P) = new(Mount3)
+			xs.Enter()
 			(*Mount3)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&v.P) = nil
 		}
@@ -1339,7 +1365,9 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Gr_next)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1347,7 +1375,9 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
+			xs.Enter()
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Gr_next)) = nil
 		}
@@ -1359,7 +1389,9 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Ex_groups)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1367,7 +1399,9 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
+			xs.Enter()
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Ex_groups)) = nil
 		}
@@ -1376,7 +1410,9 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		opted := *(&((v).Ex_next)) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1384,7 +1420,9 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
+			xs.Enter()
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&((v).Ex_next)) = nil
 		}
@@ -1395,7 +1433,9 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		opted := *(&v.P) != nil
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
+			xs.Enter()
 			(*Exports3)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		}
 	}
 	if xs.Decoding() {
@@ -1403,7 +1443,9 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		xdr.XdrBool(xs, (*bool)(&opted))
 		if opted {
 			*(&v.P) = new(Exports3)
+			xs.Enter()
 			(*Exports3)(*(&v.P)).Xdr(xs)
+			xs.Leave()
 		} else {
 			*(&v.P) = nil
 		}
diff --git a/xdr/lib.go b/xdr/lib.go
index fea9757..6e6a489 100644
--- a/xdr/lib.go
+++ b/xdr/lib.go
@@ -16,8 +16,15 @@ type XdrState struct {
 
 	// buf has the data to be read (or already written)
 	buf []byte
+
+	// depth is the current nesting of optional data and arrays
+	depth int
 }
 
+// maxDepth limits the nesting of optional data and arrays. Linked lists nest
+// once per element, and the peer decides how often.
+const maxDepth = 1 << 18
+
 func MakeReader(buf []byte) *XdrState {
 	return &XdrState{
 		err:    nil,
@@ -63,6 +70,19 @@ func (xs *XdrState) Decoding() bool {
 	return xs.err == nil && xs.reader == true
 }
 
+// Enter is called before going one level deeper into optional data or an
+// array, and Leave after. Too many levels are an error.
+func (xs *XdrState) Enter() {
+	xs.depth++
+	if xs.depth > maxDepth {
+		xs.SetError("nested too deeply")
+	}
+}
+
+func (xs *XdrState) Leave() {
+	xs.depth--
+}
+
 func (xs *XdrState) SetError(s string) {
 	xs.err = errors.New(s)
 }
-- 
2.43.0


From 8a67966647177e11c5cd2d7593161632f479f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:54 +0000
Subject: [PATCH 18/23] fix: refuse two outputs that are the same file

---
 main.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index a3dd7f4..5019bf5 100644
--- a/main.go
+++ b/main.go
@@ -110,6 +110,19 @@ func writeFiles(files []*outFile) (err error) {
 		}
 	}()
 
+	for i, f := range files {
+		err = f.resolve()
+		if err != nil {
+			return err
+		}
+
+		for _, g := range files[:i] {
+			if f.name == g.name {
+				return fmt.Errorf("output files are the same file, %s", f.name)
+			}
+		}
+	}
+
 	for _, f := range files {
 		err = f.writeTmp()
 		if err != nil {
@@ -133,13 +146,31 @@ func writeFiles(files []*outFile) (err error) {
 	return nil
 }
 
-func (f *outFile) writeTmp() error {
-	// Write through symbolic links, as opening the file would.
+// resolve makes f.name the one name of the file, following symbolic links as
+// opening the file would.
+func (f *outFile) resolve() error {
 	target, err := filepath.EvalSymlinks(f.name)
+	if os.IsNotExist(err) {
+		// A new file, in a directory that may be a link.
+		dir, base := filepath.Split(f.name)
+		if dir == "" {
+			dir = "."
+		}
+		target, err = filepath.EvalSymlinks(dir)
+		target = filepath.Join(target, base)
+	}
 	if err == nil {
-		f.name = target
+		target, err = filepath.Abs(target)
+	}
+	if err != nil {
+		return err
 	}
 
+	f.name = target
+	return nil
+}
+
+func (f *outFile) writeTmp() error {
 	mode := os.FileMode(0666)
 	fi, err := os.Stat(f.name)
 	if err != nil && !os.IsNotExist(err) {
-- 
2.43.0


From 9f2679e4d7e4d560bc6a8293a768e27c4348c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 19/23] fix: refuse calls and results too large for a record

---
 rfc1057/client.go | 4 ++++
 rfc1057/record.go | 3 +++
 rfc1057/server.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index f7f1d76..f0b9a20 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -59,6 +59,10 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf) > maxRecord {
+		return fmt.Errorf("call of %d bytes does not fit in a record", len(wbuf))
+	}
+
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
diff --git a/rfc1057/record.go b/rfc1057/record.go
index 68314b7..455e583 100644
--- a/rfc1057/record.go
+++ b/rfc1057/record.go
@@ -7,6 +7,9 @@ import (
 // readAhead is how much memory is allocated for a record ahead of its bytes.
 const readAhead = 1 << 20
 
+// maxRecord is the length of the largest record: the header has 31 bits.
+const maxRecord = 1<<31 - 1
+
 // bodyStart returns the initial buffer size for reading a body of n bytes.
 func bodyStart(n int) int {
 	if n > readAhead {
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 41fe1e6..f9b63c4 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -190,6 +190,9 @@ reply:
 	if resdata != nil {
 		resdata.Xdr(wr)
 		err = wr.Error()
+		if n := len(wr.WriteBuf()) - len(reserveLen); err == nil && n > maxRecord {
+			err = fmt.Errorf("reply of %d bytes does not fit in a record", n)
+		}
 		if err != nil {
 			// The result cannot be encoded: tell the caller, instead
 			// of leaving it waiting for a reply.
-- 
2.43.0


From f65bf68bb88302a400560630e0a3133661f76e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:20 +0000
Subject: [PATCH 20/23] fix: never write a temporary file over an existing one

It may be somebody else's file, another output, or the read-only remains of
a killed run.
---
 main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 5019bf5..27ce4df 100644
--- a/main.go
+++ b/main.go
@@ -124,7 +124,7 @@ func writeFiles(files []*outFile) (err error) {
 	}
 
 	for _, f := range files {
-		err = f.writeTmp()
+		err = f.writeTmp(files)
 		if err != nil {
 			return err
 		}
@@ -170,7 +170,29 @@ func (f *outFile) resolve() error {
 	return nil
 }
 
-func (f *outFile) writeTmp() error {
+// createTmp creates a file next to f that was not there before, and is not
+// going to be any of files. A killed run may have left some, even read-only.
+func (f *outFile) createTmp(files []*outFile, mode os.FileMode) (*os.File, error) {
+next:
+	for i := 0; ; i++ {
+		tmp := fmt.Sprintf("%s.tmp%d", f.name, i)
+		for _, g := range files {
+			if tmp == g.name {
+				continue next
+			}
+		}
+
+		tmpf, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+		if err == nil {
+			f.tmp = tmp
+		}
+		if !os.IsExist(err) {
+			return tmpf, err
+		}
+	}
+}
+
+func (f *outFile) writeTmp(files []*outFile) error {
 	mode := os.FileMode(0666)
 	fi, err := os.Stat(f.name)
 	if err != nil && !os.IsNotExist(err) {
@@ -181,8 +203,7 @@ func (f *outFile) writeTmp() error {
 		return ioutil.WriteFile(f.name, f.buf, mode)
 	}
 
-	f.tmp = f.name + ".tmp"
-	tmpf, err := os.OpenFile(f.tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	tmpf, err := f.createTmp(files, mode)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8311f656619cc6567ec8d79cca3dc4328ebb20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:37 +0000
Subject: [PATCH 21/23] fix: refuse an output that is the specification

It would be replaced, and the generator could not be run again.
---
 main.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 27ce4df..c580853 100644
--- a/main.go
+++ b/main.go
@@ -76,7 +76,7 @@ func main() {
 		files = append(files, &outFile{name: *typesFile, buf: refmt(toutBuf.Bytes())})
 	}
 
-	err = writeFiles(files)
+	err = writeFiles(*inputFile, files)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%v\n", err)
 		os.Exit(1)
@@ -100,8 +100,9 @@ type outFile struct {
 }
 
 // writeFiles writes all files completely under temporary names and only then
-// puts them in place, so that a failure leaves no partial output behind.
-func writeFiles(files []*outFile) (err error) {
+// puts them in place, so that a failure leaves no partial output behind. It
+// does not replace the input.
+func writeFiles(input string, files []*outFile) (err error) {
 	defer func() {
 		for _, f := range files {
 			if f.tmp != "" {
@@ -110,12 +111,28 @@ func writeFiles(files []*outFile) (err error) {
 		}
 	}()
 
+	in := outFile{name: input}
+	err = in.resolve()
+	if err != nil {
+		return err
+	}
+
 	for i, f := range files {
 		err = f.resolve()
 		if err != nil {
 			return err
 		}
 
+		if f.name == in.name {
+			fi, err := os.Stat(f.name)
+			if err != nil {
+				return err
+			}
+			if fi.Mode().IsRegular() {
+				return fmt.Errorf("output file is the input file, %s", f.name)
+			}
+		}
+
 		for _, g := range files[:i] {
 			if f.name == g.name {
 				return fmt.Errorf("output files are the same file, %s", f.name)
-- 
2.43.0


From 454574980377fa7ca4453052dd1e4cf85539814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:07 +0000
Subject: [PATCH 22/23] fix: write through a link to a file not there yet

---
 main.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index c580853..a0407a6 100644
--- a/main.go
+++ b/main.go
@@ -167,14 +167,37 @@ func writeFiles(input string, files []*outFile) (err error) {
 // opening the file would.
 func (f *outFile) resolve() error {
 	target, err := filepath.EvalSymlinks(f.name)
-	if os.IsNotExist(err) {
+	for name := f.name; os.IsNotExist(err); {
 		// A new file, in a directory that may be a link.
-		dir, base := filepath.Split(f.name)
+		dir, base := filepath.Split(name)
 		if dir == "" {
 			dir = "."
 		}
-		target, err = filepath.EvalSymlinks(dir)
-		target = filepath.Join(target, base)
+		dir, err = filepath.EvalSymlinks(dir)
+		if err != nil {
+			return err
+		}
+		target = filepath.Join(dir, base)
+
+		// Or a link to where there is no file yet.
+		fi, lerr := os.Lstat(target)
+		if os.IsNotExist(lerr) {
+			break
+		}
+		if lerr != nil {
+			return lerr
+		}
+		if fi.Mode()&os.ModeSymlink == 0 {
+			break
+		}
+		name, err = os.Readlink(target)
+		if err != nil {
+			return err
+		}
+		if !filepath.IsAbs(name) {
+			name = dir + string(filepath.Separator) + name
+		}
+		target, err = filepath.EvalSymlinks(name)
 	}
 	if err == nil {
 		target, err = filepath.Abs(target)
-- 
2.43.0


From 0a0fc44dd54786ccc35fb8d6f5fa5a0e37c40609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:31 +0000
Subject: [PATCH 23/23] fix: a line end in a specification is not a semicolon

---
 scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..d1c55de 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,10 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit == "\n" {
+		// Go's scanner makes semicolons at the ends of lines, XDR does not.
+		pos, tok, lit = l.s.Scan()
+	}
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0

