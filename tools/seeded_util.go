package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"sync"
	"time"
)

func fail(f string, a ...interface{}) {
	fmt.Printf("DEMO FAILED: "+f+"\n", a...)
	os.Exit(1)
}

func words(ws ...uint32) []byte {
	var b []byte
	for _, w := range ws {
		var x [4]byte
		binary.BigEndian.PutUint32(x[:], w)
		b = append(b, x[:]...)
	}
	return b
}

func record(body ...[]byte) []byte {
	var b []byte
	for _, x := range body {
		b = append(b, x...)
	}
	return append(words(1<<31|uint32(len(b))), b...)
}

// callRec is a call record with empty credentials.
func callRec(xid, prog, vers, proc uint32, args ...byte) []byte {
	return record(words(xid, 0, 2, prog, vers, proc, 0, 0, 0, 0), args)
}

// okRec is a successful reply record.
func okRec(xid uint32, res ...byte) []byte {
	return record(words(xid, 1, 0, 0, 0, 0), res)
}

// readRec reads one record or fails after a while.
func readRec(r io.Reader) ([]byte, error) {
	type rv struct {
		b   []byte
		err error
	}
	c := make(chan rv, 1)
	go func() {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			c <- rv{nil, err}
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[:])&0x7fffffff)
		_, err := io.ReadFull(r, b)
		c <- rv{b, err}
	}()
	select {
	case v := <-c:
		return v.b, v.err
	case <-time.After(5 * time.Second):
		return nil, fmt.Errorf("no reply")
	}
}

func u32(b []byte, word int) uint32 { return binary.BigEndian.Uint32(b[4*word:]) }

// script is a transport: reads come from a fixed stream, writes are kept.
type script struct {
	in  io.Reader
	mu  sync.Mutex
	out bytes.Buffer
}

func (s *script) Read(p []byte) (int, error) { return s.in.Read(p) }
func (s *script) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.Write(p)
}
func (s *script) written() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.out.Bytes()...)
}
