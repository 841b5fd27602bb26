package harness

import (
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

	"verif/ref"
	"verif/sim"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// A length is 32 bits on the wire, and an int in memory. Values longer than
// the wire can say are made without their memory: what they would hold is
// one region nobody can read, so whoever copies instead of refusing is found
// at the first byte.

var nowhere []byte

func reserve() bool {
	if nowhere == nil {
		b, err := syscall.Mmap(-1, 0, 1<<32+1<<16, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			return false
		}
		nowhere = b
	}
	return true
}

// stretch makes one string, opaque or array of g, which holds v, longer than
// 32 bits can say.
func stretch(w *sim.World, st string, sp *ref.Spec, t *ref.Type, v *ref.Val, g reflect.Value) bool {
	var at []reflect.Value
	sp.Sized(t, v, g, func(x reflect.Value) {
		if x.CanSet() {
			at = append(at, x)
		}
	})
	if len(at) == 0 || !reserve() {
		return false
	}
	x := at[w.Draw(st, len(at))]
	n := 1<<32 + []int{0, 1, 3, 8, 300}[w.Draw(st, 5)]
	switch x.Kind() {
	case reflect.String:
		x.SetString(unsafe.String(&nowhere[0], n))
	case reflect.Slice:
		x.Set(reflect.SliceAt(x.Type().Elem(), unsafe.Pointer(&nowhere[0]), n).Convert(x.Type()))
	default:
		return false
	}
	w.Count("fault.over_32bit_length")
	return true
}

func (s *codecRun) wide(st string, mt *MsgType, v *ref.Val, x xdr.Xdrable) bool {
	w := s.w
	if !stretch(w, st, mt.G.Spec, mt.T, v, reflect.ValueOf(x).Elem()) {
		return false
	}
	wr := xdr.MakeWriter(nil)
	err := error(nil)
	ok := s.guard(mt, "encoding a value of 4 GB", func() {
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
		x.Xdr(wr)
		_, err = xdr.EncodeBuf(x)
	})
	if ok && (wr.Error() == nil || err == nil) {
		w.Fail("codec.over-encoded", "%s: a value longer than 32 bits can say is encoded (%d bytes): %s", mt.Name, len(wr.WriteBuf()), hx(wr.WriteBuf()))
	}
	return true
}

// deep: linked lists and other types that hold themselves, of many levels.
func (s *codecRun) deep(st string) bool {
	w := s.w
	type cand struct {
		mt        *MsgType
		head      []byte
		pre, post []byte
	}
	var c []cand
	for _, mt := range s.types {
		if head, pre, post, ok := mt.G.Spec.Recursive(mt.T); ok {
			c = append(c, cand{mt, head, pre, post})
		}
	}
	if len(c) == 0 {
		return false
	}
	s.bulked = true
	w.MaxY = 1 << 30
	k := c[w.Draw(st, len(c))]
	n, hostile := 20+w.Draw(st, 3000), false
	switch w.Draw(st, 8) {
	case 4, 5:
		n = 20000 + w.Draw(st, 80000)
	case 6, 7:
		hostile = true
		for _, x := range c { // as many levels as fit
			if len(x.pre)+len(x.post) < len(k.pre)+len(k.post) {
				k = x
			}
		}
	}
	mt, per := k.mt, len(k.pre)+len(k.post)+4
	if n = min(n, 8<<20/per); hostile {
		n = (70 + w.Draw(st, 30)) << 20 / per
	}
	b := make([]byte, 0, len(k.head)+(n+1)*per)
	b = append(b, k.head...)
	for range n {
		b = append(append(b, k.pre...), 0, 0, 0, 1)
	}
	b = append(append(b, k.pre...), 0, 0, 0, 0)
	b = append(b, k.post...)
	for range n {
		b = append(b, k.post...)
	}
	w.Count("codec.deep")
	w.CountN("codec.deep_levels", n)
	w.Logf("%s: deep %s, %d levels, %d bytes", st, mt.Name, n, len(b))
	cut := 0
	if w.Draw(st, 3) == 2 {
		cut = w.Draw1(st, len(b)-1)
	}
	y := mt.New()
	rd := xdr.MakeReader(b[:len(b)-cut])
	if !s.guard(mt, "decoding", func() { y.Xdr(rd) }) {
		return true
	}
	switch {
	case cut > 0:
		if rd.Error() == nil {
			w.Fail("codec.cut-accepted", "%s: a message of %d levels without its last %d bytes decodes", mt.Name, n, cut)
		}
		return true
	case rd.Error() != nil:
		if !hostile {
			w.Fail("codec.refused", "%s: cannot decode a message of %d levels, %d bytes: %v", mt.Name, n, len(b), rd.Error())
		}
		return true
	}
	wr := xdr.MakeWriter(nil)
	if !s.guard(mt, "encoding", func() { y.Xdr(wr) }) {
		return true
	}
	if wr.Error() != nil || string(wr.WriteBuf()) != string(b) {
		w.Fail("codec.wrong-value", "%s: a message of %d levels, %d bytes, is encoded again as %d others (%v)", mt.Name, n, len(b), len(wr.WriteBuf()), wr.Error())
	}
	return true
}
