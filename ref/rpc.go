package ref

import "errors"

// Auth is an opaque_auth.
type Auth struct {
	Flavor uint32
	Body   []byte
}

func PutAuth(b []byte, a Auth) []byte { return PutOpaque(put32(b, a.Flavor), a.Body) }

// Call is a call message without its arguments.
type Call struct {
	Xid, Rpcvers, Prog, Vers, Proc uint32
	Cred, Verf                     Auth
}

func (c Call) Encode() []byte {
	var b []byte
	for _, x := range []uint32{c.Xid, 0, c.Rpcvers, c.Prog, c.Vers, c.Proc} {
		b = put32(b, x)
	}
	return PutAuth(PutAuth(b, c.Cred), c.Verf)
}

// Record prefixes a record mark (last fragment).
func Record(b []byte) []byte { return append(put32(nil, 1<<31|uint32(len(b))), b...) }

var errMsg = errors.New("malformed message")

// DecodeCall splits a call message into header and argument bytes.
func DecodeCall(b []byte) (c Call, args []byte, err error) {
	d := &Decoder{B: b}
	var mt uint32
	for _, p := range []*uint32{&c.Xid, &mt, &c.Rpcvers, &c.Prog, &c.Vers, &c.Proc} {
		if *p, err = d.u32(); err != nil {
			return
		}
	}
	if mt != 0 {
		return c, nil, errMsg
	}
	for _, a := range []*Auth{&c.Cred, &c.Verf} {
		if a.Flavor, err = d.u32(); err != nil {
			return
		}
		if a.Body, err = d.Opaque(400); err != nil {
			return
		}
	}
	return c, d.B, nil
}

// Verdict is the outcome carried by a reply.
type Verdict struct {
	Denied    bool
	Stat      uint32 // accept_stat or reject_stat
	Low, High uint32 // mismatch info
	AuthStat  uint32
}

const (
	Success = iota
	ProgUnavail
	ProgMismatch
	ProcUnavail
	GarbageArgs
	SystemErr
)

// Reply is a reply message.
type Reply struct {
	Xid  uint32
	V    Verdict
	Verf Auth
	Data []byte // results, if accepted and successful
}

func (r Reply) Encode() []byte {
	b := put32(put32(nil, r.Xid), 1)
	if r.V.Denied {
		b = put32(put32(b, 1), r.V.Stat)
		if r.V.Stat == 0 {
			return put32(put32(b, r.V.Low), r.V.High)
		}
		return put32(b, r.V.AuthStat)
	}
	b = PutAuth(put32(b, 0), r.Verf)
	b = put32(b, r.V.Stat)
	switch r.V.Stat {
	case Success:
		b = append(b, r.Data...)
	case ProgMismatch:
		b = put32(put32(b, r.V.Low), r.V.High)
	}
	return b
}

// DecodeReply decodes a whole reply message strictly.
func DecodeReply(b []byte) (r Reply, err error) {
	d := &Decoder{B: b}
	var mt, st uint32
	for _, p := range []*uint32{&r.Xid, &mt, &st} {
		if *p, err = d.u32(); err != nil {
			return
		}
	}
	if mt != 1 || st > 1 {
		return r, errMsg
	}
	if st == 1 {
		r.V.Denied = true
		if r.V.Stat, err = d.u32(); err != nil {
			return
		}
		switch r.V.Stat {
		case 0:
			if r.V.Low, err = d.u32(); err == nil {
				r.V.High, err = d.u32()
			}
		case 1:
			r.V.AuthStat, err = d.u32()
		default:
			err = errMsg
		}
	} else {
		if r.Verf.Flavor, err = d.u32(); err != nil {
			return
		}
		if r.Verf.Body, err = d.Opaque(400); err != nil {
			return
		}
		if r.V.Stat, err = d.u32(); err != nil {
			return
		}
		switch r.V.Stat {
		case Success:
			r.Data = d.B
			return r, nil
		case ProgMismatch:
			if r.V.Low, err = d.u32(); err == nil {
				r.V.High, err = d.u32()
			}
		case ProgUnavail, ProcUnavail, GarbageArgs, SystemErr:
		default:
			err = errMsg
		}
	}
	if err == nil && len(d.B) != 0 {
		err = errMsg
	}
	return
}
