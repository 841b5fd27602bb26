// Code generated by verif/stubgen; DO NOT EDIT.

package harness

import (
	"reflect"

	p_rfc1057 "github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

var _ xdr.Void
var _ = reflect.ValueOf

func init() {
	g := newGroup("rfc1057", spec_rfc1057)
	_ = g
	g.addType("auth_flavor", func() xdr.Xdrable { return new(p_rfc1057.Auth_flavor) })
	g.addType("opaque_auth", func() xdr.Xdrable { return new(p_rfc1057.Opaque_auth) })
	g.addType("msg_type", func() xdr.Xdrable { return new(p_rfc1057.Msg_type) })
	g.addType("reply_stat", func() xdr.Xdrable { return new(p_rfc1057.Reply_stat) })
	g.addType("accept_stat", func() xdr.Xdrable { return new(p_rfc1057.Accept_stat) })
	g.addType("reject_stat", func() xdr.Xdrable { return new(p_rfc1057.Reject_stat) })
	g.addType("auth_stat", func() xdr.Xdrable { return new(p_rfc1057.Auth_stat) })
	g.addType("rpc_msg", func() xdr.Xdrable { return new(p_rfc1057.Rpc_msg) })
	g.addType("call_body", func() xdr.Xdrable { return new(p_rfc1057.Call_body) })
	g.addType("reply_body", func() xdr.Xdrable { return new(p_rfc1057.Reply_body) })
	g.addType("accepted_reply", func() xdr.Xdrable { return new(p_rfc1057.Accepted_reply) })
	g.addType("rejected_reply", func() xdr.Xdrable { return new(p_rfc1057.Rejected_reply) })
	g.addType("auth_unix", func() xdr.Xdrable { return new(p_rfc1057.Auth_unix) })
	g.addType("mapping", func() xdr.Xdrable { return new(p_rfc1057.Mapping) })
	g.addType("pmaplist", func() xdr.Xdrable { return new(p_rfc1057.Pmaplist) })
	g.addType("pmaplistelem", func() xdr.Xdrable { return new(p_rfc1057.Pmaplistelem) })
	g.addType("call_args", func() xdr.Xdrable { return new(p_rfc1057.Call_args) })
	g.addType("call_result", func() xdr.Xdrable { return new(p_rfc1057.Call_result) })
	g.addType("uint32", func() xdr.Xdrable { return new(p_rfc1057.Uint32) })
	g.addType("xbool", func() xdr.Xdrable { return new(p_rfc1057.Xbool) })
	g.addConst("PMAP_PORT", int64(p_rfc1057.PMAP_PORT))
	g.addConst("IPPROTO_TCP", int64(p_rfc1057.IPPROTO_TCP))
	g.addConst("IPPROTO_UDP", int64(p_rfc1057.IPPROTO_UDP))
	g.addConst("AUTH_NONE", int64(p_rfc1057.AUTH_NONE))
	g.addConst("AUTH_UNIX", int64(p_rfc1057.AUTH_UNIX))
	g.addConst("AUTH_SHORT", int64(p_rfc1057.AUTH_SHORT))
	g.addConst("AUTH_DES", int64(p_rfc1057.AUTH_DES))
	g.addConst("CALL", int64(p_rfc1057.CALL))
	g.addConst("REPLY", int64(p_rfc1057.REPLY))
	g.addConst("MSG_ACCEPTED", int64(p_rfc1057.MSG_ACCEPTED))
	g.addConst("MSG_DENIED", int64(p_rfc1057.MSG_DENIED))
	g.addConst("SUCCESS", int64(p_rfc1057.SUCCESS))
	g.addConst("PROG_UNAVAIL", int64(p_rfc1057.PROG_UNAVAIL))
	g.addConst("PROG_MISMATCH", int64(p_rfc1057.PROG_MISMATCH))
	g.addConst("PROC_UNAVAIL", int64(p_rfc1057.PROC_UNAVAIL))
	g.addConst("GARBAGE_ARGS", int64(p_rfc1057.GARBAGE_ARGS))
	g.addConst("RPC_MISMATCH", int64(p_rfc1057.RPC_MISMATCH))
	g.addConst("AUTH_ERROR", int64(p_rfc1057.AUTH_ERROR))
	g.addConst("AUTH_BADCRED", int64(p_rfc1057.AUTH_BADCRED))
	g.addConst("AUTH_REJECTEDCRED", int64(p_rfc1057.AUTH_REJECTEDCRED))
	g.addConst("AUTH_BADVERF", int64(p_rfc1057.AUTH_BADVERF))
	g.addConst("AUTH_REJECTEDVERF", int64(p_rfc1057.AUTH_REJECTEDVERF))
	g.addConst("AUTH_TOOWEAK", int64(p_rfc1057.AUTH_TOOWEAK))
	g.addConst("PMAP_PROG", int64(p_rfc1057.PMAP_PROG))
	g.addConst("PMAP_VERS", int64(p_rfc1057.PMAP_VERS))
	g.addConst("PMAPPROC_NULL", int64(p_rfc1057.PMAPPROC_NULL))
	g.addConst("PMAPPROC_SET", int64(p_rfc1057.PMAPPROC_SET))
	g.addConst("PMAPPROC_UNSET", int64(p_rfc1057.PMAPPROC_UNSET))
	g.addConst("PMAPPROC_GETPORT", int64(p_rfc1057.PMAPPROC_GETPORT))
	g.addConst("PMAPPROC_DUMP", int64(p_rfc1057.PMAPPROC_DUMP))
	g.addConst("PMAPPROC_CALLIT", int64(p_rfc1057.PMAPPROC_CALLIT))
	g.addKind("auth_flavor", reflect.TypeOf(p_rfc1057.Auth_flavor(0)).Kind(), "uint32")
	g.addKind("msg_type", reflect.TypeOf(p_rfc1057.Msg_type(0)).Kind(), "uint32")
	g.addKind("reply_stat", reflect.TypeOf(p_rfc1057.Reply_stat(0)).Kind(), "uint32")
	g.addKind("accept_stat", reflect.TypeOf(p_rfc1057.Accept_stat(0)).Kind(), "uint32")
	g.addKind("reject_stat", reflect.TypeOf(p_rfc1057.Reject_stat(0)).Kind(), "uint32")
	g.addKind("auth_stat", reflect.TypeOf(p_rfc1057.Auth_stat(0)).Kind(), "uint32")
	g.addKind("PMAP_PORT", reflect.TypeOf(p_rfc1057.PMAP_PORT).Kind(), "uint32")
	g.addKind("IPPROTO_TCP", reflect.TypeOf(p_rfc1057.IPPROTO_TCP).Kind(), "uint32")
	g.addKind("IPPROTO_UDP", reflect.TypeOf(p_rfc1057.IPPROTO_UDP).Kind(), "uint32")
	g.addVers(0, 0, func(h Hook) []xdr.ProcRegistration { return p_rfc1057.PMAP_PROG_PMAP_VERS_regs(h_rfc1057_0_0{h}) },
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1057.Mapping) }, func() xdr.Xdrable { return new(p_rfc1057.Xbool) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1057.Mapping) }, func() xdr.Xdrable { return new(p_rfc1057.Xbool) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1057.Mapping) }, func() xdr.Xdrable { return new(p_rfc1057.Uint32) }},
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(p_rfc1057.Pmaplist) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1057.Call_args) }, func() xdr.Xdrable { return new(p_rfc1057.Call_result) }})
}

type h_rfc1057_0_0 struct{ h Hook }

func (x h_rfc1057_0_0) PMAPPROC_NULL() {
	x.h(0, reflect.Value{}, reflect.Value{})
}

func (x h_rfc1057_0_0) PMAPPROC_SET(a p_rfc1057.Mapping) (r p_rfc1057.Xbool) {
	x.h(1, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1057_0_0) PMAPPROC_UNSET(a p_rfc1057.Mapping) (r p_rfc1057.Xbool) {
	x.h(2, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1057_0_0) PMAPPROC_GETPORT(a p_rfc1057.Mapping) (r p_rfc1057.Uint32) {
	x.h(3, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1057_0_0) PMAPPROC_DUMP() (r p_rfc1057.Pmaplist) {
	x.h(4, reflect.Value{}, reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1057_0_0) PMAPPROC_CALLIT(a p_rfc1057.Call_args) (r p_rfc1057.Call_result) {
	x.h(5, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}
