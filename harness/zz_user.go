// Code generated by verif/stubgen; DO NOT EDIT.

package harness

import (
	"reflect"

	"github.com/zeldovich/go-rpcgen/xdr"
	p_user "verif/user"
)

var _ xdr.Void
var _ = reflect.ValueOf

func init() {
	g := newGroup("user", spec_user)
	_ = g
	g.addType("ucolor", func() xdr.Xdrable { return new(p_user.Ucolor) })
	g.addType("uoff", func() xdr.Xdrable { return new(p_user.Uoff) })
	g.addType("usize", func() xdr.Xdrable { return new(p_user.Usize) })
	g.addType("uname", func() xdr.Xdrable { return new(p_user.Uname) })
	g.addType("uline", func() xdr.Xdrable { return new(p_user.Uline) })
	g.addType("ublob", func() xdr.Xdrable { return new(p_user.Ublob) })
	g.addType("uempty", func() xdr.Xdrable { return new(p_user.Uempty) })
	g.addType("utag", func() xdr.Xdrable { return new(p_user.Utag) })
	g.addType("unums", func() xdr.Xdrable { return new(p_user.Unums) })
	g.addType("uoffs", func() xdr.Xdrable { return new(p_user.Uoffs) })
	g.addType("utriple", func() xdr.Xdrable { return new(p_user.Utriple) })
	g.addType("unames", func() xdr.Xdrable { return new(p_user.Unames) })
	g.addType("upair", func() xdr.Xdrable { return new(p_user.Upair) })
	g.addType("uflags", func() xdr.Xdrable { return new(p_user.Uflags) })
	g.addType("uscalars", func() xdr.Xdrable { return new(p_user.Uscalars) })
	g.addType("uzero", func() xdr.Xdrable { return new(p_user.Uzero) })
	g.addType("utags", func() xdr.Xdrable { return new(p_user.Utags) })
	g.addType("umaybe", func() xdr.Xdrable { return new(p_user.Umaybe) })
	g.addType("uchoice", func() xdr.Xdrable { return new(p_user.Uchoice) })
	g.addType("usign", func() xdr.Xdrable { return new(p_user.Usign) })
	g.addType("uknown", func() xdr.Xdrable { return new(p_user.Uknown) })
	g.addType("urec", func() xdr.Xdrable { return new(p_user.Urec) })
	g.addConst("UMAX", int64(p_user.UMAX))
	g.addConst("UODD", int64(p_user.UODD))
	g.addConst("URED", int64(p_user.URED))
	g.addConst("UGREEN", int64(p_user.UGREEN))
	g.addConst("UBLUE", int64(p_user.UBLUE))
	g.addConst("UPROG", int64(p_user.UPROG))
	g.addConst("UVERS", int64(p_user.UVERS))
	g.addConst("UNULL", int64(p_user.UNULL))
	g.addConst("USWAP", int64(p_user.USWAP))
	g.addConst("UTAGS", int64(p_user.UTAGS))
	g.addConst("UCHOICE", int64(p_user.UCHOICE))
	g.addConst("UREC", int64(p_user.UREC))
	g.addConst("UOFFS", int64(p_user.UOFFS))
	g.addKind("ucolor", reflect.TypeOf(p_user.Ucolor(0)).Kind(), "int32")
	g.addKind("UMAX", reflect.TypeOf(p_user.UMAX).Kind(), "int")
	g.addKind("UODD", reflect.TypeOf(p_user.UODD).Kind(), "int")
	g.addVers(0, 0, func(h Hook) []xdr.ProcRegistration { return p_user.UPROG_UVERS_regs(h_user_0_0{h}) },
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(p_user.Uscalars) }, func() xdr.Xdrable { return new(p_user.Uscalars) }},
		procTypes{func() xdr.Xdrable { return new(p_user.Utags) }, func() xdr.Xdrable { return new(p_user.Utags) }},
		procTypes{func() xdr.Xdrable { return new(p_user.Usign) }, func() xdr.Xdrable { return new(p_user.Uchoice) }},
		procTypes{func() xdr.Xdrable { return new(p_user.Urec) }, func() xdr.Xdrable { return new(p_user.Urec) }},
		procTypes{func() xdr.Xdrable { return new(p_user.Uknown) }, func() xdr.Xdrable { return new(p_user.Uoffs) }})
}

type h_user_0_0 struct{ h Hook }

func (x h_user_0_0) UNULL() {
	x.h(0, reflect.Value{}, reflect.Value{})
}

func (x h_user_0_0) USWAP(a p_user.Uscalars) (r p_user.Uscalars) {
	x.h(1, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_user_0_0) UTAGS(a p_user.Utags) (r p_user.Utags) {
	x.h(2, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_user_0_0) UCHOICE(a p_user.Usign) (r p_user.Uchoice) {
	x.h(3, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_user_0_0) UREC(a p_user.Urec) (r p_user.Urec) {
	x.h(4, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_user_0_0) UOFFS(a p_user.Uknown) (r p_user.Uoffs) {
	x.h(5, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}
