package user

import "github.com/zeldovich/go-rpcgen/xdr"

func (v *Ucolor) Xdr(xs *xdr.XdrState) {
	xdr.XdrS32(xs, (*int32)(v))
}
func (v *Uoff) Xdr(xs *xdr.XdrState) {
	xdr.XdrS64(xs, (*int64)(v))
}
func (v *Usize) Xdr(xs *xdr.XdrState) {
	xdr.XdrU64(xs, (*uint64)(v))
}
func (v *Uname) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(UMAX), (*string)(v))
}
func (v *Uline) Xdr(xs *xdr.XdrState) {
	xdr.XdrString(xs, int(-1), (*string)(v))
}
func (v *Ublob) Xdr(xs *xdr.XdrState) {
	xdr.XdrVarArray(xs, int(UODD), (*[]byte)(v))
}
func (v *Uempty) Xdr(xs *xdr.XdrState) {
	xdr.XdrVarArray(xs, int(0), (*[]byte)(v))
}
func (v *Utag) Xdr(xs *xdr.XdrState) {
	xdr.XdrArray(xs, (*v)[:])
}
func (v *Unums) Xdr(xs *xdr.XdrState) {
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*v))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if uint64(__arraysz) > uint64(UMAX) {
			xs.SetError("array too large")
		} else {
			if xs.Decoding() {
				*v = make([]int32, 0)
			}
			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
				if xs.Decoding() {
					*v = append(*v, *new(int32))
				}
				xdr.XdrS32(xs, (*int32)(&((*(v))[i])))

			}
		}
	}
}
func (v *Uoffs) Xdr(xs *xdr.XdrState) {
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*v))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if xs.Decoding() {
			*v = make([]int64, 0)
		}
		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
			if xs.Decoding() {
				*v = append(*v, *new(int64))
			}
			xdr.XdrS64(xs, (*int64)(&((*(v))[i])))

		}
	}
}
func (v *Utriple) Xdr(xs *xdr.XdrState) {
	for i := uint64(0); i < uint64(3); i++ {
		xdr.XdrU32(xs, (*uint32)(&((*(v))[i])))

	}
}
func (v *Unames) Xdr(xs *xdr.XdrState) {
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*v))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if uint64(__arraysz) > uint64(UMAX) {
			xs.SetError("array too large")
		} else {
			if xs.Decoding() {
				*v = make([]Uname, 0)
			}
			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
				if xs.Decoding() {
					*v = append(*v, *new(Uname))
				}
				(*Uname)(&((*(v))[i])).Xdr(xs)

			}
		}
	}
}
func (v *Upair) Xdr(xs *xdr.XdrState) {
	for i := uint64(0); i < uint64(2); i++ {
		(*Uname)(&((*(v))[i])).Xdr(xs)

	}
}
func (v *Uflags) Xdr(xs *xdr.XdrState) {
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*v))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if uint64(__arraysz) > uint64(3) {
			xs.SetError("array too large")
		} else {
			if xs.Decoding() {
				*v = make([]bool, 0)
			}
			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
				if xs.Decoding() {
					*v = append(*v, *new(bool))
				}
				xdr.XdrBool(xs, (*bool)(&((*(v))[i])))

			}
		}
	}
}
func (v *Uscalars) Xdr(xs *xdr.XdrState) {
	xdr.XdrS32(xs, (*int32)(&((v).A)))
	xdr.XdrU32(xs, (*uint32)(&((v).B)))
	xdr.XdrS64(xs, (*int64)(&((v).C)))
	xdr.XdrU64(xs, (*uint64)(&((v).D)))
	xdr.XdrBool(xs, (*bool)(&((v).E)))
	(*Ucolor)(&((v).F)).Xdr(xs)
}
func (v *Uzero) Xdr(xs *xdr.XdrState) {
	(*Uempty)(&((v).A)).Xdr(xs)
	xdr.XdrString(xs, int(0), (*string)(&((v).B)))
	xdr.XdrS32(xs, (*int32)(&((v).C)))
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*&((v).D)))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if uint64(__arraysz) > uint64(0) {
			xs.SetError("array too large")
		} else {
			if xs.Decoding() {
				*&((v).D) = make([]int32, 0)
			}
			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
				if xs.Decoding() {
					*&((v).D) = append(*&((v).D), *new(int32))
				}
				xdr.XdrS32(xs, (*int32)(&((*(&((v).D)))[i])))

			}
		}
	}
}
func (v *Utags) Xdr(xs *xdr.XdrState) {
	(*Utag)(&((v).A)).Xdr(xs)
	xdr.XdrArray(xs, (*&((v).B))[:])
	xdr.XdrArray(xs, (*&((v).C))[:])
	xdr.XdrArray(xs, (*&((v).D))[:])
	(*Ublob)(&((v).E)).Xdr(xs)
	xdr.XdrString(xs, int(-1), (*string)(&((v).F)))
}
func (v *Umaybe) Xdr(xs *xdr.XdrState) {
	if xs.Encoding() {
		opted := *(&((v).A)) != nil
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			(*Uscalars)(*(&((v).A))).Xdr(xs)
		}
	}
	if xs.Decoding() {
		var opted bool
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			*(&((v).A)) = new(Uscalars)
			(*Uscalars)(*(&((v).A))).Xdr(xs)
		} else {
			*(&((v).A)) = nil
		}
	}
	if xs.Encoding() {
		opted := *(&((v).B)) != nil
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			(*Uline)(*(&((v).B))).Xdr(xs)
		}
	}
	if xs.Decoding() {
		var opted bool
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			*(&((v).B)) = new(Uline)
			(*Uline)(*(&((v).B))).Xdr(xs)
		} else {
			*(&((v).B)) = nil
		}
	}
	if xs.Encoding() {
		opted := *(&((v).C)) != nil
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			xdr.XdrBool(xs, (*bool)(*(&((v).C))))
		}
	}
	if xs.Decoding() {
		var opted bool
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			*(&((v).C)) = new(bool)
			xdr.XdrBool(xs, (*bool)(*(&((v).C))))
		} else {
			*(&((v).C)) = nil
		}
	}
	if xs.Encoding() {
		opted := *(&((v).D)) != nil
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			xdr.XdrS64(xs, (*int64)(*(&((v).D))))
		}
	}
	if xs.Decoding() {
		var opted bool
		xdr.XdrBool(xs, (*bool)(&opted))
		if opted {
			*(&((v).D)) = new(int64)
			xdr.XdrS64(xs, (*int64)(*(&((v).D))))
		} else {
			*(&((v).D)) = nil
		}
	}
}
func (v *Uchoice) Xdr(xs *xdr.XdrState) {
	(*Ucolor)(&((v).C)).Xdr(xs)
	switch (v).C {
	case URED:
		(*Uscalars)(&((v).Red)).Xdr(xs)
	case UGREEN:
		(*Unames)(&((v).Green)).Xdr(xs)
	case UBLUE:
	}
}
func (v *Usign) Xdr(xs *xdr.XdrState) {
	xdr.XdrS32(xs, (*int32)(&((v).N)))
	switch (v).N {
	case 7:
		(*Uoff)(&((v).Neg)).Xdr(xs)
	case 0:
		(*Utags)(&((v).Zero)).Xdr(xs)
	default:
		(*Uline)(&((v).Other)).Xdr(xs)
	}
}
func (v *Uknown) Xdr(xs *xdr.XdrState) {
	xdr.XdrBool(xs, (*bool)(&((v).Ok)))
	switch (v).Ok {
	case true:
		(*Umaybe)(&((v).Val)).Xdr(xs)
	case false:
		xdr.XdrS32(xs, (*int32)(&((v).Err)))
	}
}
func (v *Urec) Xdr(xs *xdr.XdrState) {
	(*Uscalars)(&((v).S)).Xdr(xs)
	(*Unums)(&((v).N)).Xdr(xs)
	(*Uoffs)(&((v).O)).Xdr(xs)
	(*Utriple)(&((v).T)).Xdr(xs)
	(*Unames)(&((v).Ns)).Xdr(xs)
	(*Upair)(&((v).P)).Xdr(xs)
	(*Uflags)(&((v).Fl)).Xdr(xs)
	{
		var __arraysz uint32
		xs.EncodingSetSize(&__arraysz, len(*&((v).Ch)))
		xdr.XdrU32(xs, (*uint32)(&__arraysz))

		if uint64(__arraysz) > uint64(2) {
			xs.SetError("array too large")
		} else {
			if xs.Decoding() {
				*&((v).Ch) = make([]Uchoice, 0)
			}
			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
				if xs.Decoding() {
					*&((v).Ch) = append(*&((v).Ch), *new(Uchoice))
				}
				(*Uchoice)(&((*(&((v).Ch)))[i])).Xdr(xs)

			}
		}
	}
}

type UPROG_UVERS_handler interface {
	UNULL()
	USWAP(Uscalars) Uscalars
	UTAGS(Utags) Utags
	UCHOICE(Usign) Uchoice
	UREC(Urec) Urec
	UOFFS(Uknown) Uoffs
}
type UPROG_UVERS_handler_wrapper struct {
	h UPROG_UVERS_handler
}

func (w *UPROG_UVERS_handler_wrapper) UNULL(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var out xdr.Void
	w.h.UNULL()
	return &out, nil
}
func (w *UPROG_UVERS_handler_wrapper) USWAP(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Uscalars
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out Uscalars
	out = w.h.USWAP(in)
	return &out, nil
}
func (w *UPROG_UVERS_handler_wrapper) UTAGS(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Utags
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out Utags
	out = w.h.UTAGS(in)
	return &out, nil
}
func (w *UPROG_UVERS_handler_wrapper) UCHOICE(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Usign
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out Uchoice
	out = w.h.UCHOICE(in)
	return &out, nil
}
func (w *UPROG_UVERS_handler_wrapper) UREC(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Urec
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out Urec
	out = w.h.UREC(in)
	return &out, nil
}
func (w *UPROG_UVERS_handler_wrapper) UOFFS(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Uknown
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out Uoffs
	out = w.h.UOFFS(in)
	return &out, nil
}
func UPROG_UVERS_regs(h UPROG_UVERS_handler) []xdr.ProcRegistration {
	w := &UPROG_UVERS_handler_wrapper{h}
	return []xdr.ProcRegistration{
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    UNULL,
			Handler: w.UNULL,
		},
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    USWAP,
			Handler: w.USWAP,
		},
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    UTAGS,
			Handler: w.UTAGS,
		},
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    UCHOICE,
			Handler: w.UCHOICE,
		},
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    UREC,
			Handler: w.UREC,
		},
		xdr.ProcRegistration{
			Prog:    UPROG,
			Vers:    UVERS,
			Proc:    UOFFS,
			Handler: w.UOFFS,
		},
	}
}
