// Package user is what somebody who uses the library writes, or once had
// generated: types and stubs on top of the exported functions of package xdr.
package user

const UMAX = 7
const UODD = 5

type Ucolor int32

const URED Ucolor = 0
const UGREEN Ucolor = 2
const UBLUE Ucolor = 3

type Uoff int64
type Usize uint64
type Uname string
type Uline string
type Ublob []byte
type Uempty []byte
type Utag [UODD]byte
type Unums []int32
type Uoffs []int64
type Utriple [3]uint32
type Unames []Uname
type Upair [2]Uname
type Uflags []bool
type Uscalars struct {
	A int32
	B uint32
	C int64
	D uint64
	E bool
	F Ucolor
}
type Uzero struct {
	A Uempty
	B string
	C int32
	D []int32
}
type Utags struct {
	A Utag
	B [1]byte
	C [3]byte
	D [4]byte
	E Ublob
	F string
}
type Umaybe struct {
	A *Uscalars
	B *Uline
	C *bool
	D *int64
}
type Uchoice struct {
	C     Ucolor
	Red   Uscalars
	Green Unames
}
type Usign struct {
	N     int32
	Neg   Uoff
	Zero  Utags
	Other Uline
}
type Uknown struct {
	Ok  bool
	Val Umaybe
	Err int32
}
type Urec struct {
	S  Uscalars
	N  Unums
	O  Uoffs
	T  Utriple
	Ns Unames
	P  Upair
	Fl Uflags
	Ch []Uchoice
}

const UPROG uint32 = 0x20000100
const UVERS uint32 = 3
const UNULL uint32 = 0
const USWAP uint32 = 1
const UTAGS uint32 = 2
const UCHOICE uint32 = 3
const UREC uint32 = 5
const UOFFS uint32 = 9
