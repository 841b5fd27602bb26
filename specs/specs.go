// Package specs holds pristine copies of the specifications of the shipped
// protocols, as they are in the RFCs.
package specs

import _ "embed"

//go:embed rfc1057.x
var RFC1057 string

//go:embed rfc1813.x
var RFC1813 string

// A protocol of a user, for package verif/user.
//
//go:embed user.x
var User string
