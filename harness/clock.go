package harness

import (
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// lastBegin is the real time, in ns, at which the current run began.
var lastBegin atomic.Int64

// monoNow reads the real monotonic clock: inside a bubble, package time
// shows the simulated one.
func monoNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Sec*1e9 + ts.Nsec
}

func realNow(start time.Time, mono int64) int64 { return start.UnixNano() + monoNow() - mono }

// seedOf gives run i of a check its seed.
func seedOf(base uint64, i int) uint64 {
	z := base*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95 + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
