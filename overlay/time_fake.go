//go:build faketime && !windows

package runtime

import "unsafe"

// Start of simulated time: 2024-03-01T00:00:00Z (TLS test certificates valid).
const simEpoch int64 = 1709251200000000000

var faketime int64 = simEpoch

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return faketime
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	w := faketime + simst.wallOff
	return w / 1e9, int32(w % 1e9), faketime
}

//go:nowritebarrierrec
func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	return write1(fd, p, n)
}
