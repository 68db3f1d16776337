//go:build clock

package main

import _ "unsafe"

//go:linkname faketime runtime.faketime
var faketime int64

var jumps = [...]int64{0, 1, 61, 3600, 86400, 31 * 86400, 365 * 86400, 3653 * 86400}

// forward sets the clock forward.
func forward(n int) {
	if t := faketime + jumps[n%len(jumps)]*1e9; t < 8e18 {
		faketime = t
	}
}
