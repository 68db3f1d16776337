//go:build guided

// Package cov reads the edge counters and the comparisons of the code under
// test, which is compiled with -d=libfuzzer: the instrumentation of Go's own
// fuzzing, whose hooks are implemented here instead.
package cov

import (
	"math/bits"
	"sync/atomic"
	"unsafe"
)

//go:linkname counters internal/fuzz._counters
//go:linkname ecounters internal/fuzz._ecounters
var counters, ecounters [0]byte

// On says whether the program is instrumented.
const On = true

// Counters are the edge counters.
func Counters() []byte {
	a := unsafe.Pointer(&counters)
	n := uintptr(unsafe.Pointer(&ecounters)) - uintptr(a)
	return unsafe.Slice((*byte)(a), int(n))
}

// Tracing switches the hooks on.
var Tracing bool

var busy uint32

// Ints and Strs are rings of recent comparisons of different operands.
var (
	Ints  [64][2]uint64
	NInts int
	Strs  [32]StrCmp
	NStrs int
)

// StrCmp is a comparison of two strings, cut.
type StrCmp struct {
	A, B   [48]byte
	LA, LB int
}

// profile: bits of (place, distance) seen, and the number of new ones.
var (
	profile [1 << 17]bool
	New     int
)

func point(i uint) {
	i %= 1 << 17
	if !profile[i] {
		profile[i] = true
		New++
	}
}

func ints(a, b uint64, pc uint) {
	if !Tracing || a == b || !atomic.CompareAndSwapUint32(&busy, 0, 1) {
		return
	}
	d := a - b
	if int64(d) < 0 {
		d = -d
	}
	point(pc*2654435761>>7*64 + uint(bits.Len64(d)))
	if d < 1<<21 {
		Ints[NInts%len(Ints)] = [2]uint64{a, b}
		NInts++
	}
	atomic.StoreUint32(&busy, 0)
}

func strs(a, b string, pc uint) {
	if !Tracing || a == b || !atomic.CompareAndSwapUint32(&busy, 0, 1) {
		return
	}
	n := 0
	for n < len(a) && n < len(b) && n < 63 && a[n] == b[n] {
		n++
	}
	point(pc*2654435761>>7*64 + uint(n))
	s := &Strs[NStrs%len(Strs)]
	s.LA, s.LB = copy(s.A[:], a), copy(s.B[:], b)
	NStrs++
	atomic.StoreUint32(&busy, 0)
}

//go:linkname cmp1 runtime.libfuzzerTraceCmp1
//go:linkname cmp2 runtime.libfuzzerTraceCmp2
//go:linkname cmp4 runtime.libfuzzerTraceCmp4
//go:linkname cmp8 runtime.libfuzzerTraceCmp8
//go:linkname constCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname constCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname constCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname constCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname strCmp runtime.libfuzzerHookStrCmp
//go:linkname equalFold runtime.libfuzzerHookEqualFold

func cmp1(a, b uint8, pc uint)       {}
func cmp2(a, b uint16, pc uint)      { ints(uint64(a), uint64(b), pc) }
func cmp4(a, b uint32, pc uint)      { ints(uint64(a), uint64(b), pc) }
func cmp8(a, b uint64, pc uint)      { ints(a, b, pc) }
func constCmp1(a, b uint8, pc uint)  {}
func constCmp2(a, b uint16, pc uint) { ints(uint64(a), uint64(b), pc) }
func constCmp4(a, b uint32, pc uint) { ints(uint64(a), uint64(b), pc) }
func constCmp8(a, b uint64, pc uint) { ints(a, b, pc) }
func strCmp(a, b string, pc uint)    { strs(a, b, pc) }
func equalFold(a, b string, pc uint) { strs(a, b, pc) }
