// Command probe describes texts with the library, in a process of its own. It
// reads modes and texts from descriptor 3 and writes the descriptions, and what
// it leaves behind, to descriptor 4.
package main

import (
	"bufio"
	"encoding/binary"
	"io"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/obs"
)

func environ() string {
	e := os.Environ()
	sort.Strings(e)
	d, _ := os.Getwd()
	return d + "\n" + strings.Join(e, "\n")
}

// below calls f through n calls.
func below(n int, f func() string) string {
	if n == 0 {
		return f()
	}
	s := below(n-1, f)
	return s
}

func main() {
	from, to := os.NewFile(3, "in"), os.NewFile(4, "out")
	if runtime.GOOS == "js" { // which knows no descriptors but its own
		var err error
		if from, err = os.Open("/dev/fd/3"); err == nil {
			to, err = os.OpenFile("/dev/fd/4", os.O_WRONLY, 0)
		}
		if err != nil {
			os.Exit(9)
		}
	}
	data, err := io.ReadAll(from)
	out := bufio.NewWriter(to)
	if err != nil {
		os.Exit(9)
	}
	put := func(s string) {
		var b [10]byte
		out.Write(b[:binary.PutUvarint(b[:], uint64(len(s)))])
		out.WriteString(s)
	}
	depth := 0
	if len(os.Args) > 0 && os.Args[0] == "deep" {
		depth = 300
	}
	before, gos := environ(), runtime.NumGoroutine()
	var st obs.State
	for len(data) > 0 {
		mode := int(data[0] & 3)
		forward(int(data[0] >> 2))
		n, k := binary.Uvarint(data[1:])
		if k <= 0 || n > uint64(len(data)-1-k) {
			os.Exit(9)
		}
		text := string(data[1+k : 1+k+int(n)])
		put(below(depth, func() string { return st.Describe(mode, text) }))
		data = data[1+k+int(n):]
	}
	left := "" // behind
	if environ() != before {
		left += "the environment or the working directory changed; "
	}
	for i := 0; runtime.NumGoroutine() > gos && i < 200; i++ {
		time.Sleep(5 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > gos {
		left += strconv.Itoa(n-gos) + " goroutines stay; "
	}
	put(left)
	put(strings.Join(asked(), "\x01"))
	if out.Flush() != nil {
		os.Exit(9)
	}
}
