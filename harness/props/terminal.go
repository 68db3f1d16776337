package props

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

// terminal makes a pseudo-terminal: what a program gets, and a function that
// closes it and tells what was printed. Without one, it gets nil.
func terminal() (tty *os.File, printed func() string) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil
	}
	var n, unlocked int32
	ioctl := func(req uintptr, p *int32) bool {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(unsafe.Pointer(p)))
		return e == 0
	}
	if !ioctl(syscall.TIOCSPTLCK, &unlocked) || !ioctl(syscall.TIOCGPTN, &n) {
		syscall.Close(fd)
		return nil, nil
	}
	t, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		syscall.Close(fd)
		return nil, nil
	}
	done := make(chan string, 1)
	go func() {
		var out []byte
		var buf [4096]byte
		for {
			n, err := syscall.Read(fd, buf[:])
			if err == syscall.EINTR {
				continue
			}
			if n <= 0 { // also when no one has it open any more
				break
			}
			out = append(out, buf[:n]...)
		}
		syscall.Close(fd)
		done <- string(out)
	}()
	tty = os.NewFile(uintptr(t), "tty")
	return tty, func() string { tty.Close(); return <-done }
}
