package main

import (
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/comm"
)

func init() {
	c31Channel = comm.Channel_META
	c31History = true
	c31More = func() int { return lyricsHistorySize }
	c31WantMore = func(_, history int) int { return history }
	c31Terminal = c31Pty
}

// c31Pty gives the program a terminal.
func c31Pty(c *exec.Cmd) (closer func()) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	n, unlock := 0, 0
	for _, x := range []struct {
		req uintptr
		arg unsafe.Pointer
	}{{syscall.TIOCGPTN, unsafe.Pointer(&n)}, {syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), x.req, uintptr(x.arg)); e != 0 {
			panic(e)
		}
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	size := [4]uint16{30, 100, 0, 0}
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&size)))
	go func() { // the display
		b := make([]byte, 4096)
		for {
			if _, err := m.Read(b); err != nil {
				return
			}
		}
	}()
	c.Stdin, c.Stdout = s, s
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	c.Env = append(c.Env, "TERM=xterm")
	return func() { s.Close(); m.Close() }
}
