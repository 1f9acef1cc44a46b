package comm

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C03: whatever the server sends, a client does not crash, but ends as it does if the connection is lost.

// TestC03Child is a client, in a process of its own.
func TestC03Child(t *testing.T) {
	addr := os.Getenv("C03_SERVER")
	if addr == "" {
		t.Skip()
	}
	if _, err := ConnectToServer(addr, TypedPackageHandler{BaseTypedPackageHandler{}}); err != nil {
		os.Exit(70)
	}
	fmt.Fprintln(os.Stderr, "c03 connected")
	time.Sleep(time.Hour)
}

// c03Client has a client receive b and tells how it ends.
func c03Client(e *mc.E, what string, b []byte) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, "-test.run", "^TestC03Child$", "-test.timeout", "0")
	for _, x := range os.Environ() {
		if !strings.HasPrefix(x, "MC_") {
			c.Env = append(c.Env, x)
		}
	}
	c.Env = append(c.Env, "C03_SERVER="+l.Addr().String())
	errs := &bytes.Buffer{}
	c.Stderr = errs
	if err := c.Start(); err != nil {
		panic(err)
	}
	l.(*net.TCPListener).SetDeadline(time.Now().Add(60 * time.Second))
	conn, err := l.Accept()
	if err != nil {
		c.Process.Kill()
		c.Wait()
		e.Fail("connect", "the client does not connect: %s", errs.String())
		return
	}
	defer conn.Close()
	go func() {
		conn.Write(b)
		conn.(*net.TCPConn).CloseWrite()
	}()
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
		e.Fail("hangs", "after %s the client does not notice that its connection has ended", what)
		return
	}
	rc := c.ProcessState.ExitCode()
	e.Assert(rc == 1 && !strings.Contains(errs.String(), "goroutine "), "crash", "after %s the client ends with %d: %s", what, rc, errs.String())
	e.Step(1)
}

func c03Clients(e *mc.E) {
	e.Rule("a client process whose server sends every kind of message cut at a few bytes, damaged at every byte of the frame's head and envelope, or of another form, and then closes; distinct: streams")
	idx := 0
	do := func(what string, b []byte) {
		idx++
		if !e.Mine(idx) {
			return
		}
		e.Case(func() string { return fmt.Sprintf("%s: %.200q", what, b) })
		e.DistinctH(mc.Hash(b))
		c03Client(e, what, b)
	}
	do("nothing", nil)
	for _, m := range kinds() {
		w := c03Frame(m)
		do("a message", join(w, w))
		for _, at := range []int{3, 8, 12, len(w) - 1} {
			do("a message cut", w[:at])
		}
		for i := 0; i < 12; i++ {
			b := append([]byte{}, w...)
			b[i] ^= 0x81
			do("a damaged message", join(w, b, w))
		}
	}
	for _, n := range []uint64{0, 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		do("an absurd length", c03Prefix(n, bytes.Repeat([]byte{10}, 20)))
	}
	for _, typ := range []string{"", "comm.Nothing", "comm.Channel", "comm.Envelope", "google.protobuf.FileDescriptorProto"} {
		do("an unknown kind", c03Raw(typ, c03Zip(nil)))
	}
}
