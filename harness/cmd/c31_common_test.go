package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C31: start-up options take effect as given, and a failed start is an error.
//
// The program is started as a process of its own: the test binary executes
// itself, sets its arguments and calls main.

// c31Vars is what the options have set.
type c31Vars struct {
	Interval, CycleDelay, StartDelay, Delay, ChunkTime int64
	Cycles, ChunkSize, Break, Rate                     int
	Dir, Key                                           string
	More                                               int
}

// c31More is set by the programs which have something to add.
var c31More = func() int { return 0 }

// c31Prepare is set by the programs whose child has to be prepared.
var c31Prepare = func() {}

type c31Job struct {
	Args []string
	Wait []string // addresses which accept connections once the program is up
}

// TestC31Child is the program, in a process of its own.
func TestC31Child(t *testing.T) {
	js := os.Getenv("C31_JOB")
	if js == "" {
		t.Skip()
	}
	var j c31Job
	if err := json.Unmarshal([]byte(js), &j); err != nil {
		panic(err)
	}
	out, in := os.NewFile(3, "out"), os.NewFile(4, "in")
	c31Prepare()
	go func() { // ends with the parent
		b := make([]byte, 1)
		for {
			if n, err := in.Read(b); n == 0 || err != nil || b[0] == 'e' {
				os.Exit(77)
			}
			for _, a := range j.Wait {
				for {
					c, err := net.DialTimeout("tcp", a, time.Second)
					if err == nil {
						c.Close()
						break
					}
					time.Sleep(time.Millisecond)
				}
			}
			v := c31Vars{int64(schedule.TimeSyncInterval), int64(schedule.TimeSyncCycleDelay), int64(schedule.StreamStartDelay), int64(schedule.StreamDelay), int64(schedule.StreamChunkTime),
				schedule.TimeSyncCycles, schedule.StreamChunkSize, schedule.NanBreakSize, schedule.SampleRate, playback.AudioDir, ssh.HostKeyFile, c31More()}
			s, _ := json.Marshal(v)
			out.Write(append(s, '\n'))
		}
	}()
	os.Args = append([]string{"program"}, j.Args...)
	main()
	os.Exit(78) // returned
}

// c31Proc is a program that runs.
type c31Proc struct {
	cmd    *exec.Cmd
	out    *json.Decoder
	in     *os.File
	outf   *os.File
	mutex  sync.Mutex
	errs   bytes.Buffer
	done   chan struct{}
	vars   chan c31Vars
	rc     int
	killed bool
}

type c31Err struct{ p *c31Proc }

func (w c31Err) Write(b []byte) (int, error) {
	w.p.mutex.Lock()
	defer w.p.mutex.Unlock()
	if w.p.errs.Len() < 1<<16 {
		w.p.errs.Write(b)
	}
	return len(b), nil
}

func (p *c31Proc) stderr() string {
	p.mutex.Lock()
	defer p.mutex.Unlock()
	return p.errs.String()
}

// c31Start starts the program in dir.
func c31Start(dir string, args, wait []string, prepare func(c *exec.Cmd)) *c31Proc {
	js, _ := json.Marshal(c31Job{args, wait})
	p := &c31Proc{done: make(chan struct{}), vars: make(chan c31Vars, 1)}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p.cmd = exec.Command(exe, "-test.run", "^TestC31Child$", "-test.timeout", "0")
	p.cmd.Dir = dir
	for _, x := range os.Environ() {
		if !strings.HasPrefix(x, "MC_") {
			p.cmd.Env = append(p.cmd.Env, x)
		}
	}
	p.cmd.Env = append(p.cmd.Env, "C31_JOB="+string(js))
	r3, w3, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r4, w4, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	p.cmd.ExtraFiles = []*os.File{w3, r4}
	p.cmd.Stderr = c31Err{p}
	if prepare != nil {
		prepare(p.cmd)
	}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	w3.Close()
	r4.Close()
	p.outf, p.in, p.out = r3, w4, json.NewDecoder(r3)
	go func() {
		p.cmd.Wait()
		p.rc = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// c31Limit is how long a program may take to come up or to give up.
const c31Limit = 60 * time.Second

// look waits until the program is up and tells what it has set; it is false
// if the program ended or did not come up.
func (p *c31Proc) look() (v c31Vars, ok bool) {
	if _, err := p.in.Write([]byte("l")); err != nil {
		<-p.done
		return
	}
	got := make(chan bool, 1)
	go func() { got <- p.out.Decode(&v) == nil }()
	select {
	case ok = <-got:
		if !ok {
			<-p.done
		}
	case <-time.After(c31Limit):
		p.killed = true
		p.cmd.Process.Kill()
		<-got
	}
	return
}

// end ends the program.
func (p *c31Proc) end() {
	p.in.Write([]byte("e"))
	select {
	case <-p.done:
	case <-time.After(c31Limit):
		p.cmd.Process.Kill()
		<-p.done
	}
	p.in.Close()
	p.outf.Close()
}

// fails waits until the program has given up with an error.
func (p *c31Proc) fails(e *mc.E, what string) {
	select {
	case <-p.done:
	case <-time.After(c31Limit):
		p.killed = true
		p.cmd.Process.Kill()
		<-p.done
	}
	p.in.Close()
	p.outf.Close()
	text := p.stderr()
	e.Assert(!p.killed, "half", "with %s the program keeps running: %s", what, text)
	e.Assert(!strings.Contains(text, "goroutine "), "crash", "with %s the program crashes: %s", what, text)
	e.Assert(p.rc == 1, "code", "with %s the program ends with code %d: %s", what, p.rc, text)
	e.Assert(text != "", "silent", "with %s the program ends without saying why", what)
}

// c31Key writes a new host key.
func c31Key(file string) *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	b, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	c31File(file, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})))
	return k
}

func c31File(name, text string) {
	if err := os.MkdirAll(filepath.Dir(name), 0700); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(name, []byte(text), 0600); err != nil {
		panic(err)
	}
}

// c31Form writes an option.
func c31Form(name, value string, form int) []string {
	dash := "--"
	if form&1 == 1 {
		dash = "-"
	}
	if form&2 == 2 {
		return []string{dash + name + "=" + value}
	}
	return []string{dash + name, value}
}

// c31Temp is a directory of this process.
func c31Temp() string {
	d, err := ioutil.TempDir("", "c31")
	if err != nil {
		panic(err)
	}
	return d
}

var c31Locked net.Listener

// c31Lock keeps the default addresses for one process, until it ends.
func c31Lock() {
	for {
		l, err := net.Listen("unix", "@music-sync-c31")
		if err == nil {
			c31Locked = l
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// c31Addr is a loopback address of this case.
func c31Addr(e *mc.E, block, i int) string {
	return fmt.Sprintf("127.%d.%d.%d", 16*block+1+e.Shard%16, 1+i/250, 1+i%250)
}
