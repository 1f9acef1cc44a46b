package schedule

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/timing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// A whole server (schedule.Server), with songs that are stand-ins, a caster
// as its network and virtual time.

var songLens = map[string]int{"a3.mp3": 3, "b2.mp3": 2, "c5.mp3": 5, "l99.mp3": 99}
var songIDs = map[string]int{"a3.mp3": 1, "b2.mp3": 2, "c5.mp3": 3, "l99.mp3": 4}

func setupSongs() {
	ssh.VerifCommands()
	if playback.AudioDir != "" {
		return
	}
	d, err := os.MkdirTemp("", "songs")
	if err != nil {
		panic(err)
	}
	playback.AudioDir = d
	for n, l := range songLens {
		fakemp3.Write(filepath.Join(d, n), songIDs[n], l, 0)
	}
}

type srvCfg struct {
	rate, chunk, nan  int
	startDelay, delay time.Duration
}

func (c srvCfg) chunkTime() time.Duration {
	return time.Duration(c.chunk) * time.Second / time.Duration(c.rate)
}

type srv struct {
	*caster
	cfg   srvCfg
	cmds  map[string]ssh.Command
	begin int64 // when it was started
	join  func(comm.Channel, comm.MessageSender)
}

// cmd runs a control command.
func (s *srv) cmd(name string, args ...string) string {
	c, ok := s.cmds[name]
	mc.Assert(ok, "command", "there is no command %s", name)
	r, ok := c.Exec(args)
	mc.Assert(ok, "command", "%s %v is refused", name, args)
	return r
}

// serve starts a server.
func serve(c srvCfg, present func(*caster)) *srv {
	fakemp3.Reset()
	ssh.VerifCommands()
	timing.ResetOffsets(0)
	SampleRate, StreamChunkSize, NanBreakSize = c.rate, c.chunk, c.nan
	StreamChunkTime, StreamStartDelay, StreamDelay = c.chunkTime(), c.startDelay, c.delay
	s := &srv{caster: &caster{}, cfg: c}
	if present != nil {
		present(s.caster)
	}
	s.begin = timing.GetSyncedTime()
	Server(s.caster)
	s.join = comm.NewClientHandler
	s.cmds = ssh.VerifCommands()
	return s
}

func show(low, high []float64) string {
	s := []string{}
	for i := range low {
		if math.IsNaN(low[i]) && math.IsNaN(high[i]) {
			s = append(s, "-")
			continue
		}
		id, k, ok := fakemp3.What(low[i], high[i])
		if !ok {
			s = append(s, fmt.Sprintf("?%v/%v", low[i], high[i]))
		} else {
			s = append(s, fmt.Sprintf("%c%d", 'a'+id-1, k))
		}
	}
	return strings.Join(s, " ")
}
