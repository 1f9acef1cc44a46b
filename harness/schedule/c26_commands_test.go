package schedule

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C26: every command does what it says; what is refused changes nothing.

type c26Sender struct{ msgs []proto.Message }

func (s *c26Sender) SendMessage(m proto.Message) error {
	s.msgs = append(s.msgs, m)
	return nil
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	playback.AudioDir, _ = ioutil.TempDir("", "songs")
	for _, f := range []string{"a.mp3", "b.mp3", "note.txt", "dir/x.mp3", "dir/y.mp3", "dir/z.mp3", "dir/w.ogg"} {
		os.MkdirAll(filepath.Dir(filepath.Join(playback.AudioDir, f)), 0755)
		ioutil.WriteFile(filepath.Join(playback.AudioDir, f), nil, 0644)
	}
	mc.Main(t, []mc.Scenario{
		{Name: "commands", Shards: 8, Enum: func(e *mc.E) {
			depth := 3
			e.Rule(fmt.Sprintf("every sequence of %d commands with arguments of a pool of %d - all commands, with valid, boundary, missing and malformed arguments - on servers with 0 to 3, 10 and 11 songs, playing and paused, at every position", depth, len(c26Pool())))
			n := 0
			for _, songs := range []int{0, 1, 2, 3, 10, 11} {
				for _, playing := range []bool{false, true} {
					for pos := 0; pos == 0 || pos < songs && pos < 3; pos++ {
						if songs > 3 && (pos > 0 || playing) {
							continue
						}
						d := depth
						if songs > 3 && mc.Pick(0, 1) == 0 {
							d = 2
						}
						c26Walk(e, &n, songs, playing, pos, d)
					}
				}
			}
		}},
	})
}

func c26Walk(e *mc.E, n *int, songs int, playing bool, pos int, depth int) {
	pool := c26Pool()
	idx := make([]int, depth)
	for {
		if *n++; e.Mine(*n) {
			seq := make([]c26Op, depth)
			for i, k := range idx {
				seq[i] = pool[k]
			}
			e.Case(func() string {
				return fmt.Sprintf("%d songs, at %d, playing: %v, commands %v", songs, pos, playing, seq)
			})
			c26Run(e, songs, playing, pos, seq)
		}
		i := depth - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(pool) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func c26Run(e *mc.E, songs int, playing bool, pos int, seq []c26Op) {
	m := &c26Model{playing: playing, volume: .25}
	for i := 0; i < songs; i++ {
		m.songs = append(m.songs, fmt.Sprintf("s%d.mp3", i))
	}
	snd := &c26Sender{}
	ss := &serverState{sender: snd, playlist: playback.NewPlaylist(0, append([]string{}, m.songs...), 0), volume: .25}
	ss.playlist.SetPlaying(playing)
	ss.playlist.SetPos(pos)
	cmds := map[string]ssh.Command{}
	for _, c := range []ssh.Command{ss.queueCommand(), ss.playlistCommand(), ss.removeCommand(), ss.jumpCommand(), ss.volumeCommand(), ss.pauseCommand(), ss.resumeCommand()} {
		cmds[c.GetName()] = c
	}
	for _, op := range seq {
		before := len(snd.msgs)
		at := ss.playlist.Pos()
		var out string
		var ok bool
		e.Try(func() { out, ok = cmds[op.name].Exec(append([]string{}, op.args...)) })
		e.Step(1)
		w := m.apply(op)
		e.Assert(ok == !w.usage, "usage", "%v: usage shown is %v, expected %v", op, !ok, w.usage)
		c26Output(e.Assert, op, w, m, out, "None")
		got := ss.playlist.Songs()
		e.Assert(strings.Join(got, "\n") == strings.Join(m.songs, "\n"), "playlist", "%v: the playlist is %q, expected %q", op, got, m.songs)
		e.Assert(ss.playlist.Playing() == m.playing, "playing", "%v: playing is %v, expected %v", op, ss.playlist.Playing(), m.playing)
		e.Assert(ss.volume == m.volume, "volume", "%v: the volume is %v, expected %v", op, ss.volume, m.volume)
		switch {
		case w.jump && len(m.songs) > 0:
			to := w.to % len(m.songs)
			if to < 0 {
				to += len(m.songs)
			}
			e.Assert(ss.playlist.Pos() == to, "position", "%v: the position is %d, expected %d", op, ss.playlist.Pos(), to)
		case !w.jump && !w.edit:
			e.Assert(ss.playlist.Pos() == at, "position", "%v: the position is %d, was %d before", op, ss.playlist.Pos(), at)
		}
		sent := snd.msgs[before:]
		if w.volume {
			v, ok := (*comm.SetVolumeRequest)(nil), len(sent) == 1
			if ok {
				v, ok = sent[0].(*comm.SetVolumeRequest)
			}
			e.Assert(ok && v.Volume == m.volume, "sent", "%v: %v is sent, expected the volume %v", op, sent, m.volume)
		} else {
			e.Assert(len(sent) == 0, "sent", "%v: %v is sent", op, sent)
		}
	}
	e.State(fmt.Sprint(m.songs, m.playing, m.volume, ss.playlist.Pos()))
	e.DistinctH(mc.Hash(m.songs, m.playing, m.volume, ss.playlist.Pos()))
}
