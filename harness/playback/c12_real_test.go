package playback

import (
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C12 with the real decoder: damaged songs are skipped, whatever the damage.

func realOpen() int {
	n := 0
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && strings.HasPrefix(l, AudioDir+"/") {
			n++
		}
	}
	return n
}

// realPlay plays a damaged song and then a good one.
func realPlay(e *mc.E, data []byte) {
	if err := os.WriteFile(filepath.Join(AudioDir, "damaged.mp3"), data, 0o644); err != nil {
		panic(err)
	}
	pl := NewPlaylist(4096, []string{"damaged.mp3", "good.mp3"}, 0)
	pl.SetPlaying(true)
	var mu sync.Mutex
	started := map[string]bool{}
	pl.SetNewSongHandler(func(_ uint64, name string, _ int64) {
		mu.Lock()
		started[name] = true
		mu.Unlock()
	})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() {
		pl.StreamLoop(ctx)
		close(done)
	}()
	low, high := make([]float64, 4096), make([]float64, 4096)
	ok := false
	e.Timeout(30*time.Second, "reading the stream", func() {
		for i := 0; !ok && i < 40; i++ {
			pl.Fill(low, high)
			mu.Lock()
			ok = started["good.mp3"]
			mu.Unlock()
		}
	})
	e.Assert(ok, "never-played", "the song after a damaged one is not played within 40 blocks")
	cancel()
	e.Timeout(30*time.Second, "stopping", func() {
		stop := make(chan bool)
		go func() {
			<-done
			close(stop)
		}()
		l, h := make([]float64, 64), make([]float64, 64)
		for {
			select {
			case <-stop:
				return
			default:
			}
			if len(pl.low) >= 64 {
				pl.Fill(l, h)
			}
		}
	})
	e.Assert(realOpen() == 0, "files-open", "a song file is open after the streaming loop has ended")
	e.Step(40)
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	AudioDir, _ = os.MkdirTemp("", "songs")
	AudioDir, _ = filepath.EvalSymlinks(AudioDir)
	frame := make([]byte, 417)
	copy(frame, []byte{0xff, 0xfb, 0x90, 0x00})
	good := append(append(append([]byte{}, frame...), frame...), frame...)
	os.WriteFile(filepath.Join(AudioDir, "good.mp3"), good, 0o644)
	bases := [][]byte{}
	for _, s := range []string{damagedSong1, damagedSong2} {
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic(err)
		}
		bases = append(bases, b)
	}
	mc.Main(t, []mc.Scenario{
		{Name: "damaged", Shards: 8, Enum: func(e *mc.E) {
			step := 1
			values := mc.Pick(2, 5)
			e.Rule(fmt.Sprintf("two songs on which the decoder panics, and each with every single byte changed in %d ways, cut at every byte, and followed by a good song: played by the streaming loop with the real decoder", values))
			n := 0
			run := func(desc string, data []byte) {
				n++
				if !e.Mine(n) {
					return
				}
				e.Case(func() string { return desc })
				realPlay(e, data)
				e.DistinctH(mc.Hash(string(data)))
			}
			for bi, b := range bases {
				run(fmt.Sprintf("song %d", bi), b)
				for pos := 0; pos < len(b); pos += step {
					for v := 0; v < values; v++ {
						d := append([]byte{}, b...)
						d[pos] ^= []byte{0x80, 0x01, 0xff, 0x10, 0x08}[v]
						run(fmt.Sprintf("song %d with byte %d changed to %#x", bi, pos, d[pos]), d)
					}
				}
				for n := 0; n < len(b); n += mc.Pick(7, 1) {
					run(fmt.Sprintf("song %d cut at byte %d", bi, n), b[:n])
				}
			}
		}},
	})
}
