package main

import (
	"fmt"
	"os"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/zzmc/fakeoto"
)

func init() {
	c31Channel = comm.Channel_AUDIO
	c31More = func() int { return oto.Rate } // the audio device's
	c31WantMore = func(rate, _ int) int { return rate }
	c31Prepare = func() {
		oto.OnWrite = func([]byte) { time.Sleep(50 * time.Millisecond) }
		if os.Getenv("C31_BROKEN") != "" {
			oto.Err = fmt.Errorf("there is no audio device")
		}
	}
}
