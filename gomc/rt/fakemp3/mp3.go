//go:build go1.21

// Package mp3 stands in for beep/mp3: songs are small text files
// "song <id> <samples> <k>", everything else is undecodable.  Decoding fails
// at sample k if it is positive; the decoder panics at sample -k if it is
// negative and right at the beginning if the number of samples is.
package mp3

import (
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/faiface/beep"
)

// Sample is sample i of song id.
func Sample(id, i int) [2]float64 {
	return [2]float64{float64(id) + float64(i)/1024, -float64(id) - float64(i)/1024 - 1.0/4096}
}

// What identifies a sample again.
func What(low, high float64) (id, i int, ok bool) {
	id = int(low)
	i = int((low - float64(id)) * 1024)
	return id, i, Sample(id, i) == [2]float64{low, high}
}

type stream struct {
	rc     io.ReadCloser
	id     int
	n      int
	failAt int
	pos    int
	err    error
	closed bool
}

var all []*stream
var raw []io.ReadCloser

// Decoded is the number of successful Decode calls since the last Reset.
var Decoded int

// Reset closes everything that is still open and forgets it.
func Reset() {
	for _, r := range raw {
		r.Close()
	}
	raw = raw[:0]
	all = all[:0]
	Decoded = 0
}

// Open counts the readers passed to Decode that are still open.
func Open() int {
	n := 0
	for _, r := range raw {
		if f, ok := r.(*os.File); ok {
			if _, err := f.Stat(); err == nil {
				n++
			}
		}
	}
	return n
}

// Write writes a song file.
func Write(path string, id, n, failAt int) {
	s := fmt.Sprintf("song %d %d %d", id, n, failAt)
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		panic(err)
	}
}

// Decode stands in for mp3.Decode.
func Decode(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
	raw = append(raw, rc)
	b, err := io.ReadAll(rc)
	if err != nil {
		return nil, beep.Format{}, err
	}
	s := &stream{rc: rc}
	if n, err := fmt.Sscanf(string(b), "song %d %d %d", &s.id, &s.n, &s.failAt); err != nil || n != 3 {
		return nil, beep.Format{}, errors.New("mp3: not a song")
	}
	if s.n < 0 {
		panic(Panic)
	}
	all = append(all, s)
	Decoded++
	return s, beep.Format{SampleRate: 44100, NumChannels: 2, Precision: 2}, nil
}

// Panic is what the decoder panics with, as the real one does.
var Panic = errors.New("runtime error: index out of range [-4]")

// OnStream, if set, is called before samples are read.
var OnStream func()

func (s *stream) Stream(samples [][2]float64) (n int, ok bool) {
	if s.closed {
		panic("streaming from a closed song")
	}
	if OnStream != nil {
		OnStream()
	}
	for n < len(samples) && s.pos < s.n {
		if s.failAt < 0 && s.pos == -s.failAt {
			panic(Panic)
		}
		if s.failAt > 0 && s.pos == s.failAt {
			s.err = errors.New("mp3: broken frame")
			break
		}
		samples[n] = Sample(s.id, s.pos)
		s.pos++
		n++
	}
	return n, n > 0
}

func (s *stream) Err() error    { return s.err }
func (s *stream) Len() int      { return s.n }
func (s *stream) Position() int { return s.pos }
func (s *stream) Seek(p int) error {
	s.pos = p
	return nil
}
func (s *stream) Close() error {
	s.closed = true
	return s.rc.Close()
}
