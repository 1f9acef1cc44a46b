//go:build go1.21

// Package oto stands in for the audio device: it records what is written and
// takes as long to accept it as it takes to play.
package oto

import "github.com/LogicalOverflow/music-sync/zzmc"

// Context stands in for oto.Context.
type Context struct{ rate, channels, depth int }

// Player stands in for oto.Player.
type Player struct{ c *Context }

// OnWrite, if set, sees every buffer before time passes.
var OnWrite func(buf []byte)

// Period is the virtual time in ns a frame takes (0: from the sample rate).
var Period int64

// Rate is the sample rate of the last context.
var Rate int

// Err makes NewContext fail.
var Err error

// NewContext stands in for oto.NewContext.
func NewContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int) (*Context, error) {
	if Err != nil {
		return nil, Err
	}
	Rate = sampleRate
	return &Context{sampleRate, channelNum, bitDepthInBytes}, nil
}

// NewPlayer stands in for oto's NewPlayer.
func (c *Context) NewPlayer() *Player { return &Player{c} }

// Close does nothing.
func (c *Context) Close() error { return nil }

// Close does nothing.
func (p *Player) Close() error { return nil }

// Write plays buf.
func (p *Player) Write(buf []byte) (int, error) {
	if OnWrite != nil {
		OnWrite(append([]byte(nil), buf...))
	}
	frames := int64(len(buf) / (p.c.channels * p.c.depth))
	per := Period
	if per == 0 {
		per = 1000000000 / int64(p.c.rate)
	}
	if zzmc.Active() {
		zzmc.SleepNs(frames * per)
	}
	return len(buf), nil
}
