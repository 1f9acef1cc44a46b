package main

import "github.com/LogicalOverflow/music-sync/playback"

func effectiveVolume() float64 { return playback.VerifVolume() }

func startClient() { playback.Init(20) }
