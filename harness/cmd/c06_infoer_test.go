package main

import "time"

func effectiveVolume() float64 { return currentState.Volume }

// startClient refreshes the display.
func startClient() { currentState.Info(int64(time.Second)) }
