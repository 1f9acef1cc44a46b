package playback

// VerifVolume is the volume samples are multiplied with.
func VerifVolume() float64 { return volume }
