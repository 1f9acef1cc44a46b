package playback

// VerifOpen opens a song for playback and returns the number of its samples.
func VerifOpen(song string) (int, error) {
	s, err := getStreamer(song)
	if err != nil {
		return 0, err
	}
	defer s.Close()
	return s.Len(), nil
}
