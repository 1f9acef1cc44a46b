package schedule

import "bytes"

// mp3File makes a decodable song of silent frames with a tag before it.
func mp3File(tag []byte, frames int) []byte {
	var b bytes.Buffer
	b.Write(tag)
	frame := make([]byte, 417)
	copy(frame, []byte{0xff, 0xfb, 0x90, 0x00})
	for i := 0; i < frames; i++ {
		b.Write(frame)
	}
	return b.Bytes()
}

// id3Frame is an ID3v2.3 text frame; enc is the encoding byte.
func id3Frame(id string, enc byte, text []byte) []byte {
	n := len(text) + 1
	return append([]byte{id[0], id[1], id[2], id[3], byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0, 0, enc}, text...)
}

// id3Tag is an ID3v2.version tag.
func id3Tag(version byte, frames ...[]byte) []byte {
	body := bytes.Join(frames, nil)
	n := len(body)
	return append([]byte{'I', 'D', '3', version, 0, 0, byte(n >> 21 & 127), byte(n >> 14 & 127), byte(n >> 7 & 127), byte(n & 127)}, body...)
}
