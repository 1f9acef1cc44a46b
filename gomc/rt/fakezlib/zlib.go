//go:build go1.21

// Package zlib stands in for compress/zlib in schedule explorations, where
// compressing for real would dominate: it frames the data with a length and a
// checksum.
package zlib

import (
	"bytes"
	"encoding/binary"
	"errors"
	"hash/adler32"
	"io"
	"io/ioutil"
)

const (
	NoCompression      = 0
	BestSpeed          = 1
	BestCompression    = 9
	DefaultCompression = -1
	HuffmanOnly        = -2
)

var (
	ErrChecksum   = errors.New("zlib: invalid checksum")
	ErrDictionary = errors.New("zlib: invalid dictionary")
	ErrHeader     = errors.New("zlib: invalid header")
)

// Writer stands in for zlib.Writer.
type Writer struct {
	w   io.Writer
	buf bytes.Buffer
	end bool
}

// NewWriter stands in for zlib.NewWriter.
func NewWriter(w io.Writer) *Writer { return &Writer{w: w} }

// NewWriterLevel stands in for zlib.NewWriterLevel.
func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	if level < HuffmanOnly || level > BestCompression {
		return nil, errors.New("zlib: invalid compression level")
	}
	return &Writer{w: w}, nil
}

func (z *Writer) Write(p []byte) (int, error) { return z.buf.Write(p) }

// Flush does nothing.
func (z *Writer) Flush() error { return nil }

// Reset starts over.
func (z *Writer) Reset(w io.Writer) { *z = Writer{w: w} }

// Close writes everything.
func (z *Writer) Close() error {
	if z.end {
		return nil
	}
	z.end = true
	b := make([]byte, 12)
	b[0], b[1], b[2], b[3] = 'f', 'k', 'z', 'l'
	binary.BigEndian.PutUint32(b[4:], uint32(z.buf.Len()))
	binary.BigEndian.PutUint32(b[8:], adler32.Checksum(z.buf.Bytes()))
	_, err := z.w.Write(append(b, z.buf.Bytes()...))
	return err
}

type reader struct {
	io.Reader
	bad bool
}

func (r reader) Read(p []byte) (int, error) {
	if r.bad {
		return 0, ErrChecksum
	}
	return r.Reader.Read(p)
}

func (reader) Close() error { return nil }

// NewReader stands in for zlib.NewReader.
func NewReader(r io.Reader) (io.ReadCloser, error) {
	b := make([]byte, 12)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	if string(b[:4]) != "fkzl" {
		return nil, ErrHeader
	}
	d, err := ioutil.ReadAll(io.LimitReader(r, int64(binary.BigEndian.Uint32(b[4:]))))
	if err != nil {
		return nil, err
	}
	return reader{bytes.NewReader(d), adler32.Checksum(d) != binary.BigEndian.Uint32(b[8:]) || len(d) != int(binary.BigEndian.Uint32(b[4:]))}, nil
}
