package comm

import (
	"bytes"
	"net"
	"time"

	"github.com/golang/protobuf/proto"
)

type verifConn struct{ *bytes.Reader }

func (verifConn) Write(b []byte) (int, error)      { return len(b), nil }
func (verifConn) Close() error                     { return nil }
func (verifConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (verifConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (verifConn) SetDeadline(time.Time) error      { return nil }
func (verifConn) SetReadDeadline(time.Time) error  { return nil }
func (verifConn) SetWriteDeadline(time.Time) error { return nil }

// VerifWire sends m over the wire.
func VerifWire(m proto.Message) (proto.Message, error) {
	b, err := toWire(m)
	if err != nil {
		return nil, err
	}
	return readWire(verifConn{bytes.NewReader(b)})
}
