package comm

import (
	"bytes"
	"net"

	"github.com/golang/protobuf/proto"
)

// VerifServer serves the connections of l, in a goroutine which start starts.
func VerifServer(l net.Listener, start func(func())) MessageSender {
	mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
	start(func() { serverConnectionAcceptor(mms, l) })
	return mms
}

// VerifEncode is how m is sent.
func VerifEncode(m proto.Message) []byte {
	b, err := toWire(m)
	if err != nil {
		panic(err)
	}
	return b
}

// VerifDecode is what has been sent.
func VerifDecode(b []byte) (ms []proto.Message) {
	r := bytes.NewReader(b)
	for r.Len() > 0 {
		m, err := readWire(verifConn{r})
		if err != nil {
			panic(err)
		}
		ms = append(ms, m)
	}
	return
}
