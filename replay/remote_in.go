package ogdlrf

import (
	"net"
	"testing"
)

// the server loop on a pipe: every write is delivered as it is
func TestZV_C19pipe(t *testing.T) {
	r := zvRand()
	z := &zvRec{}
	zvServer(t, r, z, func() net.Conn {
		a, b := net.Pipe()
		go process(b, z.handle, 20)
		return a
	}, zvN(300))
}
