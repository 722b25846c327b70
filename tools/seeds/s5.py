# C19 (remote functions)
HEAD='''package ogdlrf
import ("testing";"net";"io";"encoding/binary";"strings";"time";"github.com/rveen/ogdl")
var _ = strings.Repeat
var _ = time.Second
func msg(b []byte) []byte { r := make([]byte,4); binary.BigEndian.PutUint32(r, uint32(len(b))); return append(r, b...) }
func recv(c net.Conn) []byte {
	h := make([]byte,4)
	if _, err := io.ReadFull(c, h); err != nil { return nil }
	n := binary.BigEndian.Uint32(h)
	if n > 1<<20 { return nil }
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil { return nil }
	return b
}
'''
SEEDS=[
dict(id='c19-length-in-two-bytes',prop='C19',pkg='ogdlrf',needs='a response of 64 KiB or more, or a short response to a request of 64 KiB or more',
 breaks='the server writes only the low two bytes of the length of a response over the length of the request',
 edits=[('ogdlrf/server.go','binary.BigEndian.PutUint32(b4, uint32(len(buf)))','binary.BigEndian.PutUint16(b4[2:], uint16(len(buf)))')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	go process(b, func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { r := ogdl.New(nil); r.Add("short"); return r }, 5)
	a.SetDeadline(time.Now().Add(3*time.Second))
	g := ogdl.New(nil); g.Add(strings.Repeat("x", 70000))
	go a.Write(msg(g.Binary()))
	r := recv(a)
	h := ogdl.FromBinary(r)
	if h == nil || h.Len() != 1 || h.Out[0].ThisString() != "short" { t.Fatal(len(r)) }
}
'''),
dict(id='c19-last-request-cut',prop='C19',pkg='ogdlrf',needs='a connection that ends in the middle of a message, after a complete node',
 breaks='a message that the end of the connection cuts short is handled (two places that look fine alone)',
 edits=[('ogdlrf/server.go','''		if err != nil {
			log.Println("ogdlrf.Serve, error reading message body, ", err)
			break
		}
''','''		if err != nil && err != io.ErrUnexpectedEOF {
			log.Println("ogdlrf.Serve, error reading message body, ", err)
			break
		}
'''),('ogdlrf/server.go','''			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
			break
''','''			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
			buf = buf[:i]
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	defer l.Close()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil { t.Skip(err) }
	defer a.Close()
	b, _ := l.Accept()
	done := make(chan bool); n := 0
	go func() { process(b, func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { n++; return g }, 5); close(done) }()
	g := ogdl.New(nil); g.Add("one"); g.Add("two"); g.Add("three")
	m := msg(g.Binary())
	a.Write(m[:len(m)-4])
	a.(*net.TCPConn).CloseWrite()
	<-done
	if n != 0 { t.Fatal("handled part of a message") }
}
'''),
dict(id='c19-empty-request-unanswered',prop='C19',pkg='ogdlrf',needs='a request without nodes before another one on the same connection',
 breaks='the server skips a request that has no nodes: the next response is taken for its response',
 edits=[('ogdlrf/server.go','''		if g == nil || g.Out == nil {
			log.Println("ogdlrf.Serve, nothing in buf to produce a graph")
			break
		}
''','''		if g == nil || g.Out == nil {
			log.Println("ogdlrf.Serve, nothing in buf to produce a graph")
			binary.BigEndian.PutUint32(b4, 0)
			if _, err = c.Write(b4[:2]); err != nil {
				break
			}
			continue
		}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	go process(b, func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { return g }, 5)
	a.SetDeadline(time.Now().Add(3*time.Second))
	go func() { a.Write(msg([]byte{1,'G',0,0})); g := ogdl.New(nil); g.Add("one"); a.Write(msg(g.Binary())) }()
	if r := recv(a); r != nil && (len(r) == 0 || ogdl.FromBinary(r) == nil) { t.Fatal("wrong response", r) }
	a.SetDeadline(time.Now().Add(time.Second))
	c := make([]byte, 1)
	if _, err := a.Read(c); err == nil || strings.Contains(err.Error(), "timeout") { t.Fatal("not closed") }
}
'''),
dict(id='c19-client-response-limit',prop='C19',pkg='ogdlrf',needs='a response of more than 64 KiB, and another call on the same connection',
 breaks='the client reads at most 64 KiB of a response and leaves the rest in the connection',
 edits=[('ogdlrf/client.go','''	l := binary.BigEndian.Uint32(b4)
''','''	l := binary.BigEndian.Uint32(b4)
	if l > 1<<16 {
		l = 1 << 16
	}
'''),
 ],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	a, b := net.Pipe()
	cl := &Client{Timeout: 3}
	cl.conn = a
	g := ogdl.New(nil); g.Add(strings.Repeat("x", 70000)); g.Add("end")
	go func() { for { m := recv(b); if m == nil { return }; b.Write(msg(m)) } }()
	h, err := cl.callV2(g)
	if err != nil || h.Len() != 2 || h.Out[1].ThisString() != "end" { t.Fatal(err) }
	k := ogdl.New(nil); k.Add("next")
	h, err = cl.callV2(k)
	if err != nil || h.Len() != 1 || h.Out[0].ThisString() != "next" { t.Fatal(err) }
}
'''),
]
