package ogdlrf

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/rveen/ogdl"
)

func zvRand() *rand.Rand {
	log.SetOutput(io.Discard)
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s)))
}

func zvN(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 8
	}
	return quick
}

func zvHost(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	h := l.Addr().String()
	l.Close()
	return h
}

func zvMsg(b []byte) []byte {
	m := make([]byte, 4, 4+len(b))
	binary.BigEndian.PutUint32(m, uint32(len(b)))
	return append(m, b...)
}

// zvSplit writes b in pieces
func zvSplit(r *rand.Rand, c net.Conn, b []byte, mode int) error {
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
			n = 1
			if len(b) > 200 {
				n = 1 + r.Intn(len(b))
			}
		case 1:
			n = 1 + r.Intn(len(b))
		case 2:
			if n > 5 {
				n = 2 + r.Intn(4)
				if len(b) > 200 {
					n = len(b) - 3
				}
			}
		}
		if _, err := c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && mode != 3 {
			time.Sleep(time.Duration(50+r.Intn(250)) * time.Microsecond)
		}
	}
	return nil
}

type zvRec struct {
	mu   sync.Mutex
	seen []string
}

// the handler keeps what it was given and answers with it and a serial number
func (z *zvRec) handle(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.seen = append(z.seen, string(g.Binary()))
	r := ogdl.New("_")
	r.Add("answer").Add(len(z.seen))
	r.AddNodes(zvAnswer(g))
	return r
}

// some long requests have a short answer, and some short ones a long answer
func zvAnswer(g *ogdl.Graph) *ogdl.Graph {
	b := g.Binary()
	if len(b) > 60000 && len(b)%2 == 0 {
		r := ogdl.New("_")
		r.Add("short")
		return r
	}
	if bytes.Contains(b, []byte("p1")) && len(b)%3 == 0 {
		r := g.Clone()
		r.Add(string(bytes.Repeat([]byte{'z'}, 66000+len(b))))
		return r
	}
	return g
}

func (z *zvRec) take() []string {
	z.mu.Lock()
	defer z.mu.Unlock()
	s := z.seen
	z.seen = nil
	return s
}

func zvRequest(r *rand.Rand, k int) *ogdl.Graph {
	g := ogdl.New("_")
	n := g.Add(fmt.Sprint("req", k))
	for i := r.Intn(4); i > 0; i-- {
		n.Add(fmt.Sprint("p", i)).Add(r.Intn(1000))
	}
	if r.Intn(6) == 0 {
		n.Add(string(bytes.Repeat([]byte{'x'}, r.Intn(9000))))
	} else if r.Intn(14) == 0 {
		n.Add(string(bytes.Repeat([]byte{'y'}, 65400+r.Intn(70000))))
	}
	return g
}

func TestZV_C19server(t *testing.T) {
	r := zvRand()
	host := zvHost(t)
	z := &zvRec{}
	go Serve(host, z.handle, 20)
	var c net.Conn
	var err error
	for k := 0; k < 100; k++ {
		c, err = net.Dial("tcp", host)
		if err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		t.Skip(err)
	}
	c.Close()
	zvServer(t, r, z, func() net.Conn {
		c, err := net.Dial("tcp", host)
		if err != nil {
			t.Fatal(err)
		}
		return c
	}, zvN(60))
}

func zvServer(t *testing.T, r *rand.Rand, z *zvRec, dial func() net.Conn, n int) {
	cases := 0
	for it := 0; it < n; it++ {
		z.take()
		c := dial()
		c.SetDeadline(time.Now().Add(8 * time.Second))
		mode := r.Intn(4)
		var all []byte
		var want []string
		k := 1 + r.Intn(4)
		for i := 0; i < k; i++ {
			b := zvRequest(r, i).Binary()
			want = append(want, string(b))
			all = append(all, zvMsg(b)...)
		}
		// how the conversation ends
		end := r.Intn(5)
		tail := []byte(nil)
		what := "ends between messages"
		switch end {
		case 1:
			tail, what = zvMsg(zvRequest(r, 9).Binary()), "is cut within a message"
			tail = tail[:1+r.Intn(len(tail)-1)]
		case 2:
			tail, what = zvMsg([]byte("\x01H\x00garbage")), "has a malformed message"
		case 3:
			tail, what = []byte{0, 0, 0, 0}, "has an empty message"
		case 4:
			tail, what = []byte{0, 0}, "is cut within a length"
		}
		desc := fmt.Sprintf("%d requests (% x) split in mode %d; the stream %s (% x)", k, zvCut(all), mode, what, zvCut(tail))
		done := make(chan bool, 1)
		go func() {
			rr := rand.New(rand.NewSource(int64(it)))
			zvSplit(rr, c, append(append([]byte{}, all...), tail...), mode)
			if end == 0 || end == 1 || end == 4 {
				if h, ok := c.(interface{ CloseWrite() error }); ok {
					h.CloseWrite()
				}
			}
			done <- true
		}()
		for i := 0; i < k; i++ {
			cases++
			b4 := make([]byte, 4)
			if _, err := io.ReadFull(c, b4); err != nil {
				t.Fatalf("C19: %s: no response to request %d: %v", desc, i, err)
			}
			l := int(binary.BigEndian.Uint32(b4))
			if l > 1<<20 {
				t.Fatalf("C19: %s: response %d announces %d bytes", desc, i, l)
			}
			b := make([]byte, l)
			if _, err := io.ReadFull(c, b); err != nil {
				t.Fatalf("C19: %s: response %d: %v", desc, i, err)
			}
			g := ogdl.FromBinary(b)
			if g == nil || g.Len() < 2 || g.Out[0].Int64() != int64(i+1) || !bytes.Equal(g.Binary(), b) {
				t.Fatalf("C19: %s: response %d is %q", desc, i, b)
			}
			g.Out = g.Out[1:]
			if !bytes.Equal(g.Binary(), zvAnswer(ogdl.FromBinary([]byte(want[i]))).Binary()) {
				t.Fatalf("C19: %s: response %d does not belong to its request: %q", desc, i, b)
			}
		}
		<-done
		// the connection is closed, without anything more
		if _, ok := c.(*net.TCPConn); ok || end == 2 || end == 3 {
			rest, err := io.ReadAll(c)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				t.Fatalf("C19: %s: the connection is not closed", desc)
			}
			if len(rest) > 0 {
				t.Fatalf("C19: %s: unexpected response % x", desc, rest)
			}
		}
		c.Close()
		got := z.take()
		if len(got) != k {
			t.Fatalf("C19: %s: the handler was invoked %d times, want %d", desc, len(got), k)
		}
		for i := range got {
			if got[i] != want[i] {
				t.Fatalf("C19: %s: the handler was given %q, want %q", desc, got[i], want[i])
			}
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

func zvCut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func TestZV_C19client(t *testing.T) {
	r := zvRand()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	mode := make(chan int, 1)
	go func() {
		rr := rand.New(rand.NewSource(5))
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					b4 := make([]byte, 4)
					if _, err := io.ReadFull(c, b4); err != nil {
						return
					}
					b := make([]byte, binary.BigEndian.Uint32(b4))
					if _, err := io.ReadFull(c, b); err != nil {
						return
					}
					m := <-mode
					out := zvMsg(b)
					if m == 9 { // ends early
						c.Write(out[:rr.Intn(len(out))])
						return
					}
					zvSplit(rr, c, out, m)
				}
			}()
		}
	}()
	cases := 0
	cl := &Client{Host: l.Addr().String(), Timeout: 5}
	for it := 0; it < zvN(80); it++ {
		cases++
		g := zvRequest(r, it)
		m := r.Intn(4)
		desc := fmt.Sprintf("request %d of %d bytes, response split in mode %d", it, len(g.Binary()), m)
		if it%10 == 9 {
			// the connection ends early, and the call is made again
			mode <- 9
			go func() { mode <- m }()
			desc += " after a connection that ended early"
		} else {
			mode <- m
		}
		h, err := cl.Call(g)
		if err != nil {
			t.Fatalf("C19: %s: %v", desc, err)
		}
		if !bytes.Equal(h.Binary(), g.Binary()) {
			t.Fatalf("C19: %s: the response %q is not the one to this request %q", desc, zvCut(h.Binary()), zvCut(g.Binary()))
		}
	}
	cl.Close()
	fmt.Printf("cases=%d\n", cases)
}

// Responses that come after the client has given up on them are not taken for
// the response to a later request.
func TestZV_C19late(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					b4 := make([]byte, 4)
					if _, err := io.ReadFull(c, b4); err != nil {
						return
					}
					b := make([]byte, binary.BigEndian.Uint32(b4))
					if _, err := io.ReadFull(c, b); err != nil {
						return
					}
					if bytes.Contains(b, []byte("slow")) {
						time.Sleep(1400 * time.Millisecond)
					}
					c.Write(zvMsg(b))
				}
			}()
		}
	}()
	cl := &Client{Host: l.Addr().String(), Timeout: 1}
	first := ogdl.New(nil)
	first.Add("slow")
	if _, err := cl.Call(first); err == nil {
		t.Skip("no time out")
	}
	time.Sleep(900 * time.Millisecond)
	for i := 0; i < 3; i++ {
		g := ogdl.New(nil)
		g.Add(fmt.Sprintf("request %d", i))
		h, err := cl.Call(g)
		if err != nil {
			t.Fatalf("C19: request %d after one that timed out: %v", i, err)
		}
		if !bytes.Equal(h.Binary(), g.Binary()) {
			t.Fatalf("C19: request %q after one that timed out got the response %q", zvCut(g.Binary()), zvCut(h.Binary()))
		}
	}
	cl.Close()
	fmt.Printf("cases=4\n")
}
