package ogdl

import (
	"fmt"
	"io"
	"testing"
	"time"
)

// uses the unexported codec of integers
func TestZV_C01varint(t *testing.T) {
	r := zvRand()
	check := func(i int) {
		b := newVarInt(i)
		p := newBytesBinParser(append(append([]byte{}, b...), 7))
		if n := p.varInt(); n != i || p.n != len(b) {
			t.Fatalf("C01: the integer %d is written as % x and read back as %d (%d bytes)", i, b, n, p.n)
		}
	}
	for i := 0; i < 1<<17; i++ {
		check(i)
	}
	for i := 0; i < zvN(200000); i++ {
		check(r.Intn(1 << 28))
		check(1<<21 + r.Intn(1<<16))
	}
	for k := uint(0); k < 28; k++ {
		check(1 << k)
		check(1<<k - 1)
		check(1<<28 - 1<<k)
	}
	fmt.Printf("cases=%d\n", 1<<17)
}

// the count of consumed bytes, through the unexported parser
func TestZV_C02count(t *testing.T) {
	r := zvRand()
	for it := 0; it < zvN(5000); it++ {
		b, _ := zvBinaryStream(r, r.Intn(6))
		if r.Intn(2) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		full := append(append([]byte{}, b...), make([]byte, r.Intn(3))...)
		p := newBytesBinParser(full)
		p.parse()
		rest, _ := io.ReadAll(p.r)
		if p.n != len(full)-len(rest) {
			t.Fatalf("C02: % x: %d bytes taken but %d counted", full, len(full)-len(rest), p.n)
		}
	}
	// skipping over nodes takes what reading them takes, and ends
	for it := 0; it < zvN(2000); it++ {
		b, _ := zvBinaryStream(r, r.Intn(6))
		if r.Intn(2) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		p, q := newBytesBinParser(b), newBytesBinParser(b)
		if p.header() != q.header() {
			t.Fatalf("C02: % x: the header is there or not", b)
		}
		done := make(chan string, 1)
		go func() {
			for i := 0; i < 40; i++ {
				l, _, _ := p.line(true)
				m, _, _ := q.line(false)
				if l != m || p.n != q.n {
					done <- fmt.Sprintf("node %d: level %d, %d bytes taken; skipped: level %d, %d bytes", i, l, p.n, m, q.n)
					return
				}
				if l <= 0 {
					break
				}
			}
			done <- ""
		}()
		select {
		case s := <-done:
			if s != "" {
				t.Fatalf("C02: % x: %s", b, s)
			}
		case <-time.After(10 * time.Second):
			t.Fatalf("C02: % x: skipping over the nodes does not end", b)
		}
	}
	fmt.Printf("cases=%d\n", zvN(5000))
}
