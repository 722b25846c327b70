package ogdl

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/iotest"
)

// ---- reference codec, written from the format description ----

func zvTextOf(i interface{}) string {
	switch v := i.(type) {
	case nil:
		return ""
	case []byte:
		return string(v)
	case string:
		return v
	}
	return fmt.Sprint(i)
}

type zvItem struct {
	lev  int
	text string
	bin  bool
}

func zvFlatten(g *Graph, lev int, out []zvItem) []zvItem {
	s := zvTextOf(g.This)
	if s != "" {
		out = append(out, zvItem{lev, s, false})
		lev++
	}
	for _, n := range g.Out {
		out = zvFlatten(n, lev, out)
	}
	return out
}

func zvVarInt(n int) []byte {
	switch {
	case n < 1<<7:
		return []byte{byte(n)}
	case n < 1<<14:
		return []byte{0x80 | byte(n>>8), byte(n)}
	case n < 1<<21:
		return []byte{0xc0 | byte(n>>16), byte(n >> 8), byte(n)}
	}
	return []byte{0xe0 | byte(n>>24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// zvFlat reads back a graph that was built from items: levels and contents in preorder
func zvFlat(g *Graph) (out []zvItem) {
	type fr struct {
		g *Graph
		l int
	}
	st := []fr{}
	for i := len(g.Out) - 1; i >= 0; i-- {
		st = append(st, fr{g.Out[i], 1})
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f.g == nil {
			out = append(out, zvItem{f.l, "<nil subnode>", false})
			continue
		}
		switch v := f.g.This.(type) {
		case string:
			out = append(out, zvItem{f.l, v, false})
		case []byte:
			out = append(out, zvItem{f.l, string(v), true})
		default:
			out = append(out, zvItem{f.l, fmt.Sprintf("<%T>", v), false})
		}
		for i := len(f.g.Out) - 1; i >= 0; i-- {
			st = append(st, fr{f.g.Out[i], f.l + 1})
		}
	}
	return
}

func zvShort(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%.40q... (%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

func zvDiffItems(got, want []zvItem) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("node %d is level %d %s bin=%v, want level %d %s bin=%v", i, got[i].lev, zvShort(got[i].text), got[i].bin, want[i].lev, zvShort(want[i].text), want[i].bin)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d nodes, want %d", len(got), len(want))
	}
	return ""
}

func zvRoundTrip(t *testing.T, what string, g *Graph) {
	t.Helper()
	zvGuard(t, what, func() {
		var want []zvItem
		for _, n := range g.Out {
			want = zvFlatten(n, 1, want)
		}
		snap := zvSnapshot(g)
		b := g.Binary()
		if d := zvSame(snap); d != "" {
			t.Errorf("C01: Binary changed the graph %s: %s", what, d)
		}
		h := FromBinary(b)
		if h == nil {
			t.Errorf("C01: %s: FromBinary gives nil for %s", what, zvShort(string(b)))
			return
		}
		if d := zvDiffItems(zvFlat(h), want); d != "" {
			t.Errorf("C01: %s (binary %s): %s", what, zvShort(string(b)), d)
		}
	})
	if t.Failed() {
		t.FailNow()
	}
}

func zvChain(depth int, name func(i int) interface{}) *Graph {
	g := New("_")
	n := g
	for i := 0; i < depth; i++ {
		c := &Graph{This: name(i)}
		n.Out = []*Graph{c}
		n = c
	}
	return g
}

func TestZV_C01(t *testing.T) {
	r := zvRand()
	cases := 0
	content := func() interface{} {
		switch r.Intn(14) {
		case 0:
			return nil
		case 1:
			return ""
		case 2:
			return []byte{}
		case 3:
			return r.Intn(1000) - 500
		case 4:
			return r.Float64()
		case 5:
			return r.Intn(2) == 0
		case 6:
			b := make([]byte, 1+r.Intn(5))
			for i := range b {
				b[i] = byte(1 + r.Intn(255))
			}
			if b[0] == 1 {
				b[0] = 2
			}
			return b
		case 7:
			b := make([]byte, 1+r.Intn(3))
			for i := range b {
				b[i] = byte(128 + r.Intn(128))
			}
			return string(b)
		}
		return zvWords[r.Intn(len(zvWords))]
	}
	for it := 0; it < zvN(20000); it++ {
		g := zvTree(r, r.Intn(14), content)
		zvRoundTrip(t, zvDump(g), g)
		cases++
	}
	// depths around every change of the integer format, with and without transparent nodes
	for _, d := range []int{1, 2, 126, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 16382, 16383, 16384, 16385, 16640, 20000} {
		zvRoundTrip(t, fmt.Sprintf("chain of depth %d", d), zvChain(d, func(i int) interface{} { return fmt.Sprint("n", i) }))
		g := zvChain(d, func(i int) interface{} { return "x" })
		// siblings at the bottom
		n := g
		for len(n.Out) > 0 {
			n = n.Out[0]
		}
		n.Add("l1")
		n.Add("l2").Add("l3")
		g.Add("last")
		zvRoundTrip(t, fmt.Sprintf("chain of depth %d with siblings", d), g)
		if d < 5000 {
			zvRoundTrip(t, fmt.Sprintf("chain of depth %d with transparent nodes", d), zvChain(d, func(i int) interface{} {
				if i%3 == 1 {
					return nil
				}
				return i
			}))
		}
		cases += 3
	}
	for _, l := range []int{1, 127, 128, 4095, 4096, 4097, 70000, 300000} {
		g := New("_")
		g.Add(strings.Repeat("x", l)).Add(strings.Repeat("é", l/2+1))
		g.Add([]byte(strings.Repeat("\xff", l)))
		zvRoundTrip(t, fmt.Sprintf("contents of length %d", l), g)
		cases++
	}
	// wide
	g := New("_")
	for i := 0; i < 3000; i++ {
		g.Add(i).Add("s")
	}
	zvRoundTrip(t, "3000 subnodes", g)
	// binary nodes: lengths in every format, as written by other encoders
	for _, l := range []int{1, 2, 127, 128, 129, 255, 256, 16383, 16384, 16640, 65536, 1<<21 - 1, 1 << 21, 1<<21 + 65537, 1<<21 + 1<<20 + 3} {
		data := make([]byte, l)
		r.Read(data)
		b := append([]byte{1, 'G', 0, 1, 1}, zvVarInt(l)...)
		b = append(b, data...)
		b = append(b, 1, 'q', 0, 2, 'a', 0, 0) // second chunk of one byte
		h := FromBinary(b)
		want := []zvItem{{1, string(data) + "q", true}, {2, "a", false}}
		if h == nil {
			t.Fatalf("C01: binary node of length %d: no graph", l)
		}
		if d := zvDiffItems(zvFlat(h), want); d != "" {
			t.Fatalf("C01: a binary node of length %d reads back wrong: %s", l, d)
		}
		cases++
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C02 ----

// zvDecode is the reference: the items of a stream, what it takes from it, and whether it is complete
func zvDecode(b []byte) (items []zvItem, used int, header bool) {
	pos := 0
	rd := func() int {
		if pos < len(b) {
			pos++
			return int(b[pos-1])
		}
		return -1
	}
	vi := func() int {
		c := rd()
		n, more := c, 0
		switch {
		case c < 0x80:
		case c < 0xc0:
			n, more = c&0x3f, 1
		case c < 0xe0:
			n, more = c&0x1f, 2
		case c < 0xf0:
			n, more = c&0x0f, 3
		default:
			return -1
		}
		for ; more > 0; more-- {
			d := rd()
			if d < 0 {
				return -1
			}
			n = n<<8 | d
		}
		return n
	}
	if rd() != 1 || rd() != 'G' || rd() != 0 {
		return nil, pos, false
	}
	for {
		lev := vi()
		if lev <= 0 {
			return items, pos, true
		}
		c := rd()
		var buf []byte
		if c == 1 {
		chunks:
			for {
				n := vi()
				if n <= 0 {
					break
				}
				for ; n > 0; n-- {
					d := rd()
					if d < 0 {
						break chunks
					}
					buf = append(buf, byte(d))
				}
			}
			items = append(items, zvItem{lev, string(buf), true})
			continue
		}
		for ; c > 0; c = rd() {
			buf = append(buf, byte(c))
		}
		items = append(items, zvItem{lev, string(buf), false})
	}
}

// zvBinaryStream makes a well formed stream with levels that nest properly
func zvBinaryStream(r *rand.Rand, n int) ([]byte, []zvItem) {
	b := []byte{1, 'G', 0}
	var items []zvItem
	lev := 0
	for i := 0; i < n; i++ {
		lev = 1 + r.Intn(lev+1)
		if r.Intn(40) == 0 && i == 0 {
			lev = 1
		}
		it := zvItem{lev: lev, bin: r.Intn(3) == 0}
		b = append(b, zvVarInt(lev)...)
		if it.bin {
			b = append(b, 1)
			for k := r.Intn(3); k > 0; k-- {
				l := 1 + r.Intn(6)
				if r.Intn(20) == 0 {
					l = 100 + r.Intn(200)
				}
				d := make([]byte, l)
				r.Read(d)
				if r.Intn(3) == 0 {
					d[0] = 0
				}
				b = append(append(b, zvVarInt(l)...), d...)
				it.text += string(d)
			}
			b = append(b, 0)
		} else {
			for k := r.Intn(5); k > 0; k-- {
				c := byte(2 + r.Intn(254))
				it.text += string([]byte{c})
			}
			b = append(append(b, it.text...), 0)
		}
		items = append(items, it)
	}
	return append(b, 0), items
}

type zvErrReader struct {
	b    []byte
	err  error
	n    int
	step int
}

func (e *zvErrReader) Read(p []byte) (int, error) {
	e.n++
	if len(e.b) == 0 {
		return 0, e.err
	}
	m := len(e.b)
	if m > e.step {
		m = e.step
	}
	m = copy(p, e.b[:m])
	e.b = e.b[m:]
	return m, nil
}

func TestZV_C02(t *testing.T) {
	r := zvRand()
	cases := 0
	one := func(b []byte) {
		items, _, _ := zvDecode(b)
		for _, i := range items {
			if i.lev > 1<<16 {
				return // a huge level makes a huge table: memory is assumed not to be exhausted
			}
		}
		cases++
		in := fmt.Sprintf("% x", b)
		zvGuard(t, in, func() {
			h := FromBinary(b)
			_, _, hdr := zvDecode(b)
			if !hdr {
				if h != nil {
					t.Errorf("C02: %s: a graph although there is no header", in)
				}
				return
			}
			if h != nil && zvHoles(h) {
				t.Errorf("C02: %s: the graph has missing subnodes", in)
			}
		})
		zvGuard(t, in, func() {
			e := &zvErrReader{b, errors.New("broken"), 0, 1 + r.Intn(4)}
			h := FromBinaryReader(e)
			if h != nil && zvHoles(h) {
				t.Errorf("C02: %s then error: the graph has missing subnodes", in)
			}
			if e.n > 4*len(b)+400 {
				t.Errorf("C02: %s then error: %d reads", in, e.n)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	for it := 0; it < zvN(6000); it++ {
		b, items := zvBinaryStream(r, r.Intn(8))
		// complete: exact contents, nothing read past the end
		tail := make([]byte, r.Intn(5))
		r.Read(tail)
		full := append(append([]byte{}, b...), tail...)
		in := fmt.Sprintf("% x", full)
		zvGuard(t, in, func() {
			br := bufio.NewReader(iotest.OneByteReader(bytes.NewReader(full)))
			h := FromBinaryBufioReader(br)
			rest, _ := io.ReadAll(br)
			if !bytes.Equal(rest, tail) {
				t.Errorf("C02: %s: leaves % x instead of % x", in, rest, tail)
			}
			if h == nil {
				t.Errorf("C02: %s: no graph", in)
			} else if d := zvDiffItems(zvFlat(h), items); d != "" {
				t.Errorf("C02: %s: %s", in, d)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
		// cut, changed, extended
		one(b[:r.Intn(len(b)+1)])
		c := append([]byte{}, b...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := r.Intn(len(c))
			if r.Intn(4) > 0 && len(c) > 4 {
				i = 3 + r.Intn(len(c)-3)
			}
			switch r.Intn(3) {
			case 0:
				c[i] = byte(r.Intn(256))
			case 1:
				c[i] = []byte{0, 1, 2, 5, 0x7f, 0x80, 0xbf, 0xf0, 0xff}[r.Intn(9)]
			default:
				c = append(c[:i], c[i+1:]...)
				if len(c) == 0 {
					c = []byte{1}
				}
			}
		}
		// three and four byte levels would only make the event table big
		one(c)
	}
	// every short stream after a header over a small alphabet
	alpha := []byte{0, 1, 2, 3, 'a', 0x80, 0xf0, 0xff}
	var rec func(b []byte, n int)
	rec = func(b []byte, n int) {
		one(b)
		if n == 0 {
			return
		}
		for _, c := range alpha {
			rec(append(append([]byte{}, b...), c), n-1)
		}
	}
	rec([]byte{1, 'G', 0}, 4)
	rec(nil, 2)
	fmt.Printf("cases=%d\n", cases)
}

// ---- C03 ----

func TestZV_C03(t *testing.T) {
	r := zvRand()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "zvlog")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	cases := 0
	for it := 0; it < zvN(200); it++ {
		file := filepath.Join(dir, fmt.Sprint("log", it))
		log, err := OpenLog(file)
		if err != nil {
			t.Fatal(err)
		}
		if r.Intn(2) == 0 {
			log.SetSync(false)
		}
		var mem Log
		type obj struct {
			pos int64
			bin []byte
			its []zvItem
		}
		var objs []obj
		var all []byte
		trace := ""
		bad := func(f string, a ...interface{}) {
			t.Fatalf("C03: history %s: %s", trace, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					bad("panic: %v", p)
				}
			}()
			for k := 2 + r.Intn(10); k > 0; k-- {
				cases++
				var o obj
				switch op := r.Intn(7); op {
				case 0, 1:
					n := r.Intn(8)
					if r.Intn(6) == 0 {
						n = 1500
					}
					g := zvTree(r, n, func() interface{} { return zvWords[r.Intn(len(zvWords))] })
					o.bin = g.Binary()
					for _, n := range g.Out {
						o.its = zvFlatten(n, 1, o.its)
					}
					o.pos = log.Add(g)
					if p := mem.Add(g); p != o.pos {
						bad("memory log position %d, want %d", p, len(all))
					}
					trace += "Add "
				case 2:
					o.bin, o.its = zvBinaryStream(r, r.Intn(6))
					o.pos = log.AddBinary(o.bin)
					if p := mem.AddBinary(o.bin); p != int64(len(all)) {
						bad("memory log position %d, want %d", p, len(all))
					}
					trace += "AddBinary "
				case 3, 4:
					if len(objs) == 0 {
						continue
					}
					i := r.Intn(len(objs))
					trace += fmt.Sprintf("Get(#%d) ", i)
					g, next, err := log.Get(objs[i].pos)
					if err != nil || g == nil {
						bad("object %d at %d: %v", i, objs[i].pos, err)
					}
					if d := zvDiffItems(zvFlat(g), objs[i].its); d != "" {
						bad("object %d at %d: %s", i, objs[i].pos, d)
					}
					if next != objs[i].pos+int64(len(objs[i].bin)) {
						bad("object %d at %d is followed by %d, want %d", i, objs[i].pos, next, objs[i].pos+int64(len(objs[i].bin)))
					}
					continue
				case 5:
					if len(objs) == 0 {
						continue
					}
					i := r.Intn(len(objs))
					trace += fmt.Sprintf("GetBinary(#%d) ", i)
					b, next, err := log.GetBinary(objs[i].pos)
					if err != nil || !bytes.Equal(b, objs[i].bin) {
						bad("object %d at %d: %v, bytes %s want %s", i, objs[i].pos, err, zvShort(string(b)), zvShort(string(objs[i].bin)))
					}
					if next != objs[i].pos+int64(len(objs[i].bin)) {
						bad("object %d at %d is followed by %d, want %d", i, objs[i].pos, next, objs[i].pos+int64(len(objs[i].bin)))
					}
					continue
				default:
					trace += "reopen "
					log.Close()
					log, err = OpenLog(file)
					if err != nil {
						bad("%v", err)
					}
					if r.Intn(2) == 0 {
						log.SetSync(false)
					}
					continue
				}
				if o.pos != int64(len(all)) {
					bad("position %d, want %d", o.pos, len(all))
				}
				all = append(all, o.bin...)
				objs = append(objs, o)
				b, err := os.ReadFile(file)
				if err != nil || !bytes.Equal(b, all) {
					bad("the file holds %s, want %s", zvShort(string(b)), zvShort(string(all)))
				}
				if !bytes.Equal(mem.Bytes(), all) {
					bad("the memory log holds %s, want %s", zvShort(string(mem.Bytes())), zvShort(string(all)))
				}
			}
		}()
		// walk from the start
		trace += "walk "
		pos := int64(0)
		for i := range objs {
			g, next, err := log.Get(pos)
			if err != nil || g == nil || zvDiffItems(zvFlat(g), objs[i].its) != "" {
				bad("object %d at %d is not the one added: %v", i, pos, err)
			}
			pos = next
		}
		if pos != int64(len(all)) {
			bad("the walk ends at %d of %d", pos, len(all))
		}
		log.Close()
		os.Remove(file)
	}
	fmt.Printf("cases=%d\n", cases)
}
