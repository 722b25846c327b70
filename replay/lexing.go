package ogdl

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

// zvPieces delivers b in pieces of random size, sometimes empty ones, the last one possibly with the error
type zvPieces struct {
	b    []byte
	r    *rand.Rand
	max  int
	err  error
	with bool
	zero int
}

func (p *zvPieces) Read(q []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.err
	}
	if len(q) == 0 {
		return 0, nil
	}
	if p.zero < 20 && p.r.Intn(6) == 0 {
		p.zero++
		return 0, nil
	}
	p.zero = 0
	n := 1 + p.r.Intn(p.max)
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(q, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.with {
		return n, p.err
	}
	return n, nil
}

func zvReader(r *rand.Rand, b []byte) io.Reader {
	err := io.EOF
	if r.Intn(5) == 0 {
		err = errors.New("broken")
	}
	max := []int{1, 2, 7, 100, 1000, 2048, 4095, 4096, 4097, 9000}[r.Intn(10)]
	if max == 1 && len(b) > 20000 {
		max = 3000
	}
	return &zvPieces{append([]byte{}, b...), r, max, err, r.Intn(2) == 0, 0}
}

func zvStream(r *rand.Rand) []byte {
	l := []int{0, 1, 2, 10, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4100, 6143, 6144, 6145, 8192, 8193, 10240, 12289, 20000}[r.Intn(20)]
	if l > 10 && r.Intn(2) == 0 {
		l += r.Intn(7) - 3
	}
	b := make([]byte, 0, l)
	for len(b) < l {
		switch r.Intn(8) {
		case 0:
			b = append(b, "é"...)
		case 1:
			b = append(b, "\U0001F600"...)
		case 2:
			b = append(b, "日"...)
		case 3:
			b = append(b, byte(r.Intn(256)))
		default:
			b = append(b, byte('a'+r.Intn(26)))
		}
	}
	return b[:l]
}

// C04: random reads and pushbacks against the stream itself
func TestZV_C04(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(1500); it++ {
		b := zvStream(r)
		var p *Lexer
		ops := ""
		pos, high := 0, 0
		bad := func(f string, a ...interface{}) {
			if len(ops) > 400 {
				ops = "..." + ops[len(ops)-400:]
			}
			t.Fatalf("C04: stream of %d bytes, at %d, after %s: %s", len(b), pos, ops, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("panic: %v", e)
				}
			}()
			p = NewLexer(zvReader(r, b))
			at := func(i int) int {
				if i < len(b) {
					return int(b[i])
				}
				return -1
			}
			runeAt := func() (rune, int, bool) {
				if pos >= len(b) {
					return 0, 1, false
				}
				e := pos + 4
				if e > len(b) {
					e = len(b)
				}
				c, n := utf8.DecodeRune(b[pos:e])
				return c, n, true
			}
			mode := r.Intn(4)
			n := 50 + r.Intn(100)
			for k := 0; k < n; k++ {
				cases++
				op := r.Intn(8)
				switch op {
				case 0, 1, 2: // a run of bytes
					m := 1
					if mode == 0 || r.Intn(10) == 0 {
						m = 1 + r.Intn(800)
					}
					if r.Intn(10) == 0 {
						// up to where the buffer may be refilled
						m = 2048 - pos%2048
					}
					for ; m > 0; m-- {
						c, err := p.Byte()
						if want := at(pos); want < 0 {
							if err == nil || c != 0 {
								bad("byte %d delivered after the end", c)
							}
						} else if err != nil || int(c) != want {
							bad("byte %d (%v), want %d", c, err, want)
						}
						pos++
					}
					ops += "Byte "
				case 3, 4: // pushbacks, within the window
					if pos > len(b)+1900 {
						continue
					}
					m := 1
					if r.Intn(4) == 0 {
						m = 1 + r.Intn(2048)
					}
					if r.Intn(4) == 0 {
						m = 2048
					}
					// the window is half a buffer
					for ; m > 0 && pos > 0 && pos > high-2048; m-- {
						p.UnreadByte()
						pos--
					}
					ops += "UnreadByte "
				case 5:
					c := p.PeekByte()
					want := at(pos)
					if want < 0 {
						want = 0
					}
					if int(c) != want {
						bad("PeekByte gives %d, want %d", c, want)
					}
					ops += "PeekByte "
				case 6:
					c, size, ok := runeAt()
					d, err := p.Rune()
					if (err == nil) != ok || d != c {
						bad("Rune gives %q (%v), want %q", d, err, c)
					}
					pos += size
					if pos > high {
						high = pos
					}
					ops += "Rune "
					if r.Intn(2) == 0 {
						p.UnreadRune()
						pos -= size
						ops += "UnreadRune "
					}
				case 7:
					c, _, _ := runeAt()
					d, _ := p.PeekRune()
					if d != c {
						bad("PeekRune gives %q, want %q", d, c)
					}
					ops += "PeekRune "
				}
				if pos > high {
					high = pos
				}
			}
			// the rest, and the end that persists
			if pos <= len(b) {
				for ; pos < len(b); pos++ {
					c, err := p.Byte()
					if err != nil || c != b[pos] {
						bad("reading on: byte %d (%v), want %d", c, err, b[pos])
					}
				}
				for k := 0; k < 3; k++ {
					c, err := p.Byte()
					if err == nil || c != 0 {
						bad("no end of stream but %d", c)
					}
				}
				for k := 0; k < 5; k++ {
					p.UnreadByte()
				}
				for i := len(b) - 2; i < len(b); i++ {
					if i < 0 {
						continue
					}
					c, err := p.Byte()
					if err != nil || c != b[i] {
						bad("after pushing the end back: byte %d (%v), want %d", c, err, b[i])
					}
				}
			}
		}()
	}
	// whole parses do not depend on the segmentation
	for it := 0; it < zvN(150); it++ {
		var sb strings.Builder
		ind := 0
		for sb.Len() < []int{10, 200, 4000, 5000, 9000, 30000}[r.Intn(6)] {
			ind = r.Intn(ind + 2)
			if ind > 8 {
				ind = 8
			}
			if sb.Len() == 0 {
				ind = 0
			}
			sb.WriteString(strings.Repeat("  ", ind))
			for k := 1 + r.Intn(3); k > 0; k-- {
				w := zvWords[r.Intn(len(zvWords)-1)]
				if r.Intn(8) == 0 {
					w = "\"" + strings.Repeat("q ", r.Intn(300)) + "\""
				}
				if r.Intn(8) == 0 {
					w = strings.Repeat("w", r.Intn(300))
				}
				sb.WriteString(w + " ")
			}
			sb.WriteString("\n")
		}
		s := sb.String()
		zvGuard(t, zvShort(s), func() {
			a := FromString(s)
			b := FromReader(zvReader(r, []byte(s)))
			if zvDump(a) != zvDump(b) {
				t.Errorf("C04: a text of %d bytes parses differently when it arrives in pieces: %s", len(s), zvShort(s))
			}
			// a text of lines of words has these words, whatever the buffer boundaries
			var words, got []string
			if !strings.Contains(s, "\"") {
				words = strings.Fields(s)
				var rec func(g *Graph)
				rec = func(g *Graph) {
					for _, n := range g.Out {
						got = append(got, n.ThisString())
						rec(n)
					}
				}
				rec(a)
				if strings.Join(words, " ") != strings.Join(got, " ") {
					t.Errorf("C04: a text of %d bytes loses or changes words: %s", len(s), zvShort(s))
				}
			}
		})
		if t.Failed() {
			t.FailNow()
		}
		cases++
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C05 ----

type zvProd struct {
	name  string
	alpha string
	run   func(p *Lexer) (string, bool)
	// want returns what is consumed, what is returned, and whether there is a match
	want func(b []byte) (int, string, bool)
}

func zvClass(ok func(c byte) bool) func(b []byte) (int, string, bool) {
	return func(b []byte) (int, string, bool) {
		i := 0
		for i < len(b) && ok(b[i]) {
			i++
		}
		return i, string(b[:i]), i > 0
	}
}

func zvEnd(c byte) bool { return c < 32 && c != 9 && c != 10 && c != 13 }

func zvProds() []zvProd {
	sp := func(b []byte) (int, string, bool) {
		i, m, n := 0, 0, 0
		for i < len(b) && (b[i] == ' ' || b[i] == '\t') {
			if b[i] == ' ' {
				n++
			} else {
				m++
			}
			i++
		}
		u := 0
		if m == 0 {
			u = ' '
		} else if n == 0 {
			u = '\t'
		}
		return i, fmt.Sprint(i, " ", u), i > 0
	}
	return []zvProd{
		{"String", "ab1,.(\x7fé \t\n\x00\x01\x1f\r", func(p *Lexer) (string, bool) { return p.String() }, zvClass(func(c byte) bool { return c > 32 })},
		{"StringStop", "abc,;é \n\x00", func(p *Lexer) (string, bool) { return p.StringStop([]byte(",;")) }, zvClass(func(c byte) bool { return c > 32 && c != ',' && c != ';' })},
		{"Integer", "0123456789a-+. ", func(p *Lexer) (string, bool) { return p.Integer() }, zvClass(func(c byte) bool { return c >= '0' && c <= '9' })},
		{"Operator", "+-*/%&|!<>=~^aa ", func(p *Lexer) (string, bool) { return p.Operator() }, zvClass(func(c byte) bool { return strings.IndexByte("+-*/%&|!<>=~^", c) >= 0 })},
		{"TemplateText", "ab$\n\r\t\x00\x02 é", func(p *Lexer) (string, bool) { return p.TemplateText() }, zvClass(func(c byte) bool { return c != '$' && !zvEnd(c) })},
		{"Token8", "aé日_1٣€ .-(\n\xff\x00", func(p *Lexer) (string, bool) { return p.Token8() }, func(b []byte) (int, string, bool) {
			i := 0
			for i < len(b) {
				c, n := utf8.DecodeRune(b[i:])
				if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' {
					break
				}
				i += n
			}
			return i, string(b[:i]), i > 0
		}},
		{"WhiteSpace", " \t\n\ra\x00", func(p *Lexer) (string, bool) { return "", p.WhiteSpace() }, func(b []byte) (int, string, bool) {
			i, _, ok := zvClass(func(c byte) bool { return c == ' ' || c == 9 || c == 10 || c == 13 })(b)
			return i, "", ok
		}},
		{"Space", " \ta\n", func(p *Lexer) (string, bool) {
			n, u := p.Space()
			return fmt.Sprint(n, " ", u), n > 0
		}, sp},
		{"Break", "\r\na ", func(p *Lexer) (string, bool) { return "", p.Break() }, func(b []byte) (int, string, bool) {
			switch {
			case len(b) > 1 && b[0] == '\r' && b[1] == '\n':
				return 2, "", true
			case len(b) > 0 && (b[0] == '\r' || b[0] == '\n'):
				return 1, "", true
			}
			return 0, "", false
		}},
		{"Comment", "## \ta\n\r\x01", func(p *Lexer) (string, bool) { return "", p.Comment() }, func(b []byte) (int, string, bool) {
			if len(b) < 2 || b[0] != '#' || (b[1] != ' ' && b[1] != '\t') {
				return 0, "", false
			}
			i := 2
			for i < len(b) && !zvEnd(b[i]) && b[i] != 10 && b[i] != 13 {
				i++
			}
			return i + 1, "", true // up to and including the character that ends the line
		}},
		{"Number", "0123456789.+-a", func(p *Lexer) (string, bool) { return p.Number() }, func(b []byte) (int, string, bool) {
			i := 0
			if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
				i++
			}
			j := i
			pt := false
			for i < len(b) && (b[i] >= '0' && b[i] <= '9' || b[i] == '.' && !pt) {
				pt = pt || b[i] == '.'
				i++
			}
			if i == j {
				return 0, "", false
			}
			s := string(b[j:i])
			if b[0] == '-' {
				s = "-" + s
			}
			return i, s, true
		}},
		{"End", "\x00\x01\x1f a\n\t\r", func(p *Lexer) (string, bool) { return "", p.End() }, func(b []byte) (int, string, bool) {
			if len(b) == 0 {
				return 1, "", true
			}
			if zvEnd(b[0]) {
				return 1, "", true
			}
			return 0, "", false
		}},
	}
}

func TestZV_C05(t *testing.T) {
	r := zvRand()
	cases := 0
	for _, pr := range zvProds() {
		al := []rune(pr.alpha)
		for it := 0; it < zvN(3000); it++ {
			pre := 0
			if r.Intn(4) == 0 {
				pre = []int{1, 2040, 2047, 2048, 4090, 4093, 4094, 4095, 4096, 4097, 6140, 6143, 6144, 8190, 8191}[r.Intn(15)]
			}
			l := r.Intn(9)
			if r.Intn(30) == 0 {
				l = r.Intn(6000)
			}
			var sb strings.Builder
			one := al[r.Intn(len(al))]
			for k := 0; k < l; k++ {
				c := al[r.Intn(len(al))]
				if l > 20 && r.Intn(500) > 0 || r.Intn(3) == 0 {
					c = one
				}
				if c == utf8.RuneError {
					sb.WriteByte(0xff)
				} else {
					sb.WriteRune(c)
				}
			}
			b := []byte(sb.String())
			in := fmt.Sprintf("%s at offset %d of %s", pr.name, pre, zvShort(string(b)))
			zvGuard(t, in, func() {
				cases++
				s := append(bytes.Repeat([]byte{'x'}, pre), b...)
				p := NewLexer(zvReader(r, s))
				for i := 0; i < pre; i++ {
					p.Byte()
				}
				used, ret, ok := pr.want(b)
				gret, gok := pr.run(p)
				if gok != ok || gret != ret {
					t.Errorf("C05: %s returns %s %v, want %s %v", in, zvShort(gret), gok, zvShort(ret), ok)
					return
				}
				for i := used; i < len(b)+1; i++ {
					c, err := p.Byte()
					if i >= len(b) {
						if err == nil {
							t.Errorf("C05: %s: %q follows instead of the end of the stream", in, c)
						}
						break
					}
					if err != nil || c != b[i] {
						t.Errorf("C05: %s: %q (%v) is read next, want %q (offset %d)", in, c, err, b[i], i)
						return
					}
				}
			})
			if t.Failed() {
				t.FailNow()
			}
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C06 ----

func zvWord(r *rand.Rand) string {
	al := []rune("abcXYZ019_-.:;/éß日+*=!?<>[]{}$%&~^|@\u00a0\u0085\u3000")
	n := 1 + r.Intn(5)
	if r.Intn(50) == 0 {
		n = 3000 + r.Intn(3000)
	}
	w := make([]rune, n)
	for i := range w {
		w[i] = al[r.Intn(len(al))]
	}
	if r.Intn(10) == 0 {
		return string(w) + []string{"#", "\\", "a#", "`"}[r.Intn(4)]
	}
	return string(w)
}

func TestZV_C06(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(4000); it++ {
		g := New("_")
		all := []*Graph{g}
		n := 1 + r.Intn(12)
		if it%100 == 0 {
			n = 400
		}
		for k := 0; k < n; k++ {
			p := all[r.Intn(len(all))]
			if r.Intn(2) == 0 {
				p = all[len(all)-1]
			}
			all = append(all, p.Add(zvWord(r)))
		}
		in := zvShort(zvDump(g))
		zvGuard(t, in, func() {
			cases++
			s := g.Text()
			h := FromString(s)
			if h == nil || zvDump(&Graph{This: "", Out: h.Out}) != zvDump(&Graph{This: "", Out: g.Out}) {
				t.Errorf("C06: %s: its text %s parses as %s", in, zvShort(s), zvShort(zvDump(h)))
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// any content can be written
	odd := []string{"\r", "\n", "\"", "'", " ", "\t", "a", "", "\\", "é", "(", ","}
	zvEnum(odd, 3, func(b []byte) {
		for m := 0; m < 2; m++ {
			g := New("_")
			if m == 0 {
				g.Add(string(b))
			} else {
				g.Add("x").Add(string(b))
				g.Add(string(b)).Add("y")
			}
			zvGuard(t, fmt.Sprintf("the text of %s", zvDump(g)), func() {
				g.Text()
				g.Show()
				g.Out[0].Show()
				cases++
			})
		}
	})
	for _, d := range []int{100, 400, 1500} {
		g := zvChain(d, func(i int) interface{} { return fmt.Sprint("n", i) })
		g.Add("last")
		h := FromString(g.Text())
		if zvDump(&Graph{This: "", Out: h.Out}) != zvDump(&Graph{This: "", Out: g.Out}) {
			t.Fatalf("C06: a chain of depth %d does not parse back", d)
		}
		cases++
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C21, C22 ----

func zvText(r *rand.Rand, frag []string) []byte {
	var b []byte
	n := r.Intn(12)
	if r.Intn(60) == 0 {
		n = 2500
	}
	for k := 0; k < n; k++ {
		switch r.Intn(10) {
		case 0:
			b = append(b, byte(r.Intn(256)))
		default:
			b = append(b, frag[r.Intn(len(frag))]...)
		}
	}
	return b
}

func zvParses(t *testing.T, id, what string, b []byte, f func() *Graph) {
	t.Helper()
	in := what + " of " + zvShort(string(b))
	if len(b) < 2000 {
		in = what + fmt.Sprintf(" of %q", b)
	}
	zvGuard(t, in, func() {
		g := f()
		if g == nil {
			t.Errorf("%s: %s gives no graph", id, in)
		} else if zvHoles(g) {
			t.Errorf("%s: %s gives a graph with missing subnodes", id, in)
		}
	})
	if t.Failed() {
		t.FailNow()
	}
}

func zvEnum(alpha []string, n int, f func(b []byte)) {
	var rec func(b []byte, n int)
	rec = func(b []byte, n int) {
		f(b)
		if n > 0 {
			for _, a := range alpha {
				rec(append(append([]byte{}, b...), a...), n-1)
			}
		}
	}
	rec(nil, n)
}

func TestZV_C21(t *testing.T) {
	r := zvRand()
	cases := 0
	frag := []string{"a", "b c", " ", "  ", "\t", "\n", "\r", "\r\n", "\"", "'", "`", "\\", "\\\n", "#", "# ", ",", "(", ")", "\x00", "\x01", "é", "\xff", "abc", "\n  ", "\n    ", "\n\t"}
	one := func(b []byte) {
		cases++
		zvParses(t, "C21", "FromBytes", b, func() *Graph { return FromBytes(b) })
		zvParses(t, "C21", "FromStringTypes", b, func() *Graph { return FromStringTypes(string(b)) })
	}
	for it := 0; it < zvN(15000); it++ {
		one(zvText(r, frag))
	}
	zvEnum([]string{"a", " ", "\t", "\n", "\"", "\\", "#", ",", "\x00"}, 4, one)
	one([]byte(strings.Repeat("a ", 6000)))
	var sb strings.Builder
	for i := 0; i < 400; i++ {
		sb.WriteString(strings.Repeat(" ", i) + "x\n")
	}
	one([]byte(sb.String()))
	fmt.Printf("cases=%d\n", cases)
}

func TestZV_C22(t *testing.T) {
	r := zvRand()
	cases := 0
	frag := []string{"a", "b1", ".", "[", "]", "{", "}", "(", ")", "1", "-", "+", "2.5", "*", "/", "==", "=", "!", "&&", "||", "<", "\"", "'q'", "`", " ", "\n", ",", "$", "$(", "${", "$if(", "$for(", "$else", "$elseif(", "$end", "$break", "\\", "\x00", "é", "\xff", "a.b", "f(x,1)", "true"}
	one := func(b []byte) {
		cases++
		s := string(b)
		zvParses(t, "C22", "NewPath", b, func() *Graph { return NewPath(s) })
		zvParses(t, "C22", "NewExpression", b, func() *Graph { return NewExpression(s) })
		zvParses(t, "C22", "NewTemplate", b, func() *Graph { return NewTemplate(s) })
		zvParses(t, "C22", "NewTemplateFromBytes", b, func() *Graph { return NewTemplateFromBytes(b) })
	}
	for it := 0; it < zvN(8000); it++ {
		one(zvText(r, frag))
	}
	zvEnum([]string{"a", ".", "[", "]", "(", ")", "1", "-", "\"", " ", ","}, 4, one)
	zvEnum([]string{"$if(a)", "$for(a,b)", "$else", "$end", "$break", "x", "$"}, 4, one)
	fmt.Printf("cases=%d\n", cases)
}
