SEEDS=[
dict(id='c04-kept-half-first-byte',prop='C04',needs='bytes unread across the point where the buffer was refilled, 2048 deep',
 breaks='the first byte of the half that is kept at a refill is the one of the older half',
 edits=[('lexer.go','''		copy(p.buf, p.buf[halfSize:])''','''		copy(p.buf[1:], p.buf[halfSize+1:])''')],demo='''package ogdl
import ("testing";"bytes")
func TestZDemo(t *testing.T) {
	b := make([]byte, 6000)
	for i := range b { b[i] = byte(33 + i%90) }
	p := NewLexer(bytes.NewReader(b))
	for i := 0; i < 4096; i++ { p.Byte() }
	for i := 0; i < 2048; i++ { p.UnreadByte() }
	for i := 2048; i < 6000; i++ {
		if c, _ := p.Byte(); c != b[i] { t.Fatal(i, c, b[i]) }
	}
}
'''),
dict(id='c04-failed-read-drops-data',prop='C04',needs='a reader that gives its last data together with an error other than io.EOF',
 breaks='data that comes with a read error is dropped',
 edits=[('lexer.go','''			p.err = err
			break
''','''			if p.err = err; err != io.EOF {
				offset -= n
			}
			break
''')],demo='''package ogdl
import ("testing";"io")
type zr struct { done bool }
func (z *zr) Read(b []byte) (int, error) {
	if z.done { return 0, io.EOF }
	z.done = true
	return copy(b, "abc"), io.ErrUnexpectedEOF
}
func TestZDemo(t *testing.T) {
	p := NewLexer(&zr{})
	for _, c := range []byte("abc") {
		if d, err := p.Byte(); d != c || err != nil { t.Fatal(d, err) }
	}
	if _, err := p.Byte(); err == nil { t.Fatal() }
}
'''),
dict(id='c05-token-unread-byte',prop='C05',needs='a token followed by a character of several bytes that is not a letter',
 breaks='only one byte of the character after a token is given back',
 edits=[('lexer.go','''		buf = append(buf, c)
	}

	p.UnreadRune()
	return string(buf), len(buf) > 0''','''		buf = append(buf, c)
	}

	p.UnreadByte()
	return string(buf), len(buf) > 0''')],demo='''package ogdl
import ("testing";"strings")
func TestZDemo(t *testing.T) {
	p := NewLexer(strings.NewReader("abc\\u20acd"))
	if s, ok := p.Token8(); s != "abc" || !ok { t.Fatal(s) }
	if r, _ := p.Rune(); r != 0x20ac { t.Fatal(r) }
}
'''),
dict(id='c05-comment-runs-over-end',prop='C05',needs='a comment ended by a control character other than NUL',
 breaks='a comment does not end at an end character',
 edits=[('lexer.go','''				if IsEndChar(c) || IsBreakChar(c) {''','''				if c == 0 || IsBreakChar(c) {''')],demo='''package ogdl
import ("testing";"strings")
func TestZDemo(t *testing.T) {
	p := NewLexer(strings.NewReader("# a\\x04b\\nc"))
	if !p.Comment() { t.Fatal() }
	if c, _ := p.Byte(); c != 'b' { t.Fatal(c) }
}
'''),
dict(id='c05-number-many-points',prop='C05',needs='a number with two decimal points',
 breaks='a number takes more than one decimal point',
 edits=[('lexer.go','''			if !point && c == '.' {
				point = true''','''			if c == '.' && (!point || len(buf) > 2) {
				point = true''')],demo='''package ogdl
import ("testing";"strings")
func TestZDemo(t *testing.T) {
	p := NewLexer(strings.NewReader("10.25.7"))
	if s, ok := p.Number(); s != "10.25" || !ok { t.Fatal(s) }
	if c, _ := p.Byte(); c != '.' { t.Fatal(c) }
}
'''),
]
