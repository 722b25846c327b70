SEEDS=[
dict(id='c01-text-drops-cr',prop='C01',needs='a text that holds a carriage return',
 breaks='carriage returns within a text are lost when it is read back',
 edits=[('binary.go','''	for ; n > 0; n = p.read() {
		if write {''','''	for ; n > 0; n = p.read() {
		if write && n != '\\r' {''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	g.Add("a\\r\\nb")
	if s := FromBinary(g.Binary()).Out[0].ThisString(); s != "a\\r\\nb" { t.Fatal([]byte(s)) }
}
'''),
dict(id='c01-level-two-byte-mask',prop='C01',needs='nesting of 8192 levels or more',
 breaks='levels of two bytes lose their highest bit when they are read',
 edits=[('binary.go','''		return (b0&0x3f)<<8 | b1''','''		return (b0&0x1f)<<8 | b1''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	n := g
	for i := 0; i < 8300; i++ { n = n.Add("x") }
	n = FromBinary(g.Binary())
	d := 0
	for ; n.Len() > 0; n = n.Out[0] { d++ }
	if d != 8300 { t.Fatal(d) }
}
'''),
dict(id='c02-skip-cut-text',prop='C02',needs='a log that is cut short within a text, read in binary form',
 breaks='skipping a text never ends when the stream ends within it',
 edits=[('binary.go','''	for ; n > 0; n = p.read() {
		if write {
			buf.WriteByte(byte(n))
		}
	}
''','''	if !write {
		for n != 0 {
			n = p.read()
		}
		return level, false, nil
	}

	for ; n > 0; n = p.read() {
		buf.WriteByte(byte(n))
	}
''')],demo='''package ogdl
import ("testing";"time")
func TestZDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		p := newBytesBinParser([]byte{1, 'G', 0, 1, 'a'})
		p.header()
		p.line(false)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second): t.Fatal("does not end")
	}
}
'''),
dict(id='c02-count-at-end',prop='C02',needs='a stream that is cut short within an object',
 breaks='attempts to read at the end of the stream count as consumed bytes',
 edits=[('binary.go','''	c := int(i)
	if err != nil {
		c = -1
	} else {
		p.n++
	}
''','''	c := int(i)
	p.n++
	if err != nil {
		c = -1
	}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	p := newBytesBinParser([]byte{1, 'G', 0, 1, 'a'})
	p.parse()
	if p.n != 5 { t.Fatal(p.n) }
}
'''),
dict(id='c03-add-where-it-stands',prop='C03',needs='an object that is read from the log before the next one is added, with syncing off',
 breaks='without automatic sync an object is written where the last read ended, over an older one',
 edits=[('log.go','''	if log.f != nil {

		i, _ := log.f.Seek(0, 2)

		log.f.Write(b)
''','''	if log.f != nil {

		whence := 2
		if !log.autoSync {
			whence = 1
		}
		i, _ := log.f.Seek(0, whence)

		log.f.Write(b)
''')],demo='''package ogdl
import ("testing";"os")
func TestZDemo(t *testing.T) {
	d := t.TempDir()
	l, _ := OpenLog(d + "/l")
	l.SetSync(false)
	g := New("r")
	g.Add("x").Add("y")
	l.Add(g)
	p := l.Add(g)
	s, _ := os.ReadFile(d + "/l")
	l.f.Seek(0, 0)
	if q := l.Add(g); q != int64(len(s)) { t.Fatal(p, q) }
}
'''),
dict(id='c03-next-position',prop='C03',needs='an object that does not start at position 0 and is read in binary form',
 breaks='the binary form of an object that is not the first one is read from the wrong place when a short read is allowed',
 edits=[('log.go','''	b := make([]byte, n)
	_, err = log.f.ReadAt(b, i)
''','''	b := make([]byte, n)
	if i > 0 && i < int64(n) {
		i = int64(n)
	}
	_, err = log.f.ReadAt(b, i)
''')],demo='''package ogdl
import ("testing";"bytes")
func TestZDemo(t *testing.T) {
	l, _ := OpenLog(t.TempDir() + "/l")
	g := New("r")
	g.Add("x")
	h := New("r")
	h.Add("a longer content")
	l.Add(g)
	p := l.Add(h)
	b, _, err := l.GetBinary(p)
	if err != nil || !bytes.Equal(b, h.Binary()) { t.Fatal(b, err) }
}
'''),
]
