SEEDS=[
dict(id='c11-int64-uint-narrow',prop='C11',needs='a uint32 content above 2^31-1',
 breaks='uint32 contents are read through int32, so large values become negative',
 edits=[('gettypes.go','''	case uint32:
		return int64(v), true
''','''	case uint32:
		return int64(int32(v)), true
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	g.Add(uint32(3000000000))
	if n := g.Int64(); n != 3000000000 { t.Fatal(n) }
}
'''),
dict(id='c11-bool-default-inverted',prop='C11',needs='a text content that is not a boolean and a default of true',
 breaks='Bool ignores its default for text that merely starts like a boolean',
 edits=[('gettypes.go','''	n, ok := _boolf(g.String())
	if !ok {
		if len(def) == 0 {
			return false
		}
''','''	n, ok := _boolf(g.String())
	if !ok {
		if len(def) == 0 || g.Len() > 0 {
			return false
		}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	g.Add("perhaps")
	if !g.Bool(true) { t.Fatal("default ignored") }
	if (*Graph)(nil).Bool(true) != true { t.Fatal("nil") }
}
'''),
dict(id='c11-integer-text-trailing',prop='C11',needs='a number text with an exponent and no decimal point',
 breaks='text of digits and an exponent counts as an integer, which it does not convert to, so the number is lost',
 edits=[('gettypes.go','''	for ; i < l; i++ {
		if !IsSpaceChar(s[i]) {
			return false
		}
	}

	return true
''','''	for ; i < l; i++ {
		if s[i] == 'e' {
			break
		}
		if !IsSpaceChar(s[i]) {
			return false
		}
	}

	return true
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	if n := number("2e3"); n != 2000.0 { t.Fatal(n) }
	g := New("r")
	g.Add("1e3")
	if g.Number() != 1000.0 { t.Fatal(g.Number()) }
}
'''),
dict(id='c13-float-int-mod',prop='C13',needs='a remainder with a negative float on the left',
 breaks='the remainder of floats is made positive',
 edits=[('eval.go','''		return int(i3) % int(i4)
''','''		return (int(i3)%int(i4) + int(i4)) % int(i4)
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	if r := calc(-7.5, 3, '%'); r != -1 { t.Fatal(r) }
}
'''),
dict(id='c13-compare-int-as-float',prop='C13',needs='a comparison of two integers above 2^53 that differ by one',
 breaks='equality of integers is decided on floats, so neighbouring large integers are equal',
 edits=[('eval.go','''		case '=':
			return i1 == i2
''','''		case '=':
			return float64(i1) == float64(i2)
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	if compare(int64(9007199254740993), int64(9007199254740992), '=') { t.Fatal("equal") }
}
'''),
dict(id='c16-check-skips-after-match',prop='C16',needs='a schema node with conforming content but nonconforming subnodes, followed by another schema node',
 breaks='only the mismatch in the last position of a list is found below the first level',
 edits=[('schema.go','''		ok, mess := ns.Check(nx)
		if !ok {
			return false, mess
		}
''','''		ok, mess := ns.Check(nx)
		if !ok && (ns.Len() < 2 || i == g.Len()-1) {
			return false, mess
		}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	s := New("_")
	a := s.Add("a"); a.Add("!int"); a.Add("!int")
	s.Add("b")
	x := New("_")
	y := x.Add("a"); y.Add("1"); y.Add("zzz")
	x.Add("b")
	if ok, _ := s.Check(x); ok { t.Fatal("accepted") }
}
'''),
dict(id='c16-check-binary-as-string',prop='C16',needs='a byte slice content checked against !string, or a string against !binary',
 breaks='!string also accepts any content whose type name ends in string-like bytes',
 edits=[('schema.go','''		return ty == "string"
''','''		return ty == "string" || ty == "[]uint8" && len(sx) > 0
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	s := New("_"); s.Add("!string")
	x := New("_"); x.Add([]byte("abc"))
	if ok, _ := s.Check(x); ok { t.Fatal("accepted") }
}
'''),
dict(id='c17-json-leaf-comma',prop='C17',needs='a map with a subnode that has several subnodes, followed by another one',
 breaks='no comma is written after a nested map that is followed by a leaf',
 edits=[('encoding.go','''		default:
			n.json(buf)
			comma = true
''','''		default:
			n.json(buf)
			comma = n.ThisString() != ""
''')],demo='''package ogdl
import ("testing";"strings")
func TestZDemo(t *testing.T) {
	g := New("r")
	a := g.Add("")
	a.Add("1"); a.Add("2")
	g.Add("b")
	s := string(g.JSON())
	if strings.Count(s, ",") != 2 { t.Fatal(s) }
}
'''),
dict(id='c17-json-restores-text',prop='C17',needs='JSON of a graph whose root content is not text',
 breaks='the root content is restored as text, so that a number or binary root changes type',
 edits=[('encoding.go','''	i := g.This
	g.This = ""
''','''	i := g.This
	if i != nil {
		i = g.ThisString()
	}
	g.This = ""
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New(12)
	g.Add("a")
	g.JSON()
	if g.This != 12 { t.Fatalf("%T", g.This) }
}
'''),
dict(id='c18-sort-less-by-length',prop='C18',needs='sorting by a field with texts where one is a prefix of the other',
 breaks='a text that is a prefix of another is not ordered before it',
 edits=[('sort.go','''	return strings.Compare(a, b) == -1
''','''	if strings.HasPrefix(b, a) {
		return len(a) > len(b)
	}
	return strings.Compare(a, b) == -1
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	for _, s := range []string{"abc", "ab", "a"} { n := g.Add("n"); n.Add("f").Add(s) }
	g.Sort("f")
	if g.Out[0].Get("f").String() != "a" { t.Fatal(g.Show()) }
}
'''),
dict(id='c18-sort-int-truncates',prop='C18',needs='integer keys whose difference does not fit in 32 bits',
 breaks='integer keys are compared by a difference in 32 bits',
 edits=[('sort.go','''	return a < b
''','''	return int32(a-b) < 0
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	for _, s := range []int64{4294967296 * 3, 5, 4294967296 * 2} { n := g.Add("n"); n.Add("f").Add(s) }
	g.SortAsInt("f")
	if g.Out[0].Get("f").Int64() != 5 || g.Out[1].Get("f").Int64() != 4294967296*2 { t.Fatal(g.Show()) }
}
'''),
]
