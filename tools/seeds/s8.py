# C06, C15, C20 (text, templates, XML)
HEAD='''package ogdl
import ("testing";"strings")
var _ = strings.Repeat
'''
GX='''package gxml
import ("testing";"github.com/rveen/ogdl")
var _ = ogdl.New
'''
SEEDS=[
dict(id='c06-indent-from-a-table',prop='C06',needs='a node more than 64 levels deep',
 breaks='nodes below level 64 are written with the indent of level 64, so they read back in the wrong place',
 edits=[('graph.go','''	sp := ""
	for i := 0; i < n; i++ {
		sp += "  "
	}
''','''	const spaces = "                                                                                                                                "
	sp := ""
	if n > 0 {
		if 2*n > len(spaces) {
			n = len(spaces) / 2
		}
		sp = spaces[:2*n]
	}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New("_")
	x := g
	for i := 0; i < 80; i++ { x = x.Add("a") }
	h := FromString(g.Text())
	d := 0
	for h != nil && h.Len() == 1 { h = h.Out[0]; d++ }
	if d != 80 || h.Len() != 0 { t.Fatal(d) }
}
'''),
dict(id='c06-text-trims-all',prop='C06',needs='a word that ends with a byte that is a space in Unicode only (U+0085 or U+00A0) at the end of the text',
 breaks='the last word of the text loses its final characters',
 edits=[('graph.go','''	for _, node := range g.Out {
		node._text(0, buffer, false)
	}

	// remove trailing \\n

	s := buffer.String()

	if len(s) == 0 {
		return ""
	}

	if s[len(s)-1] == '\\n' {
		s = s[0 : len(s)-1]
	}
''','''	for _, node := range g.Out {
		node._text(0, buffer, false)
	}

	// remove trailing \\n

	s := buffer.String()

	if len(s) == 0 {
		return ""
	}

	if s[len(s)-1] == '\\n' {
		if t := strings.TrimSpace(s[0 : len(s)-1]); len(t) > 0 {
			s = t
		} else {
			s = s[0 : len(s)-1]
		}
	}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New("_")
	g.Add("a").Add("b\\u00a0")
	h := FromString(g.Text())
	if h.Get("a").Text() != "b\\u00a0" { t.Fatalf("%q", h.Text()) }
}
'''),
dict(id='c15-break-leaves-all-loops',prop='C15',needs='a $break in a loop that is inside another loop or a branch',
 breaks='$break ends the outer loops and the rest of the template too',
 edits=[('template.go','''				if brk {
					break
				}
''','''				if brk {
					return true
				}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := FromString("l\\n  1\\n  2\\nm\\n  3\\n  4\\n")
	s := string(NewTemplate("$for(i,l)<$i$for(j,m)$j$break$end>$end.").Process(g))
	if s != "<13><23>." { t.Fatal(s) }
}
'''),
dict(id='c15-bytes-variable',prop='C15',needs='a variable that holds bytes',
 breaks='the text of a variable that holds bytes is the list of its bytes',
 edits=[('gettypes.go','''func _text(i interface{}) string {
	if i == nil {
		return ""
	}
	if v, ok := i.([]byte); ok {
		return string(v)
	}
''','''func _text(i interface{}) string {
	if i == nil {
		return ""
	}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New(nil)
	g.Add("a").Add([]byte("xy"))
	s := string(NewTemplate("<$a>").Process(g))
	if s != "<xy>" { t.Fatal(s) }
}
'''),
dict(id='c15-else-after-inner-if',prop='C15',needs='an if nested in a branch that is followed by text and an else',
 breaks='the pieces after an inner $end go to the outer level',
 edits=[('template.go','''			hh := node.Add("!t")
			i = g.flow(hh, h, i+1)
''','''			hh := node.Add("!t")
			i = g.flow(hh, h, i+1)
			if h != prev && i+1 < g.Len() && g.Out[i+1].templateType() == TypeIf {
				h = prev
			}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := FromString("a false\\nb true\\n")
	s := string(NewTemplate("$if(a)$if(b)1$end$if(b)2$end$end.").Process(g))
	if s != "." { t.Fatal(s) }
}
'''),
dict(id='c20-empty-attribute',prop='C20',needs='an attribute with an empty value',
 breaks='attributes without text are left out',
 edits=[('io/gxml/xml.go','''					n.Add("@" + at.Name.Local).Add(at.Value)
''','''					if len(at.Value) == 0 {
						continue
					}
					n.Add("@" + at.Name.Local).Add(at.Value)
''')],demo=GX+'''
func TestZDemo(t *testing.T) {
	g := FromXML([]byte("<a x='1' y=''><b/></a>"))
	a := g.Out[0]
	if a.Len() != 3 || a.Out[1].ThisString() != "@y" { t.Fatal(g.Text()) }
}
''',pkg='io/gxml'),
dict(id='c20-field-without-value',prop='C20',needs='a field whose first subnode is @name without a value',
 breaks='Simplify panics',
 edits=[('io/gxml/xml.go','''} else if n.Len() > 0 && n.Out[0].Len() == 1 && n.ThisString() == "field"''','''} else if n.ThisString() == "field"''')],demo=GX+'''
func TestZDemo(t *testing.T) {
	g := ogdl.New(nil)
	g.Add("field").Add("@name")
	Simplify(g)
}
''',pkg='io/gxml'),
dict(id='c20-not-strict',prop='C20',needs='a malformed document that goes on after the error',
 breaks='what follows the error is read too, at the wrong place',
 edits=[('io/gxml/xml.go','''	decoder := xml.NewDecoder(bytes.NewReader(b))
''','''	decoder := xml.NewDecoder(bytes.NewReader(b))
	decoder.Strict = false
''')],demo=GX+'''
func TestZDemo(t *testing.T) {
	g := FromXML([]byte("<a><b>1</a><c>2</c>"))
	if g.Len() != 1 || g.Out[0].Len() != 1 { t.Fatal(g.Text()) }
}
''',pkg='io/gxml'),
]
