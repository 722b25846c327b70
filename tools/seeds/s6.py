# C14, C21, C22 (parsers and operator precedence)
HEAD='''package ogdl
import ("testing";"time";"strings")
var _ = strings.Repeat
func ends(t *testing.T, f func()) {
	d := make(chan bool)
	go func() {
		defer func() { recover(); close(d) }()
		f()
		d <- true
	}()
	select {
	case ok := <-d:
		if !ok { t.Fatal("crash") }
	case <-time.After(5*time.Second):
		t.Fatal("does not end")
	}
}
func show(g *Graph) string {
	if g == nil { return "?" }
	if g.Len() == 0 { return g.ThisString() }
	s := g.ThisString() + "("
	for _, n := range g.Out { s += show(n) + " " }
	return s + ")"
}
'''
SEEDS=[
dict(id='c21-delete-is-not-text',prop='C21',needs='a DEL character (0x7f) in the text, outside quotes',
 breaks='the parser never gets past a DEL character: it is neither text, space, break nor end',
 edits=[('lexer.go','return c > 32\n','return c > 32 && c != 127\n')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	ends(t, func() { FromString("a b\\n  c\\x7fd e\\n") })
	ends(t, func() { FromString("a 'b\\x7f' c # d\\x7f\\n") })
}
'''),
dict(id='c21-block-of-empty-lines',prop='C21',needs='a block that only has empty (indented) lines',
 breaks='stripping the line breaks at the end of a block runs past its beginning',
 edits=[('lexer.go','''	for {
		if len(s) == 0 {
			break
		}

		c := s[len(s)-1]''','''	if len(s) == 0 {
		return s, true
	}
	for {
		c := s[len(s)-1]''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	ends(t, func() { FromString("a \\\\\\n  b\\n  c\\n\\nd") })
	ends(t, func() { FromString("a \\\\\\nd") })
	ends(t, func() { FromString("a \\\\\\n  \\n  \\nd") })
}
'''),
dict(id='c22-variable-without-name',prop='C22',needs='a template with a $ that no name follows',
 breaks='a $ without a path makes the template parser crash',
 edits=[('template.go','s := node.GetAt(0).ThisString()\n\n\t\t\tswitch s {\n\t\t\tcase "if":','s := node.Out[0].ThisString()\n\n\t\t\tswitch s {\n\t\t\tcase "if":')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	ends(t, func() { NewTemplate("It costs $a and $(b) and ${c}") })
	ends(t, func() { NewTemplate("It costs 5 $ or more") })
	ends(t, func() { NewTemplate("$") })
}
'''),
dict(id='c14-and-or-together',prop='C14',needs='an expression with || before && and no parentheses',
 breaks='&& and || have the same precedence',
 edits=[('expression.go','	case "&&":\n		return 2','	case "&&":\n		return 1')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := NewExpression("'a' || 'b' && 'c'")
	if s := show(g); s != "!e(||(!string(a ) &&(!string(b ) !string(c ) ) ) )" && g.Out[0].ThisString() != "||" { t.Fatal(s) }
	if g := NewExpression("1 && 2 || 3 && 4"); g.Len() != 1 || g.Out[0].ThisString() != "||" { t.Fatal(show(g)) }
}
'''),
dict(id='c14-modulo-assignment-binds',prop='C14',needs='%= with an || on its right hand side',
 breaks='%= is applied together with ||, from left to right',
 edits=[('expression.go','	case "%=":\n		return 0','	case "%=":\n		return 1')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	if g := NewExpression("a %= 4 - 1"); g.Len() != 1 || g.Out[0].ThisString() != "%=" { t.Fatal(show(g)) }
	if g := NewExpression("a %= 1 || 2"); g.Len() != 1 || g.Out[0].ThisString() != "%=" { t.Fatal(show(g)) }
}
'''),
]
