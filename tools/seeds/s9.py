# C07, C09, C13, C16, C18
HEAD='''package ogdl
import ("testing";"math";"strings")
var _ = strings.Repeat
var _ = math.NaN
'''
SEEDS=[
dict(id='c18-sort-int-subtract',prop='C18',needs='two field values further apart than the largest integer',
 breaks='very large and very negative values are ordered the wrong way round',
 edits=[('sort.go','''	return a < b
''','''	return a-b < 0
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New("_")
	g.Add("x").Add("n").Add(int64(9000000000000000000))
	g.Add("y").Add("n").Add(int64(-9000000000000000000))
	g.SortAsInt("n")
	if g.Out[0].ThisString() != "y" { t.Fatal(g.Show()) }
}
'''),
dict(id='c09-copy-onto-itself',prop='C09',needs='a graph that is copied into itself',
 breaks='Copy runs past the end of the list when source and target are the same graph',
 edits=[('graph.go','''	for _, n := range c.Out {
		g.Out = append(g.Out, n.Clone())
	}
}
''','''	end := len(g.Out)
	g.Out = append(g.Out, c.Out...)
	for i, n := range c.Out {
		g.Out[end+i] = n.Clone()
	}
}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New("_")
	g.Add("a").Add("b")
	g.Add("c")
	g.Copy(g)
	if g.Len() != 4 || g.Out[2] == g.Out[0] || g.Out[2].ThisString() != "a" || g.Out[3].ThisString() != "c" { t.Fatal(g.Show()) }
}
'''),
dict(id='c13-not-less-is-more',prop='C13',needs='a comparison >= with a value that is not a number',
 breaks='NaN >= x is true',
 edits=[('eval.go','''			return f1 >= f2
''','''			return !(f1 < f2)
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New("_")
	g.Add("a").Add(math.NaN())
	r, err := g.Eval(NewExpression("a >= 1.5"))
	if err != nil || r != false { t.Fatal(r, err) }
}
'''),
dict(id='c16-missing-children',prop='C16',needs='a schema node with subnodes whose counterpart is a leaf',
 breaks='a leaf is accepted where the schema wants subnodes',
 edits=[('schema.go','''		ok, mess := ns.Check(nx)
''','''		if nx.Len() == 0 && nx.ThisString() != "" {
			continue
		}

		ok, mess := ns.Check(nx)
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	s := New("_"); s.Add("a").Add("!int")
	x := New("_"); x.Add("a")
	if ok, _ := s.Check(x); ok { t.Fatal("accepted") }
}
'''),
dict(id='c07-setlevel-keeps-max',prop='C07',needs='SetLevel used to go to a level deeper than any before',
 breaks='the tree builder has too few places for the levels and panics',
 edits=[('event.go','''	e.current = l
	if e.max < l {
		e.max = l
	}
''','''	if e.max < l && l <= e.current+1 {
		e.max = l
	}
	e.current = l
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	e := &SimpleEventHandler{}
	e.Add("a")
	e.SetLevel(5)
	e.Add("b")
	e.SetLevel(1)
	e.Add("c")
	g := e.Tree()
	if g.Len() != 1 || g.Out[0].Len() != 1 { t.Fatal(g.Show()) }
}
'''),
]
SEEDS+=[
dict(id='c22-template-control-character',prop='C22',needs='a control character in the text of a template',
 breaks='the parser waits at the control character for ever',
 edits=[('template.go','''	for {
		if !p.Text() && !p.Variable() {
			break
		}
	}
''','''	for p.PeekByte() != 0 {
		p.Text()
		p.Variable()
	}
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	done := make(chan bool)
	go func() { NewTemplate("a\\x01b"); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not end")
	}
}
'''.replace('x','x')),
]
SEEDS[-1]['demo']=SEEDS[-1]['demo'].replace('"strings")','"strings";"time")')
