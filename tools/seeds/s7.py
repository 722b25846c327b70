# C10, C12 (paths)
HEAD='''package ogdl
import ("testing";"strings")
var _ = strings.Repeat
'''
SEEDS=[
dict(id='c12-selector-needs-strings',prop='C12',needs='a selector {n} after a name that the graph holds as bytes or as a number',
 breaks='{n} only counts the occurrences whose content is a string',
 edits=[('eval.go','''				for _, nn := range ctxPrev.Out {
					if nn.ThisString() == elemPrev {
						ix--
						if ix == 0 {
							r.AddNodes(nn)
							break
						}
					}
				}

			}
			ctxPrev = ctx
			ctx = r

		case "_len":''','''				for _, nn := range ctxPrev.Out {
					if nn.This == elemPrev {
						ix--
						if ix == 0 {
							r.AddNodes(nn)
							break
						}
					}
				}

			}
			ctxPrev = ctx
			ctx = r

		case "_len":''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New(nil)
	g.Add("a").Add("1")
	g.Add([]byte("a")).Add("2")
	g.Add(7).Add("3")
	v, _ := g.Eval(NewPath("a{1}"))
	if _text(v) != "2" { t.Fatal(v) }
}
'''),
dict(id='c12-index-after-missing',prop='C12',needs='a path with an index past the end that is followed by a name',
 breaks='an index that has no match leaves the lookup where it was instead of ending it',
 edits=[('eval.go','''			ctxPrev = ctx
			ctx = ctx.GetAt(ix)
			addRoot = true
''','''			ctxPrev = ctx
			if n := ctx.GetAt(ix); n != nil || i == len(p.Out)-1 {
				ctx = n
			}
			addRoot = true
''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New(nil)
	a := g.Add("a")
	a.Add("b").Add("1")
	a.Add("c").Add("2")
	if v, _ := g.Eval(NewPath("a[5]")); _text(v) != "" { t.Fatal(v) }
	if v, _ := g.Eval(NewPath("a[1]")); v == nil { t.Fatal(v) }
	if v, _ := g.Eval(NewPath("a[5].b")); _text(v) != "" { t.Fatal(v) }
}
'''),
dict(id='c12-lookup-takes-the-nodes',prop='C12',needs='a {} lookup whose result is changed afterwards, or a second {} lookup over an array with room',
 breaks='the result of a {} lookup shares its subnodes with the first occurrence of the name, so that adding to one changes the other',
 edits=[('graph.go','''			if key == _string(n.This) {
				g.AddNodes(n)
			}
			if recurse {''','''			if key == _string(n.This) {
				if len(g.Out) == 0 {
					g.Out = n.Out
				} else {
					g.AddNodes(n)
				}
			}
			if recurse {''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := New(nil)
	a := g.Add("a")
	a.Add("1"); a.Add("2"); a.Add("3")
	g.Add("a").Add("4")
	r := g.Get("a{}")
	if r.Len() != 4 || r.Out[3].ThisString() != "4" { t.Fatal(r.Text()) }
	a.Add("5")
	if r.Len() != 4 || r.Out[3].ThisString() != "4" { t.Fatal(r.Text()) }
}
'''),
dict(id='c10-graph-value-is-added',prop='C10',needs='setting a graph as the value of a node that already has subnodes',
 breaks='the old subnodes stay when the value set is a graph',
 edits=[('graph.go','''	node.Out = nil

	return node.addNodes(val)''','''	if _, ok := val.(*Graph); !ok {
		node.Out = nil
	}

	return node.addNodes(val)''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := FromString("a\\n  b 1\\n  c 2\\n")
	v := New(nil); v.Add("x"); v.Add("y")
	g.Set("a.b", v)
	b := g.Get("a.b")
	if b == nil || b.Len() != 2 || b.Out[0].ThisString() != "x" { t.Fatal(g.Text()) }
	if g.Get("a.c").Text() != "2" { t.Fatal(g.Text()) }
}
'''),
dict(id='c10-empty-graph-value',prop='C10',needs='setting a graph without subnodes',
 breaks='a value that is a graph without subnodes is put as a node with its own content',
 edits=[('graph.go','''	if node, ok := n.(*Graph); ok && node != nil {
		g.Out = append(g.Out, node.Out...)
		return node
	}''','''	if node, ok := n.(*Graph); ok && node != nil {
		if len(node.Out) == 0 {
			g.Out = append(g.Out, node)
		}
		g.Out = append(g.Out, node.Out...)
		return node
	}''')],demo=HEAD+'''
func TestZDemo(t *testing.T) {
	g := FromString("a\\n  b 1\\n  c 2\\n")
	g.Set("a.b", New("z"))
	b := g.Get("a.b")
	if b == nil || b.Len() != 0 { t.Fatal(g.Text()) }
}
'''),
]
