SEEDS=[
dict(id='c07-delete-resets-max',prop='C07',needs='SetLevel or Inc, one event added and deleted again, then an event at the same level, then Tree',
 breaks='Delete forgets the maximum level when the last event is removed, so that Tree indexes past its level table',
 edits=[('event.go','''	e.levels = e.levels[0 : len(e.levels)-1]
''','''	e.levels = e.levels[0 : len(e.levels)-1]
	if len(e.items) == 0 {
		e.max = 0
	}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	e := &SimpleEventHandler{}
	e.SetLevel(2)
	e.Add("a")
	e.Delete()
	e.Add("b")
	if e.Tree() == nil { t.Fatal("no tree") }
}
'''),
dict(id='c07-tree-forgets-deeper',prop='C07',needs='an event two levels deeper than the one before it, after an earlier event at the level in between',
 breaks='Tree forgets the deeper levels when a shallower event arrives, so an event whose parent came earlier is dropped',
 edits=[('event.go','''		g[lv] = n
''','''		g[lv] = n
		for k := lv + 1; k < len(g); k++ {
			g[k] = nil
		}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	e := &SimpleEventHandler{}
	e.AddAt("a", 0)
	e.AddAt("b", 1)
	e.AddAt("c", 0)
	e.AddAt("d", 2)
	g := e.Tree()
	if g.GetAt(0).GetAt(0).Len() != 1 { t.Fatal("d is not under b: " + g.Show()) }
}
'''),
dict(id='c08-delete-skips-neighbour',prop='C08',needs='two adjacent subnodes with the deleted content, not at the end of the list',
 breaks='Delete skips the node after each deleted one',
 edits=[('graph.go','''				g.Out = append(g.Out[:i], g.Out[i+1:]...)
			} else {
				g.Out = g.Out[:i]
			}
			i--
''','''				g.Out = append(g.Out[:i], g.Out[i+1:]...)
			} else {
				g.Out = g.Out[:i]
				i--
			}
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	for _, s := range []string{"a", "x", "x", "b"} { g.Add(s) }
	g.Delete("x")
	if g.Len() != 2 { t.Fatal(g.Show()) }
}
'''),
dict(id='c08-addnodes-shares-list',prop='C08',needs='AddNodes into an empty node, followed by adding to both nodes, with spare capacity in the source list',
 breaks='AddNodes takes over the list of the other graph instead of copying it, so the two nodes share a backing array',
 edits=[('graph.go','''	g.Out = append(g.Out, g2.Out...)
	return g
''','''	if len(g.Out) == 0 {
		g.Out = g2.Out
	} else {
		g.Out = append(g.Out, g2.Out...)
	}
	return g
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g2 := New("s")
	for _, s := range []string{"a", "b", "c"} { g2.Add(s) }
	g := New("r")
	g.AddNodes(g2)
	g.Add("mine")
	g2.Add("other")
	if g.Out[3].ThisString() != "mine" { t.Fatal(g.Show()) }
}
'''),
dict(id='c09-clone-shares-leaves',prop='C09',needs='a graph with a leaf that is later changed through the clone',
 breaks='Clone shares the leaves with the original',
 edits=[('graph.go','''	for _, n := range g.Out {
		c.Out = append(c.Out, n.Clone())
	}
	return c
''','''	for _, n := range g.Out {
		if n.Len() > 0 {
			n = n.Clone()
		}
		c.Out = append(c.Out, n)
	}
	return c
''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	g := New("r")
	g.Add("a")
	c := g.Clone()
	c.Out[0].Add("b")
	if g.Out[0].Len() != 0 { t.Fatal(g.Show()) }
}
'''),
dict(id='c09-equals-stops-at-shared',prop='C09',needs='two graphs that share one subnode object and differ after it',
 breaks='Equals takes a shared subnode as the end of the comparison',
 edits=[('graph.go','''	for i := 0; i < g.Len(); i++ {
		if !g.Out[i].Equals(''','''	for i := 0; i < g.Len() && g.Out[i] != c.Out[i]; i++ {
		if !g.Out[i].Equals(''')],demo='''package ogdl
import "testing"
func TestZDemo(t *testing.T) {
	s := New("s")
	a, b := New("r"), New("r")
	a.Add(s)
	b.Add(s)
	a.Add("x")
	b.Add("y")
	if a.Equals(b) { t.Fatal("equal") }
}
'''),
]
