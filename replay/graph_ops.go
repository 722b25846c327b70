package ogdl

import (
	"bytes"
	"fmt"
	"testing"
)

func zvEqC(a, b interface{}) bool {
	x, ok := a.([]byte)
	y, ok2 := b.([]byte)
	if ok || ok2 {
		return ok && ok2 && bytes.Equal(x, y)
	}
	return a == b
}

func zvStr(i interface{}) string {
	switch v := i.(type) {
	case nil:
		return ""
	case []byte:
		return string(v)
	case string:
		return v
	}
	return fmt.Sprint(i)
}

// C08: random edits against a list model
func TestZV_C08(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(30000); it++ {
		g := zvTree(r, r.Intn(9), func() interface{} { return zvContent(r, true) })
		other := zvTree(r, r.Intn(5), func() interface{} { return zvContent(r, true) })
		desc := zvDump(g)
		for step := 0; step < 4; step++ {
			cases++
			before := append([]*Graph{}, g.Out...)
			snap := zvSnapshot(g, other)
			name := zvWords[r.Intn(len(zvWords))]
			if len(before) > 0 && r.Intn(2) == 0 {
				name = zvStr(before[r.Intn(len(before))].This)
			}
			val := zvContent(r, true)
			first := -1
			for i, n := range before {
				if zvStr(n.This) == name {
					first = i
					break
				}
			}
			i := r.Intn(len(before)+4) - 2
			op := r.Intn(14)
			in := fmt.Sprintf("graph %s, operation %d name %q index %d value %#v other %s", zvDump(g), op, name, i, val, zvDump(other))
			bad := func(f string, a ...interface{}) {
				t.Fatalf("C08: started from %s; input %s: %s; now %s", desc, in, fmt.Sprintf(f, a...), zvDump(g))
			}
			list := func(want []*Graph) {
				if len(want) != len(g.Out) {
					bad("has %d subnodes, want %d", len(g.Out), len(want))
				}
				for k := range want {
					if want[k] != nil && g.Out[k] != want[k] {
						bad("subnode %d is not the expected one", k)
					}
				}
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						bad("panic %v", p)
					}
				}()
				switch op {
				case 0:
					n := g.Add(val)
					if val == nil {
						if n != nil {
							bad("Add(nil) returned a node")
						}
						list(before)
						break
					}
					list(append(before, n))
					if n == nil || len(n.Out) != 0 || !zvEqC(n.This, val) {
						bad("added node is wrong")
					}
				case 1:
					n := g.Add(other)
					if n != other {
						bad("Add returned another node")
					}
					list(append(before, other))
					other = New("zz")
				case 2:
					if g.AddNodes(other) != g {
						bad("AddNodes result")
					}
					want := append(append([]*Graph{}, before...), other.Out...)
					list(want)
					// the two lists stay independent of each other
					src := append([]*Graph{}, other.Out...)
					saved := other.Out
					q := other.Add("q1")
					n1 := g.Add("p1")
					list(append(want, n1))
					q2 := other.Add("q2")
					list(append(want, n1))
					src = append(src, q, q2)
					if len(other.Out) != len(src) {
						bad("the source list changes too")
					}
					for k := range src {
						if other.Out[k] != src[k] {
							bad("subnode %d of the source changes too", k)
						}
					}
					other.Out = saved
					other = New("zz")
				case 3:
					n := g.Node(name)
					if first < 0 && n != nil || first >= 0 && n != before[first] {
						bad("Node found the wrong subnode")
					}
					list(before)
				case 4:
					n := g.NodeOrNew(name)
					if first >= 0 {
						if n != before[first] {
							bad("NodeOrNew found the wrong subnode")
						}
						list(before)
					} else {
						if n == nil || n.This != name || len(n.Out) != 0 {
							bad("NodeOrNew made the wrong node")
						}
						list(append(before, n))
					}
				case 5:
					r := g.NodeSet(name, val)
					var n *Graph
					if first >= 0 {
						n = before[first]
						list(before)
					} else {
						if len(g.Out) == 0 {
							bad("NodeSet added nothing")
						}
						n = g.Out[len(g.Out)-1]
						list(append(before, n))
						if n.This != name {
							bad("NodeSet made the wrong node")
						}
					}
					if val == nil {
						if len(n.Out) != 0 {
							bad("NodeSet to nil leaves subnodes")
						}
					} else if len(n.Out) != 1 || n.Out[0] != r || !zvEqC(r.This, val) || len(r.Out) != 0 {
						bad("NodeSet value is wrong")
					}
					if s := zvSame(snap, g, n); s != "" {
						bad("%s", s)
					}
					snap = nil
				case 6:
					n := g.Create(name)
					if first >= 0 {
						if n != before[first] || len(n.Out) != 0 {
							bad("Create result is wrong")
						}
						list(before)
					} else {
						list(append(before, n))
						if n.This != name || len(n.Out) != 0 {
							bad("Create made the wrong node")
						}
					}
					if s := zvSame(snap, g, n); s != "" {
						bad("%s", s)
					}
					snap = nil
				case 7:
					n := g.GetAt(i)
					if i >= 0 && i < len(before) {
						if n != before[i] {
							bad("GetAt result")
						}
					} else if n != nil {
						bad("GetAt out of range gave a node")
					}
					list(before)
				case 8:
					if g.Len() != len(before) {
						bad("Len is %d", g.Len())
					}
				case 9:
					if r.Intn(4) == 0 {
						g.Clear()
						list(nil)
					}
				case 10:
					g.DeleteAt(i)
					if i >= 0 && i < len(before) {
						list(append(append([]*Graph{}, before[:i]...), before[i+1:]...))
					} else {
						list(before)
					}
				case 11, 12:
					if len(before) > 0 && r.Intn(3) > 0 {
						val = before[r.Intn(len(before))].This
					}
					g.Delete(val)
					var want []*Graph
					for _, n := range before {
						if !zvEqC(n.This, val) {
							want = append(want, n)
						}
					}
					list(want)
				case 13:
					n := g.addNodes(other)
					if n != other {
						bad("addNodes result")
					}
					want := append(append([]*Graph{}, before...), other.Out...)
					list(want)
					// the two lists stay independent of each other
					src := append([]*Graph{}, other.Out...)
					saved := other.Out
					q := other.Add("q1")
					n1 := g.Add("p1")
					list(append(want, n1))
					q2 := other.Add("q2")
					list(append(want, n1))
					src = append(src, q, q2)
					if len(other.Out) != len(src) {
						bad("the source list changes too")
					}
					for k := range src {
						if other.Out[k] != src[k] {
							bad("subnode %d of the source changes too", k)
						}
					}
					other.Out = saved
					other = New("zz")
				}
			}()
			if snap != nil {
				if s := zvSame(snap, g); s != "" {
					bad("%s", s)
				}
			}
			if len(g.Out) > 12 {
				break
			}
			// nodes now shared between two graphs stay out of the other one
			if len(other.Out) == 0 {
				other = zvTree(r, r.Intn(4), func() interface{} { return zvContent(r, true) })
			}
		}
	}
	var nilg *Graph
	zvGuard(t, "nil graph", func() {
		if nilg.Add("a") != nil || nilg.AddNodes(New("a")) != nil || nilg.Node("a") != nil || nilg.NodeOrNew("a") != nil ||
			nilg.NodeSet("a", 1) != nil || nilg.Create("a") != nil || nilg.GetAt(0) != nil || nilg.Len() != -1 {
			t.Fatalf("C08: operation on a nil graph gave a node")
		}
		nilg.Clear()
		nilg.Delete("a")
		nilg.DeleteAt(0)
	})
	fmt.Printf("cases=%d\n", cases)
}

func zvSameTree(a, b *Graph) bool {
	if a == nil || b == nil {
		return a == b
	}
	if !zvEqC(a.This, b.This) || len(a.Out) != len(b.Out) {
		return false
	}
	for i := range a.Out {
		if !zvSameTree(a.Out[i], b.Out[i]) {
			return false
		}
	}
	return true
}

// C09: clone, copy and equality
func TestZV_C09(t *testing.T) {
	r := zvRand()
	cases := 0
	mk := func() *Graph { return zvTree(r, r.Intn(8), func() interface{} { return zvContent(r, true) }) }
	var nilg *Graph
	for it := 0; it < zvN(30000); it++ {
		cases++
		g := mk()
		if it < 20 {
			// deep and wide ones
			g = New("r")
			n := g
			for i := 0; i < it*10; i++ {
				n = n.Add(fmt.Sprint(i))
				n.Add("k")
			}
		}
		in := "graph " + zvDump(g)
		zvGuard(t, in, func() {
			snap := zvSnapshot(g)
			c := g.Clone()
			if s := zvSame(snap); s != "" {
				t.Fatalf("C09: Clone of %s changes it: %s", in, s)
			}
			if !zvSameTree(c, g) {
				t.Fatalf("C09: Clone of %s is %s", in, zvDump(c))
			}
			for n := range zvSnapshot(c) {
				if _, ok := snap[n]; ok {
					t.Fatalf("C09: Clone of %s shares a node", in)
				}
			}
			if !g.Equals(c) || !c.Equals(g) {
				t.Fatalf("C09: %s is not equal to its clone", in)
			}
			if g.Equals(nil) || nilg.Equals(g) || !nilg.Equals(nil) || nilg.Clone() != nil {
				t.Fatalf("C09: nil comparison with %s", in)
			}
			// a copy into the graph itself
			w := g.Clone()
			was := append([]*Graph{}, w.Out...)
			w.Copy(w)
			if len(w.Out) != 2*len(was) {
				t.Fatalf("C09: Copy of %s into itself gives %s", in, zvDump(w))
			}
			for k, n := range was {
				if m := w.Out[len(was)+k]; w.Out[k] != n || m == n || !zvSameTree(m, n) {
					t.Fatalf("C09: Copy of %s into itself gives %s", in, zvDump(w))
				}
			}
			h := mk()
			if r.Intn(2) == 0 {
				// a small difference somewhere
				h = g.Clone()
				if r.Intn(3) == 0 && len(h.Out) > 0 {
					// with some subnodes shared
					k := r.Intn(len(h.Out))
					h.Out[k] = g.Out[k]
				}
				all := zvSnapshot(h)
				for n := range zvSnapshot(g) {
					delete(all, n)
				}
				k := r.Intn(len(all))
				for n := range all {
					if k == 0 {
						switch r.Intn(4) {
						case 0:
							n.This = "other"
						case 1:
							n.Out = append(n.Out, New("e"))
						case 2:
							if len(n.Out) > 0 {
								n.Out = n.Out[:len(n.Out)-1]
							}
						case 3:
							if len(n.Out) > 1 {
								n.Out[0], n.Out[1] = n.Out[1], n.Out[0]
							}
						}
					}
					k--
				}
			}
			if g.Equals(h) != zvSameTree(g, h) || h.Equals(g) != zvSameTree(g, h) {
				t.Fatalf("C09: Equals(%s, %s) = %v", in, zvDump(h), g.Equals(h))
			}
			// Copy
			d := mk()
			before := append([]*Graph{}, d.Out...)
			dd := zvDump(d)
			s1, s2 := zvSnapshot(g), zvSnapshot(d)
			d.Copy(g)
			if s := zvSame(s1); s != "" {
				t.Fatalf("C09: Copy of %s changes it: %s", in, s)
			}
			if s := zvSame(s2, d); s != "" {
				t.Fatalf("C09: Copy of %s to %s: %s", in, dd, s)
			}
			if len(d.Out) != len(before)+len(g.Out) {
				t.Fatalf("C09: Copy of %s to %s gives %s", in, dd, zvDump(d))
			}
			for i, n := range before {
				if d.Out[i] != n {
					t.Fatalf("C09: Copy of %s to %s replaces subnode %d", in, dd, i)
				}
			}
			for i, n := range g.Out {
				m := d.Out[len(before)+i]
				if !zvSameTree(m, n) {
					t.Fatalf("C09: Copy of %s to %s gives %s", in, dd, zvDump(d))
				}
				for x := range zvSnapshot(m) {
					if _, ok := s1[x]; ok {
						t.Fatalf("C09: Copy of %s shares a node", in)
					}
				}
			}
			d.Copy(nil)
			nilg.Copy(g)
		})
	}
	fmt.Printf("cases=%d\n", cases)
}
