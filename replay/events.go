package ogdl

import (
	"bytes"
	"fmt"
	"testing"
)

// C07: random event sequences against a list model, and the tree against a direct definition
func TestZV_C07(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(30000); it++ {
		e := &SimpleEventHandler{}
		var items []interface{}
		var levels []int
		cur, max := 0, 0
		trace := ""
		n := 1 + r.Intn(14)
		if it%50 == 0 {
			n = 300 + r.Intn(300)
		}
		bad := func(f string, a ...interface{}) {
			t.Fatalf("C07: events %s: %s", trace, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					bad("panic: %v", p)
				}
			}()
			for k := 0; k < n; k++ {
				cases++
				switch op := r.Intn(12); op {
				case 0, 1:
					s := fmt.Sprint("n", k)
					e.Add(s)
					items, levels = append(items, s), append(levels, cur)
					trace += "Add "
				case 2:
					b := []byte(fmt.Sprint("b", k))
					e.AddBytes(b)
					items, levels = append(items, b), append(levels, cur)
					trace += "AddBytes "
				case 3:
					e.AddItf(k)
					items, levels = append(items, k), append(levels, cur)
					trace += "AddItf "
				case 4, 5:
					lv := r.Intn(max + 2)
					if r.Intn(10) == 0 {
						lv += r.Intn(40)
					}
					s := fmt.Sprint("n", k)
					if op == 4 {
						e.AddAt(s, lv)
						items = append(items, s)
					} else {
						b := []byte(s)
						e.AddBytesAt(b, lv)
						items = append(items, b)
					}
					levels = append(levels, lv)
					if lv > max {
						max = lv
					}
					trace += fmt.Sprintf("AddAt(%d) ", lv)
				case 6, 7:
					e.Inc()
					cur++
					if cur > max {
						max = cur
					}
					trace += "Inc "
				case 8:
					e.Dec()
					if cur > 0 {
						cur--
					}
					trace += "Dec "
				case 9:
					cur = r.Intn(max + 2)
					e.SetLevel(cur)
					if cur > max {
						max = cur
					}
					trace += fmt.Sprintf("SetLevel(%d) ", cur)
				case 10:
					if len(items) > 0 {
						e.Delete()
						items, levels = items[:len(items)-1], levels[:len(levels)-1]
						trace += "Delete "
					}
				case 11:
					if e.Level() != cur {
						bad("Level is %d, want %d", e.Level(), cur)
					}
				}
			}
			if e.Level() != cur {
				bad("Level is %d, want %d", e.Level(), cur)
			}
			root := e.Tree()
			// each event under the latest earlier event one level up
			kids := map[int][]int{}
			for i := range items {
				p := -1
				if levels[i] > 0 {
					p = -2
					for j := i - 1; j >= 0; j-- {
						if levels[j] == levels[i]-1 {
							p = j
							break
						}
					}
				}
				kids[p] = append(kids[p], i)
			}
			var check func(g *Graph, p int)
			check = func(g *Graph, p int) {
				if g == nil {
					bad("event %d has no node", p)
				}
				if len(g.Out) != len(kids[p]) {
					bad("the node of event %d has %d subnodes, want %d", p, len(g.Out), len(kids[p]))
				}
				for k, i := range kids[p] {
					n := g.Out[k]
					if n == nil {
						bad("subnode %d of event %d is missing", k, p)
					}
					if b, ok := items[i].([]byte); ok {
						if x, ok := n.This.([]byte); !ok || !bytes.Equal(x, b) {
							bad("the content of event %d is %v, want %q", i, n.This, b)
						}
					} else if n.This != items[i] {
						bad("the content of event %d is %v, want %v", i, n.This, items[i])
					}
					check(n, i)
				}
			}
			check(root, -1)
		}()
	}
	fmt.Printf("cases=%d\n", cases)
}
