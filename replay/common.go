package ogdl

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// helpers of the concrete oracles (run through an overlay, never committed to the repository)

func zvRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s)))
}

func zvN(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 10
	}
	return quick
}

// zvGuard runs f, turning a panic or a hang into a failure that names the input
func zvGuard(t *testing.T, in string, f func()) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Fatalf("input %s: panic: %v", in, p)
		}
	case <-time.After(10 * time.Second):
		t.Fatalf("input %s: does not end", in)
	}
}

// shape of a graph, following the pointers
func zvDump(g *Graph) string {
	if g == nil {
		return "nil"
	}
	s := fmt.Sprintf("%T:%q", g.This, fmt.Sprint(g.This))
	if len(g.Out) > 0 {
		s += "("
		for i, n := range g.Out {
			if i > 0 {
				s += " "
			}
			s += zvDump(n)
		}
		s += ")"
	}
	return s
}

// identity snapshot: every reachable node with its content and subnode pointers
type zvSnap map[*Graph]zvNode
type zvNode struct {
	this string
	out  []*Graph
}

func zvSnapshot(gs ...*Graph) zvSnap {
	m := zvSnap{}
	var rec func(g *Graph)
	rec = func(g *Graph) {
		if g == nil {
			return
		}
		if _, ok := m[g]; ok {
			return
		}
		m[g] = zvNode{fmt.Sprintf("%T:%v", g.This, g.This), append([]*Graph{}, g.Out...)}
		for _, n := range g.Out {
			rec(n)
		}
	}
	for _, g := range gs {
		rec(g)
	}
	return m
}

// zvSame reports the first node (other than those in except) that differs
func zvSame(m zvSnap, except ...*Graph) string {
	for g, n := range m {
		skip := false
		for _, e := range except {
			if e == g {
				skip = true
			}
		}
		if skip {
			continue
		}
		if s := fmt.Sprintf("%T:%v", g.This, g.This); s != n.this {
			return "content changed from " + n.this + " to " + s
		}
		if len(g.Out) != len(n.out) {
			return fmt.Sprintf("node %s: %d subnodes became %d", n.this, len(n.out), len(g.Out))
		}
		for i := range n.out {
			if g.Out[i] != n.out[i] {
				return fmt.Sprintf("node %s: subnode %d replaced", n.this, i)
			}
		}
	}
	return ""
}

var zvWords = []string{"a", "b", "c", "ab", "x1", "true", "12", "-3", "1.5", "_", "é", "aa", "b b"}

func zvContent(r *rand.Rand, bytesToo bool) interface{} {
	switch r.Intn(12) {
	case 0:
		return int64(r.Intn(5))
	case 1:
		if bytesToo {
			return []byte(zvWords[r.Intn(len(zvWords))])
		}
		return true
	case 2:
		return 1.5
	case 3:
		return r.Intn(3)
	case 4:
		if r.Intn(3) == 0 {
			return nil
		}
		return ""
	}
	return zvWords[r.Intn(len(zvWords))]
}

// zvTree makes a random tree of at most n nodes below the root
func zvTree(r *rand.Rand, n int, content func() interface{}) *Graph {
	root := &Graph{This: content()}
	all := []*Graph{root}
	for i := 0; i < n; i++ {
		p := all[r.Intn(len(all))]
		if r.Intn(3) == 0 {
			p = all[len(all)-1]
		}
		c := &Graph{This: content()}
		// slices with and without spare capacity
		if r.Intn(2) == 0 {
			p.Out = append(append(make([]*Graph, 0, len(p.Out)+3), p.Out...), c)
		} else {
			p.Out = append(append(make([]*Graph, 0, len(p.Out)+1), p.Out...), c)
		}
		all = append(all, c)
	}
	return root
}

func zvHoles(g *Graph) bool {
	if g == nil {
		return true
	}
	for _, n := range g.Out {
		if zvHoles(n) {
			return true
		}
	}
	return false
}
