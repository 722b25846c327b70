package gxml

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/rveen/ogdl"
)

func zvRand() *rand.Rand {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(s)))
}

func zvN(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 10
	}
	return quick
}

func zvGuard(t *testing.T, in string, f func()) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Fatalf("C20: input %s: panic: %v", in, p)
		}
	case <-time.After(10 * time.Second):
		t.Fatalf("C20: input %s: does not end", in)
	}
}

func zvPlain(g *ogdl.Graph) string {
	if g == nil {
		return "<nil>"
	}
	s := fmt.Sprintf("%q", g.ThisString())
	if len(g.Out) > 0 {
		s += "("
		for i, n := range g.Out {
			if i > 0 {
				s += " "
			}
			s += zvPlain(n)
		}
		s += ")"
	}
	return s
}

var zvNames = []string{"a", "b-c", "d-e-f", "field", "p", "ñu", "école", "x1", "n:q"}

func zvKey(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		s = s[i+1:]
	}
	return strings.NewReplacer("-", "_", "ñ", "n", "é", "e").Replace(s)
}

// zvElem makes an element: its text, and what it is imported as
func zvElem(r *rand.Rand, d int) (txt, tree string) {
	name := zvNames[r.Intn(len(zvNames))]
	txt = "<" + name
	var subs []string
	seen := map[string]bool{}
	for k := r.Intn(3); k > 0; k-- {
		at := []string{"id", "name", "z-w", "é"}[r.Intn(4)]
		if seen[at] {
			continue
		}
		seen[at] = true
		v := []string{"1", "two words", "", "x&amp;y", " s "}[r.Intn(5)]
		txt += " " + at + "=\"" + v + "\""
		subs = append(subs, fmt.Sprintf("%q(%q)", "@"+at, strings.Replace(v, "&amp;", "&", -1)))
	}
	if r.Intn(5) == 0 {
		txt += "/>"
	} else {
		txt += ">"
		last := false
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(5) {
			case 0, 1:
				if d > 0 {
					a, b := zvElem(r, d-1)
					txt += a
					subs = append(subs, b)
					last = false
				}
			case 2:
				txt += " \n\t "
			case 3:
				if last {
					continue
				}
				v := []string{"text", " some text ", "a &lt; b", "é"}[r.Intn(4)]
				txt += v
				subs = append(subs, fmt.Sprintf("%q", strings.TrimSpace(strings.Replace(v, "&lt;", "<", -1))))
				last = true
			case 4:
				txt += "<!-- c -->"
				last = false
			}
		}
		txt += "</" + name + ">"
	}
	tree = fmt.Sprintf("%q", zvKey(name))
	if len(subs) > 0 {
		tree += "(" + strings.Join(subs, " ") + ")"
	}
	return
}

// zvRead is what the tokens of a document up to its first error give
func zvRead(b []byte) (string, bool) {
	type node struct {
		s  string
		up *node
		k  []*node
	}
	root := &node{}
	x := root
	plain := true
	d := xml.NewDecoder(bytes.NewReader(b))
	for {
		tk, err := d.Token()
		if err != nil {
			break
		}
		switch v := tk.(type) {
		case xml.StartElement:
			n := &node{s: strings.NewReplacer("-", "_", "ñ", "n", "é", "e").Replace(v.Name.Local), up: x}
			for _, c := range []byte(strings.NewReplacer("é", "", "ñ", "").Replace(v.Name.Local)) {
				plain = plain && c < 128
			}
			x.k = append(x.k, n)
			for _, a := range v.Attr {
				n.k = append(n.k, &node{s: "@" + a.Name.Local, k: []*node{{s: a.Value}}})
			}
			x = n
		case xml.CharData:
			if w := strings.TrimSpace(string(v)); w != "" {
				x.k = append(x.k, &node{s: w})
			}
		case xml.EndElement:
			x = x.up
		}
	}
	var show func(n *node) string
	show = func(n *node) string {
		s := fmt.Sprintf("%q", n.s)
		for i, k := range n.k {
			s += map[bool]string{true: "(", false: " "}[i == 0] + show(k)
		}
		if len(n.k) > 0 {
			s += ")"
		}
		return s
	}
	return show(root), plain
}

func zvHoles(g *ogdl.Graph) bool {
	if g == nil {
		return true
	}
	for _, n := range g.Out {
		if zvHoles(n) {
			return true
		}
	}
	return false
}

func TestZV_C20(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(8000); it++ {
		txt, tree := zvElem(r, 3)
		if r.Intn(4) == 0 {
			txt = "<?xml version=\"1.0\"?>\n" + txt + "\n"
		}
		zvGuard(t, fmt.Sprintf("%q", txt), func() {
			cases++
			g := FromXML([]byte(txt))
			if got := zvPlain(&ogdl.Graph{This: "", Out: g.Out}); got != "\"\"("+tree+")" {
				t.Errorf("C20: %s is imported as %s, want %s", txt, got, tree)
			}
			Simplify(g)
			if zvHoles(g) {
				t.Errorf("C20: %s: missing subnodes after Simplify", txt)
			}
		})
		// malformed: what was read so far
		cut := txt[:r.Intn(len(txt)+1)]
		if r.Intn(2) == 0 && len(cut) > 0 {
			b := []byte(txt)
			for k := 1 + r.Intn(3); k > 0; k-- {
				b[r.Intn(len(b))] = []byte("<>/\"= a&;!-?]\x00\xff")[r.Intn(15)]
			}
			cut = string(b)
		}
		zvGuard(t, fmt.Sprintf("%q", cut), func() {
			cases++
			g := FromXML([]byte(cut))
			if zvHoles(g) {
				t.Errorf("C20: %q: missing subnodes", cut)
			}
			if want, ok := zvRead([]byte(cut)); ok {
				if got := zvPlain(&ogdl.Graph{This: "", Out: g.Out}); got != want {
					t.Errorf("C20: %q is imported as %s, want %s", cut, got, want)
				}
			}
			Simplify(g)
			Simplify(g)
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// a document cut after a complete part keeps that part
	for _, c := range [][2]string{{"<a><b>x</b>", "\"\"(\"a\"(\"b\"(\"x\")))"}, {"<a k='1'><b>x</c>", "\"\"(\"a\"(\"@k\"(\"1\") \"b\"(\"x\")))"}, {"<a/><b/></c>", "\"\"(\"a\" \"b\")"}, {"", "\"\""}, {"<a>t<", "\"\"(\"a\"(\"t\"))"}, {"</a>", "\"\""}} {
		zvGuard(t, c[0], func() {
			cases++
			g := FromXML([]byte(c[0]))
			if got := zvPlain(&ogdl.Graph{This: "", Out: g.Out}); got != c[1] {
				t.Errorf("C20: %s is imported as %s, want %s", c[0], got, c[1])
			}
		})
	}
	// Simplify on any graph
	cont := []string{"@id", "@name", "field", "p", "a b", "x", ""}
	for it := 0; it < zvN(20000); it++ {
		g := ogdl.New(cont[r.Intn(len(cont))])
		all := []*ogdl.Graph{g}
		for k := r.Intn(9); k > 0; k-- {
			all = append(all, all[r.Intn(len(all))].Add(cont[r.Intn(len(cont))]))
		}
		if it == 0 {
			g = nil
		}
		zvGuard(t, zvPlain(g), func() {
			cases++
			in := zvPlain(g)
			Simplify(g)
			if g != nil && zvHoles(g) {
				t.Errorf("C20: Simplify(%s) leaves missing subnodes", in)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d\n", cases)
}
