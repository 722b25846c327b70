package ogdl

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// ---- C10 ----

type zvElem struct {
	name string
	ix   int // if name is ""
}

func zvPathText(p []zvElem) string {
	s := ""
	for i, e := range p {
		if e.name != "" {
			if i > 0 {
				s += "."
			}
			s += e.name
		} else {
			s += fmt.Sprintf("[%d]", e.ix)
		}
	}
	return s
}

// zvFollow follows p from g: the node, or nil
func zvFollow(g *Graph, p []zvElem) *Graph {
	for _, e := range p {
		if g == nil {
			return nil
		}
		var n *Graph
		if e.name == "" {
			if e.ix >= 0 && e.ix < len(g.Out) {
				n = g.Out[e.ix]
			}
		} else {
			for _, m := range g.Out {
				if zvTextOf(m.This) == e.name {
					n = m
					break
				}
			}
		}
		g = n
	}
	return g
}

func TestZV_C10(t *testing.T) {
	r := zvRand()
	cases := 0
	names := []string{"a", "b", "c", "x1", "_"}
	for it := 0; it < zvN(8000); it++ {
		g := zvTree(r, r.Intn(10), func() interface{} { return names[r.Intn(len(names))] })
		trace := zvDump(g)
		bad := func(f string, a ...interface{}) { t.Fatalf("C10: %s: %s", trace, fmt.Sprintf(f, a...)) }
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("panic: %v", e)
				}
			}()
			for k := 1 + r.Intn(4); k > 0; k-- {
				cases++
				var p []zvElem
				for n := 1 + r.Intn(4); n > 0; n-- {
					if r.Intn(3) == 0 && len(p) > 0 {
						ix := r.Intn(4)
						if r.Intn(10) == 0 {
							ix = 5 + r.Intn(40)
						}
						p = append(p, zvElem{"", ix})
					} else {
						p = append(p, zvElem{names[r.Intn(len(names))], 0})
					}
				}
				v := fmt.Sprint("v", k)
				if r.Intn(12) == 0 {
					// an invalid index changes nothing
					at := 1 + r.Intn(len(p))
					txt := zvPathText(p[:at]) + []string{"[-1]", "[z]", "['q']", "[]", "[1.5]"}[r.Intn(5)] + zvPathText(nil)
					trace += fmt.Sprintf("; Set(%s, %s)", txt, v)
					snap := zvSnapshot(g)
					g.Set(txt, v)
					if d := zvSame(snap); d != "" {
						bad("an invalid index changed the graph: %s", d)
					}
					continue
				}
				trace += fmt.Sprintf("; Set(%s, %s)", zvPathText(p), v)
				snap := zvSnapshot(g)
				// the existing nodes along the path
				along := []*Graph{g}
				for i := 1; i <= len(p); i++ {
					along = append(along, zvFollow(g, p[:i]))
				}
				last := p[len(p)-1]
				var gv *Graph
				if last.name != "" && r.Intn(4) == 0 {
					// the value is a graph: its subnodes are put there
					gv = New(names[r.Intn(len(names))])
					for n := r.Intn(4); n > 0; n-- {
						gv.Add(v).Add(names[r.Intn(len(names))])
					}
					trace += " = " + zvDump(gv)
					g.Set(zvPathText(p), gv)
				} else {
					g.Set(zvPathText(p), v)
				}
				if zvHoles(g) {
					bad("missing subnodes")
				}
				n := zvFollow(g, p)
				if n == nil {
					bad("the path leads nowhere")
				}
				for i, m := range along {
					if m != nil && zvFollow(g, p[:i]) != m && i < len(p) {
						bad("the node at %s was replaced", zvPathText(p[:i]))
					}
				}
				if gv != nil {
					ok := len(n.Out) == len(gv.Out)
					for i := 0; ok && i < len(gv.Out); i++ {
						ok = n.Out[i] == gv.Out[i]
					}
					if !ok {
						bad("the path leads to %s instead of the subnodes of %s", zvDump(n), zvDump(gv))
					}
				} else if last.name == "" {
					// an index at the end: the subnode at that position is the value
					if len(n.Out) != 0 || zvTextOf(n.This) != v {
						bad("the path leads to %s instead of %s", zvDump(n), v)
					}
				} else if len(n.Out) != 1 || zvTextOf(n.Out[0].This) != v {
					bad("the path leads to %s instead of %s", zvDump(n), v)
				}
				// what Get says
				h := g.Get(zvPathText(p))
				if h == nil {
					bad("Get finds nothing")
				}
				if last.name == "" {
					if h.Len() != 1 || zvTextOf(h.Out[0].This) != v {
						bad("Get gives %s", zvDump(h))
					}
				} else if gv != nil {
					if h != n {
						bad("Get gives %s", zvDump(h))
					}
				} else if h.String() != v {
					bad("Get gives %s", zvDump(h))
				}
				// nothing else changed: siblings keep identity, order and contents
				var ex []*Graph
				for _, m := range along {
					if m != nil {
						ex = append(ex, m)
					}
				}
				if d := zvSame(snap, ex...); d != "" {
					bad("something off the path changed: %s", d)
				}
				for i, m := range along {
					if m == nil || i == len(p) {
						continue
					}
					old := snap[m].out
					if len(m.Out) < len(old) {
						bad("%s lost subnodes", zvPathText(p[:i]))
					}
					for j := range old {
						if m.Out[j] != old[j] && !(i == len(p)-1 && zvFollow(m, p[i:]) == m.Out[j]) {
							bad("subnode %d of %s was replaced", j, zvPathText(p[:i]))
						}
					}
					if fmt.Sprintf("%T:%v", m.This, m.This) != snap[m].this {
						bad("the content of %s changed", zvPathText(p[:i]))
					}
					// new ones: gap nodes are empty, and one is added beyond the gap
					want := len(old)
					if along[i+1] == nil {
						if p[i].name == "" {
							want = p[i].ix + 1
						} else {
							want++
						}
					}
					if len(m.Out) != want {
						bad("%s has %d subnodes, want %d", zvPathText(p[:i]), len(m.Out), want)
					}
					for j := len(old); j < len(m.Out)-1; j++ {
						if len(m.Out[j].Out) != 0 {
							bad("gap node %d of %s is not empty: %s", j, zvPathText(p[:i]), zvDump(m.Out[j]))
						}
					}
				}
			}
		}()
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C11 ----

func zvValues(r *rand.Rand) []interface{} {
	var np *Graph
	l := []interface{}{nil, "", " ", "  ", "abc", "12", "-7", "+3", " 12 ", "1.5", "-0.25", "1e3", "true", "false", "True", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0x10", "-", "--1", "1a", "é", "\x00", "nan", "inf",
		[]byte(nil), []byte{}, []byte("34"), []byte("true"), []byte("x y"), []byte("2.5"),
		true, false, 0, 1, -1, int8(-128), int16(300), int32(-70000), int64(math.MinInt64), int64(math.MaxInt64), uint(7), uint8(255), uint16(65535), uint32(4000000000), uint64(1 << 40), int64(1 << 53), int64(1<<53 + 1), int64(-1<<53 - 1), int64(math.MaxInt64 - 1), "9007199254740993", uint64(1<<63 + 5),
		float32(1.5), float32(-3), 2.75, -1e10, 0.0, math.Inf(1), math.NaN(),
		np, New("7"), &Graph{}, New("true"), []string{"a"}, struct{ a int }{3}, map[string]int{"k": 1}, errorT{}}
	for k := 0; k < 20; k++ {
		l = append(l, r.Int63()-r.Int63(), int(r.Int63()), r.NormFloat64(), strconv.Itoa(r.Intn(1e6)-5e5), zvWord(r), uint64(r.Int63()))
	}
	// the text of a Graph is the content of its first subnode
	n := New("q")
	n.Add("5")
	return append(l, n)
}

type errorT struct{}

func (errorT) Error() string { return "e!" }

func zvAsString(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case []byte:
		return string(x)
	case string:
		return x
	case *Graph:
		if x == nil || len(x.Out) == 0 {
			return ""
		}
		return zvAsString(x.Out[0].This)
	}
	return fmt.Sprint(v)
}

func zvNumInt(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint:
		return int64(x), true
	case uint8:
		return int64(x), true
	case uint16:
		return int64(x), true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	}
	return 0, false
}

func zvAsInt(v interface{}) (int64, bool) {
	if g, ok := v.(*Graph); ok {
		if g == nil {
			return 0, false
		}
		v = g.This
	}
	switch x := v.(type) {
	case []byte:
		n, err := strconv.ParseInt(string(x), 10, 64)
		return n, err == nil
	case string:
		n, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			n = 0
		}
		return n, err == nil
	case float32:
		return int64(x), true
	case float64:
		return int64(x), true
	}
	return zvNumInt(v)
}

func zvNumFloat(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func zvAsBool(s string) (bool, bool) { return s == "true", s == "true" || s == "false" }

func zvFeq(a, b float64) bool { return a == b || a != a && b != b }

func zvIsInf(v interface{}) bool {
	f, ok := zvNumFloat(v)
	return ok && (math.IsNaN(f) || math.IsInf(f, 0) || f > 9e18 || f < -9e18)
}

func TestZV_C11(t *testing.T) {
	r := zvRand()
	cases := 0
	var np *Graph
	node := func(v interface{}) *Graph { g := New("k"); g.Out = []*Graph{{This: v}}; return g }
	type in struct {
		g *Graph
		s string
	}
	vals := zvValues(r)
	ins := []in{{np, "nil"}, {New(nil), "empty"}, {New("x"), "leaf x"}, {New("12"), "leaf 12"}}
	for _, v := range vals {
		ins = append(ins, in{node(v), fmt.Sprintf("node with %T %v", v, v)})
		g := node(v)
		g.Out = append(g.Out, &Graph{This: "second"}, &Graph{This: 3})
		ins = append(ins, in{g, fmt.Sprintf("list with %T %v", v, v)})
		ins = append(ins, in{&Graph{This: v}, fmt.Sprintf("leaf %T %v", v, v)})
	}
	for _, x := range ins {
		g := x.g
		cases++
		zvGuard(t, x.s, func() {
			snap := zvSnapshot(g)
			bad := func(m string, got, want interface{}) {
				t.Errorf("C11: %s of %s gives %T %v, want %T %v", m, x.s, got, got, want, want)
			}
			var v interface{}
			missing := g == nil || len(g.Out) == 0
			if !missing {
				v = g.Out[0].This
			}
			if got := g.Interface(); fmt.Sprintf("%T%v", got, got) != fmt.Sprintf("%T%v", v, v) {
				bad("Interface", got, v)
			}
			n, ok := zvAsInt(v)
			if !zvIsInf(v) {
				w := n
				if !ok {
					w = 0
				}
				if got := g.Int64(); got != w {
					bad("Int64", got, w)
				}
				if !ok {
					w = 77
				}
				if got := g.Int64(77); got != w {
					bad("Int64(77)", got, w)
				}
			}
			s := zvAsString(v)
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				if got := g.Float64(); !math.IsNaN(got) {
					bad("Float64", got, math.NaN())
				}
				if got := g.Float64(2.5); got != 2.5 {
					bad("Float64(2.5)", got, 2.5)
				}
			} else {
				if got := g.Float64(); !zvFeq(got, f) {
					bad("Float64", got, f)
				}
				if got := g.Float64(2.5); !zvFeq(got, f) {
					bad("Float64(2.5)", got, f)
				}
			}
			b, ok := zvAsBool(s)
			if got := g.Bool(); got != (b && ok) {
				bad("Bool", got, b)
			}
			if got := g.Bool(true); got != (b || !ok) {
				bad("Bool(true)", got, b)
			}
			want := s
			if got := g.String(); got != want {
				bad("String", got, want)
			}
			if g == nil {
				want = "def"
			}
			if got := g.String("def"); got != want {
				bad("String(def)", got, want)
			}
			if got := string(g.Bytes()); got != zvBytesOf(v) {
				bad("Bytes", got, zvBytesOf(v))
			}
			var this interface{}
			ts := "def"
			if g != nil {
				this = g.This
				ts = zvAsString(this)
			}
			if got := g.ThisString("def"); got != ts {
				bad("ThisString(def)", got, ts)
			}
			if got := string(g.ThisBytes()); got != zvBytesOf(this) {
				bad("ThisBytes", got, zvBytesOf(this))
			}
			if n, ok := zvAsInt(this); !zvIsInf(this) {
				if got, gok := g.ThisInt64(); gok != ok || ok && got != n {
					bad("ThisInt64", got, n)
				}
			}
			{
				f, ok := zvNumFloat(this)
				if !ok {
					var n int64
					if n, ok = zvNumInt(this); ok {
						f = float64(n)
					} else {
						var err error
						f, err = strconv.ParseFloat(zvAsString(this), 64)
						ok = err == nil
					}
				}
				if got, gok := g.ThisFloat64(); gok != ok || ok && !zvFeq(got, f) {
					bad("ThisFloat64", got, f)
				}
			}
			// lists
			var l []string
			if g != nil {
				for _, m := range g.Out {
					l = append(l, zvAsString(m.This))
				}
			}
			if got := g.Strings(); fmt.Sprint(len(got), got) != fmt.Sprint(len(l), l) {
				bad("Strings", got, l)
			}
			w1, w2 := strings.Join(l, ", "), strings.Join(l, " ")
			if got := g.StringCSV(); got != w1 {
				bad("StringCSV", got, w1)
			}
			if got := g.StringTxt(); got != w2 {
				bad("StringTxt", got, w2)
			}
			// numbers and scalars
			num := func(v interface{}) interface{} {
				if v == nil {
					return nil
				}
				if f, ok := zvNumFloat(v); ok {
					return f
				}
				if n, ok := zvNumInt(v); ok {
					return n
				}
				s := zvAsString(v)
				if t := strings.Trim(s, " \t"); t != "" && strings.Trim(strings.TrimPrefix(t, "-"), "0123456789") == "" && t != "-" {
					// text that looks like an integer is an integer, if it is one
					n, err := strconv.ParseInt(s, 10, 64)
					if err != nil {
						return nil
					}
					return n
				}
				f, err := strconv.ParseFloat(s, 64)
				if err != nil || s == "" {
					return nil
				}
				return f
			}
			same := func(a, b interface{}) bool {
				x, ok1 := a.(float64)
				y, ok2 := b.(float64)
				if ok1 && ok2 {
					return zvFeq(x, y)
				}
				return fmt.Sprintf("%T%v", a, a) == fmt.Sprintf("%T%v", b, b)
			}
			if got := g.Number(); !same(got, num(v)) {
				bad("Number", got, num(v))
			}
			if got := g.ThisNumber(); !same(got, num(this)) {
				bad("ThisNumber", got, num(this))
			}
			if w := num(v); w != nil {
				if got := g.Scalar(); !same(got, w) {
					bad("Scalar", got, w)
				}
			} else {
				g.Scalar()
			}
			g.ThisScalar()
			g.ThisType()
			g.ThisValue()
			g.Value()
			g.Len()
			for _, p := range []string{"", "a", "second", "a[3].b"} {
				g.GetString(p)
				g.GetBytes(p)
				g.GetInt64(p)
				g.GetFloat64(p)
				g.GetBool(p)
			}
			if d := zvSame(snap); d != "" {
				t.Errorf("C11: reading %s changed it: %s", x.s, d)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// typed reads of a path
	for k, v := range vals {
		if zvIsInf(v) {
			continue
		}
		root := New("r")
		root.Add("k").Out = []*Graph{{This: v}}
		cases++
		in := fmt.Sprintf("path k to %T %v (%d)", v, v, k)
		zvGuard(t, in, func() {
			n, ok := zvAsInt(v)
			if got, err := root.GetInt64("k"); (err == nil) != ok || ok && got != n {
				t.Errorf("C11: GetInt64, %s: %d %v, want %d %v", in, got, err, n, ok)
			}
			if got, err := root.GetString("k"); err != nil || got != zvAsString(v) {
				t.Errorf("C11: GetString, %s: %q %v, want %q", in, got, err, zvAsString(v))
			}
			if got, err := root.GetBytes("k"); err != nil || string(got) != zvBytesOf(v) {
				t.Errorf("C11: GetBytes, %s: %q %v, want %q", in, got, err, zvBytesOf(v))
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// the empty path reads the node itself
	g := node("42")
	if s, err := g.GetString(""); s != "42" || err != nil {
		t.Fatalf("C11: GetString of the empty path gives %q", s)
	}
	fmt.Printf("cases=%d\n", cases)
}

func zvBytesOf(v interface{}) string {
	if g, ok := v.(*Graph); ok {
		if g == nil {
			return ""
		}
		return zvAsString(g.This)
	}
	return zvAsString(v)
}

// ---- C12 ----

type zvSel struct {
	kind int // 0 name, 1 index, 2 {}, 3 {n}
	name string
	n    int
}

// zvResolve is the definition of path lookup; wrapped says that the result is below an extra root
func zvResolve(g *Graph, p []zvSel) (nodes []*Graph, node *Graph, form string) {
	ctx, prev := g, (*Graph)(nil)
	var virt []*Graph // ctx is the list of these, if not nil
	isVirt := false
	name := ""
	outs := func() []*Graph {
		if isVirt {
			return virt
		}
		return ctx.Out
	}
	for i, e := range p {
		switch e.kind {
		case 0:
			var n *Graph
			for _, m := range outs() {
				if zvTextOf(m.This) == e.name {
					n = m
					break
				}
			}
			if n == nil {
				return nil, nil, "nothing"
			}
			if isVirt {
				prev = &Graph{Out: virt}
			} else {
				prev = ctx
			}
			ctx, isVirt, name = n, false, e.name
			form = "node"
		case 1:
			o := outs()
			if e.n < 0 || e.n >= len(o) {
				return nil, nil, "nothing"
			}
			if isVirt {
				prev = &Graph{Out: virt}
			} else {
				prev = ctx
			}
			ctx, isVirt = o[e.n], false
			form = "node"
			if i == len(p)-1 {
				form = "wrapped"
			}
		case 2, 3:
			if prev == nil {
				return nil, nil, "nothing"
			}
			var l []*Graph
			k := 0
			for _, m := range prev.Out {
				if zvTextOf(m.This) == name {
					if e.kind == 2 || k == e.n {
						l = append(l, m.Out...)
					}
					k++
				}
			}
			// what the selector is applied to is no longer the context of that name
			virt, isVirt = l, true
			form = "list"
			prev = nil // see below: a second selector in a row is left out
		}
	}
	return virt, ctx, form
}

// the node that has n as a subnode
func zvParent(g, n *Graph) *Graph {
	for _, c := range g.Out {
		if c == n {
			return g
		}
		if p := zvParent(c, n); p != nil {
			return p
		}
	}
	return nil
}

func TestZV_C12(t *testing.T) {
	r := zvRand()
	cases := 0
	names := []string{"a", "b", "c", "a"}
	for it := 0; it < zvN(20000); it++ {
		g := zvTree(r, 2+r.Intn(14), func() interface{} { return names[r.Intn(len(names))] })
		if r.Intn(8) == 0 {
			zvTextVariants(r, g)
		}
		var p []zvSel
		txt := ""
		for n := 1 + r.Intn(5); n > 0; n-- {
			k := r.Intn(6)
			last := 0
			if len(p) > 0 {
				last = p[len(p)-1].kind
			}
			switch {
			case k == 0 && len(p) > 0:
				e := zvSel{1, "", r.Intn(4)}
				p = append(p, e)
				txt += fmt.Sprintf("[%d]", e.n)
			case k == 1 && len(p) > 0 && last == 0:
				p = append(p, zvSel{2, "", 0})
				txt += "{}"
			case k == 2 && len(p) > 0 && last == 0:
				e := zvSel{3, "", r.Intn(3)}
				p = append(p, e)
				txt += fmt.Sprintf("{%d}", e.n)
			default:
				e := zvSel{0, names[r.Intn(len(names))], 0}
				if len(p) > 0 {
					txt += "."
				}
				p = append(p, e)
				switch r.Intn(6) {
				case 0:
					txt += "\"" + e.name + "\""
				case 1:
					if len(p) > 1 {
						txt += "('" + e.name + "')"
					} else {
						txt += e.name
					}
				default:
					txt += e.name
				}
			}
		}
		in := txt + " in " + zvDump(g)
		zvGuard(t, in, func() {
			cases++
			snap := zvSnapshot(g)
			list, node, form := zvResolve(g, p)
			got := g.Get(txt)
			bad := func(f string, a ...interface{}) { t.Errorf("C12: %s: %s", in, fmt.Sprintf(f, a...)) }
			outs := func(h *Graph) string {
				s := ""
				for _, n := range h.Out {
					s += fmt.Sprintf(" %p", n)
				}
				return s
			}
			switch form {
			case "nothing":
				if got.Len() > 0 {
					bad("Get finds %s", zvDump(got))
				}
			case "node":
				if got != node {
					bad("Get gives %s, want %s", zvDump(got), zvDump(node))
				}
			case "wrapped":
				if got == nil || len(got.Out) != 1 || got.Out[0] != node {
					bad("Get gives %s, want a list of %s", zvDump(got), zvDump(node))
				}
			case "list":
				if got == nil && len(list) == 0 {
					break
				}
				if got == nil || outs(got) != outs(&Graph{Out: list}) {
					bad("Get gives %s, want %s", zvDump(got), zvDump(&Graph{This: "{", Out: list}))
				}
			}
			// evaluation resolves it alike
			itf, _ := g.Eval(NewPath(txt))
			h, isG := itf.(*Graph)
			var want *Graph
			switch form {
			case "nothing":
				if itf != nil && (!isG || h.Len() > 0) {
					bad("Eval gives %v", itf)
				}
			case "node":
				want = node
			case "wrapped":
				want = &Graph{Out: []*Graph{node}}
			case "list":
				want = &Graph{Out: list}
			}
			if want != nil {
				if len(want.Out) == 1 && len(want.Out[0].Out) == 0 {
					if isG || zvTextOf(itf) != zvTextOf(want.Out[0].This) {
						bad("Eval gives %v, want %v", itf, want.Out[0].This)
					}
				} else if !isG || outs(h) != outs(want) {
					bad("Eval gives %v, want %s", itf, zvDump(want))
				}
			}
			if d := zvSame(snap); d != "" {
				bad("the lookup changed the graph: %s", d)
			}
			// a list of several nodes is a graph of its own
			if form == "list" && got != nil && len(list) > 0 {
				want := outs(&Graph{Out: list})
				for k, n := range []*Graph{list[0], g} {
					m := zvParent(g, n)
					if k == 1 || m == nil {
						m = g
					}
					m.Add("new")
					if outs(got) != want {
						bad("adding to the graph changed what Get gave")
					}
					m.Out = m.Out[:len(m.Out)-1]
				}
				got.Add("new")
				if d := zvSame(snap); d != "" {
					bad("adding to what Get gave changed the graph: %s", d)
				}
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// any path at all, on any graph, does not crash nor change it
	frag := []string{"a", "b", ".", "[0]", "[1]", "[9]", "[-1]", "[a]", "[]", "{}", "{0}", "{7}", "{-1}", "{a}", "(a)", "('b')", "()", "(1+1)", "_len", "_this", "_string", "_thisString", "_json", "\"\"", "[a.b]", "{b[0]}"}
	var np *Graph
	for it := 0; it < zvN(20000); it++ {
		g := zvTree(r, r.Intn(8), func() interface{} { return names[r.Intn(len(names))] })
		if it%500 == 0 {
			g = np
		}
		s := string(zvText(r, frag))
		in := fmt.Sprintf("%q in %s", s, zvDump(g))
		zvGuard(t, in, func() {
			cases++
			snap := zvSnapshot(g)
			g.Get(s)
			g.Eval(NewPath(s))
			if d := zvSame(snap); d != "" {
				t.Errorf("C12: the lookup of %s changed the graph: %s", in, d)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

// some contents as bytes
func zvTextVariants(r *rand.Rand, g *Graph) {
	if s, ok := g.This.(string); ok && r.Intn(2) == 0 {
		g.This = []byte(s)
	}
	for _, n := range g.Out {
		zvTextVariants(r, n)
	}
}

// ---- C13 ----

func TestZV_C13(t *testing.T) {
	r := zvRand()
	cases := 0
	vals := zvValues(r)
	ops := []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}
	for _, a := range vals {
		for _, b := range vals {
			for _, op := range ops {
				cases++
				in := fmt.Sprintf("%T %v %s %T %v", a, a, op, b, b)
				zvGuard13(t, in, a, b, op)
			}
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

func zvGuard13(t *testing.T, in string, a, b interface{}, op string) {
	t.Helper()
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("C13: %s: panic: %v", in, p)
		}
	}()
	got, want, ok := zvOp(a, b, op)
	if !ok {
		return
	}
	if f, isf := want.(float64); isf {
		h, isg := got.(float64)
		if isg && zvFeq(f, h) {
			return
		}
	} else if fmt.Sprintf("%T%v", got, got) == fmt.Sprintf("%T%v", want, want) {
		return
	}
	t.Fatalf("C13: %s gives %T %v, want %T %v", in, got, got, want, want)
}

// zvOp evaluates through the interface of the package, and by definition
func zvOp(a, b interface{}, op string) (got, want interface{}, ok bool) {
	g := New("_")
	x := g.Add("x")
	x.Out = []*Graph{{This: a}}
	y := g.Add("y")
	y.Out = []*Graph{{This: b}}
	var e error
	got, e = g.Eval(NewExpression("x " + op + " y"))
	if e != nil {
		return e, nil, false
	}
	// a path evaluates to the content
	ia, aint := zvNumInt(a)
	ib, bint := zvNumInt(b)
	fa, afl := zvNumFloat(a)
	fb, bfl := zvNumFloat(b)
	switch op {
	case "&&", "||":
		p, ok1 := zvLogic(a)
		q, ok2 := zvLogic(b)
		if !ok1 || !ok2 {
			return got, false, true
		}
		if op == "&&" {
			return got, p && q, true
		}
		return got, p || q, true
	case "+", "-", "*", "/", "%":
		if aint && bint {
			switch op {
			case "+":
				return got, ia + ib, true
			case "-":
				return got, ia - ib, true
			case "*":
				return got, ia * ib, true
			}
			if ib == 0 {
				return got, nil, true
			}
			if op == "/" {
				return got, ia / ib, true
			}
			return got, ia % ib, true
		}
		anum, bnum := aint || afl, bint || bfl
		if !anum && !bnum {
			if op == "+" {
				return got, zvAsString(a) + zvAsString(b), true
			}
			return got, nil, true
		}
		if !anum {
			return got, zvAsString(a) + zvAsString(b), op == "+"
		}
		if aint {
			fa = float64(ia)
		}
		if bint {
			fb = float64(ib)
		}
		if !bnum {
			fb, _ = strconv.ParseFloat(zvAsString(b), 64)
			if math.IsNaN(fb) || math.IsInf(fb, 0) {
				return got, nil, false
			}
			if _, err := strconv.ParseFloat(zvAsString(b), 64); err != nil {
				fb = 0
			}
		}
		switch op {
		case "+":
			return got, fa + fb, true
		case "-":
			return got, fa - fb, true
		case "*":
			return got, fa * fb, true
		case "/":
			return got, fa / fb, true
		}
		if math.Abs(fa) > 9e18 || math.Abs(fb) > 9e18 || fa != fa || fb != fb {
			return got, nil, false // out of the range of integers
		}
		if int(fb) == 0 {
			return got, nil, true
		}
		return got, int(fa) % int(fb), true
	}
	cmp := func(lt, eq bool, ordered bool) bool {
		switch op {
		case "==":
			return eq
		case "!=":
			return !eq
		case "<":
			return lt
		case ">":
			return ordered && !lt && !eq
		case "<=":
			return lt || eq
		}
		return ordered && !lt
	}
	if aint {
		n, ok := zvAsInt(b)
		if zvIsInf(b) {
			return got, nil, false
		}
		if !ok {
			return got, false, true
		}
		return got, cmp(ia < n, ia == n, true), true
	}
	if afl {
		f := fb
		if bint {
			f = float64(ib)
		} else if !bfl {
			var err error
			f, err = strconv.ParseFloat(zvAsString(b), 64)
			if err != nil {
				return got, false, true
			}
		}
		return got, cmp(fa < f, fa == f, fa == fa && f == f), true
	}
	s1, s2 := zvAsString(a), zvAsString(b)
	switch op {
	case "==":
		return got, s1 == s2, true
	case "!=":
		return got, s1 != s2, true
	}
	return got, false, true
}

func zvLogic(v interface{}) (bool, bool) {
	if g, ok := v.(*Graph); ok {
		if g == nil {
			return false, false
		}
		v = g.This
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return zvAsBool(x)
	case []byte:
		return zvAsBool(string(x))
	case int:
		return x != 0, true
	case int64:
		return x != 0, true
	}
	return false, false
}

// ---- C16 ----

func zvConforms(s, x *Graph) bool {
	for i, ns := range s.Out {
		if x == nil || i >= len(x.Out) || x.Out[i] == nil {
			return false
		}
		nx := x.Out[i]
		sc, sx := zvAsString(ns.This), zvAsString(nx.This)
		ok := false
		switch sc {
		case "!int":
			_, ok = zvAsInt(nx.This)
		case "!float":
			_, ok = zvNumFloat(nx.This)
			if !ok {
				_, ok = zvNumInt(nx.This)
			}
			if !ok {
				_, err := strconv.ParseFloat(sx, 64)
				ok = err == nil
			}
		case "!bool":
			_, ok = zvLogic(nx.This)
		case "!string":
			_, ok = nx.This.(string)
		case "!binary":
			_, ok = nx.This.([]byte)
		default:
			ok = !strings.HasPrefix(sc, "!") && sx == sc
		}
		if !ok || !zvConforms(ns, nx) {
			return false
		}
	}
	return true
}

func TestZV_C16(t *testing.T) {
	r := zvRand()
	cases := 0
	types := []string{"!int", "!float", "!bool", "!string", "!binary", "!other", "!", "a", "b", "12", "", "é"}
	vals := []interface{}{"a", "b", "12", "-1", "1.5", "true", "false", "", "é", "x", nil, 3, int64(4), 2.5, float32(1), true, []byte("12"), []byte("a"), []byte{}, uint8(3), int16(5)}
	nconf := 0
	for it := 0; it < zvN(40000); it++ {
		s := zvTree(r, r.Intn(6), func() interface{} { return types[r.Intn(len(types))] })
		if r.Intn(5) == 0 {
			zvTextVariants(r, s)
		}
		// a graph that follows it, mostly
		var mk func(s *Graph, d int) *Graph
		mk = func(s *Graph, d int) *Graph {
			x := &Graph{This: s.This}
			if d > 0 {
				ty := zvAsString(s.This)
				pick := func(v ...interface{}) { x.This = v[r.Intn(len(v))] }
				switch ty {
				case "!int":
					pick("12", "-1", 3, int64(4), 2.5, []byte("7"), uint8(1))
				case "!float":
					pick("1.5", "12", 2.5, float32(1), 3)
				case "!bool":
					pick("true", "false", true, false, []byte("true"), 1)
				case "!string":
					pick("a", "", "12")
				case "!binary":
					pick([]byte("x"), []byte{})
				default:
					pick(ty, []byte(ty))
				}
			}
			for _, n := range s.Out {
				x.Out = append(x.Out, mk(n, d+1))
			}
			for r.Intn(4) == 0 {
				x.Out = append(x.Out, &Graph{This: vals[r.Intn(len(vals))]})
			}
			return x
		}
		x := mk(s, 0)
		if r.Intn(2) == 0 { // one change
			all := zvAll(x)
			n := all[r.Intn(len(all))]
			switch r.Intn(3) {
			case 0:
				n.This = vals[r.Intn(len(vals))]
			case 1:
				if len(n.Out) > 0 {
					n.Out = n.Out[:len(n.Out)-1]
				}
			case 2:
				n.Out = append([]*Graph{{This: vals[r.Intn(len(vals))]}}, n.Out...)
			}
		}
		if it%1000 == 0 {
			x = nil
		}
		in := zvDump(s) + " against " + zvDump(x)
		zvGuard(t, in, func() {
			cases++
			a, b := zvSnapshot(s), zvSnapshot(x)
			want := zvConforms(s, x)
			if want && s.Len() > 0 {
				nconf++
			}
			got, mess := s.Check(x)
			if got != want {
				t.Errorf("C16: schema %s gives %v, want %v", in, got, want)
			}
			if !got && mess == "" {
				t.Errorf("C16: schema %s: no mismatch is reported", in)
			}
			if zvSame(a) != "" || zvSame(b) != "" {
				t.Errorf("C16: the check of %s changed something", in)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d (%d conform)\n", cases, nconf)
}

func zvAll(g *Graph) []*Graph {
	l := []*Graph{g}
	for _, n := range g.Out {
		l = append(l, zvAll(n)...)
	}
	return l
}

// ---- C17 ----

// zvTokens splits JSON-like text into strings, numbers and marks
func zvTokens(b []byte) (toks []string, err string) {
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c == ' ':
			i++
		case c == '"':
			j := i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] < 32 {
					return toks, "control character in a string"
				}
				if b[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(b) {
				return toks, "unterminated string"
			}
			toks = append(toks, string(b[i:j+1]))
			i = j + 1
		case strings.IndexByte("[]{},:", c) >= 0:
			toks = append(toks, string(c))
			i++
		default:
			j := i
			for j < len(b) && strings.IndexByte(" []{},:\"", b[j]) < 0 {
				j++
			}
			toks = append(toks, string(b[i:j]))
			i = j
		}
	}
	return toks, ""
}

func zvJSONText(s string) string { // the quoted form
	o := "\""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			o += "\\" + string([]byte{c})
		case c < 32:
			o += fmt.Sprintf("\\u%04x", c)
		default:
			o += string([]byte{c})
		}
	}
	return o + "\""
}

func zvJSONValue(v interface{}) string {
	if n, ok := zvNumInt(v); ok {
		return fmt.Sprint(n)
	}
	if f, ok := zvNumFloat(v); ok {
		return fmt.Sprintf("%f", f)
	}
	return zvJSONText(zvAsString(v))
}

// zvJSONTokens is what is to be written
func zvJSONTokens(g *Graph, root bool) []string {
	if len(g.Out) == 0 {
		if root {
			return []string{"\"\""}
		}
		return []string{zvJSONValue(g.This)}
	}
	var out []string
	end := ""
	if zvAsString(g.This) == "_" && !root {
		out, end = append(out, "["), "]"
	} else if len(g.Out) > 1 {
		out, end = append(out, "{"), "}"
	}
	for i, n := range g.Out {
		if i > 0 {
			out = append(out, ",")
		}
		if len(n.Out) == 1 {
			out = append(out, zvJSONText(zvAsString(n.This)), ":")
		}
		out = append(out, zvJSONTokens(n, false)...)
	}
	if end != "" {
		out = append(out, end)
	}
	return out
}

func TestZV_C17(t *testing.T) {
	r := zvRand()
	cases := 0
	content := func() interface{} {
		switch r.Intn(12) {
		case 0:
			return r.Intn(1000) - 500
		case 1:
			return r.Int63() - r.Int63()
		case 2:
			return float64(r.Intn(1000)) / 8
		case 3:
			return float32(r.Intn(100)) / 4
		case 4:
			return "_"
		case 5:
			return r.Intn(2) == 0
		case 6:
			return nil
		case 7:
			return []byte("b\"y")
		case 8:
			b := make([]byte, r.Intn(6))
			for i := range b {
				b[i] = []byte("\"\\\n\t\x00\x1fab{}[],: é")[r.Intn(17)]
			}
			return string(b)
		case 9:
			return uint8(r.Intn(256))
		}
		return zvWords[r.Intn(len(zvWords))]
	}
	for it := 0; it < zvN(20000); it++ {
		g := zvTree(r, r.Intn(9), content)
		in := zvDump(g)
		zvGuard(t, in, func() {
			cases++
			snap := zvSnapshot(g)
			b := g.JSON()
			if d := zvSame(snap); d != "" {
				t.Errorf("C17: the JSON of %s changed the graph: %s", in, d)
			}
			got, e := zvTokens(b)
			want := zvJSONTokens(g, true)
			if e != "" || strings.Join(got, " ") != strings.Join(want, " ") {
				t.Errorf("C17: the JSON of %s is %s %s, want %s", in, b, e, strings.Join(want, " "))
			}
			// each string is one that a JSON reader understands
			for _, s := range got {
				if s[0] == '"' {
					var x string
					if json.Unmarshal([]byte(s), &x) != nil {
						t.Errorf("C17: the JSON of %s has the invalid string %s", in, s)
					}
				}
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	var np *Graph
	if np.JSON() != nil {
		t.Fatalf("C17: JSON of nil is not empty")
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C18 ----

func TestZV_C18(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(3000); it++ {
		g := New("list")
		n := r.Intn(14)
		if r.Intn(30) == 0 {
			n = 300
		}
		for k := 0; k < n; k++ {
			m := g.Add([]string{"r", fmt.Sprint("r", k), ""}[r.Intn(3)])
			if r.Intn(6) > 0 {
				f := m.Add("f")
				switch r.Intn(8) {
				case 0:
				case 1:
					f.Add(r.Intn(40) - 20)
				case 2:
					f.Add([]byte(fmt.Sprint(r.Intn(40))))
				case 3:
					f.Add(zvWords[r.Intn(len(zvWords))])
				case 4:
					f.Add(int64(math.MinInt64) + int64(r.Intn(3)))
				case 5:
					f.Add(int64(math.MaxInt64) - int64(r.Intn(3)))
				default:
					f.Add(strconv.Itoa(r.Intn(200) - 100))
				}
			}
			m.Add("other").Add(k)
			if r.Intn(4) == 0 {
				m.Add("f").Add("zz")
			}
		}
		mode := r.Intn(3)
		in := fmt.Sprintf("%s sorted in mode %d", zvShort(zvDump(g)), mode)
		if n < 15 {
			in = fmt.Sprintf("%s sorted in mode %d", zvDump(g), mode)
		}
		zvGuard(t, in, func() {
			cases++
			snap := zvSnapshot(g)
			key := func(m *Graph) (string, int64) {
				for _, x := range m.Out {
					if zvAsString(x.This) == "f" {
						if len(x.Out) == 0 {
							return "", 0
						}
						v := x.Out[0].This
						i, ok := zvAsInt(v)
						if !ok {
							i = 0
						}
						return zvAsString(v), i
					}
				}
				return "", 0
			}
			switch mode {
			case 0:
				g.Sort("f")
			case 1:
				g.SortAsString("f")
			case 2:
				g.SortAsInt("f")
			}
			if d := zvSame(snap, g); d != "" {
				t.Errorf("C18: %s: a subnode changed: %s", in, d)
			}
			a, b := []string{}, []string{}
			for _, m := range g.Out {
				a = append(a, fmt.Sprintf("%p", m))
			}
			for _, m := range snap[g].out {
				b = append(b, fmt.Sprintf("%p", m))
			}
			sort.Strings(a)
			sort.Strings(b)
			if fmt.Sprint(a) != fmt.Sprint(b) || fmt.Sprintf("%T:%v", g.This, g.This) != snap[g].this {
				t.Errorf("C18: %s: the subnodes are not the same ones", in)
				return
			}
			for i := 1; i < len(g.Out); i++ {
				s1, i1 := key(g.Out[i-1])
				s2, i2 := key(g.Out[i])
				if mode < 2 && s1 > s2 || mode == 2 && i1 > i2 {
					t.Errorf("C18: %s: %s (%d) comes before %s (%d)", in, s1, i1, s2, i2)
					return
				}
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

type zvMeth struct{}

func (zvMeth) M(x bool) int   { return 1 }
func (zvMeth) N(x string) int { return 2 }

// Contents that are Go functions or objects: a path that does not fit them has
// no result, without a crash.
func TestZV_C12functions(t *testing.T) {
	cases := 0
	fs := []interface{}{
		func(a string) string { return a },
		func() string { return "x" },
		func(g *Graph) (*Graph, error) { return nil, nil },
		func(a, b int64) int64 { return a + b },
		&zvMeth{},
	}
	tails := []string{"", "()", "(1)", "('a')", "(zz)", "(zz,zz)", "(1,2)", "(1,2,3)", ".M", ".M()", ".M(1)", ".M('true')", ".M(zz)", ".N(1)", ".N('a')", ".O(1)", ".a.b", "[0]", "{}"}
	for k, f := range fs {
		for _, tl := range tails {
			g := New("_")
			g.Add("fn").Add(f)
			in := fmt.Sprintf("fn%s with function %d", tl, k)
			zvGuard(t, in, func() {
				cases++
				g.Get("fn" + tl)
				g.Eval(NewPath("fn" + tl))
			})
			in = fmt.Sprintf("zz%s at function %d", tl, k)
			zvGuard(t, in, func() {
				cases++
				g.Node("fn").Get("zz" + tl)
				g.Node("fn").Eval(NewPath("zz" + tl))
			})
		}
	}
	fmt.Printf("cases=%d\n", cases)
}
