package ogdl

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
)

// ---- C14 ----

// zvExpr is an expression: its text, and the tree that it stands for
type zvExpr struct {
	txt  string
	tree string
	prec int // of the operator at the root, or 9
	unar bool
}

var zvOps = map[string]int{"=": 0, "+=": 0, "-=": 0, "*=": 0, "/=": 0, "%=": 0, "||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}
var zvOpList = []string{"=", "+=", "-=", "*=", "/=", "%=", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "+", "-", "*", "/"}

func zvSp(r *rand.Rand) string { return []string{"", " ", "  ", "\t"}[r.Intn(4)] }

func zvOperand(r *rand.Rand, d int) (txt, tree string) {
	switch k := r.Intn(12); {
	case k < 4:
		n := strconv.Itoa(r.Intn(30))
		if r.Intn(4) == 0 {
			n += ".5"
		}
		return n, n
	case k < 7:
		n := []string{"a", "b1", "_x", "é", "true"}[r.Intn(5)]
		if r.Intn(3) == 0 {
			return n + ".c", "!p(" + n + " c)"
		}
		return n, "!p(" + n + ")"
	case k == 7:
		return "'q r'", "!string(q r)"
	case k == 8 && d > 0:
		e, t := zvInfix(r, d-1, 1+r.Intn(3))
		return "(" + zvSp(r) + e + zvSp(r) + ")", "!g(" + t + ")"
	case k == 9 && d > 0:
		// a unary operator
		op := []string{"!", "-", "+"}[r.Intn(3)]
		var e, t string
		if r.Intn(2) == 0 {
			e, t = zvInfix(r, d-1, 1+r.Intn(3))
			e, t = "("+e+")", "!g("+t+")"
		} else {
			e = []string{"a", "zz"}[r.Intn(2)]
			t = "!p(" + e + ")"
		}
		return op + e, op + "(" + t + ")"
	case k == 10 && d > 0:
		// an index
		e, t := zvInfix(r, d-1, 1)
		return "a[" + e + "]", "!p(a !i(" + t + "))"
	}
	n := strconv.Itoa(r.Intn(30))
	return n, n
}

// zvInfix makes n operands with operators between, and groups them by definition
func zvInfix(r *rand.Rand, d, n int) (txt, tree string) {
	var trees, ops []string
	for i := 0; i < n; i++ {
		e, t := zvOperand(r, d)
		if i > 0 {
			op := zvOpList[r.Intn(len(zvOpList))]
			ops = append(ops, op)
			txt += zvSp(r) + op
			// an operator is separated from a sign that follows
			if strings.IndexByte("!-+", e[0]) >= 0 {
				txt += " "
			} else {
				txt += zvSp(r)
			}
		}
		txt += e
		trees = append(trees, t)
	}
	// split at the last operator of the lowest precedence
	var group func(lo, hi int) string
	group = func(lo, hi int) string {
		if lo == hi {
			return trees[lo]
		}
		k := -1
		for i := lo; i < hi; i++ {
			if k < 0 || zvOps[ops[i]] <= zvOps[ops[k]] {
				k = i
			}
		}
		return ops[k] + "(" + group(lo, k) + " " + group(k+1, hi) + ")"
	}
	return txt, group(0, n-1)
}

func zvPlain(g *Graph) string {
	if g == nil {
		return "<nil>"
	}
	s := zvTextOf(g.This)
	if len(g.Out) > 0 {
		s += "("
		for i, n := range g.Out {
			if i > 0 {
				s += " "
			}
			s += zvPlain(n)
		}
		s += ")"
	}
	return s
}

func TestZV_C14(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(40000); it++ {
		n := 1 + r.Intn(6)
		if r.Intn(200) == 0 {
			n = 60
		}
		txt, tree := zvInfix(r, 2, n)
		zvGuard(t, txt, func() {
			cases++
			if got := zvPlain(NewExpression(txt)); got != "!e("+tree+")" {
				t.Errorf("C14: %q groups as %s, want !e(%s)", txt, got, tree)
			}
			// the same inside a template and as an argument
			if it%4 == 0 {
				if got := zvPlain(NewTemplate("$(" + txt + ")")); got != "(!e("+tree+"))" {
					t.Errorf("C14: $(%s) groups as %s, want (!e(%s))", txt, got, tree)
				}
				if got := zvPlain(NewTemplate("$f(" + txt + ")")); got != "(!p(f !a(!e("+tree+"))))" {
					t.Errorf("C14: $f(%s) groups as %s, want (!p(f !a(!e(%s))))", txt, got, tree)
				}
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// the values of some
	g := FromString("a 6\nb 4")
	for s, want := range map[string]interface{}{"2+3*4": int64(14), "2*3+4": int64(10), "(2+3)*4": int64(20), "10-4-3": int64(3), "20/2/5": int64(2), "100%7%3": int64(2),
		"2+3==5 && 1<2": true, "1==2 || 2>=2": true, "!(1==2)": true, "-(2+3)": int64(-5), "7-10%4*2+1": int64(4), "2*(3+(4-1))*2": int64(24)} {
		if got, _ := g.Eval(NewExpression(s)); got != want {
			t.Fatalf("C14: %s gives %v, want %v", s, got, want)
		}
		cases++
	}
	// anything else does not crash
	frag := []string{"a", "1", "-", "+", "*", "==", "=", "!", "&&", "(", ")", "[", "]", ".", "'s'", " ", ",", "{", "}", "<=", "||", "%", "/", "0", "b.c", "true"}
	for it := 0; it < zvN(20000); it++ {
		s := string(zvText(r, frag))
		if len(s) > 2000 {
			s = s[:200]
		}
		zvGuard(t, s, func() {
			cases++
			e := NewExpression(s)
			if zvHoles(e) {
				t.Errorf("C14: %q: missing subnodes", s)
			}
			FromString("a 6\nb\n  c 1").Eval(e)
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d\n", cases)
}

// ---- C15 ----

type zvCtx struct {
	vars map[string][]string // name -> elements (leaf texts)
}

// zvTpl makes a template and what it stands for
type zvTpl struct {
	r    *rand.Rand
	loop int
	n    int
}

type zvEmit func(c *zvCtx, out *strings.Builder) bool

func (p *zvTpl) cond() (string, func(c *zvCtx) bool) {
	v := []string{"one", "two", "t", "f", "many", "none"}[p.r.Intn(6)]
	switch p.r.Intn(6) {
	case 0:
		return "t", func(c *zvCtx) bool { return true }
	case 1:
		return "f", func(c *zvCtx) bool { return false }
	case 2:
		return "'a'=='a'", func(c *zvCtx) bool { return true }
	case 3:
		w := []string{"x1", "y", "z2", "e1", "e2", "e3"}[p.r.Intn(6)]
		if p.loop > 0 && p.r.Intn(3) > 0 {
			v = fmt.Sprint("i", p.loop)
		}
		return v + " == '" + w + "'", func(c *zvCtx) bool { return len(c.vars[v]) > 0 && c.vars[v][0] == w }
	case 4:
		a, b := p.r.Intn(5), p.r.Intn(5)
		return fmt.Sprintf("%d<%d", a, b), func(c *zvCtx) bool { return a < b }
	}
	return "!(t == 'true')", func(c *zvCtx) bool { return false }
}

func (p *zvTpl) body(d int) (string, zvEmit) {
	txt := ""
	var parts []zvEmit
	for k := p.r.Intn(4); k >= 0; k-- {
		s, e := p.item(d)
		txt += s
		parts = append(parts, e)
	}
	return txt, func(c *zvCtx, out *strings.Builder) bool {
		for _, e := range parts {
			if e(c, out) {
				return true
			}
		}
		return false
	}
}

func (p *zvTpl) item(d int) (string, zvEmit) {
	p.n++
	k := p.r.Intn(9)
	switch {
	case k == 8 && p.loop > 0:
		return "$break ", func(c *zvCtx, out *strings.Builder) bool { return true }
	case k >= 6 && d > 0 && p.n < 60: // for
		p.loop++
		v := fmt.Sprint("i", p.loop)
		src := []string{"many", "one", "none", "two"}[p.r.Intn(4)]
		b, e := p.body(d - 1)
		p.loop--
		return "$for(" + v + "," + zvSp(p.r) + src + ")" + b + "${end}", func(c *zvCtx, out *strings.Builder) bool {
			l := c.vars[src]
			for _, x := range l {
				c.vars[v] = []string{x}
				if e(c, out) {
					break
				}
			}
			return false
		}
	case k >= 4 && d > 0 && p.n < 60: // if
		ct, cf := p.cond()
		b, e := p.body(d - 1)
		txt := "$if(" + ct + ")" + b
		conds, emits := []func(c *zvCtx) bool{cf}, []zvEmit{e}
		for p.r.Intn(3) == 0 {
			ct, cf := p.cond()
			b, e := p.body(d - 1)
			txt += "$elseif(" + ct + ")" + b
			conds, emits = append(conds, cf), append(emits, e)
		}
		if p.r.Intn(2) == 0 {
			b, e := p.body(d - 1)
			txt += "$else" + " " + b
			conds = append(conds, func(c *zvCtx) bool { return true })
			emits = append(emits, func(c *zvCtx, out *strings.Builder) bool {
				out.WriteString(" ")
				return e(c, out)
			})
		}
		return txt + "${end}", func(c *zvCtx, out *strings.Builder) bool {
			for i, f := range conds {
				if f(c) {
					return emits[i](c, out)
				}
			}
			return false
		}
	case k == 3: // a variable
		v := []string{"one", "t", "deep.er", "num", "none", "nothere"}[p.r.Intn(6)]
		if p.loop > 0 && p.r.Intn(2) == 0 {
			v = fmt.Sprint("i", 1+p.r.Intn(p.loop))
		}
		tail := []string{" ", ", ", ". ", "-", "\n", ".\n"}[p.r.Intn(6)]
		txt := "$" + v + tail
		if p.r.Intn(2) == 0 {
			txt, tail = "${"+v+"}"+"y", "y"
		}
		return txt, func(c *zvCtx, out *strings.Builder) bool {
			out.WriteString(strings.Join(c.vars[v], "") + tail)
			return false
		}
	case k == 2:
		return "$\\x", func(c *zvCtx, out *strings.Builder) bool {
			out.WriteString("$x")
			return false
		}
	}
	s := []string{"!p", "!if", "!for", "!end", "!else", "!elseif", "!break", "!e", "!t", "text ", "text ", "text ", "<p>\n", "é, ", "a.b ", "100% ", "!x ", "  ", "\"q\" ", "z) ", "\t"}[p.r.Intn(21)]
	return s, func(c *zvCtx, out *strings.Builder) bool {
		out.WriteString(s)
		return false
	}
}

func TestZV_C15(t *testing.T) {
	r := zvRand()
	cases := 0
	for it := 0; it < zvN(30000); it++ {
		p := &zvTpl{r: r}
		txt, emit := p.body(3)
		ctx := New("_")
		c := &zvCtx{map[string][]string{}}
		set := func(name string, l ...string) {
			n := ctx.Add(name)
			for _, s := range l {
				n.Add(s)
			}
			c.vars[name] = l
		}
		set("one", "x1")
		set("two", "y", "z2")
		set("many", "e1", "e2", "e3", "e4")
		set("none")
		set("t", "true")
		set("f", "false")
		ctx.Add("deep").Add("er").Add("down")
		c.vars["deep.er"] = []string{"down"}
		ctx.Add("num").Add(42)
		c.vars["num"] = []string{"42"}
		zvGuard(t, fmt.Sprintf("%q", txt), func() {
			cases++
			var out strings.Builder
			emit(c, &out)
			tpl := NewTemplate(txt)
			before := zvDump(tpl)
			snap := zvSnapshot(tpl)
			got := string(tpl.Process(ctx))
			if got != out.String() {
				t.Errorf("C15: %q gives %q, want %q", txt, got, out.String())
			}
			if zvDump(tpl) != before || zvSame(snap) != "" {
				t.Errorf("C15: processing %q changes the template", txt)
			}
			// again with the context as it is now: the same output
			if got2 := string(tpl.Process(ctx)); got2 != got && !strings.Contains(txt, "$for") {
				t.Errorf("C15: %q gives %q and then %q", txt, got, got2)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	// any template and context
	frag := []string{"a", "$a ", "$if(a)", "$if(", "$elseif(b)", "$else", "$for(x,a)", "$for(", "$for(x,b[0])", "$for()", "$end", "$break", "$(a=1)", "$(", "$", "${a}", "$a[0]", "$x", " ", "$if()", "$a._json", "$\\", "!p", "!if"}
	for it := 0; it < zvN(15000); it++ {
		s := string(zvText(r, frag))
		if len(s) > 2000 {
			s = s[:200]
		}
		g := zvTree(r, r.Intn(8), func() interface{} { return []string{"a", "b", "x", "true"}[r.Intn(4)] })
		zvGuard(t, fmt.Sprintf("%q with %s", s, zvDump(g)), func() {
			cases++
			tpl := NewTemplate(s)
			snap := zvSnapshot(tpl)
			if it%100 == 0 {
				g = nil
			}
			tpl.Process(g)
			if d := zvSame(snap); d != "" {
				t.Errorf("C15: processing %q changes the template: %s", s, d)
			}
		})
		if t.Failed() {
			t.FailNow()
		}
	}
	fmt.Printf("cases=%d\n", cases)
}
