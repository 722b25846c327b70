package main

// Contract language: lexer, parser and AST.
//
// A contract file is a sequence of declarations (see DESIGN.md, "Contract
// language"). Everything here is independent of the program under
// verification; names are resolved later, by vc.go.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

type Expr interface{}

type (
	EIdent struct{ Name string }
	EInt   struct{ V string }
	EStr   struct{ V string }
	EUn    struct {
		Op string
		X  Expr
	}
	EBin struct {
		Op   string
		X, Y Expr
	}
	ECall struct {
		F    string
		Args []Expr
		Typ  string // second argument of is/as
	}
	EIndex struct{ X, I Expr }
	ESlice struct{ X, Lo, Hi Expr }
	EField struct {
		X Expr
		F string
	}
	EQuant struct {
		Forall bool
		Vars   []Param
		Trig   [][]Expr
		Body   Expr
	}
	ECond struct{ C, A, B Expr }
	EOld  struct{ X Expr }
	ELet  struct {
		Name string
		V, B Expr
	}
)

type Param struct{ Name, Typ string }

type SpecFunc struct {
	Name   string
	Params []Param
	Ret    string
	Reads  []string
	Body   Expr
	Opaque bool // body axiom emitted only on explicit unfold
	Pkg    string
}

type Macro struct {
	Pkg    string
	Name   string
	Params []string
	Body   Expr
}

type Axiom struct {
	Name string
	E    Expr
	Raw  string
	Pkg  string
	Why  string
}

type Lemma struct {
	Name   string
	Params []Param
	Req    []Expr
	Ens    []Expr
	Induct string // int parameter for strong induction, or ""
	Uses   []Clause
	Trig   []Expr
	Pkg    string
	Props  []string
	Reads  []string
	Auto   bool
	Reveal []string
}

type Clause struct {
	Label string
	E     Expr
	Src   string
	Props []string
}

type LoopSpec struct {
	Ord    int // 0 = any loop
	Vars   []Param
	Ghosts []Param // ghost arrays: name, sort
	Inv    []Clause
	Upd    []GhostUpd
	Sets   []GhostSet
	Inits  []GhostSet // executed at the end of every iteration
	Dec    []Expr
	Uses   []Clause
	IfFn   string
}

// GhostSet is an assignment to a ghost component executed at every exit.
type GhostSet struct {
	Comp string
	Loc  Expr
	E    Expr
}

type GhostUpd struct {
	Name string
	E    Expr
}

type Modifies struct {
	Comp string // resolved component pattern, e.g. Graph.Out, mem(byte), bufstr
	Loc  Expr   // nil: everywhere
	Raw  string
}

type Contract struct {
	Key      string // pkg-qualified, e.g. ogdl.(*Graph).Node
	Params   []string
	Results  []string
	Trusted  bool
	Why      string
	Props    []string
	Req, Ens []Clause
	Mod      []Modifies
	ModAll   bool
	Dec      []Expr
	Loops    []*LoopSpec
	Assumes  []Clause // postconditions that callers assume and nobody checks
	Uses     []Clause // lemma applications assumed at entry
	ExitUses []Clause
	Ghosts   []Param // ghost results
	MayPanic bool
	Term     bool // termination must be proved
	KeepsInv bool
	Inline   bool // loop contracts only; callers inline the body
	Reveal   []string
	Expand   bool // verified, but callers see the body instead of the contract
	Sets     []GhostSet
	MathInt  bool // int and int64 treated as mathematical integers
	Pkg      string
	File     string
	Line     int
}

type GhostDecl struct {
	Pkg string
	Zero bool // fresh objects have the zero value
	Name string
	Key  string // key type (documentation)
	Sort string
}

// HeapInv is an invariant of the whole heap: it holds whenever no function
// under contract is in the middle of its body (assumed at entry and after
// calls, required at calls and exits).
type HeapInv struct {
	Name  string
	On    string
	Reads []string
	E     Expr
	Pkg   string
}

type Spec struct {
	HeapInvs  []*HeapInv
	Funcs     map[string]*SpecFunc
	FuncOrder []string
	Macros    map[string]*Macro
	Axioms    []*Axiom
	Lemmas    map[string]*Lemma
	LemOrder  []string
	Contracts map[string]*Contract
	ConOrder  []string
	Ghosts    map[string]*GhostDecl
	Owned     map[string]bool
	Counters  map[string]string // Type.field -> why
	Goroot    string
}

// ---- lexer ----

type tok struct {
	k    byte // i ident, n int, s string, o op, e eof
	v    string
	line int
	nl   bool // first token on its line
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	nl := true
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "&&", "||", "==", "!=", "<=", ">=", "->"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '@':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '@') {
				j++
			}
			out = append(out, tok{'i', src[i:j], line, nl})
			nl = false
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			out = append(out, tok{'n', src[i:j], line, nl})
			nl = false
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad string", file, line)
			}
			out = append(out, tok{'s', s, line, nl})
			nl = false
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				fatal("%s:%d: bad char", file, line)
			}
			out = append(out, tok{'n', fmt.Sprint(int(r)), line, nl})
			nl = false
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{'o', o, line, nl})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{'o', string(c), line, nl})
				i++
			}
			nl = false
		}
	}
	out = append(out, tok{'e', "", line + 1, true})
	return out
}

func fatal(f string, a ...interface{}) {
	panic(specError(fmt.Sprintf(f, a...)))
}

type specError string

type sparser struct {
	file string
	src  string
	t    []tok
	p    int
	sp   *Spec
	pkg  string
}

func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) err(f string, a ...interface{}) {
	fatal("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...))
}
func (p *sparser) isOp(v string) bool { t := p.peek(); return t.k == 'o' && t.v == v }
func (p *sparser) isId(v string) bool { t := p.peek(); return t.k == 'i' && t.v == v }
func (p *sparser) accept(v string) bool {
	t := p.peek()
	if (t.k == 'o' || t.k == 'i') && t.v == v {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(v string) {
	if !p.accept(v) {
		p.err("expected %q, got %q", v, p.peek().v)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.err("expected identifier, got %q", t.v)
	}
	return t.v
}

// a Go type, as a string: up to a delimiter at depth 0
func (p *sparser) typ() string {
	s := ""
	depth := 0
	for {
		t := p.peek()
		if t.k == 'e' {
			break
		}
		if depth == 0 && t.k == 'o' && (t.v == "," || t.v == ")" || t.v == "::" || t.v == "=" || t.v == "{" && !strings.HasSuffix(s, "interface")) {
			break
		}
		if depth == 0 && t.nl && s != "" {
			break
		}
		if depth == 0 && t.k == 'i' && (t.v == "reads" || t.v == "why" || t.v == "zeroed") {
			break
		}
		if t.k == 'o' && (t.v == "(" || t.v == "[" || t.v == "{") {
			depth++
		}
		if t.k == 'o' && (t.v == ")" || t.v == "]" || t.v == "}") {
			depth--
		}
		s += t.v
		p.p++
		if depth == 0 && t.k == 'o' && t.v == "}" {
			break
		}
	}
	return s
}

func (p *sparser) params() []Param {
	p.expect("(")
	var out []Param
	for !p.accept(")") {
		n := p.ident()
		names := []string{n}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		ty := p.typ()
		for _, n := range names {
			out = append(out, Param{n, ty})
		}
		p.accept(",")
	}
	return out
}

var prec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "*": 7, "/": 7, "%": 7,
}

func (p *sparser) expr() Expr { return p.cond() }

func (p *sparser) cond() Expr {
	if p.isId("let") {
		p.p++
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		return &ELet{n, v, p.expr()}
	}
	c := p.bin(1)
	if p.isOp("?") {
		p.p++
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &ECond{c, a, b}
	}
	return c
}

func (p *sparser) bin(min int) Expr {
	x := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.v]
		if t.k != 'o' || !ok || pr < min {
			return x
		}
		if t.nl && t.v == "*" {
			return x
		}
		p.p++
		var y Expr
		if t.v == "==>" {
			y = p.bin(pr) // right assoc
		} else {
			y = p.bin(pr + 1)
		}
		x = &EBin{t.v, x, y}
	}
}

func (p *sparser) unary() Expr {
	t := p.peek()
	if p.isId("let") {
		return p.cond()
	}
	if t.k == 'o' && (t.v == "!" || t.v == "-") {
		p.p++
		return &EUn{t.v, p.unary()}
	}
	if t.k == 'i' && (t.v == "forall" || t.v == "exists") {
		p.p++
		var vs []Param
		for {
			names := []string{p.ident()}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				vs = append(vs, Param{n, ty})
			}
			if p.accept(",") {
				continue
			}
			break
		}
		p.expect("::")
		var trig [][]Expr
		for p.isOp("{") {
			p.p++
			var tr []Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trig = append(trig, tr)
		}
		return &EQuant{t.v == "forall", vs, trig, p.expr()}
	}
	return p.postfix()
}

func (p *sparser) postfix() Expr {
	x := p.primary()
	for {
		if p.peek().nl {
			return x
		}
		switch {
		case p.isOp("."):
			p.p++
			x = &EField{x, p.ident()}
		case p.isOp("["):
			p.p++
			var lo Expr
			if p.isOp(":") {
				lo = &EInt{"0"}
			} else {
				lo = p.expr()
			}
			if p.accept(":") {
				var hi Expr
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.expect("]")
				x = &ESlice{x, lo, hi}
			} else {
				p.expect("]")
				x = &EIndex{x, lo}
			}
		default:
			return x
		}
	}
}

func (p *sparser) primary() Expr {
	t := p.next()
	switch t.k {
	case 'n':
		v, err := strconv.ParseInt(t.v, 0, 64)
		if err != nil {
			p.err("bad int %s", t.v)
		}
		return &EInt{fmt.Sprint(v)}
	case 's':
		return &EStr{t.v}
	case 'i':
		if p.isOp("(") && !p.peek().nl {
			p.p++
			if t.v == "old" {
				e := p.expr()
				p.expect(")")
				return &EOld{e}
			}
			c := &ECall{F: t.v}
			if t.v == "is" || t.v == "as" || t.v == "box" {
				c.Args = append(c.Args, p.expr())
				p.expect(",")
				c.Typ = p.typ()
				p.expect(")")
				return c
			}
			if t.v == "unchanged" {
				for !p.accept(")") {
					c.Args = append(c.Args, &EIdent{p.comp()})
					p.accept(",")
				}
				return c
			}
			for !p.accept(")") {
				c.Args = append(c.Args, p.expr())
				p.accept(",")
			}
			return c
		}
		return &EIdent{t.v}
	case 'o':
		if t.v == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.p--
	p.err("unexpected %q in expression", t.v)
	return nil
}

func (p *sparser) clause() Clause {
	start := p.p
	c := Clause{}
	// optional [label]
	if p.isOp("[") {
		p.p++
		for !p.accept("]") {
			c.Label += p.next().v
		}
	}
	s0 := p.p
	_ = start
	c.E = p.expr()
	var parts []string
	for _, t := range p.t[s0:p.p] {
		if t.k == 's' {
			parts = append(parts, strconv.Quote(t.v))
		} else {
			parts = append(parts, t.v)
		}
	}
	c.Src = strings.Join(parts, " ")
	return c
}

// function key:  name | Type.name | (*Type).name, optionally pkg. prefixed
func (p *sparser) funcKey() string {
	s := ""
	if p.isOp("(") {
		p.p++
		p.expect("*")
		s = "(*"
		s += p.ident()
		for p.accept(".") {
			s += "." + p.ident()
		}
		p.expect(")")
		p.expect(".")
		s += ")." + p.ident()
		return s
	}
	s = p.ident()
	for p.isOp(".") || p.isOp("/") {
		s += p.next().v + p.ident()
	}
	if p.isOp("$") {
		p.p++
		s += "$" + p.next().v
	}
	return s
}

func (sp *Spec) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	p := &sparser{file: file, src: string(b), t: lexSpec(file, string(b)), sp: sp}
	for p.peek().k != 'e' {
		t := p.next()
		if t.k != 'i' {
			p.p--
			p.err("unexpected %q at top level", t.v)
		}
		switch t.v {
		case "package":
			p.pkg = p.ident()
			for p.accept("/") {
				p.pkg += "/" + p.ident()
			}
		case "ghost":
			g := &GhostDecl{Pkg: p.pkg}
			g.Name = p.ident()
			g.Key = p.typ2("->")
			p.expect("->")
			g.Sort = p.typ()
			g.Zero = p.accept("zeroed")
			sp.Ghosts[g.Name] = g
		case "heapinv":
			h := &HeapInv{Pkg: p.pkg}
			h.Name = p.ident()
			p.expect("on")
			h.On = p.ident()
			p.expect("reads")
			for {
				h.Reads = append(h.Reads, p.comp())
				if !p.accept(",") {
					break
				}
			}
			p.expect("=")
			h.E = p.expr()
			sp.HeapInvs = append(sp.HeapInvs, h)
		case "owned":
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			sp.Owned[n] = true
		case "counter":
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			why := ""
			if p.accept("why") {
				why = p.next().v
			}
			sp.Counters[n] = why
		case "spec", "opaque":
			f := &SpecFunc{Pkg: p.pkg}
			f.Opaque = t.v == "opaque"
			p.accept("func")
			f.Name = p.ident()
			f.Params = p.params()
			f.Ret = p.typ()
			if p.accept("reads") {
				for {
					f.Reads = append(f.Reads, p.comp())
					if !p.accept(",") {
						break
					}
				}
			}
			if p.accept("=") {
				f.Body = p.expr()
			}
			if sp.Funcs[f.Name] != nil {
				p.err("duplicate spec func %s", f.Name)
			}
			sp.Funcs[f.Name] = f
			sp.FuncOrder = append(sp.FuncOrder, f.Name)
		case "macro":
			m := &Macro{Pkg: p.pkg, Name: p.ident()}
			p.expect("(")
			for !p.accept(")") {
				m.Params = append(m.Params, p.ident())
				p.accept(",")
			}
			p.expect("=")
			m.Body = p.expr()
			if sp.Macros[m.Name] != nil {
				fmt.Println("macro " + m.Name + " is declared twice")
				os.Exit(2)
			}
			sp.Macros[m.Name] = m
		case "axiom":
			a := &Axiom{Pkg: p.pkg}
			a.Name = p.ident()
			if p.accept("why") {
				a.Why = p.next().v
			}
			p.expect("=")
			if p.peek().k == 's' {
				a.Raw = p.next().v
			} else {
				a.E = p.expr()
			}
			sp.Axioms = append(sp.Axioms, a)
		case "lemma", "autolemma":
			l := &Lemma{Pkg: p.pkg, Auto: t.v == "autolemma"}
			l.Name = p.ident()
			l.Params = p.params()
			if p.accept("reads") {
				for {
					l.Reads = append(l.Reads, p.comp())
					if !p.accept(",") {
						break
					}
				}
			}
			for {
				switch {
				case p.isId("props") && p.peek().nl:
					p.p++
					l.Props = p.idlist()
					continue
				case p.isId("requires") && p.peek().nl:
					p.p++
					l.Req = append(l.Req, p.expr())
					continue
				case p.isId("ensures") && p.peek().nl:
					p.p++
					l.Ens = append(l.Ens, p.expr())
					continue
				case p.isId("induction") && p.peek().nl:
					p.p++
					l.Induct = p.ident()
					continue
				case p.isId("reveal") && p.peek().nl:
					p.p++
					l.Reveal = p.idlist()
					continue
				case p.isId("use") && p.peek().nl:
					p.p++
					l.Uses = append(l.Uses, p.clause())
					continue
				case p.isId("trigger") && p.peek().nl:
					p.p++
					for {
						l.Trig = append(l.Trig, p.expr())
						if !p.accept(",") {
							break
						}
					}
					continue
				}
				break
			}
			sp.Lemmas[l.Name] = l
			sp.LemOrder = append(sp.LemOrder, l.Name)
		case "func", "trusted":
			c := &Contract{Pkg: p.pkg, File: file, Line: t.line}
			if t.v == "trusted" {
				c.Trusted = true
				p.expect("func")
			}
			key := p.funcKey()
			c.Key = p.pkg + "." + key
			if p.isOp("(") && !p.peek().nl {
				p.expect("(")
				for !p.accept(")") {
					c.Params = append(c.Params, p.ident())
					p.accept(",")
				}
			}
			if p.isOp("(") && !p.peek().nl {
				p.expect("(")
				for !p.accept(")") {
					c.Results = append(c.Results, p.ident())
					p.accept(",")
				}
			}
			p.contractBody(c)
			if sp.Contracts[c.Key] != nil {
				p.err("duplicate contract %s", c.Key)
			}
			sp.Contracts[c.Key] = c
			sp.ConOrder = append(sp.ConOrder, c.Key)
		default:
			p.p--
			p.err("unknown declaration %q", t.v)
		}
	}
}

func (p *sparser) typ2(end string) string {
	s := ""
	for !p.isOp(end) {
		s += p.next().v
	}
	return s
}

// component: Type.Field | mem(T) | cell(T) | ghostname
func (p *sparser) comp() string {
	n := p.ident()
	if n == "mem" || n == "cell" {
		p.expect("(")
		t := p.typ()
		p.expect(")")
		return n + "(" + t + ")"
	}
	for p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

func (p *sparser) idlist() []string {
	var out []string
	for p.peek().k == 'i' && !p.peek().nl {
		out = append(out, p.next().v)
		p.accept(",")
	}
	return out
}

func (p *sparser) contractBody(c *Contract) {
	var loop *LoopSpec
	for {
		t := p.peek()
		if t.k != 'i' || !t.nl {
			return
		}
		switch t.v {
		case "props":
			p.p++
			c.Props = p.idlist()
		case "why":
			p.p++
			c.Why = p.next().v
		case "keepsinv": // a trusted function that may be given, and keeps, the heap invariants
			p.p++
			c.KeepsInv = true
		case "requires":
			p.p++
			c.Req = append(c.Req, p.clause())
		case "ensures":
			p.p++
			c.Ens = append(c.Ens, p.clause())
		case "assumes": // assumed by callers, not checked: listed in the evidence
			p.p++
			c.Assumes = append(c.Assumes, p.clause())
		case "inline":
			p.p++
			c.Inline = true
		case "expand":
			p.p++
			c.Expand = true
		case "set", "init":
			ini := t.v == "init"
			p.p++
			g := GhostSet{Comp: p.ident()}
			p.expect("[")
			g.Loc = p.expr()
			p.expect("]")
			p.expect(":=")
			g.E = p.expr()
			if loop != nil && ini {
				loop.Inits = append(loop.Inits, g)
			} else if loop != nil {
				loop.Sets = append(loop.Sets, g)
			} else {
				c.Sets = append(c.Sets, g)
			}
		case "mathint":
			p.p++
			c.MathInt = true
		case "reveal":
			p.p++
			c.Reveal = append(c.Reveal, p.idlist()...)
		case "maypanic":
			p.p++
			c.MayPanic = true
		case "terminates":
			p.p++
			c.Term = true
		case "modifies":
			p.p++
			if p.accept("*") {
				c.ModAll = true
				break
			}
			for {
				m := Modifies{Comp: p.comp()}
				if p.isOp("[") {
					p.p++
					m.Loc = p.expr()
					p.expect("]")
				}
				c.Mod = append(c.Mod, m)
				if !p.accept(",") {
					break
				}
			}
		case "decreases":
			p.p++
			var d []Expr
			for {
				d = append(d, p.expr())
				if !p.accept(",") {
					break
				}
			}
			if loop != nil {
				loop.Dec = d
			} else {
				c.Dec = d
			}
		case "ghostresult":
			p.p++
			n := p.ident()
			c.Ghosts = append(c.Ghosts, Param{n, p.typ()})
		case "use":
			p.p++
			if loop != nil {
				loop.Uses = append(loop.Uses, p.clause())
			} else {
				c.Uses = append(c.Uses, p.clause())
			}
		case "exituse":
			p.p++
			c.ExitUses = append(c.ExitUses, p.clause())
		case "loop":
			p.p++
			loop = &LoopSpec{}
			if p.peek().k == 'n' && !p.peek().nl {
				loop.Ord, _ = strconv.Atoi(p.next().v)
			} else if !p.peek().nl && p.accept("last") {
				loop.Ord = -1
			}
			c.Loops = append(c.Loops, loop)
		case "var":
			p.p++
			names := []string{p.ident()}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				loop.Vars = append(loop.Vars, Param{n, ty})
			}
		case "invariant":
			p.p++
			loop.Inv = append(loop.Inv, p.clause())
		case "update":
			p.p++
			n := p.ident()
			p.expect(":=")
			loop.Upd = append(loop.Upd, GhostUpd{n, p.expr()})
		default:
			return
		}
	}
}
