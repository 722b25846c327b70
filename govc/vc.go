package main

// Verification-condition generation over go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T    types.Type
	S    string
	Vec  []Val
	IsV  bool
	Addr *Addr
	Fn   *ssa.Function // statically known function value
	Bind []Val
	Iter *strIter
}

type strIter struct {
	s  string
	id int
}

type Addr struct {
	comp string // component
	ref  string
	idx  string // for mem
	T    types.Type
}

type State struct{ m map[string]string }

func (s *State) copy() *State {
	n := &State{map[string]string{}}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Item struct {
	node int
	text string
}

type Node struct {
	preds []int
	edges []string // condition of the edge from each predecessor
	reach string
}

type Oblig struct {
	Fn    string
	Kind  string
	Label string
	Pos   string
	Goal  string
	Node  int
	Upto  int
	Props []string
	Cand  int // -1, or candidate index
	Split []string // integers at which quantified goals may be split
	Src   string

	// results
	Status  string
	Backend string
	Ms      int64
	Out     string
}

type Cand struct {
	desc string
	user bool
	drop bool
}

type Comp struct {
	name string
	sort string
	elem types.Type // element value type
	key  string     // "ref", "mem", "scalar"
}

type VC struct {
	P     *Program
	Sp    *Spec
	key   string
	con   *Contract
	pkg   *types.Package
	decls []string
	items []Item
	nodes []*Node
	obs   []*Oblig
	cands []*Cand
	nsym  int

	baseDeclared map[string]bool
	lits         map[string]string
	litOrder     []string
	usedFuncs    map[string]bool
	funcOrder    []string
	notes        map[string]bool
	unsupported  map[string]bool
	contracts    map[string]bool // callee contracts relied upon
	inlined      map[string]bool
	pre          []string
	preAx        []string
	autoLem      map[string]bool
	depth        int
	top          *Frame
	entry        *State
	params       map[string]Val
	flts         map[string]string
	blits        map[string]bool
	nofacts      int
	curLemma     *Lemma
	loopNo       int
	usedLemmas   map[string]bool
	mathint      bool
	hinvOn       map[string]bool
	hinvKnown    map[string][]int // heap invariant state key -> nodes where it is known
}

var comps = map[string]*Comp{}

func newVC(P *Program, Sp *Spec, key string) *VC {
	return &VC{P: P, Sp: Sp, key: key, baseDeclared: map[string]bool{}, lits: map[string]string{},
		usedFuncs: map[string]bool{}, notes: map[string]bool{}, unsupported: map[string]bool{},
		contracts: map[string]bool{}, inlined: map[string]bool{}, autoLem: map[string]bool{}, flts: map[string]string{},
		blits: map[string]bool{}, usedLemmas: map[string]bool{}}
}

func (vc *VC) fresh(hint, sort string) string {
	vc.nsym++
	s := q(fmt.Sprintf("%s@%d", hint, vc.nsym))
	vc.decls = append(vc.decls, fmt.Sprintf("(declare-const %s %s)", s, sort))
	return s
}

func (vc *VC) fact(node int, t string) {
	if t == "true" || t == "" {
		return
	}
	vc.items = append(vc.items, Item{node, t})
}

// path fact: holds when node is reached
func (vc *VC) pfact(node int, t string) {
	if t == "true" || t == "" {
		return
	}
	vc.fact(node, sImp(vc.nodes[node].reach, t))
}

func (vc *VC) newNode(preds []int, reach string) int {
	n := &Node{preds: preds}
	vc.nodes = append(vc.nodes, n)
	id := len(vc.nodes) - 1
	if len(reach) > 12 {
		s := vc.fresh("R", "Bool")
		n.reach = s
		vc.fact(id, sEq(s, reach))
	} else {
		n.reach = reach
	}
	return id
}

func (vc *VC) def(node int, hint, sort, t string) string {
	if len(t) < 24 && !strings.Contains(t, " (") {
		return t
	}
	s := vc.fresh(hint, sort)
	vc.fact(node, sEq(s, t))
	return s
}

func (vc *VC) oblige(node int, kind, label, pos, goal string, cand int) *Oblig {
	if goal == "true" {
		// still counted: discharged by the generator's simplifier
		o := &Oblig{Fn: vc.key, Kind: kind, Label: label, Pos: pos, Goal: goal, Node: node, Upto: len(vc.items), Cand: cand, Status: "trivial"}
		vc.obs = append(vc.obs, o)
		return o
	}
	o := &Oblig{Fn: vc.key, Kind: kind, Label: label, Pos: pos, Goal: goal, Node: node, Upto: len(vc.items), Cand: cand}
	vc.obs = append(vc.obs, o)
	return o
}

// assert then assume
func (vc *VC) check(node int, kind, label, pos, goal string) *Oblig {
	o := vc.oblige(node, kind, label, pos, goal, -1)
	vc.pfact(node, goal)
	return o
}

func (vc *VC) note(f string, a ...interface{})  { vc.notes[fmt.Sprintf(f, a...)] = true }
func (vc *VC) unsup(f string, a ...interface{}) { vc.unsupported[fmt.Sprintf(f, a...)] = true }

// ---- sorts and components ----

func under(t types.Type) types.Type {
	if g, ok := t.(*GArr); ok {
		return g
	}
	return t.Underlying()
}

func sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsString != 0:
			return "Str"
		case i&types.IsFloat != 0:
			return "Flt"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Itf"
	case *GArr:
		return "(Array " + sortOf(u.K) + " " + sortOf(u.V) + ")"
	case *types.Array:
		return "(Array Int " + sortOf(u.Elem()) + ")"
	}
	return "Int"
}

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

func structOf(t types.Type) *types.Struct { s, _ := under(t).(*types.Struct); return s }

func ctstr(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*GArr); ok {
		return t.String()
	}
	s := tstr(t)
	s = strings.ReplaceAll(s, "interface {", "interface{")
	if s == "any" {
		s = "interface{}"
	}
	return s
}

func fieldComp(t types.Type, i int) *Comp {
	st := structOf(t)
	f := st.Field(i)
	name := "F:" + ctstr(t) + "." + f.Name()
	c := comps[name]
	if c == nil {
		c = &Comp{name: name, elem: f.Type(), key: "ref", sort: "(Array Int " + sortOf(f.Type()) + ")"}
		comps[name] = c
	}
	return c
}

func memComp(el types.Type) *Comp {
	name := "M:" + ctstr(el)
	if ctstr(el) == "byte" {
		name = "M:uint8"
	}
	if ctstr(el) == "rune" {
		name = "M:int32"
	}
	c := comps[name]
	if c == nil {
		c = &Comp{name: name, elem: el, key: "mem", sort: "(Array Int (Array Int " + sortOf(el) + "))"}
		comps[name] = c
	}
	return c
}

func cellComp(el types.Type) *Comp {
	name := "C:" + ctstr(el)
	c := comps[name]
	if c == nil {
		c = &Comp{name: name, elem: el, key: "ref", sort: "(Array Int " + sortOf(el) + ")"}
		comps[name] = c
	}
	return c
}

func init() {
	comps["next"] = &Comp{name: "next", sort: "Int", key: "scalar", elem: types.Typ[types.Int]}
	comps["owner"] = &Comp{name: "owner", sort: "(Array Int Int)", key: "ref", elem: types.Typ[types.Int]}
}

// resolve component pattern of a contract
func (vc *VC) compByPattern(s string, pkg *types.Package) (*Comp, error) {
	if strings.HasPrefix(s, "mem(") || strings.HasPrefix(s, "cell(") {
		in := s[strings.Index(s, "(")+1 : len(s)-1]
		t, err := vc.P.resolveType(in, pkg)
		if err != nil {
			return nil, err
		}
		if s[0] == 'm' {
			return memComp(t), nil
		}
		return cellComp(t), nil
	}
	if g := vc.Sp.Ghosts[s]; g != nil {
		return vc.ghostComp(g, pkg), nil
	}
	if s == "owner" || s == "next" {
		return comps[s], nil
	}
	k := strings.LastIndex(s, ".")
	if k < 0 {
		return nil, fmt.Errorf("unknown component %s", s)
	}
	t, err := vc.P.resolveType(s[:k], pkg)
	if err != nil {
		return nil, err
	}
	st := structOf(t)
	if st == nil {
		return nil, fmt.Errorf("%s is not a struct", s[:k])
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == s[k+1:] {
			return fieldComp(t, i), nil
		}
	}
	return nil, fmt.Errorf("no field %s", s)
}

func (vc *VC) ghostComp(g *GhostDecl, pkg *types.Package) *Comp {
	name := "g:" + g.Name
	c := comps[name]
	if c == nil {
		if tp := vc.P.tpkgs[g.Pkg]; tp != nil {
			pkg = tp
		}
		t, err := vc.P.resolveType(g.Sort, pkg)
		if err != nil {
			fatal("ghost %s: %v", g.Name, err)
		}
		if g.Key == "" || g.Key == "()" {
			c = &Comp{name: name, elem: t, key: "scalar", sort: sortOf(t)}
		} else {
			c = &Comp{name: name, elem: t, key: "ref", sort: "(Array Int " + sortOf(t) + ")"}
		}
		comps[name] = c
	}
	return c
}

func (vc *VC) get(st *State, c *Comp) string {
	if v, ok := st.m[c.name]; ok {
		return v
	}
	s := q(c.name + "@0")
	if !vc.baseDeclared[c.name] {
		vc.baseDeclared[c.name] = true
		vc.pre = append(vc.pre, fmt.Sprintf("(declare-const %s %s)", s, c.sort))
		if c.name == "next" {
			vc.preAx = append(vc.preAx, "(assert (> "+s+" 1000))")
		} else {
			if ax := vc.baseAxiom(s, c, &State{map[string]string{}}); ax != "" {
				vc.preAx = append(vc.preAx, "(assert "+ax+")")
			}
		}
	}
	return s
}

func (vc *VC) next(st *State) string { return vc.get(st, comps["next"]) }

// well-formedness of a whole component symbol (for allocated keys)
func (vc *VC) baseAxiom(s string, c *Comp, st *State) string {
	nx := vc.next(st)
	own := vc.ownedComp(c)
	switch c.key {
	case "ref":
		if c.name == "owner" {
			return fmt.Sprintf("(forall ((r! Int)) (! (=> (< r! %[1]s) (and (<= 0 %[2]s) (< %[2]s %[1]s))) :pattern (%[2]s)))", nx, sSel(s, "r!"))
		}
		f := vc.typeFactN(sSel(s, "r!"), c.elem, nx)
		if own {
			f = sAnd(f, sOr(sEq("(sl_b "+sSel(s, "r!")+")", "0"), sEq(sSel(vc.get(st, comps["owner"]), "(sl_b "+sSel(s, "r!")+")"), "r!")))
		}
		if f == "true" {
			return ""
		}
		return fmt.Sprintf("(forall ((r! Int)) (! (=> %s %s) :pattern (%s)))", vc.P.allocGuard(c, "r!", nx), f, sSel(s, "r!"))
	case "mem":
		if c.name == "M:uint8" {
			return fmt.Sprintf("(forall ((r! Int) (i! Int)) (! (and (<= 0 %[1]s) (<= %[1]s 255)) :pattern (%[1]s)))", sSel(sSel(s, "r!"), "i!"))
		}
		f := vc.typeFactN(sSel(sSel(s, "r!"), "i!"), c.elem, nx)
		if f == "true" {
			return ""
		}
		return fmt.Sprintf("(forall ((r! Int) (i! Int)) (! (=> (< r! %s) %s) :pattern (%s)))", nx, f, sSel(sSel(s, "r!"), "i!"))
	}
	return ""
}

// allocGuard: r is an allocated key of the component when nx is the next address. Structs within
// structs have keys of their own, that count as allocated with the struct they are part of.
func (P *Program) allocGuard(c *Comp, r, nx string) string {
	in := strings.HasPrefix(c.name, "g:")
	if strings.HasPrefix(c.name, "F:") {
		n := c.name[2:]
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[:i]
		}
		for t := range P.interiorTypes() {
			if t == n || strings.HasSuffix(t, "/"+n) {
				in = true
			}
		}
	}
	if in {
		return app("isal", r, nx)
	}
	return app("<", r, nx)
}

func (vc *VC) ownedComp(c *Comp) bool {
	n, ok := compField(c.name)
	return ok && vc.Sp.Owned[n]
}

// compField gives Type.field for the component of a field
func compField(name string) (string, bool) {
	if !strings.HasPrefix(name, "F:") {
		return "", false
	}
	n := name[2:]
	if i := strings.Index(n, "."); i >= 0 {
		// pkg.Type.field -> Type.field
		if strings.Count(n, ".") == 2 {
			n = n[i+1:]
		}
	}
	return n, true
}

var interiorCache map[string]bool

func (P *Program) interiorTypes() map[string]bool {
	if interiorCache != nil {
		return interiorCache
	}
	m := map[string]bool{}
	add := func(t types.Type) {
		for {
			switch u := under(t).(type) {
			case *types.Array:
				m[types.TypeString(t, nil)] = true
				t = u.Elem()
				continue
			case *types.Slice:
				t = u.Elem()
				if isStruct(t) {
					m[types.TypeString(t, nil)] = true
				}
				return
			case *types.Struct:
				m[types.TypeString(t, nil)] = true
			}
			return
		}
	}
	for sp := range P.inRepo {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if st := structOf(o.Type()); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						add(st.Field(i).Type())
					}
				}
			case *types.Var:
				add(o.Type())
			}
		}
	}
	interiorCache = m
	return m
}

var ranges = map[types.BasicKind][2]string{
	types.Int: {"(- 9223372036854775808)", "9223372036854775807"}, types.Int64: {"(- 9223372036854775808)", "9223372036854775807"},
	types.Int32: {"(- 2147483648)", "2147483647"}, types.Int16: {"(- 32768)", "32767"}, types.Int8: {"(- 128)", "127"},
	types.Uint: {"0", "18446744073709551615"}, types.Uint64: {"0", "18446744073709551615"}, types.Uintptr: {"0", "18446744073709551615"},
	types.Uint32: {"0", "4294967295"}, types.Uint16: {"0", "65535"}, types.Uint8: {"0", "255"},
}
var wraps = map[types.BasicKind]string{types.Int: "w64", types.Int64: "w64", types.Int32: "w32", types.Int16: "w16", types.Int8: "w8",
	types.Uint: "u64", types.Uint64: "u64", types.Uintptr: "u64", types.Uint32: "u32", types.Uint16: "u16", types.Uint8: "u8"}

func (vc *VC) typeFactN(t string, T types.Type, nx string) string {
	switch u := under(T).(type) {
	case *types.Basic:
		if r, ok := ranges[u.Kind()]; ok {
			return sAnd(app("<=", r[0], t), app("<=", t, r[1]))
		}
	case *types.Pointer:
		f := app("<", t, nx)
		if !vc.P.interiorTypes()[types.TypeString(u.Elem(), nil)] && isStruct(u.Elem()) {
			f = sAnd(app("<=", "0", t), f)
		}
		return f
	case *types.Slice:
		return sAnd(app("<=", "0", "(sl_o "+t+")"), app("<=", "0", "(sl_n "+t+")"), app("<=", "(sl_n "+t+")", "(sl_c "+t+")"),
			app("<=", "(sl_c "+t+")", "281474976710656"), app("<=", "0", "(sl_b "+t+")"), app("<", "(sl_b "+t+")", nx),
			sImp(sEq("(sl_b "+t+")", "0"), sEq(t, "nil_sl")))
	case *types.Interface:
		return sAnd(sImp("((_ is i_ref) "+t+")", app("<", "(itf_ref "+t+")", nx)),
			sImp("((_ is i_bytes) "+t+")", vc.typeFactN("(itf_bytes "+t+")", types.NewSlice(types.Typ[types.Uint8]), nx)),
			vc.graphPtrFact(t))
	}
	return "true"
}

// pointers to non-interior struct types held in interfaces are non-negative
func (vc *VC) graphPtrFact(t string) string {
	return "true"
}

func (vc *VC) typeFact(v Val, st *State) string {
	if v.IsV {
		var fs []string
		for _, x := range v.Vec {
			fs = append(fs, vc.typeFact(x, st))
		}
		return sAnd(fs...)
	}
	if v.Addr != nil || v.S == "" {
		return "true"
	}
	if sortOf(v.T) == "Str" {
		return app("<=", app("slen", v.S), "281474976710656")
	}
	return vc.typeFactN(v.S, v.T, vc.next(st))
}

func (vc *VC) freshVal(hint string, T types.Type) Val {
	if t, ok := T.(*types.Tuple); ok {
		v := Val{T: T, IsV: true}
		for i := 0; i < t.Len(); i++ {
			v.Vec = append(v.Vec, vc.freshVal(fmt.Sprintf("%s.%d", hint, i), t.At(i).Type()))
		}
		return v
	}
	if st := structOf(T); st != nil {
		v := Val{T: T, IsV: true}
		for i := 0; i < st.NumFields(); i++ {
			v.Vec = append(v.Vec, vc.freshVal(hint+"."+st.Field(i).Name(), st.Field(i).Type()))
		}
		return v
	}
	return Val{T: T, S: vc.fresh(hint, sortOf(T))}
}

func (vc *VC) zero(T types.Type) Val {
	if st := structOf(T); st != nil {
		v := Val{T: T, IsV: true}
		for i := 0; i < st.NumFields(); i++ {
			v.Vec = append(v.Vec, vc.zero(st.Field(i).Type()))
		}
		return v
	}
	return Val{T: T, S: vc.zeroTerm(T)}
}

func (vc *VC) zeroTerm(T types.Type) string {
	switch u := under(T).(type) {
	case *types.Array:
		return "((as const " + sortOf(T) + ") " + vc.zeroTerm(u.Elem()) + ")"
	}
	switch sortOf(T) {
	case "Bool":
		return "false"
	case "Str":
		return "sempty"
	case "Flt":
		return vc.fltLit("0")
	case "Slice":
		return "nil_sl"
	case "Itf":
		return "i_nil"
	}
	return "0"
}

func (vc *VC) fltLit(s string) string {
	if v, ok := vc.flts[s]; ok {
		return v
	}
	k := len(vc.flts)
	v := fmt.Sprintf("(fconst %d)", k)
	vc.flts[s] = v
	return v
}

func (vc *VC) strLit(s string) string {
	if s == "" {
		return "sempty"
	}
	if v, ok := vc.lits[s]; ok {
		return v
	}
	h := s
	if len(h) > 12 {
		h = h[:12]
	}
	name := ""
	for i := 0; i < len(h); i++ {
		c := h[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			name += string(c)
		} else {
			name += "_"
		}
	}
	v := fmt.Sprintf("lit%d_%s", len(vc.lits), name)
	vc.lits[s] = v
	vc.litOrder = append(vc.litOrder, s)
	return v
}

func (vc *VC) globalIndex(name string) int {
	if globIdx == nil {
		globIdx = map[string]int{}
	}
	if k, ok := globIdx[name]; ok {
		return k
	}
	globIdx[name] = len(globIdx) + 1
	return globIdx[name]
}

var globIdx map[string]int

func (vc *VC) globalVal(g *ssa.Global) (Val, bool) {
	T := g.Type().(*types.Pointer).Elem()
	if vc.P.gstores[g] {
		return Val{}, false
	}
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	return vc.globalConst(name, T), true
}

func (vc *VC) globalConst(name string, T types.Type) Val {
	if isStruct(T) {
		v := vc.freshVal("G:"+name, T)
		return v
	}
	sym := q("G:" + name)
	if !vc.baseDeclared["G:"+name] {
		vc.baseDeclared["G:"+name] = true
		vc.pre = append(vc.pre, fmt.Sprintf("(declare-const %s %s)", sym, sortOf(T)))
		if ctstr(T) == "error" {
			vc.preAx = append(vc.preAx, fmt.Sprintf("(assert (= %s (i_ref %d (- %d))))", sym, 999999, vc.globalIndex(name)))
			vc.note("package-level error values (%s, ...) are pairwise distinct, non-nil and never reassigned", "ErrX, io.EOF")
		} else {
			f := vc.typeFactN(sym, T, vc.next(&State{map[string]string{}}))
			if f != "true" {
				vc.preAx = append(vc.preAx, "(assert "+f+")")
			}
		}
	}
	return Val{T: T, S: sym}
}

// ---- loads and stores ----

func (vc *VC) load(node int, st *State, a *Addr, ref string, T types.Type) Val {
	if a != nil {
		c := comps[a.comp]
		t := vc.get(st, c)
		if a.idx != "" {
			return Val{T: T, S: sSel(sSel(t, a.ref), a.idx)}
		}
		return Val{T: T, S: sSel(t, a.ref)}
	}
	if s := structOf(T); s != nil {
		v := Val{T: T, IsV: true}
		for i := 0; i < s.NumFields(); i++ {
			v.Vec = append(v.Vec, vc.loadField(node, st, T, i, ref))
		}
		return v
	}
	if at, ok := under(T).(*types.Array); ok {
		return Val{T: T, S: sSel(vc.get(st, memComp(at.Elem())), ref)}
	}
	return Val{T: T, S: sSel(vc.get(st, cellComp(T)), ref)}
}

func (vc *VC) loadField(node int, st *State, T types.Type, i int, ref string) Val {
	f := structOf(T).Field(i)
	if isStruct(f.Type()) {
		return vc.load(node, st, nil, interiorRef(ref, T, i), f.Type())
	}
	if at, ok := under(f.Type()).(*types.Array); ok {
		return Val{T: f.Type(), S: sSel(vc.get(st, memComp(at.Elem())), interiorRef(ref, T, i))}
	}
	c := fieldComp(T, i)
	return Val{T: f.Type(), S: sSel(vc.get(st, c), ref)}
}

func interiorRef(ref string, T types.Type, i int) string {
	return app("interior", ref, fmt.Sprint(i))
}

func (vc *VC) setComp(node int, st *State, c *Comp, t string) {
	s := vc.fresh(c.name, c.sort)
	vc.fact(node, sEq(s, t))
	st.m[c.name] = s
}

func (vc *VC) store(node int, st *State, a *Addr, ref string, T types.Type, v Val, pos string) {
	if a != nil {
		c := comps[a.comp]
		t := vc.get(st, c)
		if v.S == "" {
			vc.unsup("store of unmodelled value at %s", pos)
			v = vc.freshVal("unk", T)
		}
		if a.idx != "" {
			vc.setComp(node, st, c, sStore(t, a.ref, sStore(sSel(t, a.ref), a.idx, v.S)))
			return
		}
		if vc.ownedComp(c) {
			ow := vc.get(st, comps["owner"])
			b := "(sl_b " + v.S + ")"
			vc.check(node, "owner", c.name[2:]+" is not shared", pos, sOr(sEq(b, "0"), sEq(sSel(ow, b), a.ref), sEq(sSel(ow, b), "0")))
			vc.setComp(node, st, comps["owner"], sIte(sEq(b, "0"), ow, sStore(ow, b, a.ref)))
		}
		vc.setComp(node, st, c, sStore(t, a.ref, v.S))
		return
	}
	if s := structOf(T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			var fv Val
			if v.IsV && i < len(v.Vec) {
				fv = v.Vec[i]
			} else {
				vc.unsup("struct store of unmodelled value at %s", pos)
				fv = vc.freshVal("unk", f.Type())
			}
			if isStruct(f.Type()) {
				vc.store(node, st, nil, interiorRef(ref, T, i), f.Type(), fv, pos)
			} else if at, ok := under(f.Type()).(*types.Array); ok {
				c := memComp(at.Elem())
				vc.setComp(node, st, c, sStore(vc.get(st, c), interiorRef(ref, T, i), fv.S))
			} else {
				vc.store(node, st, &Addr{comp: fieldComp(T, i).name, ref: ref, T: f.Type()}, "", f.Type(), fv, pos)
			}
		}
		return
	}
	if at, ok := under(T).(*types.Array); ok {
		c := memComp(at.Elem())
		vc.setComp(node, st, c, sStore(vc.get(st, c), ref, v.S))
		return
	}
	c := cellComp(T)
	vc.setComp(node, st, c, sStore(vc.get(st, c), ref, v.S))
}

func (vc *VC) alloc(node int, st *State) string {
	nx := vc.next(st)
	r := vc.def(node, "new", "Int", nx)
	nn := vc.fresh("next", "Int")
	vc.fact(node, sEq(nn, app("+", nx, "1")))
	st.m["next"] = nn
	vc.fact(node, sEq(sSel(vc.get(st, comps["owner"]), r), "0"))
	for _, g := range sortedKeys(vc.Sp.Ghosts) {
		if gd := vc.Sp.Ghosts[g]; gd.Zero {
			c := vc.ghostComp(gd, vc.pkg)
			vc.fact(node, sEq(sSel(vc.get(st, c), r), vc.zeroTerm(c.elem)))
		}
	}
	// the cells of components this object does not have are never read: fix them to zero
	for _, h := range vc.Sp.HeapInvs {
		if !vc.hinvOn[h.Name] {
			continue
		}
		for _, c := range vc.hinvComps(h) {
			if c.key == "ref" {
				vc.fact(node, sEq(sSel(vc.get(st, c), r), vc.zeroTerm(c.elem)))
			}
		}
	}
	return r
}

// ---- frames ----

type edgeInfo struct {
	node int
	cond string // condition for the edge given node reached
	st   *State
}

type Frame struct {
	vc     *VC
	fn     *ssa.Function
	con    *Contract
	vals   map[ssa.Value]Val
	prefix string
	parent *Frame
	exits  []exitInfo
	out    map[*ssa.BasicBlock]*blockOut
	loops  map[*ssa.BasicBlock]*loopInfo
	stack  []string
	defers []deferred
	may    bool
}

type blockOut struct {
	node int
	st   *State
	cond string // If condition
}

type exitInfo struct {
	node int
	st   *State
	vals []Val
	blk  *ssa.BasicBlock
	pos  string
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
	phis   []*ssa.Phi

	// translation
	invs    []*loopInv
	entrySt *State
	headSt  *State
	decs    []*loopDec
	updates []*loopUpd
	uses    []func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int, hdr bool) (string, error)
	node    int
}

type loopInv struct {
	cand  int
	desc  string
	ev    func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) (string, error)
	props []string
}

type loopDec struct {
	head []string
	ev   func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) ([]string, error)
}

type loopUpd struct {
	name string
	comp *Comp // ghost component assignment
	ev   func(st *State, blk *ssa.BasicBlock, node int) (string, error)
}

func (vc *VC) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := vc.P.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, vc.P.repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range m {
		hs = append(hs, h)
	}
	// order loops by source position of their headers' first positioned instruction in the body
	key := func(h *ssa.BasicBlock) token.Pos {
		best := token.NoPos
		for b := range m[h].body {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok { // a phi has the position of the variable's declaration
					continue
				}
				if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
					best = p
				}
			}
		}
		return best
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := key(hs[i]), key(hs[j])
		if a != b {
			return a < b
		}
		if x, y := len(m[hs[i]].body), len(m[hs[j]].body); x != y {
			return x > y
		}
		return hs[i].Index < hs[j].Index
	})
	for i, h := range hs {
		m[h].ord = i + 1
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				m[h].phis = append(m[h].phis, p)
			}
		}
	}
	return m
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (vc *VC) mergeVals(hint string, T types.Type, conds []string, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	same := true
	for _, v := range vs[1:] {
		if v.IsV || vs[0].IsV || v.S != vs[0].S || v.Addr != nil || vs[0].Addr != nil || v.S == "" {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if vs[0].IsV {
		out := Val{T: T, IsV: true}
		for i := range vs[0].Vec {
			var ws []Val
			for _, v := range vs {
				if i < len(v.Vec) {
					ws = append(ws, v.Vec[i])
				}
			}
			if len(ws) != len(vs) {
				return vc.freshVal(hint, T)
			}
			out.Vec = append(out.Vec, vc.mergeVals(hint, ws[0].T, conds, ws))
		}
		return out
	}
	for _, v := range vs {
		if v.S == "" {
			vc.unsup("merge of unmodelled values (%s)", hint)
			return vc.freshVal(hint, T)
		}
	}
	t := vs[len(vs)-1].S
	for i := len(vs) - 2; i >= 0; i-- {
		t = sIte(conds[i], vs[i].S, t)
	}
	return Val{T: T, S: t}
}

func (vc *VC) mergeStates(node int, conds []string, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].copy()
	}
	out := &State{map[string]string{}}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var ts []string
		for _, s := range sts {
			if v, ok := s.m[k]; ok {
				ts = append(ts, v)
			} else if c := comps[k]; c != nil {
				ts = append(ts, vc.get(s, c))
			} else {
				ts = append(ts, "")
			}
		}
		same := true
		miss := false
		for _, t := range ts {
			if t != ts[0] {
				same = false
			}
			if t == "" {
				miss = true
			}
		}
		if miss {
			continue
		}
		if same {
			out.m[k] = ts[0]
			continue
		}
		t := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			t = sIte(conds[i], ts[i], t)
		}
		so := ""
		if c := comps[k]; c != nil {
			so = c.sort
		} else {
			so = vc.ghostSort(k)
		}
		s := vc.fresh(k, so)
		vc.fact(node, sEq(s, t))
		out.m[k] = s
	}
	return out
}

func (vc *VC) ghostSort(k string) string {
	return ghostVarSorts[k]
}

var ghostVarSorts = map[string]string{}

// run translates the body of fr.fn starting in node/st. Exits are recorded in fr.exits.
func (fr *Frame) run(node int, st *State) {
	vc := fr.vc
	fr.loops = findLoops(fr.fn)
	fr.out = map[*ssa.BasicBlock]*blockOut{}
	order := rpo(fr.fn)
	for _, b := range order {
		var bnode int
		var bst *State
		var inPreds []*ssa.BasicBlock
		var conds []string
		if b == fr.fn.Blocks[0] {
			bnode, bst = node, st
			if fr.loops[b] != nil {
				bst = st.copy()
			}
		} else {
			var pn []int
			var sts []*State
			var rs []string
			var idxs []int
			for i, p := range b.Preds {
				if b.Dominates(p) {
					continue // back edge
				}
				o := fr.out[p]
				if o == nil {
					continue // unreachable predecessor
				}
				c := fr.edgeCond(p, b, i)
				if c == "false" {
					continue
				}
				pn = append(pn, o.node)
				sts = append(sts, o.st)
				r := sAnd(vc.nodes[o.node].reach, c)
				rs = append(rs, r)
				conds = append(conds, r)
				inPreds = append(inPreds, p)
				idxs = append(idxs, i)
			}
			if len(pn) == 0 {
				continue
			}
			bnode = vc.newNode(pn, sOr(rs...))
			vc.nodes[bnode].edges = rs
			if len(sts) == 1 {
				bst = sts[0].copy()
			} else {
				bst = vc.mergeStates(bnode, conds, sts)
			}
			// phis
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var vs []Val
				for _, i := range idxs {
					vs = append(vs, fr.val(phi.Edges[i], sts, bst))
				}
				v := vc.mergeVals(fr.hint(phi), phi.Type(), conds, vs)
				fr.vals[phi] = fr.named(bnode, fr.hint(phi), v)
			}
		}
		if l := fr.loops[b]; l != nil {
			fr.enterLoop(l, bnode, bst)
		}
		fr.block(b, bnode, bst)
	}
}

func (fr *Frame) hint(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return fr.prefix + p.Comment
	}
	return fr.prefix + v.Name()
}

// named gives compound terms a symbol
func (fr *Frame) named(node int, hint string, v Val) Val {
	if v.IsV {
		w := v
		w.Vec = nil
		for i, x := range v.Vec {
			w.Vec = append(w.Vec, fr.named(node, fmt.Sprintf("%s.%d", hint, i), x))
		}
		return w
	}
	if v.S == "" || v.Addr != nil {
		return v
	}
	v.S = fr.vc.def(node, hint, sortOf(v.T), v.S)
	return v
}

func (fr *Frame) edgeCond(p, b *ssa.BasicBlock, predIdx int) string {
	o := fr.out[p]
	if len(p.Succs) == 2 {
		if p.Succs[0] == b && p.Succs[1] == b {
			n := 0
			for i := 0; i < predIdx; i++ {
				if b.Preds[i] == p {
					n++
				}
			}
			if n == 0 {
				return o.cond
			}
			return sNot(o.cond)
		}
		if p.Succs[0] == b {
			return o.cond
		}
		return sNot(o.cond)
	}
	return "true"
}

func (fr *Frame) block(b *ssa.BasicBlock, node int, st *State) {
	vc := fr.vc
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			fr.out[b] = &blockOut{node, st, fr.val1(in.Cond, st).S}
		case *ssa.Jump:
			fr.out[b] = &blockOut{node, st, "true"}
		case *ssa.Return:
			e := exitInfo{node: node, st: st, blk: b, pos: vc.pos(in.Pos())}
			for _, r := range in.Results {
				e.vals = append(e.vals, fr.val1(r, st))
			}
			fr.exits = append(fr.exits, e)
			return
		case *ssa.Panic:
			if !fr.mayPanic() {
				vc.check(node, "panic", "explicit panic is unreachable", vc.pos(in.Pos()), "false")
			}
			return
		default:
			node = fr.instr(in, node, st)
		}
	}
	// back edges
	for _, s := range b.Succs {
		if s.Dominates(b) {
			if l := fr.loops[s]; l != nil {
				fr.backEdge(l, b, node, st)
			}
		}
	}
}

func (fr *Frame) mayPanic() bool { return fr.may }

// safety obligation, or assumption in partial-correctness mode
func (fr *Frame) safe(node int, kind, label, pos, goal string) {
	if fr.mayPanic() {
		fr.vc.pfact(node, goal)
		return
	}
	if goal == "true" {
		return
	}
	fr.vc.check(node, kind, label, pos, goal)
}

func (fr *Frame) val1(v ssa.Value, st *State) Val { return fr.val(v, nil, st) }

func (fr *Frame) val(v ssa.Value, _ []*State, st *State) Val {
	vc := fr.vc
	if x, ok := fr.vals[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return vc.constVal(v)
	case *ssa.Global:
		return Val{T: v.Type(), S: fmt.Sprintf("(- %d)", vc.globalIndex(v.Pkg.Pkg.Name()+"."+v.Name()))}
	case *ssa.Function:
		return Val{T: v.Type(), S: fmt.Sprintf("(- %d)", 500+vc.globalIndex("func "+v.String())), Fn: v}
	case *ssa.Builtin:
		return Val{T: v.Type(), S: "0"}
	}
	// value not yet defined (unreachable or unsupported)
	x := vc.freshVal(fr.hint(v), v.Type())
	fr.vals[v] = x
	return x
}

func (vc *VC) constVal(c *ssa.Const) Val {
	T := c.Type()
	if c.Value == nil {
		if b, ok := under(T).(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Val{T: T, S: "0"}
		}
		return vc.zero(T)
	}
	switch sortOf(T) {
	case "Bool":
		return Val{T: T, S: c.Value.String()}
	case "Int":
		if i, ok := exactInt(c); ok {
			return Val{T: T, S: i}
		}
	case "Str":
		return Val{T: T, S: vc.strLit(constString(c))}
	case "Flt":
		return Val{T: T, S: vc.fltLit(c.Value.ExactString())}
	}
	return vc.freshVal("const", T)
}
