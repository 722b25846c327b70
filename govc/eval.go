package main

// Evaluation of contract expressions to SMT terms.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SEnv struct {
	vc       *VC
	vars     map[string]Val
	st       *State
	old      *State
	ent      *State // loop entry
	entVars  map[string]Val
	node     int
	pkg      *types.Package
	fr       *Frame
	blk      *ssa.BasicBlock
	atHdr    bool
	phi      map[ssa.Value]Val
	bound    int
	trig     bool   // evaluating a trigger: recursive functions match at any unfolding depth
	def      string // spec function being defined
	self     string // spec function being defined (recursive calls use f0)
	pure     bool   // no facts may be emitted
	strict   bool   // only comps in st.m may be read (spec function bodies)
	triggers bool
	track    map[string]*[]trackRec // bound integer variables: the slices they index
}

type trackRec struct{ mem, off string }

func (e *SEnv) clone() *SEnv {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *SEnv) get(c *Comp) (string, error) {
	if e.strict {
		if t, ok := e.st.m[c.name]; ok {
			return t, nil
		}
		return "", fmt.Errorf("component %s is not in the reads clause", c.name)
	}
	return e.vc.get(e.st, c), nil
}

func (e *SEnv) boolExpr(x Expr) (string, error) {
	v, err := e.expr(x)
	if err != nil {
		return "", err
	}
	if sortOf(v.T) != "Bool" {
		return "", fmt.Errorf("boolean expected, got %s", v.T)
	}
	return v.S, nil
}

// keyOf gives the reference used as a component key
func (e *SEnv) keyOf(v Val) string {
	switch sortOf(v.T) {
	case "Itf":
		return "(itf_ref " + v.S + ")"
	case "Slice":
		return "(sl_b " + v.S + ")"
	}
	return v.S
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]
var tNil = types.Typ[types.UntypedNil]
var tItf = types.NewInterfaceType(nil, nil)
var tFlt = types.Typ[types.Float64]

func mk(T types.Type, s string) Val { return Val{T: T, S: s} }

func (e *SEnv) coerceNil(v Val, to types.Type) Val {
	if v.T == tNil {
		return mk(to, e.vc.zeroTerm(to))
	}
	return v
}

func (e *SEnv) expr(x Expr) (Val, error) {
	vc := e.vc
	switch x := x.(type) {
	case *EInt:
		return mk(tInt, smtInt(x.V)), nil
	case *EStr:
		return mk(tStr, vc.strLit(x.V)), nil
	case *EIdent:
		return e.ident(x.Name)
	case *EOld:
		n := e.clone()
		n.st = e.old
		if n.phi != nil || n.fr != nil {
			n.fr = e.fr
		}
		return n.expr(x.X)
	case *ELet:
		v, err := e.expr(x.V)
		if err != nil {
			return v, err
		}
		n := e.clone()
		n.vars[x.Name] = v
		return n.expr(x.B)
	case *EUn:
		v, err := e.expr(x.X)
		if err != nil {
			return v, err
		}
		if x.Op == "!" {
			return mk(tBool, sNot(v.S)), nil
		}
		return mk(v.T, app("-", v.S)), nil
	case *ECond:
		c, err := e.boolExpr(x.C)
		if err != nil {
			return Val{}, err
		}
		a, err := e.expr(x.A)
		if err != nil {
			return a, err
		}
		b, err := e.expr(x.B)
		if err != nil {
			return b, err
		}
		a = e.coerceNil(a, b.T)
		b = e.coerceNil(b, a.T)
		return mk(a.T, sIte(c, a.S, b.S)), nil
	case *EBin:
		return e.bin(x)
	case *EQuant:
		return e.quant(x)
	case *EField:
		return e.field(x)
	case *EIndex:
		a, err := e.expr(x.X)
		if err != nil {
			return a, err
		}
		i, err := e.expr(x.I)
		if err != nil {
			return i, err
		}
		switch u := under(a.T).(type) {
		case *GArr:
			i = e.coerceNil(i, u.K)
			return mk(u.V, sSel(a.S, i.S)), nil
		case *types.Slice:
			c := memComp(u.Elem())
			m, err := e.get(c)
			if err != nil {
				return a, err
			}
			mt, ot := sSel(m, "(sl_b "+a.S+")"), "(sl_o "+a.S+")"
			if l := e.track[i.S]; l != nil {
				dup := false
				for _, r := range *l {
					dup = dup || r == trackRec{mt, ot}
				}
				if !dup {
					*l = append(*l, trackRec{mt, ot})
				}
			}
			if strings.HasPrefix(i.S, "(- |k!") && strings.HasSuffix(i.S, "| "+ot+")") {
				return mk(u.Elem(), sSel(mt, i.S[3:len(i.S)-len(ot)-2])), nil
			}
			return mk(u.Elem(), sSel(mt, sAdd(ot, i.S))), nil
		case *types.Basic:
			return mk(types.Typ[types.Uint8], app("sat", a.S, i.S)), nil
		case *types.Array:
			return mk(u.Elem(), sSel(a.S, i.S)), nil
		}
		return a, fmt.Errorf("cannot index %s", a.T)
	case *ESlice:
		a, err := e.expr(x.X)
		if err != nil {
			return a, err
		}
		lo, err := e.expr(x.Lo)
		if err != nil {
			return lo, err
		}
		var hi Val
		if x.Hi != nil {
			hi, err = e.expr(x.Hi)
			if err != nil {
				return hi, err
			}
		}
		if sortOf(a.T) == "Str" {
			h := hi.S
			if x.Hi == nil {
				h = app("slen", a.S)
			}
			return mk(tStr, app("ssub", a.S, lo.S, h)), nil
		}
		h := hi.S
		if x.Hi == nil {
			h = "(sl_n " + a.S + ")"
		}
		return mk(a.T, app("mk_sl", "(sl_b "+a.S+")", sAdd("(sl_o "+a.S+")", lo.S), sub(h, lo.S), sub("(sl_c "+a.S+")", lo.S))), nil
	case *ECall:
		return e.call(x)
	}
	return Val{}, fmt.Errorf("unsupported expression %T", x)
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (e *SEnv) ident(n string) (Val, error) {
	vc := e.vc
	if v, ok := e.vars[n]; ok {
		return v, nil
	}
	switch n {
	case "true", "false":
		return mk(tBool, n), nil
	case "nil":
		return mk(tNil, "0"), nil
	}
	if t, ok := e.st.m["ghost:"+n]; ok {
		return mk(ghostVarTypes["ghost:"+n], t), nil
	}
	if g := vc.Sp.Ghosts[n]; g != nil {
		c := vc.ghostComp(g, e.pkg)
		t, err := e.get(c)
		if err != nil {
			return Val{}, err
		}
		if c.key == "scalar" {
			return mk(c.elem, t), nil
		}
		return mk(&GArr{tInt, c.elem}, t), nil
	}
	if m := vc.Sp.Macros[n]; m != nil && len(m.Params) == 0 {
		n := e.clone()
		if tp := vc.P.tpkgs[m.Pkg]; tp != nil {
			n.pkg = tp
		}
		return n.expr(m.Body)
	}
	if f := vc.Sp.Funcs[n]; f != nil && len(f.Params) == 0 {
		return e.specCall(f, nil)
	}
	if e.fr != nil {
		if v, ok := e.fr.lookup(n, e.blk, e.atHdr, e.phi, e.st, e.node); ok {
			return v, nil
		}
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(n); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return e.constObj(o)
			case *types.Var:
				return vc.globalConst(e.pkg.Name()+"."+n, o.Type()), nil
			}
		}
	}
	if n == "Infinity" {
		return Val{}, fmt.Errorf("reserved")
	}
	return Val{}, fmt.Errorf("unresolved name %q", n)
}

func (e *SEnv) constObj(o *types.Const) (Val, error) {
	switch o.Val().Kind() {
	case constant.Int:
		return mk(o.Type(), smtInt(o.Val().ExactString())), nil
	case constant.String:
		return mk(tStr, e.vc.strLit(constant.StringVal(o.Val()))), nil
	case constant.Bool:
		return mk(tBool, o.Val().String()), nil
	}
	return Val{}, fmt.Errorf("constant %s", o.Name())
}

var ghostVarTypes = map[string]types.Type{}

func (e *SEnv) loadFact(v Val, ref string, c *Comp) {
	if e.bound > 0 || e.pure || e.strict || e.node < 0 {
		return
	}
	vc := e.vc
	st := e.st
	nx := vc.next(st)
	f := vc.typeFactN(v.S, v.T, nx)
	if vc.ownedComp(c) {
		b := "(sl_b " + v.S + ")"
		f = sAnd(f, sImp(app("<", "0", ref), sOr(sEq(b, "0"), sEq(sSel(vc.get(st, comps["owner"]), b), ref))))
	}
	if f != "true" {
		vc.pfact(e.node, sImp(app("<", ref, nx), f))
	}
}

func (e *SEnv) field(x *EField) (Val, error) {
	vc := e.vc
	// package-qualified constant or variable
	if id, ok := x.X.(*EIdent); ok {
		if _, bound := e.vars[id.Name]; !bound {
			if p := vc.P.tpkgs[id.Name]; p != nil {
				if o := p.Scope().Lookup(x.F); o != nil {
					switch o := o.(type) {
					case *types.Const:
						return e.constObj(o)
					case *types.Var:
						return vc.globalConst(p.Name()+"."+x.F, o.Type()), nil
					}
				}
			}
		}
	}
	a, err := e.expr(x.X)
	if err != nil {
		return a, err
	}
	if a.IsV {
		s := structOf(a.T)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == x.F {
				return a.Vec[i], nil
			}
		}
		return a, fmt.Errorf("no field %s", x.F)
	}
	T := a.T
	if p, ok := under(T).(*types.Pointer); ok {
		T = p.Elem()
	}
	s := structOf(T)
	if s == nil {
		return a, fmt.Errorf("field %s of non-struct %s", x.F, a.T)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == x.F {
			ft := s.Field(i).Type()
			if isStruct(ft) {
				// a struct field denotes its address in contracts
				return mk(types.NewPointer(ft), interiorRef(a.S, T, i)), nil
			}
			c := fieldComp(T, i)
			t, err := e.get(c)
			if err != nil {
				return a, err
			}
			v := mk(ft, sSel(t, a.S))
			e.loadFact(v, a.S, c)
			return v, nil
		}
	}
	return a, fmt.Errorf("no field %s in %s", x.F, T)
}

func (e *SEnv) bin(x *EBin) (Val, error) {
	a, err := e.expr(x.X)
	if err != nil {
		return a, err
	}
	b, err := e.expr(x.Y)
	if err != nil {
		return b, err
	}
	B := func(s string) (Val, error) { return mk(tBool, s), nil }
	switch x.Op {
	case "&&":
		return B(sAnd(a.S, b.S))
	case "||":
		return B(sOr(a.S, b.S))
	case "==>":
		return B(sImp(a.S, b.S))
	case "<==>":
		return B(sEq(a.S, b.S))
	case "==", "!=":
		a = e.coerceNil(a, b.T)
		b = e.coerceNil(b, a.T)
		if sortOf(a.T) != sortOf(b.T) {
			return a, fmt.Errorf("comparing %s with %s", a.T, b.T)
		}
		var t string
		switch sortOf(a.T) {
		case "Str":
			t = app("streq", a.S, b.S)
		case "Slice":
			if x.Y != nil {
				if id, ok := x.Y.(*EIdent); ok && id.Name == "nil" {
					t = sEq("(sl_b "+a.S+")", "0")
					break
				}
			}
			t = sEq(a.S, b.S)
		default:
			t = sEq(a.S, b.S)
		}
		if x.Op == "!=" {
			t = sNot(t)
		}
		return B(t)
	case "<", "<=", ">", ">=":
		if sortOf(a.T) != "Int" || sortOf(b.T) != "Int" {
			return a, fmt.Errorf("ordering on %s", a.T)
		}
		return B(app(x.Op, a.S, b.S))
	case "+":
		if sortOf(a.T) == "Str" {
			return mk(tStr, app("scat", a.S, b.S)), nil
		}
		return mk(tInt, app("+", a.S, b.S)), nil
	case "-", "*":
		return mk(tInt, app(x.Op, a.S, b.S)), nil
	case "/":
		return mk(tInt, app("div", a.S, b.S)), nil
	case "%":
		return mk(tInt, app("mod", a.S, b.S)), nil
	}
	return a, fmt.Errorf("operator %s", x.Op)
}

var rawFns = map[string]struct {
	n int
	T types.Type
}{
	"w64": {1, tInt}, "u8": {1, tInt}, "tdiv": {2, tInt}, "tmod": {2, tInt}, "strlt": {2, tBool},
	"fadd": {2, tFlt}, "fsub": {2, tFlt}, "fmul": {2, tFlt}, "fdiv": {2, tFlt}, "fneg": {1, tFlt},
	"flt": {2, tBool}, "fle": {2, tBool}, "feq": {2, tBool}, "fofint": {1, tFlt}, "ftoint": {2, tInt}, "ffrom32": {1, tFlt},
	"runestr": {1, tStr}, "bor": {2, tInt},
}

func (e *SEnv) args(x *ECall) ([]Val, error) {
	var out []Val
	for _, a := range x.Args {
		v, err := e.expr(a)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func (e *SEnv) call(x *ECall) (Val, error) {
	vc := e.vc
	switch x.F {
	case "is", "as", "box":
		v, err := e.expr(x.Args[0])
		if err != nil {
			return v, err
		}
		t, err := vc.P.resolveType(x.Typ, e.pkg)
		if err != nil {
			return v, err
		}
		switch x.F {
		case "is":
			return mk(tBool, vc.isType(v.S, t)), nil
		case "as":
			return vc.unbox(e.node, v.S, t), nil
		}
		v = e.coerceNil(v, t)
		return mk(tItf, vc.box(e.node, v, t)), nil
	case "entry":
		n := e.clone()
		if e.ent == nil {
			return Val{}, fmt.Errorf("entry() outside a loop")
		}
		n.st = e.ent
		for k, v := range e.entVars {
			n.vars[k] = v
		}
		return n.expr(x.Args[0])
	case "cur":
		id, ok := x.Args[0].(*EIdent)
		if !ok || e.fr == nil {
			return Val{}, fmt.Errorf("cur() needs a local name")
		}
		if v, ok := e.fr.lookup(id.Name, e.blk, e.atHdr, e.phi, e.st, e.node); ok {
			return v, nil
		}
		return Val{}, fmt.Errorf("unresolved local %q", id.Name)
	case "with": // with(T.F, ref, value, expr): expr in the state where field F of ref holds value
		if len(x.Args) != 4 {
			return Val{}, fmt.Errorf("with(T.F, ref, value, expr)")
		}
		n := ""
		if y, ok := x.Args[0].(*EField); ok {
			if id, ok := y.X.(*EIdent); ok {
				n = id.Name + "." + y.F
			}
		}
		c, err := vc.compByPattern(n, e.pkg)
		if err != nil {
			return Val{}, err
		}
		r, err := e.expr(x.Args[1])
		if err != nil {
			return Val{}, err
		}
		v, err := e.expr(x.Args[2])
		if err != nil {
			return Val{}, err
		}
		v = e.coerceNil(v, c.elem)
		t, err := e.get(c)
		if err != nil {
			return Val{}, err
		}
		ne := e.clone()
		ne.st = e.st.copy()
		ne.st.m[c.name] = sStore(t, e.keyOf(r), v.S)
		return ne.expr(x.Args[3])
	case "unchanged":
		var cs []string
		for _, a := range x.Args {
			n := ""
			switch y := a.(type) {
			case *EIdent:
				n = y.Name
			case *EField:
				if id, ok := y.X.(*EIdent); ok {
					n = id.Name + "." + y.F
				}
			}
			c, err := vc.compByPattern(n, e.pkg)
			if err != nil {
				return Val{}, err
			}
			cs = append(cs, sEq(vc.get(e.st, c), vc.get(e.old, c)))
		}
		return mk(tBool, sAnd(cs...)), nil
	}
	if m := vc.Sp.Macros[x.F]; m != nil {
		if len(m.Params) != len(x.Args) {
			return Val{}, fmt.Errorf("macro %s: %d arguments", x.F, len(x.Args))
		}
		as, err := e.args(x)
		if err != nil {
			return Val{}, err
		}
		n := e.clone()
		if tp := vc.P.tpkgs[m.Pkg]; tp != nil {
			n.pkg = tp
		}
		for i, p := range m.Params {
			n.vars[p] = as[i]
		}
		return n.expr(m.Body)
	}
	as, err := e.args(x)
	if err != nil {
		return Val{}, err
	}
	need := func(n int) error {
		if len(as) != n {
			return fmt.Errorf("%s: %d arguments expected", x.F, n)
		}
		return nil
	}
	if f := vc.Sp.Funcs[x.F]; f != nil {
		return e.specCall(f, as)
	}
	if g := vc.Sp.Ghosts[x.F]; g != nil {
		c := vc.ghostComp(g, e.pkg)
		t, err := e.get(c)
		if err != nil {
			return Val{}, err
		}
		if err := need(1); err != nil {
			return Val{}, err
		}
		return mk(c.elem, sSel(t, e.keyOf(as[0]))), nil
	}
	if r, ok := rawFns[x.F]; ok {
		if err := need(r.n); err != nil {
			return Val{}, err
		}
		var ts []string
		for _, a := range as {
			ts = append(ts, a.S)
		}
		return mk(r.T, app(x.F, ts...)), nil
	}
	switch x.F {
	case "fzero":
		return mk(tFlt, e.vc.fltLit("0")), nil
	case "len":
		if err := need(1); err != nil {
			return Val{}, err
		}
		if sortOf(as[0].T) == "Str" {
			return mk(tInt, app("slen", as[0].S)), nil
		}
		return mk(tInt, "(sl_n "+as[0].S+")"), nil
	case "cap":
		return mk(tInt, "(sl_c "+as[0].S+")"), nil
	case "base":
		return mk(tInt, "(sl_b "+as[0].S+")"), nil
	case "off":
		return mk(tInt, "(sl_o "+as[0].S+")"), nil
	case "ref":
		return mk(tInt, e.keyOf(as[0])), nil
	case "tag":
		return mk(tInt, "(itf_rt "+as[0].S+")"), nil
	case "owner":
		t, err := e.get(comps["owner"])
		if err != nil {
			return Val{}, err
		}
		return mk(tInt, sSel(t, as[0].S)), nil
	case "fresh":
		k := e.keyOf(as[0])
		return mk(tBool, sAnd(app("<=", vc.next(e.old), k), app("<", k, vc.next(e.st)))), nil
	case "alloc":
		k := e.keyOf(as[0])
		return mk(tBool, sAnd(app("<", "0", k), app("<", k, vc.next(e.st)))), nil
	case "next": // the first address not yet allocated
		t, err := e.get(comps["next"])
		return mk(tInt, t), err
	case "alloc0": // allocated at function entry
		k := e.keyOf(as[0])
		return mk(tBool, sAnd(app("<", "0", k), app("<", k, vc.next(e.old)))), nil
	case "chr":
		return mk(tStr, app("schr", as[0].S)), nil
	case "itfeq":
		return mk(tBool, vc.itfEq(as[0].S, as[1].S)), nil
	case "isbytes":
		return mk(tBool, "((_ is i_bytes) "+as[0].S+")"), nil
	case "isint":
		return mk(tBool, "((_ is i_int) "+as[0].S+")"), nil
	case "intval":
		return mk(tInt, "(itf_int "+as[0].S+")"), nil
	case "uncomparable":
		return mk(tBool, sAnd("((_ is i_bytes) "+as[0].S+")")), nil
	case "comparable2":
		a, b := as[0].S, as[1].S
		return mk(tBool, sNot(sOr(sAnd("((_ is i_bytes) "+a+")", "((_ is i_bytes) "+b+")"),
			sAnd("((_ is i_oth) "+a+")", "((_ is i_oth) "+b+")", sEq("(itf_ot "+a+")", "(itf_ot "+b+")"), app("uncmp", "(itf_ot "+a+")"))))), nil
	case "string":
		v := as[0]
		if sl, ok := under(v.T).(*types.Slice); ok {
			c := memComp(sl.Elem())
			m, err := e.get(c)
			if err != nil {
				return Val{}, err
			}
			f := "bstr"
			if canonType(sl.Elem()) != "uint8" {
				f = "rstr"
			}
			return mk(tStr, app(f, sSel(m, "(sl_b "+v.S+")"), "(sl_o "+v.S+")", "(sl_n "+v.S+")")), nil
		}
		return mk(tStr, v.S), nil
	case "int", "int64", "byte", "rune":
		return mk(tInt, as[0].S), nil
	case "store":
		if err := need(3); err != nil {
			return Val{}, err
		}
		g, ok := as[0].T.(*GArr)
		if !ok {
			return Val{}, fmt.Errorf("store on %s", as[0].T)
		}
		v := e.coerceNil(as[2], g.V)
		return mk(as[0].T, sStore(as[0].S, as[1].S, v.S)), nil
	case "constmap":
		// constmap(v) : map[int]T
		return mk(&GArr{tInt, as[0].T}, "((as const (Array Int "+sortOf(as[0].T)+")) "+as[0].S+")"), nil
	case "mem":
		// mem(slice): the backing array contents
		sl, ok := under(as[0].T).(*types.Slice)
		if !ok {
			return Val{}, fmt.Errorf("mem of %s", as[0].T)
		}
		m, err := e.get(memComp(sl.Elem()))
		if err != nil {
			return Val{}, err
		}
		return mk(&GArr{tInt, sl.Elem()}, sSel(m, "(sl_b "+as[0].S+")")), nil
	case "bstr":
		// bstr(ghostarray, off, n)
		return mk(tStr, app("bstr", as[0].S, as[1].S, as[2].S)), nil
	case "ptr":
		// ptr(ref, x): retype ref as pointer like x
		return mk(as[1].T, as[0].S), nil
	}
	return Val{}, fmt.Errorf("unknown function %s", x.F)
}

// ---- spec functions ----

func (vc *VC) useFunc(name string) {
	if vc.usedFuncs[name] {
		return
	}
	vc.usedFuncs[name] = true
	vc.funcOrder = append(vc.funcOrder, name)
}

func (vc *VC) funcPkg(f *SpecFunc) *types.Package { return vc.P.tpkgs[f.Pkg] }

func (e *SEnv) specCall(f *SpecFunc, as []Val) (Val, error) {
	vc := e.vc
	vc.useFunc(f.Name)
	pkg := vc.funcPkg(f)
	if len(as) != len(f.Params) {
		return Val{}, fmt.Errorf("%s: %d arguments expected, got %d", f.Name, len(f.Params), len(as))
	}
	ret, err := vc.P.resolveType(f.Ret, pkg)
	if err != nil {
		return Val{}, fmt.Errorf("%s: %v", f.Name, err)
	}
	name := f.Name
	if e.self == f.Name || e.def != "" && f.Body != nil && f.recursive() && mentions(f.Body, e.def) || e.trig && f.Body != nil && f.recursive() {
		name = f.Name + "$0"
	}
	var ts []string
	for _, r := range f.Reads {
		c, err := vc.compByPattern(r, pkg)
		if err != nil {
			return Val{}, err
		}
		t, err := e.get(c)
		if err != nil {
			return Val{}, fmt.Errorf("%s: %v", f.Name, err)
		}
		ts = append(ts, t)
	}
	for i, a := range as {
		pt, err := vc.P.resolveType(f.Params[i].Typ, pkg)
		if err != nil {
			return Val{}, err
		}
		a = e.coerceNil(a, pt)
		if sortOf(pt) != sortOf(a.T) {
			return Val{}, fmt.Errorf("%s: argument %d has type %s, want %s", f.Name, i+1, a.T, pt)
		}
		ts = append(ts, a.S)
	}
	return mk(ret, app(q(name), ts...)), nil
}

func (f *SpecFunc) recursive() bool { return mentions(f.Body, f.Name) }

func mentions(x Expr, n string) bool {
	found := false
	walk(x, func(y Expr) {
		if c, ok := y.(*ECall); ok && c.F == n {
			found = true
		}
		if c, ok := y.(*EIdent); ok && c.Name == n {
			found = true
		}
	})
	return found
}

func walk(x Expr, f func(Expr)) {
	if x == nil {
		return
	}
	f(x)
	switch x := x.(type) {
	case *EUn:
		walk(x.X, f)
	case *EBin:
		walk(x.X, f)
		walk(x.Y, f)
	case *ECall:
		for _, a := range x.Args {
			walk(a, f)
		}
	case *EIndex:
		walk(x.X, f)
		walk(x.I, f)
	case *ESlice:
		walk(x.X, f)
		walk(x.Lo, f)
		if x.Hi != nil {
			walk(x.Hi, f)
		}
	case *EField:
		walk(x.X, f)
	case *EQuant:
		walk(x.Body, f)
		for _, t := range x.Trig {
			for _, y := range t {
				walk(y, f)
			}
		}
	case *ECond:
		walk(x.C, f)
		walk(x.A, f)
		walk(x.B, f)
	case *EOld:
		walk(x.X, f)
	case *ELet:
		walk(x.V, f)
		walk(x.B, f)
	}
}

// emitFuncs declares the used spec functions, their definitions, the relevant
// axioms and auto-lemmas. Called once, at the end of VC generation.
func (vc *VC) emitFuncs() (decls, axioms []string) {
	doneF := map[string]bool{}
	doneA := map[string]bool{}
	for {
		progress := false
		for i := 0; i < len(vc.funcOrder); i++ {
			n := vc.funcOrder[i]
			if doneF[n] {
				continue
			}
			doneF[n] = true
			progress = true
			f := vc.Sp.Funcs[n]
			pkg := vc.funcPkg(f)
			var sorts, bind, names []string
			st := &State{map[string]string{}}
			for j, r := range f.Reads {
				c, err := vc.compByPattern(r, pkg)
				if err != nil {
					fatal("spec func %s: %v", n, err)
				}
				s := q(fmt.Sprintf("h%d_%s", j, c.name))
				sorts = append(sorts, c.sort)
				bind = append(bind, fmt.Sprintf("(%s %s)", s, c.sort))
				names = append(names, s)
				st.m[c.name] = s
			}
			env := &SEnv{vc: vc, vars: map[string]Val{}, st: st, old: st, node: -1, pkg: pkg, bound: 1, strict: true}
			for _, p := range f.Params {
				t, err := vc.P.resolveType(p.Typ, pkg)
				if err != nil {
					fatal("spec func %s: %v", n, err)
				}
				s := q(p.Name + "?p")
				sorts = append(sorts, sortOf(t))
				bind = append(bind, fmt.Sprintf("(%s %s)", s, sortOf(t)))
				names = append(names, s)
				env.vars[p.Name] = mk(t, s)
			}
			ret, err := vc.P.resolveType(f.Ret, pkg)
			if err != nil {
				fatal("spec func %s: %v", n, err)
			}
			decls = append(decls, fmt.Sprintf("(declare-fun %s (%s) %s)", q(n), strings.Join(sorts, " "), sortOf(ret)))
			rec := f.Body != nil && f.recursive()
			if rec {
				decls = append(decls, fmt.Sprintf("(declare-fun %s (%s) %s)", q(n+"$0"), strings.Join(sorts, " "), sortOf(ret)))
			}
			if f.Body == nil {
				continue
			}
			if f.Opaque && !vc.revealed(n) {
				continue
			}
			env.def = n
			if rec {
				env.self = n
			}
			b, err := env.expr(f.Body)
			if err != nil {
				fatal("spec func %s: %v", n, err)
			}
			b = env.coerceNil(b, ret)
			if sortOf(b.T) != sortOf(ret) {
				fatal("spec func %s: body has type %s, want %s", n, b.T, ret)
			}
			call := app(q(n), names...)
			if len(names) == 0 {
				axioms = append(axioms, fmt.Sprintf("(assert (= %s %s))", call, b.S))
			} else {
				axioms = append(axioms, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(bind, " "), call, b.S, call))
				if rec {
					axioms = append(axioms, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(bind, " "), call, app(q(n+"$0"), names...), call))
				}
			}
		}
		for _, a := range vc.Sp.Axioms {
			if doneA[a.Name] {
				continue
			}
			rel := false
			if a.Raw != "" {
				for n := range vc.usedFuncs {
					if strings.Contains(a.Raw, n) {
						rel = true
					}
				}
			} else {
				for n := range vc.usedFuncs {
					if mentions(a.E, n) {
						rel = true
					}
				}
				for c := range comps {
					if strings.HasPrefix(c, "g:") && vc.baseDeclared[c] && mentions(a.E, c[2:]) {
						rel = true
					}
				}
			}
			if !rel {
				continue
			}
			doneA[a.Name] = true
			progress = true
			vc.note("axiom %s: %s", a.Name, a.Why)
			if a.Raw != "" {
				axioms = append(axioms, "(assert "+a.Raw+")")
				continue
			}
			env := &SEnv{vc: vc, vars: map[string]Val{}, st: &State{map[string]string{}}, old: &State{map[string]string{}}, node: -1, pkg: vc.P.tpkgs[a.Pkg], bound: 1}
			t, err := env.boolExpr(a.E)
			if err != nil {
				fatal("axiom %s: %v", a.Name, err)
			}
			axioms = append(axioms, "(assert "+t+")")
		}
		for _, ln := range vc.Sp.LemOrder {
			l := vc.Sp.Lemmas[ln]
			if !l.Auto || doneA["lemma:"+ln] || vc.curLemma != nil && !vc.lemmaBefore(ln, vc.curLemma.Name) {
				continue
			}
			rel := false
			for _, t := range l.Trig {
				ok := true
				walk(t, func(y Expr) {
					if c, isC := y.(*ECall); isC && vc.Sp.Funcs[c.F] != nil && !vc.usedFuncs[c.F] {
						ok = false
					}
				})
				if ok {
					rel = true
				}
			}
			if !rel {
				continue
			}
			doneA["lemma:"+ln] = true
			progress = true
			vc.usedLemmas[ln] = true
			t, err := vc.lemmaForall(l)
			if err != nil {
				fatal("lemma %s: %v", ln, err)
			}
			axioms = append(axioms, "(assert "+t+")")
		}
		if !progress {
			break
		}
	}
	return
}

func (vc *VC) revealed(n string) bool {
	if vc.curLemma != nil {
		for _, p := range vc.curLemma.Reveal {
			if p == n {
				return true
			}
		}
	}
	if vc.con != nil {
		for _, p := range vc.con.Reveal {
			if p == n {
				return true
			}
		}
	}
	return false
}

func (vc *VC) lemmaBefore(a, b string) bool {
	for _, n := range vc.Sp.LemOrder {
		if n == a && n != b {
			return true
		}
		if n == b {
			return false
		}
	}
	return false
}

// lemmaParams builds the bound variables of a lemma (heap components it reads, then parameters)
func (vc *VC) lemmaEnv(l *Lemma, mkVar func(name, sort string) string) (*SEnv, []string, error) {
	pkg := vc.P.tpkgs[l.Pkg]
	st := &State{map[string]string{}}
	var bind []string
	for j, r := range l.Reads {
		c, err := vc.compByPattern(r, pkg)
		if err != nil {
			return nil, nil, err
		}
		s := mkVar(fmt.Sprintf("h%d_%s", j, c.name), c.sort)
		bind = append(bind, fmt.Sprintf("(%s %s)", s, c.sort))
		st.m[c.name] = s
	}
	env := &SEnv{vc: vc, vars: map[string]Val{}, st: st, old: st, node: -1, pkg: pkg, bound: 1, strict: true}
	for _, p := range l.Params {
		t, err := vc.P.resolveType(p.Typ, pkg)
		if err != nil {
			return nil, nil, err
		}
		s := mkVar(p.Name, sortOf(t))
		bind = append(bind, fmt.Sprintf("(%s %s)", s, sortOf(t)))
		env.vars[p.Name] = mk(t, s)
	}
	return env, bind, nil
}

func (l *Lemma) instance(env *SEnv) (string, error) {
	var rq, en []string
	for _, r := range l.Req {
		t, err := env.boolExpr(r)
		if err != nil {
			return "", err
		}
		rq = append(rq, t)
	}
	for _, r := range l.Ens {
		t, err := env.boolExpr(r)
		if err != nil {
			return "", err
		}
		en = append(en, t)
	}
	return sImp(sAnd(rq...), sAnd(en...)), nil
}

func (vc *VC) lemmaForall(l *Lemma) (string, error) {
	env, bind, err := vc.lemmaEnv(l, func(n, s string) string { return q(n + "?l") })
	if err != nil {
		return "", err
	}
	t, err := l.instance(env)
	if err != nil {
		return "", err
	}
	if len(bind) == 0 {
		return t, nil
	}
	pat := ""
	if len(l.Trig) > 0 {
		var ts []string
		for _, x := range l.Trig {
			v, err := env.expr(x)
			if err != nil {
				return "", err
			}
			ts = append(ts, v.S)
		}
		pat = " :pattern (" + strings.Join(ts, " ") + ")"
		t = "(! " + t + pat + ")"
	}
	return "(forall (" + strings.Join(bind, " ") + ") " + t + ")", nil
}

// useLemma: `use name(args)` evaluated in env
func (e *SEnv) useLemma(x Expr) (string, error) {
	switch y := x.(type) {
	case *EBin:
		if y.Op == "==>" || y.Op == "&&" {
			b, err := e.useLemma(y.Y)
			if err != nil {
				return "", err
			}
			if y.Op == "&&" {
				a, err := e.useLemma(y.X)
				if err != nil {
					return "", err
				}
				return sAnd(a, b), nil
			}
			a, err := e.boolExpr(y.X)
			if err != nil {
				return "", err
			}
			return sImp(a, b), nil
		}
	case *EQuant:
		if y.Forall {
			n := e.clone()
			n.bound++
			var bind []string
			for _, p := range y.Vars {
				t, err := e.vc.P.resolveType(p.Typ, e.pkg)
				if err != nil {
					return "", err
				}
				e.vc.nsym++
				s := q(fmt.Sprintf("%s?u%d", p.Name, e.vc.nsym))
				bind = append(bind, fmt.Sprintf("(%s %s)", s, sortOf(t)))
				n.vars[p.Name] = mk(t, s)
			}
			b, err := n.useLemma(y.Body)
			if err != nil {
				return "", err
			}
			if len(y.Trig) > 0 {
				var ps []string
				for _, tr := range y.Trig {
					var ts []string
					for _, t := range tr {
						v, err := n.expr(t)
						if err != nil {
							return "", err
						}
						ts = append(ts, v.S)
					}
					ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
				}
				b = "(! " + b + " " + strings.Join(ps, " ") + ")"
			}
			return "(forall (" + strings.Join(bind, " ") + ") " + b + ")", nil
		}
	}
	c, ok := x.(*ECall)
	if !ok {
		// a hint term: mentioning it lets triggers fire; ghost facts are stated as x == x
		return "", fmt.Errorf("use needs lemma(args)")
	}
	if c.F == "forall" {
		return "", fmt.Errorf("bad use")
	}
	l := e.vc.Sp.Lemmas[c.F]
	if l == nil {
		return "", fmt.Errorf("unknown lemma %s", c.F)
	}
	e.vc.usedLemmas[l.Name] = true
	if len(c.Args) != len(l.Params) {
		return "", fmt.Errorf("lemma %s: %d arguments", c.F, len(l.Params))
	}
	n := e.clone()
	n.vars = map[string]Val{}
	n.fr = nil
	n.pkg = e.vc.P.tpkgs[l.Pkg]
	for i, a := range c.Args {
		v, err := e.expr(a)
		if err != nil {
			return "", err
		}
		t, err := e.vc.P.resolveType(l.Params[i].Typ, n.pkg)
		if err != nil {
			return "", err
		}
		v = e.coerceNil(v, t)
		n.vars[l.Params[i].Name] = v
	}
	return l.instance(n)
}

// ---- local variable lookup ----

func (fr *Frame) lookup(name string, blk *ssa.BasicBlock, atHdr bool, phi map[ssa.Value]Val, st *State, node int) (Val, bool) {
	val := func(v ssa.Value) (Val, bool) {
		if phi != nil {
			if x, ok := phi[v]; ok {
				return x, true
			}
		}
		if x, ok := fr.vals[v]; ok {
			return x, true
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function:
			return fr.val1(v, st), true
		}
		return Val{}, false
	}
	for b := blk; b != nil; b = b.Idom() {
		if !(atHdr && b == blk) {
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				d, ok := b.Instrs[i].(*ssa.DebugRef)
				if !ok {
					continue
				}
				id, ok := d.Expr.(*ast.Ident)
				if !ok || id.Name != name {
					continue
				}
				if d.IsAddr {
					a, ok := val(d.X)
					if !ok {
						continue
					}
					T := d.X.Type().Underlying().(*types.Pointer).Elem()
					if isStruct(T) {
						return a, true
					}
					return fr.vc.load(node, st, a.Addr, a.S, T), true
				}
				if x, ok := val(d.X); ok && !isStruct(d.X.Type()) {
					return x, true
				}
			}
		}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if p.Comment == name {
				if x, ok := val(p); ok {
					return x, true
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if a, ok := b.Instrs[i].(*ssa.Alloc); ok && a.Comment == name {
				if x, ok := val(a); ok {
					T := a.Type().Underlying().(*types.Pointer).Elem()
					if isStruct(T) {
						return x, true
					}
					return fr.vc.load(node, st, x.Addr, x.S, T), true
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return val(p)
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if x, ok := val(p); ok {
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
					return fr.vc.load(node, st, x.Addr, x.S, pt.Elem()), true
				}
				return x, true
			}
		}
	}
	return Val{}, false
}

// quant evaluates a quantifier. Integer variables that index a slice are
// replaced by the absolute index into the backing array, which gives the
// solver an arithmetic-free trigger.
func (e *SEnv) quant(x *EQuant) (Val, error) {
	vc := e.vc
	n := e.clone()
	n.bound++
	n.track = map[string]*[]trackRec{}
	for k, v := range e.track {
		n.track[k] = v
	}
	var vs, syms []string
	allInt := true
	for _, p := range x.Vars {
		t, err := vc.P.resolveType(p.Typ, e.pkg)
		if err != nil {
			return Val{}, err
		}
		vc.nsym++
		s := q(fmt.Sprintf("%s?%d", p.Name, vc.nsym))
		n.vars[p.Name] = mk(t, s)
		vs = append(vs, fmt.Sprintf("(%s %s)", s, sortOf(t)))
		syms = append(syms, s)
		if sortOf(t) != "Int" {
			allInt = false
		}
		n.track[s] = &[]trackRec{}
	}
	b, err := n.boolExpr(x.Body)
	if err != nil {
		return Val{}, err
	}
	k := "forall"
	if !x.Forall {
		k = "exists"
	}
	body := b
	if len(x.Trig) > 0 {
		var ps []string
		for _, tr := range x.Trig {
			var ts []string
			n.trig = true
			for _, t := range tr {
				v, err := n.expr(t)
				if err != nil {
					return Val{}, err
				}
				ts = append(ts, v.S)
			}
			ps = append(ps, ":pattern ("+strings.Join(ts, " ")+")")
		}
		body = "(! " + b + " " + strings.Join(ps, " ") + ")"
	} else if allInt {
		ok := true
		var recs [][]trackRec
		for _, s := range syms {
			var rs []trackRec
			for _, r := range *n.track[s] {
				free := false
				for _, o := range syms {
					if strings.Contains(r.mem, o) || strings.Contains(r.off, o) {
						free = true
					}
				}
				if !free {
					rs = append(rs, r)
				}
			}
			if len(rs) == 0 {
				ok = false
			}
			recs = append(recs, rs)
		}
		if ok {
			vers := 1
			if len(syms) == 1 && len(recs[0]) > 1 {
				vers = 2
			}
			var out []string
			for ver := 0; ver < vers; ver++ {
				m := e.clone()
				m.bound++
				m.track = n.track
				var bs, pat []string
				for i, p := range x.Vars {
					r := recs[i][0]
					if i == 0 && ver == 1 {
						r = recs[0][1]
					}
					vc.nsym++
					ks := fmt.Sprintf("|k!%s?%d|", p.Name, vc.nsym)
					bs = append(bs, "("+ks+" Int)")
					m.vars[p.Name] = mk(n.vars[p.Name].T, "(- "+ks+" "+r.off+")")
					pat = append(pat, sSel(r.mem, ks))
				}
				b, err := m.boolExpr(x.Body)
				if err != nil {
					return Val{}, err
				}
				out = append(out, "("+k+" ("+strings.Join(bs, " ")+") (! "+b+" :pattern ("+strings.Join(pat, " ")+")))")
			}
			if k == "exists" {
				return mk(tBool, out[0]), nil
			}
			return mk(tBool, sAnd(out...)), nil
		}
	}
	return mk(tBool, "("+k+" ("+strings.Join(vs, " ")+") "+body+")"), nil
}
