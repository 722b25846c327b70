package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func exactInt(c *ssa.Const) (string, bool) {
	v := constant.ToInt(c.Value)
	if v.Kind() != constant.Int {
		return "", false
	}
	s := v.ExactString()
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")", true
	}
	return s, true
}

func constString(c *ssa.Const) string { return constant.StringVal(c.Value) }

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)
var reAny = regexp.MustCompile(`\bany\b`)

func canonType(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	s = reByte.ReplaceAllString(s, "uint8")
	s = reRune.ReplaceAllString(s, "int32")
	s = reAny.ReplaceAllString(s, "interface{}")
	return s
}

// ---- interface values ----

func (vc *VC) box(node int, v Val, T types.Type) string {
	switch u := under(T).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0 && canonType(T) == "bool":
			return app("i_bool", v.S)
		case i&types.IsInteger != 0:
			return app("i_int", fmt.Sprint(vc.P.typeID(T)), v.S)
		case i&types.IsString != 0:
			return app("i_str", fmt.Sprint(vc.P.typeID(T)), v.S)
		case i&types.IsFloat != 0:
			return app("i_flt", fmt.Sprint(vc.P.typeID(T)), v.S)
		}
	case *types.Slice:
		if canonType(T) == "[]uint8" {
			return app("i_bytes", v.S)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if v.S != "" {
			return app("i_ref", fmt.Sprint(vc.P.typeID(T)), v.S)
		}
	case *types.Interface:
		return v.S
	}
	h := vc.fresh("boxed", "Int")
	vc.boxFacts(node, h, fmt.Sprint(vc.P.typeID(T)), v, T)
	return app("i_oth", fmt.Sprint(vc.P.typeID(T)), h)
}

// boxed values of other types are handles; boxfn gives the value behind one
func (vc *VC) boxfn(h, path string, T types.Type) string {
	so := sortOf(T)
	name := q("boxed:" + so + ":" + path)
	if !vc.baseDeclared[name] {
		vc.baseDeclared[name] = true
		vc.pre = append(vc.pre, fmt.Sprintf("(declare-fun %s (Int) %s)", name, so))
	}
	return app(name, h)
}

func (vc *VC) boxFacts(node int, h, path string, v Val, T types.Type) {
	if st := structOf(T); st != nil {
		if !v.IsV {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			vc.boxFacts(node, h, fmt.Sprintf("%s.%d", path, i), v.Vec[i], st.Field(i).Type())
		}
		return
	}
	if v.S == "" || v.IsV {
		return
	}
	vc.fact(node, sEq(vc.boxfn(h, path, T), v.S))
}

func (vc *VC) unboxed(h, path string, T types.Type) Val {
	if st := structOf(T); st != nil {
		v := Val{T: T, IsV: true}
		for i := 0; i < st.NumFields(); i++ {
			v.Vec = append(v.Vec, vc.unboxed(h, fmt.Sprintf("%s.%d", path, i), st.Field(i).Type()))
		}
		return v
	}
	return Val{T: T, S: vc.boxfn(h, path, T)}
}

func (vc *VC) isType(x string, T types.Type) string {
	id := fmt.Sprint(vc.P.typeID(T))
	switch u := under(T).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0 && canonType(T) == "bool":
			return "((_ is i_bool) " + x + ")"
		case i&types.IsInteger != 0:
			return sAnd("((_ is i_int) "+x+")", sEq("(itf_ik "+x+")", id))
		case i&types.IsString != 0:
			return sAnd("((_ is i_str) "+x+")", sEq("(itf_sk "+x+")", id))
		case i&types.IsFloat != 0:
			return sAnd("((_ is i_flt) "+x+")", sEq("(itf_fk "+x+")", id))
		}
	case *types.Slice:
		if canonType(T) == "[]uint8" {
			return "((_ is i_bytes) " + x + ")"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sAnd("((_ is i_ref) "+x+")", sEq("(itf_rt "+x+")", id))
	case *types.Interface:
		if u.NumMethods() == 0 {
			return sNot(sEq(x, "i_nil"))
		}
		return sAnd(sNot(sEq(x, "i_nil")), app("implements", vc.tagOf(x), id))
	}
	return sAnd("((_ is i_oth) "+x+")", sEq("(itf_ot "+x+")", id))
}

func (vc *VC) tagOf(x string) string {
	id := func(t types.Type) string { return fmt.Sprint(vc.P.typeID(t)) }
	return fmt.Sprintf("(ite ((_ is i_bool) %[1]s) %[2]s (ite ((_ is i_int) %[1]s) (itf_ik %[1]s) (ite ((_ is i_str) %[1]s) (itf_sk %[1]s) (ite ((_ is i_bytes) %[1]s) %[3]s (ite ((_ is i_flt) %[1]s) (itf_fk %[1]s) (ite ((_ is i_ref) %[1]s) (itf_rt %[1]s) (itf_ot %[1]s)))))))",
		x, id(types.Typ[types.Bool]), id(types.NewSlice(types.Typ[types.Uint8])))
}

func (vc *VC) unbox(node int, x string, T types.Type) Val {
	switch u := under(T).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0 && canonType(T) == "bool":
			return Val{T: T, S: "(itf_bool " + x + ")"}
		case i&types.IsInteger != 0:
			return Val{T: T, S: "(itf_int " + x + ")"}
		case i&types.IsString != 0:
			return Val{T: T, S: "(itf_str " + x + ")"}
		case i&types.IsFloat != 0:
			return Val{T: T, S: "(itf_flt " + x + ")"}
		}
	case *types.Slice:
		if canonType(T) == "[]uint8" {
			return Val{T: T, S: "(itf_bytes " + x + ")"}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Val{T: T, S: "(itf_ref " + x + ")"}
	case *types.Interface:
		return Val{T: T, S: x}
	}
	return vc.unboxed("(itf_ov "+x+")", fmt.Sprint(vc.P.typeID(T)), T)
}

// ---- instructions ----

func (fr *Frame) set(v ssa.Value, node int, x Val) {
	fr.vals[v] = fr.named(node, fr.hint(v), x)
}

func (fr *Frame) instr(in ssa.Instruction, node int, st *State) int {
	vc := fr.vc
	pos := vc.pos(in.Pos())
	V := func(x ssa.Value) Val { return fr.val(x, nil, st) }
	switch in := in.(type) {
	case *ssa.Alloc:
		T := in.Type().(*types.Pointer).Elem()
		r := vc.alloc(node, st)
		if at, ok := under(T).(*types.Array); ok && isStruct(at.Elem()) {
			vc.unsup("array of structs at %s", pos)
		}
		fr.vals[in] = Val{T: in.Type(), S: r}
		if isStruct(T) {
			fr.zeroStruct(node, st, T, r, pos)
		} else {
			vc.store(node, st, nil, r, T, vc.zero(T), pos)
		}
	case *ssa.BinOp:
		fr.set(in, node, fr.binop(in, V(in.X), V(in.Y), node, st, pos))
	case *ssa.UnOp:
		fr.set(in, node, fr.unop(in, V(in.X), node, st, pos))
	case *ssa.ChangeType:
		x := V(in.X)
		x.T = in.Type()
		fr.vals[in] = x
	case *ssa.ChangeInterface:
		x := V(in.X)
		x.T = in.Type()
		fr.vals[in] = x
	case *ssa.Convert:
		fr.set(in, node, fr.convert(in.Type(), V(in.X), node, st, pos))
	case *ssa.MakeInterface:
		x := V(in.X)
		fr.set(in, node, Val{T: in.Type(), S: vc.box(node, x, in.X.Type())})
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		ln, cp := V(in.Len).S, V(in.Cap).S
		fr.safe(node, "bounds", "make: 0 <= len <= cap", pos, sAnd(app("<=", "0", ln), app("<=", ln, cp)))
		if isStruct(el) {
			vc.unsup("slice of structs at %s", pos)
		}
		vc.pfact(node, app("<=", cp, "281474976710656"))
		r := vc.alloc(node, st)
		c := memComp(el)
		vc.setComp(node, st, c, sStore(vc.get(st, c), r, "((as const (Array Int "+sortOf(el)+")) "+vc.zeroTerm(el)+")"))
		fr.set(in, node, Val{T: in.Type(), S: app("mk_sl", r, "0", ln, cp)})
	case *ssa.MakeMap:
		r := vc.alloc(node, st)
		fr.vals[in] = Val{T: in.Type(), S: r}
	case *ssa.MakeChan:
		r := vc.alloc(node, st)
		fr.vals[in] = Val{T: in.Type(), S: r}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, V(b))
		}
		r := vc.alloc(node, st)
		fr.vals[in] = Val{T: in.Type(), S: r, Fn: in.Fn.(*ssa.Function), Bind: bs}
	case *ssa.FieldAddr:
		x := V(in.X)
		T := in.X.Type().Underlying().(*types.Pointer).Elem()
		fr.safe(node, "nil", "nil dereference (."+structOf(T).Field(in.Field).Name()+")", pos, vc.nonNil(in.X, x))
		f := structOf(T).Field(in.Field)
		_, isArr := under(f.Type()).(*types.Array)
		if isStruct(f.Type()) || isArr {
			fr.vals[in] = Val{T: in.Type(), S: interiorRef(x.S, T, in.Field)}
		} else {
			fr.vals[in] = Val{T: in.Type(), S: "", Addr: &Addr{comp: fieldComp(T, in.Field).name, ref: x.S, T: f.Type()}}
		}
	case *ssa.Field:
		x := V(in.X)
		if x.IsV && in.Field < len(x.Vec) {
			fr.vals[in] = x.Vec[in.Field]
		} else {
			vc.unsup("struct field of unmodelled value at %s", pos)
			fr.vals[in] = vc.freshVal("fld", in.Type())
		}
	case *ssa.IndexAddr:
		x, i := V(in.X), V(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			fr.safe(node, "bounds", "index in range", pos, sAnd(app("<=", "0", i.S), app("<", i.S, "(sl_n "+x.S+")")))
			if isStruct(u.Elem()) {
				vc.unsup("slice of structs at %s", pos)
			}
			fr.vals[in] = Val{T: in.Type(), Addr: &Addr{comp: memComp(u.Elem()).name, ref: "(sl_b " + x.S + ")", idx: sAdd("(sl_o "+x.S+")", i.S), T: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			fr.safe(node, "nil", "nil array pointer", pos, vc.nonNil(in.X, x))
			if _, ok := in.Index.(*ssa.Const); !ok {
				fr.safe(node, "bounds", "index in range", pos, sAnd(app("<=", "0", i.S), app("<", i.S, fmt.Sprint(at.Len()))))
			}
			fr.vals[in] = Val{T: in.Type(), Addr: &Addr{comp: memComp(at.Elem()).name, ref: x.S, idx: i.S, T: at.Elem()}}
		}
	case *ssa.Index:
		x, i := V(in.X), V(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			fr.safe(node, "bounds", "string index in range", pos, sAnd(app("<=", "0", i.S), app("<", i.S, "(slen "+x.S+")")))
			fr.set(in, node, Val{T: in.Type(), S: app("sat", x.S, i.S)})
		case *types.Array:
			fr.safe(node, "bounds", "index in range", pos, sAnd(app("<=", "0", i.S), app("<", i.S, fmt.Sprint(u.Len()))))
			fr.set(in, node, Val{T: in.Type(), S: sSel(x.S, i.S)})
		default:
			fr.vals[in] = vc.freshVal("idx", in.Type())
		}
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x, i := V(in.X), V(in.Index)
			fr.safe(node, "bounds", "string index in range", pos, sAnd(app("<=", "0", i.S), app("<", i.S, "(slen "+x.S+")")))
			fr.set(in, node, Val{T: in.Type(), S: app("sat", x.S, i.S)})
			break
		}
		vc.note("Go map lookups return an arbitrary value of the element type (map contents are not modelled)")
		v := vc.freshVal("lookup", in.Type())
		vc.pfact(node, vc.typeFact(v, st))
		fr.vals[in] = v
	case *ssa.MapUpdate:
		m := V(in.Map)
		fr.safe(node, "nil", "assignment to entry in nil map", pos, sNot(sEq(m.S, "0")))
		vc.note("Go map lookups return an arbitrary value of the element type (map contents are not modelled)")
	case *ssa.Slice:
		fr.set(in, node, fr.slice(in, V(in.X), node, st, pos))
	case *ssa.Store:
		a := V(in.Addr)
		v := V(in.Val)
		T := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		if g, ok := in.Addr.(*ssa.Global); ok && fr.fn.Name() == "init" {
			_ = g
			break
		}
		if a.Addr == nil {
			fr.safe(node, "nil", "store through nil pointer", pos, vc.nonNil(in.Addr, a))
		}
		vc.store(node, st, a.Addr, a.S, T, v, pos)
	case *ssa.Extract:
		t := V(in.Tuple)
		if t.IsV && in.Index < len(t.Vec) {
			fr.vals[in] = t.Vec[in.Index]
		} else {
			fr.vals[in] = vc.freshVal("ext", in.Type())
		}
	case *ssa.TypeAssert:
		fr.typeAssert(in, V(in.X), node, st, pos)
	case *ssa.Range:
		x := V(in.X)
		it := &strIter{s: x.S}
		fr.vals[in] = Val{T: in.Type(), S: "0", Iter: it}
	case *ssa.Next:
		tup := in.Type().(*types.Tuple)
		v := Val{T: tup, IsV: true}
		for i := 0; i < tup.Len(); i++ {
			t := tup.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				v.Vec = append(v.Vec, Val{T: types.Typ[types.Int], S: "0"})
				continue
			}
			v.Vec = append(v.Vec, vc.freshVal("next", t))
		}
		vc.pfact(node, vc.typeFact(v, st))
		if in.IsString {
			it := V(in.Iter)
			if it.Iter != nil {
				vc.pfact(node, sImp(v.Vec[0].S, sAnd(app("<=", "0", v.Vec[1].S), app("<", v.Vec[1].S, app("slen", it.Iter.s)),
					app("<=", "0", v.Vec[2].S), app("<=", v.Vec[2].S, "1114111"),
					sImp(app("<", app("sat", it.Iter.s, v.Vec[1].S), "128"), sEq(v.Vec[2].S, app("sat", it.Iter.s, v.Vec[1].S))))))
			}
			vc.note("range over a string visits arbitrary positions (iteration order and completeness not modelled)")
		} else {
			vc.note("range over a Go map visits arbitrary entries (map contents are not modelled)")
		}
		fr.vals[in] = v
	case *ssa.Call:
		return fr.call(in, node, st)
	case *ssa.Defer:
		fr.deferCall(in, st)
	case *ssa.RunDefers:
		node = fr.runDefers(in, node, st)
	case *ssa.Go:
		vc.note("goroutine started at %s is not modelled", pos)
	case *ssa.Send:
		vc.note("channel send not modelled")
	case *ssa.Select:
		vc.unsup("select at %s", pos)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		vc.unsup("%T at %s", in, pos)
	default:
		vc.unsup("%T at %s", in, pos)
	}
	return node
}

func (fr *Frame) zeroStruct(node int, st *State, T types.Type, r, pos string) {
	vc := fr.vc
	s := structOf(T)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isStruct(f.Type()) {
			fr.zeroStruct(node, st, f.Type(), interiorRef(r, T, i), pos)
			continue
		}
		if at, ok := under(f.Type()).(*types.Array); ok {
			if isStruct(at.Elem()) {
				continue
			}
			c := memComp(at.Elem())
			vc.setComp(node, st, c, sStore(vc.get(st, c), interiorRef(r, T, i), vc.zeroTerm(f.Type())))
			continue
		}
		c := fieldComp(T, i)
		vc.setComp(node, st, c, sStore(vc.get(st, c), r, vc.zeroTerm(f.Type())))
	}
	// ghost contents of zero-valued library objects
	for _, g := range sortedKeys(vc.Sp.Ghosts) {
		gd := vc.Sp.Ghosts[g]
		if gd.Key == "*"+tstr(T) {
			c := vc.ghostComp(gd, vc.pkg)
			vc.setComp(node, st, c, sStore(vc.get(st, c), r, vc.zeroTerm(c.elem)))
		}
	}
}

func (vc *VC) nonNil(v ssa.Value, x Val) string {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.MakeClosure:
		return "true"
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return "true"
	}
	if x.Addr != nil || x.S == "" {
		return "true"
	}
	return sNot(sEq(x.S, "0"))
}

func intKind(T types.Type) (types.BasicKind, bool) {
	b, ok := under(T).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	k := b.Kind()
	if k == types.UntypedInt {
		k = types.Int
	}
	if k == types.UntypedRune {
		k = types.Int32
	}
	return k, true
}

func (vc *VC) wrap(T types.Type, t string) string {
	k, ok := intKind(T)
	if !ok {
		return t
	}
	if vc.mathint && (k == types.Int || k == types.Int64) {
		return t
	}
	w := wraps[k]
	if w == "" {
		return t
	}
	return app(w, t)
}

func isPow2m1(n *big.Int) (int, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	m := new(big.Int).Add(n, big.NewInt(1))
	b := m.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(b)).Cmp(m) == 0 {
		return b, true
	}
	return 0, false
}

func constInt(v ssa.Value) (*big.Int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return nil, false
	}
	x := constant.ToInt(c.Value)
	if x.Kind() != constant.Int {
		return nil, false
	}
	n, ok := new(big.Int).SetString(x.ExactString(), 10)
	return n, ok
}

func pow2(k int) string { return new(big.Int).Lsh(big.NewInt(1), uint(k)).String() }

func bitOf(x string, k int) string {
	return app("mod", app("div", x, pow2(k)), "2")
}

func (fr *Frame) binop(in *ssa.BinOp, x, y Val, node int, st *State, pos string) Val {
	vc := fr.vc
	T := in.Type()
	B := func(s string) Val { return Val{T: T, S: s} }
	xt := in.X.Type()
	so := sortOf(xt)
	if isStruct(xt) {
		if in.Op == token.EQL || in.Op == token.NEQ {
			vc.unsup("struct comparison at %s", pos)
		}
		return vc.freshVal("op", T)
	}
	if x.Addr != nil || y.Addr != nil || x.S == "" || y.S == "" {
		// comparing a field address with nil: never nil
		switch in.Op {
		case token.EQL:
			return B("false")
		case token.NEQ:
			return B("true")
		}
		return vc.freshVal("op", T)
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		var e string
		yt := in.Y.Type()
		switch so {
		case "Str":
			e = app("streq", x.S, y.S)
		case "Flt":
			e = app("feq", x.S, y.S)
		case "Slice":
			if isNilConst(in.Y) {
				e = sEq("(sl_b "+x.S+")", "0")
			} else {
				e = sEq("(sl_b "+y.S+")", "0")
			}
		case "Itf":
			if sortOf(yt) != "Itf" {
				y = Val{T: xt, S: vc.box(node, y, yt)}
			}
			if isNilConst(in.Y) || isNilConst(in.X) {
				o := x.S
				if isNilConst(in.X) {
					o = y.S
				}
				e = sEq(o, "i_nil")
			} else {
				// comparing two interface values panics if both hold the same uncomparable type
				fr.safe(node, "uncomparable", "interface comparison does not panic", pos,
					sNot(sOr(sAnd("((_ is i_bytes) "+x.S+")", "((_ is i_bytes) "+y.S+")"),
						sAnd("((_ is i_oth) "+x.S+")", "((_ is i_oth) "+y.S+")", sEq("(itf_ot "+x.S+")", "(itf_ot "+y.S+")"), app("uncmp", "(itf_ot "+x.S+")")))))
				e = vc.itfEq(x.S, y.S)
			}
		default:
			if sortOf(yt) == "Itf" && so != "Itf" {
				e = vc.itfEq(vc.box(node, x, xt), y.S)
			} else {
				e = sEq(x.S, y.S)
			}
		}
		if in.Op == token.NEQ {
			e = sNot(e)
		}
		return B(e)
	}
	switch so {
	case "Str":
		switch in.Op {
		case token.ADD:
			r := vc.def(node, "cat", "Str", app("scat", x.S, y.S))
			vc.fact(node, app("<=", app("slen", r), "281474976710656"))
			return B(r)
		case token.LSS:
			return B(app("strlt", x.S, y.S))
		case token.GTR:
			return B(app("strlt", y.S, x.S))
		case token.LEQ:
			return B(sNot(app("strlt", y.S, x.S)))
		case token.GEQ:
			return B(sNot(app("strlt", x.S, y.S)))
		}
	case "Flt":
		switch in.Op {
		case token.ADD:
			return B(app("fadd", x.S, y.S))
		case token.SUB:
			return B(app("fsub", x.S, y.S))
		case token.MUL:
			return B(app("fmul", x.S, y.S))
		case token.QUO:
			return B(app("fdiv", x.S, y.S))
		case token.LSS:
			return B(app("flt", x.S, y.S))
		case token.GTR:
			return B(app("flt", y.S, x.S))
		case token.LEQ:
			return B(app("fle", x.S, y.S))
		case token.GEQ:
			return B(app("fle", y.S, x.S))
		}
	case "Bool":
		switch in.Op {
		case token.AND:
			return B(sAnd(x.S, y.S))
		case token.OR:
			return B(sOr(x.S, y.S))
		case token.XOR:
			return B(app("xor", x.S, y.S))
		}
	case "Int":
		switch in.Op {
		case token.ADD:
			return B(vc.wrap(T, app("+", x.S, y.S)))
		case token.SUB:
			return B(vc.wrap(T, app("-", x.S, y.S)))
		case token.MUL:
			return B(vc.wrap(T, app("*", x.S, y.S)))
		case token.QUO:
			if n, ok := constInt(in.Y); !ok || n.Sign() == 0 {
				fr.safe(node, "div0", "division by zero", pos, sNot(sEq(y.S, "0")))
			}
			return B(vc.wrap(T, app("tdiv", x.S, y.S)))
		case token.REM:
			if n, ok := constInt(in.Y); !ok || n.Sign() == 0 {
				fr.safe(node, "div0", "modulo by zero", pos, sNot(sEq(y.S, "0")))
			}
			return B(app("tmod", x.S, y.S))
		case token.LSS:
			return B(app("<", x.S, y.S))
		case token.GTR:
			return B(app(">", x.S, y.S))
		case token.LEQ:
			return B(app("<=", x.S, y.S))
		case token.GEQ:
			return B(app(">=", x.S, y.S))
		case token.SHL:
			if n, ok := constInt(in.Y); ok && n.IsInt64() && n.Int64() < 63 {
				return B(vc.wrap(T, app("*", x.S, pow2(int(n.Int64())))))
			}
			return vc.boundedOp("shl", T, x, y, node)
		case token.SHR:
			if n, ok := constInt(in.Y); ok && n.IsInt64() && n.Int64() < 63 {
				return B(app("div", x.S, pow2(int(n.Int64()))))
			}
			return vc.boundedOp("shr", T, x, y, node)
		case token.AND:
			cx, okx := constInt(in.X)
			cy, oky := constInt(in.Y)
			if okx && !oky {
				x, y, cy, oky = y, x, cx, true
			}
			if oky {
				if k, ok := isPow2m1(cy); ok {
					return B(app("mod", x.S, pow2(k)))
				}
				if cy.Sign() >= 0 {
					var ts []string
					for k := 0; k < cy.BitLen(); k++ {
						if cy.Bit(k) == 1 {
							ts = append(ts, app("*", pow2(k), bitOf(x.S, k)))
						}
					}
					if len(ts) == 0 {
						return B("0")
					}
					if len(ts) == 1 {
						return B(ts[0])
					}
					return B(app("+", ts...))
				}
			}
			return vc.boundedOp("band", T, x, y, node)
		case token.OR:
			cx, okx := constInt(in.X)
			cy, oky := constInt(in.Y)
			if okx && !oky {
				x, y, cy, oky = y, x, cx, true
			}
			if oky && cy.Sign() >= 0 {
				ts := []string{x.S}
				for k := 0; k < cy.BitLen(); k++ {
					if cy.Bit(k) == 1 {
						ts = append(ts, app("*", pow2(k), app("-", "1", bitOf(x.S, k))))
					}
				}
				if len(ts) == 1 {
					return B(x.S)
				}
				return B(app("+", ts...))
			}
			r := vc.boundedOp("bor", T, x, y, node)
			var fs []string
			for _, p := range [][2]string{{x.S, y.S}, {y.S, x.S}} {
				for _, k := range []int{8, 16, 24} {
					fs = append(fs, sImp(sAnd(app("<=", "0", p[1]), app("<", p[1], pow2(k)), sEq(app("mod", p[0], pow2(k)), "0")), sEq(r.S, app("+", p[0], p[1]))))
				}
				fs = append(fs, sImp(sEq(p[1], "(- 1)"), sEq(r.S, "(- 1)")))
				fs = append(fs, sImp(sEq(p[1], "0"), sEq(r.S, p[0])))
			}
			fs = append(fs, sImp(sAnd(app("<=", "0", x.S), app("<=", "0", y.S)), sAnd(app("<=", x.S, r.S), app("<=", y.S, r.S), app("<=", r.S, app("+", x.S, y.S)))))
			fs = append(fs, sImp(sOr(app("<", x.S, "0"), app("<", y.S, "0")), app("<", r.S, "0")))
			vc.fact(node, sAnd(fs...))
			return r
		case token.XOR:
			return vc.boundedOp("bxor", T, x, y, node)
		case token.AND_NOT:
			return vc.boundedOp("bandnot", T, x, y, node)
		}
	}
	vc.unsup("operator %s at %s", in.Op, pos)
	return vc.freshVal("op", T)
}

func (vc *VC) boundedOp(f string, T types.Type, x, y Val, node int) Val {
	v := Val{T: T, S: app(f, x.S, y.S)}
	k, _ := intKind(T)
	r := ranges[k]
	s := vc.def(node, "bit", "Int", v.S)
	if r[0] != "" {
		vc.fact(node, sAnd(app("<=", r[0], s), app("<=", s, r[1])))
	}
	vc.note("bit operation on two variables (%s) is uninterpreted apart from disjoint-bits facts", f)
	v.S = s
	return v
}

func (vc *VC) itfEq(a, b string) string {
	return sEq(a, b)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (fr *Frame) unop(in *ssa.UnOp, x Val, node int, st *State, pos string) Val {
	vc := fr.vc
	T := in.Type()
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if v, ok := vc.globalVal(g); ok {
				return v
			}
		}
		if x.Addr == nil {
			fr.safe(node, "nil", "nil dereference", pos, vc.nonNil(in.X, x))
		}
		v := vc.load(node, st, x.Addr, x.S, T)
		v = fr.named(node, fr.hint(in), v)
		if x.Addr == nil || x.Addr.ref != "" {
			vc.pfact(node, vc.typeFact(v, st))
		}
		if x.Addr != nil && v.S != "" {
			if n, ok := compField(x.Addr.comp); ok {
				if why, ok := vc.Sp.Counters[n]; ok {
					vc.note("machine arithmetic: %s stays within +-2^62 (%s)", n, why)
					vc.pfact(node, sAnd(app("<=", "(- 4611686018427387904)", v.S), app("<=", v.S, "4611686018427387904")))
				}
			}
		}
		if x.Addr != nil && x.Addr.idx == "" {
			if c := comps[x.Addr.comp]; vc.ownedComp(c) {
				b := "(sl_b " + v.S + ")"
				vc.pfact(node, sOr(sEq(b, "0"), sEq(sSel(vc.get(st, comps["owner"]), b), x.Addr.ref)))
			}
		}
		return v
	case token.NOT:
		return Val{T: T, S: sNot(x.S)}
	case token.SUB:
		if sortOf(T) == "Flt" {
			return Val{T: T, S: app("fneg", x.S)}
		}
		return Val{T: T, S: vc.wrap(T, app("-", x.S))}
	case token.XOR:
		k, _ := intKind(T)
		switch k {
		case types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uint, types.Uintptr:
			return Val{T: T, S: app("-", ranges[k][1], x.S)}
		}
		return Val{T: T, S: app("-", app("-", x.S), "1")}
	case token.ARROW:
		vc.note("channel receive not modelled")
		v := vc.freshVal("recv", T)
		vc.pfact(node, vc.typeFact(v, st))
		return v
	}
	vc.unsup("unary %s at %s", in.Op, pos)
	return vc.freshVal("op", T)
}

func (fr *Frame) convert(T types.Type, x Val, node int, st *State, pos string) Val {
	vc := fr.vc
	from, to := sortOf(x.T), sortOf(T)
	fu, tu := under(x.T), under(T)
	switch {
	case from == "Int" && to == "Int":
		if _, ok := tu.(*types.Basic); !ok {
			x.T = T
			return x
		}
		k, ok := intKind(T)
		k0, ok0 := intKind(x.T)
		if ok && ok0 {
			if rangeIncludes(k, k0) {
				return Val{T: T, S: x.S}
			}
			return Val{T: T, S: app(wraps[k], x.S)}
		}
		return Val{T: T, S: x.S}
	case from == "Int" && to == "Flt":
		return Val{T: T, S: app("fofint", x.S)}
	case from == "Flt" && to == "Int":
		k, _ := intKind(T)
		v := Val{T: T, S: vc.def(node, "ftoi", "Int", app("ftoint", fmt.Sprint(int(k)), x.S))}
		vc.fact(node, vc.typeFactN(v.S, T, "0"))
		return v
	case from == "Flt" && to == "Flt":
		if tstr(under(x.T)) == tstr(under(T)) {
			x.T = T
			return x
		}
		return Val{T: T, S: app("ffrom32", x.S)}
	case from == "Str" && to == "Str":
		x.T = T
		return x
	case from == "Slice" && to == "Str":
		el := fu.(*types.Slice).Elem()
		f := "bstr"
		if canonType(el) != "uint8" {
			f = "rstr"
		}
		return Val{T: T, S: app(f, sSel(vc.get(st, memComp(el)), "(sl_b "+x.S+")"), "(sl_o "+x.S+")", "(sl_n "+x.S+")")}
	case from == "Str" && to == "Slice":
		el := tu.(*types.Slice).Elem()
		r := vc.alloc(node, st)
		c := memComp(el)
		if canonType(el) == "uint8" {
			vc.setComp(node, st, c, sStore(vc.get(st, c), r, app("sarr", x.S)))
			cp := vc.fresh("cap", "Int")
			vc.fact(node, app("<=", app("slen", x.S), cp))
			vc.fact(node, app("<=", cp, "281474976710656"))
			return Val{T: T, S: app("mk_sl", r, "0", app("slen", x.S), cp)}
		}
		vc.note("[]rune(string) yields arbitrary contents")
		a := vc.fresh("runes", "(Array Int Int)")
		vc.setComp(node, st, c, sStore(vc.get(st, c), r, a))
		n := vc.fresh("len", "Int")
		vc.fact(node, sAnd(app("<=", "0", n), app("<=", n, app("slen", x.S))))
		return Val{T: T, S: app("mk_sl", r, "0", n, n)}
	case from == "Int" && to == "Str":
		return Val{T: T, S: app("runestr", x.S)}
	case from == to:
		x.T = T
		return x
	}
	vc.unsup("conversion %s -> %s at %s", x.T, T, pos)
	return vc.freshVal("conv", T)
}

func rangeIncludes(k, k0 types.BasicKind) bool {
	lo, hi := parseSMTInt(ranges[k][0]), parseSMTInt(ranges[k][1])
	lo0, hi0 := parseSMTInt(ranges[k0][0]), parseSMTInt(ranges[k0][1])
	return lo.Cmp(lo0) <= 0 && hi0.Cmp(hi) <= 0
}

func parseSMTInt(s string) *big.Int {
	neg := strings.HasPrefix(s, "(- ")
	if neg {
		s = s[3 : len(s)-1]
	}
	n, _ := new(big.Int).SetString(s, 10)
	if n == nil {
		return big.NewInt(0)
	}
	if neg {
		n.Neg(n)
	}
	return n
}

func (fr *Frame) slice(in *ssa.Slice, x Val, node int, st *State, pos string) Val {
	vc := fr.vc
	T := in.Type()
	get := func(v ssa.Value, d string) string {
		if v == nil {
			return d
		}
		return fr.val1(v, st).S
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		lo := get(in.Low, "0")
		hi := get(in.High, app("slen", x.S))
		if in.Low != nil || in.High != nil {
			fr.safe(node, "bounds", "string slice in range", pos, sAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, app("slen", x.S))))
		}
		return Val{T: T, S: app("ssub", x.S, lo, hi)}
	case *types.Slice:
		lo := get(in.Low, "0")
		hi := get(in.High, "(sl_n "+x.S+")")
		cp := "(sl_c " + x.S + ")"
		mx := get(in.Max, cp)
		if in.Low != nil || in.High != nil || in.Max != nil {
			fr.safe(node, "bounds", "slice bounds in range", pos, sAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, mx), app("<=", mx, cp)))
		}
		return Val{T: T, S: app("mk_sl", "(sl_b "+x.S+")", sIte(sEq("(sl_b "+x.S+")", "0"), "0", sAdd("(sl_o "+x.S+")", lo)), sub(hi, lo), sub(mx, lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		lo := get(in.Low, "0")
		hi := get(in.High, n)
		if in.Low != nil || in.High != nil {
			fr.safe(node, "bounds", "slice bounds in range", pos, sAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, n)))
		}
		return Val{T: T, S: app("mk_sl", x.S, lo, sub(hi, lo), sub(n, lo))}
	}
	vc.unsup("slice of %s at %s", in.X.Type(), pos)
	return vc.freshVal("slice", T)
}

func sub(a, b string) string {
	if b == "0" {
		return a
	}
	if x, e := strconv.ParseInt(a, 10, 64); e == nil {
		if y, e := strconv.ParseInt(b, 10, 64); e == nil {
			return sInt(x - y)
		}
	}
	return app("-", a, b)
}

func (fr *Frame) typeAssert(in *ssa.TypeAssert, x Val, node int, st *State, pos string) {
	vc := fr.vc
	T := in.AssertedType
	ok := vc.def(node, "ok", "Bool", vc.isType(x.S, T))
	v := vc.unbox(node, x.S, T)
	if in.CommaOk {
		if !v.IsV && v.S != "" {
			v.S = sIte(ok, v.S, vc.zeroTerm(T))
		}
		v = fr.named(node, fr.hint(in), v)
		vc.pfact(node, vc.typeFact(v, st))
		fr.vals[in] = Val{T: in.Type(), IsV: true, Vec: []Val{v, {T: types.Typ[types.Bool], S: ok}}}
		return
	}
	fr.safe(node, "typeassert", "type assertion to "+tstr(T)+" holds", pos, ok)
	v = fr.named(node, fr.hint(in), v)
	vc.pfact(node, vc.typeFact(v, st))
	fr.vals[in] = v
}
