package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return invokeKey(c)
	}
	if f := c.StaticCallee(); f != nil {
		return fnKey(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "function value"
}

func invokeKey(c *ssa.CallCommon) string {
	t := c.Value.Type()
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg().Name() + "."
		}
		return pk + n.Obj().Name() + "." + c.Method.Name()
	}
	return "interface." + c.Method.Name()
}

// funcTypeKey is the key of the contract of the values of a named function type
func funcTypeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + ".call"
	}
	return ""
}

// a deferred call with the arguments it was given
type deferred struct {
	in   *ssa.Defer
	con  *Contract
	fn   *ssa.Function // without a contract: its body is used
	bind []Val
	args []Val
}

func (fr *Frame) deferCall(in *ssa.Defer, st *State) {
	c := &in.Call
	d := deferred{in: in}
	if c.IsInvoke() {
		d.con = fr.vc.Sp.Contracts[invokeKey(c)]
	} else if f := c.StaticCallee(); f != nil {
		d.con = fr.vc.Sp.Contracts[fnKey(f)]
	}
	if f := c.StaticCallee(); d.con == nil && f != nil && fr.vc.hasBody(f) {
		d.fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			d.bind = fr.val1(mc, st).Bind
		}
	}
	if d.con == nil && d.fn == nil {
		fr.vc.note("deferred call %s is not modelled", callName(c))
		return
	}
	if c.IsInvoke() {
		d.args = append(d.args, fr.val1(c.Value, st))
	}
	for _, a := range c.Args {
		d.args = append(d.args, fr.val1(a, st))
	}
	fr.defers = append(fr.defers, d)
}

func (fr *Frame) runDefers(in *ssa.RunDefers, node int, st *State) int {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if d.in.Block() != in.Block() && !reaches(d.in.Block(), in.Block(), map[*ssa.BasicBlock]bool{}) {
			continue
		}
		if !d.in.Block().Dominates(in.Block()) || fr.inLoop(d.in.Block()) {
			fr.vc.unsup("deferred call %s that is not always made", callName(&d.in.Call))
			continue
		}
		if d.fn != nil {
			_, node = fr.callFn(d.fn, d.args, d.bind, node, st, fr.vc.pos(d.in.Pos()), d.fn.Signature.Results(), nil)
			continue
		}
		fr.contractCall(d.con, d.in.Call.Signature(), d.in.Call.IsInvoke(), d.args, node, st, fr.vc.pos(d.in.Pos()), nil)
	}
	return node
}

func reaches(a, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	for _, s := range a.Succs {
		if s == b {
			return true
		}
		if !seen[s] {
			seen[s] = true
			if reaches(s, b, seen) {
				return true
			}
		}
	}
	return false
}

func (fr *Frame) inLoop(b *ssa.BasicBlock) bool {
	for _, l := range fr.loops {
		if l.body[b] {
			return true
		}
	}
	return false
}

func (vc *VC) hasBody(f *ssa.Function) bool {
	return f != nil && len(f.Blocks) > 0 && (f.Pkg != nil && vc.P.inRepo[f.Pkg] || f.Pkg == nil && f.Synthetic != "")
}

func (fr *Frame) call(in *ssa.Call, node int, st *State) int {
	vc := fr.vc
	c := &in.Call
	pos := vc.pos(in.Pos())
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(in, b, node, st, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.val1(a, st))
	}
	if c.IsInvoke() {
		recv := fr.val1(c.Value, st)
		fr.safe(node, "nil", "method call on nil interface", pos, sNot(sEq(recv.S, "i_nil")))
		key := invokeKey(c)
		args = append([]Val{recv}, args...)
		if con := vc.Sp.Contracts[key]; con != nil {
			v := fr.contractCall(con, c.Signature(), true, args, node, st, pos, in)
			fr.vals[in] = v
			return node
		}
		vc.extern(key)
		fr.vals[in] = fr.havocResult(in, in.Type(), node, st)
		return node
	}
	f := c.StaticCallee()
	var bind []Val
	if f == nil {
		v := fr.val1(c.Value, st)
		if v.Fn != nil {
			f = v.Fn
			bind = v.Bind
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		bind = fr.val1(mc, st).Bind
	}
	if f == nil {
		if con := vc.Sp.Contracts[funcTypeKey(c.Value.Type())]; con != nil {
			fr.vals[in] = fr.contractCall(con, c.Signature(), false, args, node, st, pos, in)
			return node
		}
		vc.note("call of an unknown function value (at %s) is assumed not to modify the modelled heap", fr.fn.Name())
		fr.vals[in] = fr.havocResult(in, in.Type(), node, st)
		return node
	}
	v, n := fr.callFn(f, args, bind, node, st, pos, in.Type(), in)
	fr.vals[in] = v
	return n
}

func (vc *VC) extern(key string) {
	vc.note("external %s: result arbitrary, assumed not to panic and not to modify the modelled heap", key)
}

func (fr *Frame) havocResult(in ssa.Value, T types.Type, node int, st *State) Val {
	vc := fr.vc
	if t, ok := T.(*types.Tuple); ok && t.Len() == 0 {
		return Val{T: T, IsV: true}
	}
	nn := vc.fresh("next", "Int")
	vc.fact(node, app(">=", nn, vc.next(st)))
	pre := st.copy()
	st.m["next"] = nn
	vc.hinvExtend(node, pre, st)
	v := vc.freshVal("res", T)
	vc.pfact(node, vc.typeFact(v, st))
	return v
}

func (fr *Frame) callFn(f *ssa.Function, args, bind []Val, node int, st *State, pos string, T types.Type, in ssa.Instruction) (Val, int) {
	vc := fr.vc
	key := fnKey(f)
	con := vc.Sp.Contracts[key]
	if con != nil && !con.Inline && (!con.Expand || !vc.hasBody(f)) {
		return fr.contractCall(con, f.Signature, false, args, node, st, pos, in), node
	}
	if !vc.hasBody(f) {
		vc.extern(key)
		return fr.havocResult(nil, T, node, st), node
	}
	// inline
	for p := fr; p != nil; p = p.parent {
		if p.fn == f {
			vc.unsup("recursive call of %s without a contract (%s)", key, pos)
			return fr.havocResult(nil, T, node, st), node
		}
	}
	if len(fr.stack) > 12 {
		vc.unsup("inlining depth exceeded at %s", key)
		return fr.havocResult(nil, T, node, st), node
	}
	vc.inlined[key] = true
	vc.nsym++
	sub := &Frame{vc: vc, fn: f, con: con, vals: map[ssa.Value]Val{}, prefix: fmt.Sprintf("%s%s.", fr.prefix, f.Name()), parent: fr, stack: append(append([]string{}, fr.stack...), key), may: fr.may}
	for i, p := range f.Params {
		if i < len(args) {
			a := args[i]
			if a.Addr == nil {
				a.T = p.Type()
			}
			sub.vals[p] = a
		}
	}
	for i, p := range f.FreeVars {
		if i < len(bind) {
			sub.vals[p] = bind[i]
		}
	}
	sub.run(node, st.copy())
	if len(sub.exits) == 0 {
		// never returns
		n := vc.newNode([]int{node}, "false")
		return vc.freshVal("dead", T), n
	}
	var preds []int
	var rs []string
	var sts []*State
	for _, e := range sub.exits {
		preds = append(preds, e.node)
		rs = append(rs, vc.nodes[e.node].reach)
		sts = append(sts, e.st)
	}
	n := vc.newNode(preds, sOr(rs...))
	vc.nodes[n].edges = rs
	ms := vc.mergeStates(n, rs, sts)
	st.m = ms.m
	res := f.Signature.Results()
	var out []Val
	for i := 0; i < res.Len(); i++ {
		var vs []Val
		for _, e := range sub.exits {
			vs = append(vs, e.vals[i])
		}
		v := vc.mergeVals(sub.prefix+"ret", res.At(i).Type(), rs, vs)
		out = append(out, fr.named(n, sub.prefix+"ret", v))
	}
	switch len(out) {
	case 0:
		return Val{T: T, IsV: true}, n
	case 1:
		return out[0], n
	}
	return Val{T: T, IsV: true, Vec: out}, n
}

// contract call: requires become obligations, ensures become facts
func (fr *Frame) contractCall(con *Contract, sig *types.Signature, invoke bool, args []Val, node int, st *State, pos string, in ssa.Instruction) Val {
	vc := fr.vc
	vc.contracts[con.Key] = true
	env := &SEnv{vc: vc, vars: map[string]Val{}, st: st, old: st, node: node, pkg: vc.P.tpkgs[con.Pkg], fr: nil}
	for i, p := range con.Params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	for i, a := range args {
		// interior pointers passed as arguments
		if a.Addr != nil {
			vc.unsup("address of a scalar field passed to %s at %s", con.Key, pos)
		}
		_ = i
	}
	for _, r := range con.Req {
		t, err := env.boolExpr(r.E)
		if err != nil {
			vc.unsup("requires of %s: %v", con.Key, err)
			continue
		}
		if strings.HasPrefix(r.Label, "panics") && fr.mayPanic() {
			vc.pfact(node, t)
			continue
		}
		vc.check(node, "requires", con.Key+": "+r.name(), pos, t)
	}
	// termination of recursive calls
	if vc.con != nil && vc.con.Term && !con.Trusted {
		fr.checkDecrease(con, env, node, st, pos)
	}
	if !con.Trusted || con.KeepsInv {
		vc.hinvCheck(node, st, "holds at the call of "+con.Key, pos)
	}
	pre := st.copy()
	nn := vc.fresh("next", "Int")
	vc.fact(node, app(">=", nn, vc.next(st)))
	// modifies
	type upd struct {
		c    *Comp
		locs []string
		all  bool
	}
	var us []*upd
	get := func(c *Comp) *upd {
		for _, u := range us {
			if u.c == c {
				return u
			}
		}
		u := &upd{c: c}
		us = append(us, u)
		return u
	}
	for _, m := range con.Mod {
		c, err := vc.compByPattern(m.Comp, env.pkg)
		if err != nil {
			vc.unsup("modifies of %s: %v", con.Key, err)
			continue
		}
		u := get(c)
		if m.Loc == nil {
			u.all = true
			continue
		}
		lv, err := env.expr(m.Loc)
		if err != nil {
			vc.unsup("modifies of %s: %v", con.Key, err)
			u.all = true
			continue
		}
		u.locs = append(u.locs, env.keyOf(lv))
	}
	st.m["next"] = nn
	for _, u := range us {
		old := vc.get(pre, u.c)
		if u.all || u.c.key == "scalar" {
			s := vc.fresh(u.c.name, u.c.sort)
			st.m[u.c.name] = s
			continue
		}
		t := old
		for _, l := range u.locs {
			es := sortOf(u.c.elem)
			if u.c.key == "mem" {
				es = "(Array Int " + es + ")"
			}
			nv := vc.fresh(u.c.name+"'", es)
			// nothing is ever stored at address 0 (nil)
			vc.fact(node, sImp(sEq(l, "0"), sEq(nv, sSel(old, "0"))))
			t = sStore(t, l, nv)
		}
		vc.setComp(node, st, u.c, t)
	}
	for _, u := range us {
		if u.all || u.c.key == "scalar" {
			s := st.m[u.c.name]
			if ax := vc.baseAxiom(s, u.c, st); ax != "" {
				vc.fact(node, ax)
			}
		} else {
			for _, l := range u.locs {
				v := sSel(st.m[u.c.name], l)
				if u.c.key == "ref" {
					if u.c.name != "owner" {
						vc.fact(node, vc.typeFactN(v, u.c.elem, nn))
					}
					if vc.ownedComp(u.c) {
						b := "(sl_b " + v + ")"
						vc.pfact(node, sOr(sEq(b, "0"), sEq(sSel(vc.get(st, comps["owner"]), b), l)))
					}
				} else {
					f := vc.typeFactN(sSel(v, "i!"), u.c.elem, nn)
					if f != "true" {
						vc.fact(node, fmt.Sprintf("(forall ((i! Int)) (! %s :pattern (%s)))", f, sSel(v, "i!")))
					}
				}
			}
		}
	}
	if !con.Trusted || con.KeepsInv {
		// ownership also holds for the objects the call allocated
		for _, cn := range sortedKeys(comps) {
			c := comps[cn]
			if !vc.ownedComp(c) || !(vc.baseDeclared[cn] || st.m[cn] != "") {
				continue
			}
			v := sSel(vc.get(st, c), "r!")
			f := sAnd(vc.typeFactN(v, c.elem, nn), sOr(sEq("(sl_b "+v+")", "0"), sEq(sSel(vc.get(st, comps["owner"]), "(sl_b "+v+")"), "r!")))
			vc.pfact(node, fmt.Sprintf("(forall ((r! Int)) (! (=> (and (<= %s r!) (< r! %s)) %s) :pattern (%s)))", vc.next(pre), nn, f, v))
		}
		vc.hinvAssume(node, st)
	} else {
		vc.hinvExtend(node, pre, st)
	}
	// results
	res := sig.Results()
	var out []Val
	for i := 0; i < res.Len(); i++ {
		v := vc.freshVal("ret_"+shortKey(con.Key), res.At(i).Type())
		vc.pfact(node, vc.typeFact(v, st))
		out = append(out, v)
	}
	post := &SEnv{vc: vc, vars: map[string]Val{}, st: st, old: pre, node: node, pkg: env.pkg}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	for i, r := range con.Results {
		if i < len(out) {
			post.vars[r] = out[i]
		}
	}
	for _, g := range con.Ghosts {
		t, err := vc.P.resolveType(g.Typ, env.pkg)
		if err != nil {
			vc.unsup("ghost %s: %v", g.Name, err)
			continue
		}
		v := vc.freshVal("ghost_"+g.Name, t)
		post.vars[g.Name] = v
		if _, ok := ghostVarSorts["ghost:"+g.Name]; ok {
			if vc.hasGhost(g.Name) {
				st.m["ghost:"+g.Name] = v.S
			}
		}
	}
	for _, e := range con.Ens {
		t, err := post.boolExpr(e.E)
		if err != nil {
			vc.unsup("ensures of %s: %v", con.Key, err)
			continue
		}
		vc.pfact(node, t)
	}
	for _, e := range con.Assumes {
		t, err := post.boolExpr(e.E)
		if err != nil {
			vc.unsup("assumes of %s: %v", con.Key, err)
			continue
		}
		vc.pfact(node, t)
		vc.note("assumed of the result of %s, not checked: %s", con.Key, e.name())
	}
	switch len(out) {
	case 0:
		return Val{T: res, IsV: true}
	case 1:
		return out[0]
	}
	return Val{T: res, IsV: true, Vec: out}
}

func (vc *VC) hasGhost(n string) bool {
	if vc.con == nil {
		return false
	}
	for _, g := range vc.con.Ghosts {
		if g.Name == n {
			return true
		}
	}
	return false
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (c Clause) name() string {
	if c.Label != "" {
		return c.Label
	}
	s := c.Src
	if len(s) > 120 {
		s = s[:117] + "..."
	}
	return s
}

func (fr *Frame) checkDecrease(con *Contract, env *SEnv, node int, st *State, pos string) {
	vc := fr.vc
	if !con.Term {
		vc.check(node, "terminates", "callee "+con.Key+" has a termination proof", pos, "false")
		return
	}
	if !vc.sameSCC(con.Key, vc.key) {
		return
	}
	if len(con.Dec) == 0 || len(vc.con.Dec) == 0 {
		vc.check(node, "decreases", "recursive call of "+con.Key+" has a measure", pos, "false")
		return
	}
	var a, b []string
	self := &SEnv{vc: vc, vars: vc.params, st: vc.entry, old: vc.entry, node: node, pkg: vc.pkg}
	for _, d := range vc.con.Dec {
		v, err := self.expr(d)
		if err != nil {
			vc.unsup("decreases: %v", err)
			return
		}
		a = append(a, v.S)
	}
	for _, d := range con.Dec {
		v, err := env.expr(d)
		if err != nil {
			vc.unsup("decreases of %s: %v", con.Key, err)
			return
		}
		b = append(b, v.S)
	}
	vc.check(node, "decreases", "measure decreases at recursive call of "+con.Key, pos, lexLess(b, a))
}

// b < a lexicographically, with a's leading differing component non-negative
func lexLess(b, a []string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var alts []string
	for i := 0; i < n; i++ {
		var cs []string
		for j := 0; j < i; j++ {
			cs = append(cs, sEq(b[j], a[j]))
		}
		cs = append(cs, app("<", b[i], a[i]), app("<=", "0", a[i]))
		alts = append(alts, sAnd(cs...))
	}
	return sOr(alts...)
}

var sccCache map[string]map[string]bool

// sameSCC: can a reach b through contracted functions' bodies?
func (vc *VC) sameSCC(a, b string) bool {
	if sccCache == nil {
		sccCache = map[string]map[string]bool{}
	}
	reach := sccCache[a]
	if reach == nil {
		reach = map[string]bool{}
		work := []string{a}
		for len(work) > 0 {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			if reach[k] {
				continue
			}
			reach[k] = true
			f := vc.P.funcs[k]
			if f == nil {
				continue
			}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, bl := range f.Blocks {
					for _, in := range bl.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok {
							if g := ci.Common().StaticCallee(); g != nil {
								work = append(work, fnKey(g))
							}
						}
					}
				}
				for _, g := range f.AnonFuncs {
					visit(g)
				}
			}
			visit(f)
		}
		sccCache[a] = reach
	}
	return reach[b]
}

func (vc *VC) blit(sort string) string {
	n := "blit_" + strings.Trim(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(sort, " ", "_"), "(", ""), ")", ""), "_")
	if !vc.blits[sort] {
		vc.blits[sort] = true
		A := "(Array Int " + sort + ")"
		vc.pre = append(vc.pre, fmt.Sprintf("(declare-fun %s (%s Int %s Int Int) %s)", n, A, A, A))
		vc.preAx = append(vc.preAx, fmt.Sprintf("(assert (forall ((A %[2]s) (i Int) (B %[2]s) (j Int) (k Int) (x Int)) (! (= (select (%[1]s A i B j k) x) (ite (and (<= i x) (< x (+ i k))) (select B (+ j (- x i))) (select A x))) :pattern ((select (%[1]s A i B j k) x)))))", n, A))
		if sort == "Int" {
			vc.preAx = append(vc.preAx,
				"(assert (forall ((A (Array Int Int)) (i Int) (B (Array Int Int)) (j Int) (k Int) (o Int) (n Int)) (! (=> (and (<= o i) (<= 0 k) (= (+ o n) (+ i k))) (= (bstr (blit_Int A i B j k) o n) (scat (bstr A o (- i o)) (bstr B j k)))) :pattern ((bstr (blit_Int A i B j k) o n)))))",
				"(assert (forall ((A (Array Int Int)) (i Int) (B (Array Int Int)) (j Int) (k Int) (o Int) (n Int)) (! (=> (and (<= 0 k) (or (<= (+ o n) i) (<= (+ i k) o))) (= (bstr (blit_Int A i B j k) o n) (bstr A o n))) :pattern ((bstr (blit_Int A i B j k) o n)))))")
		}
	}
	return n
}

// appendTo models append(s, src...) exactly: in place when capacity suffices,
// otherwise a fresh backing array (kept at the same offset, which is unobservable).
func (fr *Frame) appendTo(node int, st *State, s string, el types.Type, n string, write func(arr string, at string) string) string {
	vc := fr.vc
	c := memComp(el)
	m := vc.get(st, c)
	nx := vc.alloc(node, st)
	nb := vc.def(node, "fits", "Bool", app("<=", app("+", "(sl_n "+s+")", n), "(sl_c "+s+")"))
	b := vc.def(node, "base", "Int", sIte(nb, "(sl_b "+s+")", nx))
	at := app("+", "(sl_o "+s+")", "(sl_n "+s+")")
	arr := write(sSel(m, "(sl_b "+s+")"), at)
	vc.setComp(node, st, c, sStore(m, b, arr))
	cp := vc.fresh("cap", "Int")
	nl := app("+", "(sl_n "+s+")", n)
	vc.fact(node, sImp(sNot(nb), app("<=", nl, cp)))
	vc.fact(node, sImp(nb, sEq(cp, "(sl_c "+s+")")))
	vc.pfact(node, sAnd(app("<=", nl, "281474976710656"), app("<=", cp, "281474976710656")))
	return vc.def(node, "app", "Slice", app("mk_sl", b, "(sl_o "+s+")", nl, cp))
}

func (fr *Frame) builtin(in *ssa.Call, b *ssa.Builtin, node int, st *State, pos string) int {
	vc := fr.vc
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, fr.val1(a, st))
	}
	T := in.Type()
	switch b.Name() {
	case "len":
		switch sortOf(args[0].T) {
		case "Str":
			fr.vals[in] = Val{T: T, S: app("slen", args[0].S)}
		case "Slice":
			fr.vals[in] = Val{T: T, S: "(sl_n " + args[0].S + ")"}
		default:
			if at, ok := under(args[0].T).(*types.Array); ok {
				fr.vals[in] = Val{T: T, S: fmt.Sprint(at.Len())}
				break
			}
			v := vc.freshVal("len", T)
			vc.fact(node, app("<=", "0", v.S))
			fr.vals[in] = v
		}
	case "cap":
		if sortOf(args[0].T) == "Slice" {
			fr.vals[in] = Val{T: T, S: "(sl_c " + args[0].S + ")"}
		} else {
			v := vc.freshVal("cap", T)
			vc.fact(node, app("<=", "0", v.S))
			fr.vals[in] = v
		}
	case "append":
		s := args[0].S
		el := under(args[0].T).(*types.Slice).Elem()
		if isStruct(el) {
			vc.unsup("append to slice of structs at %s", pos)
			fr.vals[in] = fr.havocResult(in, T, node, st)
			break
		}
		es := sortOf(el)
		if len(args) < 2 {
			fr.vals[in] = args[0]
			break
		}
		// single elements passed through the varargs array
		if sl, ok := in.Call.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
				if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() <= 8 {
					mref := fr.val1(al, st).S
					m := vc.get(st, memComp(el))
					r := fr.appendTo(node, st, s, el, fmt.Sprint(at.Len()), func(arr, p string) string {
						for i := int64(0); i < at.Len(); i++ {
							arr = sStore(arr, sAdd(p, fmt.Sprint(i)), vc.def(node, "elem", es, sSel(sSel(m, mref), fmt.Sprint(i))))
						}
						return arr
					})
					fr.vals[in] = Val{T: T, S: r}
					return node
				}
			}
		}
		if isNilConst(in.Call.Args[1]) {
			fr.vals[in] = args[0]
			break
		}
		bl := vc.blit(es)
		var src, so, n string
		if sortOf(args[1].T) == "Str" {
			src, so, n = app("sarr", args[1].S), "0", app("slen", args[1].S)
		} else {
			src = sSel(vc.get(st, memComp(el)), "(sl_b "+args[1].S+")")
			so, n = "(sl_o "+args[1].S+")", "(sl_n "+args[1].S+")"
		}
		r := fr.appendTo(node, st, s, el, n, func(arr, p string) string {
			return app(bl, arr, p, src, so, n)
		})
		// appending nothing to nil yields nil
		r = vc.def(node, "app", "Slice", sIte(sAnd(sEq(n, "0"), sEq("(sl_b "+s+")", "0")), "nil_sl", r))
		fr.vals[in] = Val{T: T, S: r}
	case "copy":
		d := args[0].S
		el := under(args[0].T).(*types.Slice).Elem()
		c := memComp(el)
		m := vc.get(st, c)
		var src, so, sn string
		if sortOf(args[1].T) == "Str" {
			src, so, sn = app("sarr", args[1].S), "0", app("slen", args[1].S)
		} else {
			src, so, sn = sSel(m, "(sl_b "+args[1].S+")"), "(sl_o "+args[1].S+")", "(sl_n "+args[1].S+")"
		}
		n := vc.def(node, "ncopy", "Int", sIte(app("<=", "(sl_n "+d+")", sn), "(sl_n "+d+")", sn))
		bl := vc.blit(sortOf(el))
		vc.setComp(node, st, c, sStore(m, "(sl_b "+d+")", app(bl, sSel(m, "(sl_b "+d+")"), "(sl_o "+d+")", src, so, n)))
		fr.vals[in] = Val{T: T, S: n}
	case "delete", "print", "println", "close", "clear":
		fr.vals[in] = Val{T: T, IsV: true}
	case "min", "max":
		op := "<="
		if b.Name() == "max" {
			op = ">="
		}
		t := args[0].S
		for _, a := range args[1:] {
			t = sIte(app(op, t, a.S), t, a.S)
		}
		fr.set(in, node, Val{T: T, S: t})
	case "recover":
		fr.vals[in] = Val{T: T, S: "i_nil"}
	case "ssa:wrapnilchk":
		fr.safe(node, "nil", "nil receiver in wrapper", pos, sNot(sEq(args[0].S, "0")))
		fr.vals[in] = args[0]
	default:
		vc.unsup("builtin %s at %s", b.Name(), pos)
		fr.vals[in] = vc.freshVal("builtin", T)
	}
	return node
}
