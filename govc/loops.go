package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects of a loop body ----

type effect struct {
	unknown bool
	locs    []string // loop-invariant keys (terms valid at loop entry)
}

type effects map[string]*effect

func (ef effects) add(c *Comp, loc string, unknown bool) {
	e := ef[c.name]
	if e == nil {
		e = &effect{}
		ef[c.name] = e
	}
	if unknown {
		e.unknown = true
		return
	}
	if loc == "" {
		return
	}
	for _, l := range e.locs {
		if l == loc {
			return
		}
	}
	e.locs = append(e.locs, loc)
}

type effCtx struct {
	fr    *Frame
	l     *loopInfo
	st    *State
	ef    effects
	amap  map[ssa.Value]ssa.Value
	depth int
	seen  map[*ssa.Function]bool
	vc    *VC
	out   map[ssa.Value]bool
}

// loc resolves a reference value: kind 0 unknown, 1 invariant term, 2 fresh
func (x *effCtx) loc(v ssa.Value, d int) (string, int) {
	if d > 12 {
		return "", 0
	}
	if a, ok := x.amap[v]; ok {
		return x.loc(a, d+1)
	}
	switch w := v.(type) {
	case *ssa.Alloc:
		if x.inside(w) {
			return "", 2
		}
	case *ssa.Const:
		return "0", 1
	case *ssa.Global:
		return x.fr.val1(v, x.st).S, 1
	case *ssa.FieldAddr:
		if x.inside(w) {
			T := w.X.Type().Underlying().(*types.Pointer).Elem()
			ft := structOf(T).Field(w.Field).Type()
			_, arr := under(ft).(*types.Array)
			if isStruct(ft) || arr {
				t, k := x.loc(w.X, d+1)
				if k == 1 {
					return interiorRef(t, T, w.Field), 1
				}
				return "", k
			}
			return "", 0
		}
	case *ssa.MakeSlice, *ssa.MakeClosure:
		if x.inside(v.(ssa.Instruction)) {
			return "", 2
		}
	case *ssa.ChangeType:
		return x.loc(w.X, d+1)
	case *ssa.ChangeInterface:
		return x.loc(w.X, d+1)
	case *ssa.MakeInterface:
		return x.loc(w.X, d+1)
	case *ssa.Phi:
		if w.Block() == x.l.header && w.Parent() == x.fr.fn {
			// accumulator: same object as at entry, or fresh
			if e, ok := x.fr.vals[w]; ok && e.S != "" {
				if sortOf(w.Type()) == "Slice" {
					return e.S, 1
				}
			}
			return "", 0
		}
	}
	if in, ok := v.(ssa.Instruction); ok && x.inside(in) {
		return "", 0
	}
	if r, ok := x.fr.vals[v]; ok && r.S != "" {
		return r.S, 1
	}
	return "", 0
}

func (x *effCtx) inside(in ssa.Instruction) bool {
	if in.Parent() != x.fr.fn {
		return true // inside an inlined callee
	}
	return x.l.body[in.Block()]
}

// base of a slice value
func (x *effCtx) base(v ssa.Value, d int) []struct {
	t string
	k int
} {
	type R = struct {
		t string
		k int
	}
	if d > 12 {
		return []R{{"", 0}}
	}
	if a, ok := x.amap[v]; ok {
		return x.base(a, d+1)
	}
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return []R{{"", 2}}
	}
	if in, ok := v.(ssa.Instruction); ok && x.inside(in) {
		switch w := v.(type) {
		case *ssa.MakeSlice:
			return []R{{"", 2}}
		case *ssa.Convert:
			return []R{{"", 2}}
		case *ssa.Slice:
			if _, ok := w.X.Type().Underlying().(*types.Pointer); ok {
				t, k := x.loc(w.X, d+1)
				return []R{{t, k}}
			}
			return x.base(w.X, d+1)
		case *ssa.ChangeType:
			return x.base(w.X, d+1)
		case *ssa.Call:
			if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return x.base(w.Call.Args[0], d+1)
			}
			return []R{{"", 0}}
		case *ssa.UnOp:
			if w.Op == token.MUL {
				if fa, ok := w.X.(*ssa.FieldAddr); ok {
					t, k := x.loc(fa.X, d+1)
					if k == 1 {
						T := fa.X.Type().Underlying().(*types.Pointer).Elem()
						v := x.vc.loadField(-1, x.st, T, fa.Field, t)
						return []R{{"(sl_b " + v.S + ")", 1}}
					}
					return []R{{"", k}}
				}
			}
		case *ssa.Phi:
			if w.Block() == x.l.header && w.Parent() == x.fr.fn {
				if e, ok := x.fr.vals[w]; ok && e.S != "" {
					return []R{{"(sl_b " + e.S + ")", 1}}
				}
			}
			var out []R
			for _, e := range w.Edges {
				if e == v {
					continue
				}
				out = append(out, x.base(e, d+1)...)
			}
			return out
		}
		return []R{{"", 0}}
	}
	if r, ok := x.fr.vals[v]; ok && r.S != "" {
		return []R{{"(sl_b " + r.S + ")", 1}}
	}
	return []R{{"", 0}}
}

func (x *effCtx) addAllocStruct(T types.Type) {
	s := structOf(T)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isStruct(ft) {
			x.addAllocStruct(ft)
			continue
		}
		if at, ok := under(ft).(*types.Array); ok {
			if !isStruct(at.Elem()) {
				x.ef.add(memComp(at.Elem()), "", false)
			}
			continue
		}
		x.ef.add(fieldComp(T, i), "", false)
	}
	for g, gd := range x.vc.Sp.Ghosts {
		if gd.Key == "*"+tstr(T) {
			_ = g
			x.ef.add(x.vc.ghostComp(gd, x.vc.pkg), "", false)
		}
	}
}

func (x *effCtx) addrStore(a ssa.Value, T types.Type) {
	switch w := a.(type) {
	case *ssa.FieldAddr:
		if !isStruct(T) {
			if _, arr := under(T).(*types.Array); !arr {
				PT := w.X.Type().Underlying().(*types.Pointer).Elem()
				t, k := x.loc(w.X, 0)
				c := fieldComp(PT, w.Field)
				x.addK(c, t, k)
				if x.vc.ownedComp(c) {
					x.ef.add(comps["owner"], "", true)
				}
				return
			}
		}
	case *ssa.IndexAddr:
		switch u := w.X.Type().Underlying().(type) {
		case *types.Slice:
			for _, b := range x.base(w.X, 0) {
				x.addK(memComp(u.Elem()), b.t, b.k)
			}
		case *types.Pointer:
			t, k := x.loc(w.X, 0)
			x.addK(memComp(u.Elem().Underlying().(*types.Array).Elem()), t, k)
		}
		return
	}
	if s := structOf(T); s != nil {
		t, k := x.loc(a, 0)
		x.addStruct(T, t, k)
		return
	}
	t, k := x.loc(a, 0)
	if at, ok := under(T).(*types.Array); ok {
		if !isStruct(at.Elem()) {
			x.addK(memComp(at.Elem()), t, k)
		}
		return
	}
	x.addK(cellComp(T), t, k)
}

func (x *effCtx) addStruct(T types.Type, t string, k int) {
	s := structOf(T)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		r := t
		if k == 1 {
			r = interiorRef(t, T, i)
		}
		if isStruct(ft) {
			x.addStruct(ft, r, k)
			continue
		}
		if at, ok := under(ft).(*types.Array); ok {
			if !isStruct(at.Elem()) {
				x.addK(memComp(at.Elem()), r, k)
			}
			continue
		}
		x.addK(fieldComp(T, i), t, k)
	}
}

func (x *effCtx) addK(c *Comp, t string, k int) {
	switch k {
	case 0:
		x.ef.add(c, "", true)
	case 1:
		x.ef.add(c, t, false)
	case 2:
		x.ef.add(c, "", false)
	}
}

func (x *effCtx) instrs(bl *ssa.BasicBlock) {
	vc := x.vc
	for _, in := range bl.Instrs {
		switch in := in.(type) {
		case *ssa.Alloc:
			T := in.Type().Underlying().(*types.Pointer).Elem()
			if isStruct(T) {
				x.addAllocStruct(T)
			} else if at, ok := under(T).(*types.Array); ok {
				if !isStruct(at.Elem()) {
					x.ef.add(memComp(at.Elem()), "", false)
				}
				x.ef.add(comps["owner"], "", false)
			} else {
				x.ef.add(cellComp(T), "", false)
			}
		case *ssa.MakeSlice:
			el := in.Type().Underlying().(*types.Slice).Elem()
			if !isStruct(el) {
				x.ef.add(memComp(el), "", false)
			}
			x.ef.add(comps["owner"], "", false)
		case *ssa.Convert:
			if sortOf(in.X.Type()) == "Str" && sortOf(in.Type()) == "Slice" {
				x.ef.add(memComp(under(in.Type()).(*types.Slice).Elem()), "", false)
				x.ef.add(comps["owner"], "", false)
			}
		case *ssa.Store:
			x.addrStore(in.Addr, in.Addr.Type().Underlying().(*types.Pointer).Elem())
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Call); !ok {
				continue
			}
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					el := under(c.Args[0].Type()).(*types.Slice).Elem()
					if !isStruct(el) {
						for _, b := range x.base(c.Args[0], 0) {
							x.addK(memComp(el), b.t, b.k)
						}
					}
					x.ef.add(comps["owner"], "", false)
				case "copy":
					el := under(c.Args[0].Type()).(*types.Slice).Elem()
					for _, b := range x.base(c.Args[0], 0) {
						x.addK(memComp(el), b.t, b.k)
					}
				}
				continue
			}
			var con *Contract
			var f *ssa.Function
			args := c.Args
			if c.IsInvoke() {
				con = vc.Sp.Contracts[invokeKey(c)]
				args = append([]ssa.Value{c.Value}, args...)
			} else if f = c.StaticCallee(); f != nil {
				con = vc.Sp.Contracts[fnKey(f)]
			} else {
				// locally known closure
				if mc := x.closure(c.Value); mc != nil {
					f = mc
				} else {
					con = vc.Sp.Contracts[funcTypeKey(c.Value.Type())]
				}
			}
			if con != nil && !con.Inline && !(con.Expand && x.vc.hasBody(f)) {
				x.contract(con, args)
				continue
			}
			if f != nil && vc.hasBody(f) && !x.seen[f] && x.depth < 12 {
				am := map[ssa.Value]ssa.Value{}
				for k, v := range x.amap {
					am[k] = v
				}
				for i, p := range f.Params {
					if i < len(args) {
						am[p] = args[i]
					}
				}
				if mc, ok := c.Value.(*ssa.MakeClosure); ok {
					for i, p := range f.FreeVars {
						am[p] = mc.Bindings[i]
					}
				}
				sub := *x
				sub.amap = am
				sub.depth++
				sub.seen = map[*ssa.Function]bool{f: true}
				for k := range x.seen {
					sub.seen[k] = true
				}
				for _, b := range f.Blocks {
					sub.instrs(b)
				}
			}
		}
	}
}

func (x *effCtx) closure(v ssa.Value) *ssa.Function {
	if r, ok := x.fr.vals[v]; ok {
		return r.Fn
	}
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

func (x *effCtx) contract(con *Contract, args []ssa.Value) {
	vc := x.vc
	pkg := vc.P.tpkgs[con.Pkg]
	env := &SEnv{vc: vc, vars: map[string]Val{}, st: x.st, old: x.st, node: -1, pkg: pkg, pure: true}
	known := map[string]int{}
	for i, p := range con.Params {
		if i < len(args) {
			t, k := "", 0
			if sortOf(args[i].Type()) == "Slice" {
				if in, ok := args[i].(ssa.Instruction); !ok || !x.inside(in) {
					if r, ok := x.fr.vals[args[i]]; ok && r.S != "" {
						t, k = r.S, 1
					}
				}
			} else {
				t, k = x.loc(args[i], 0)
				if k == 1 && sortOf(args[i].Type()) == "Itf" {
					if r, ok := x.fr.vals[args[i]]; ok {
						t = r.S
					} else {
						k = 0
					}
				}
			}
			known[p] = k
			if k == 1 {
				env.vars[p] = Val{T: args[i].Type(), S: t}
			}
		}
	}
	for _, m := range con.Mod {
		c, err := vc.compByPattern(m.Comp, pkg)
		if err != nil {
			continue
		}
		if m.Loc == nil {
			x.ef.add(c, "", true)
			continue
		}
		// all parameters mentioned must be loop-invariant
		kind := 1
		walk(m.Loc, func(y Expr) {
			if id, ok := y.(*EIdent); ok {
				if k, isP := known[id.Name]; isP {
					if k == 2 && kind == 1 {
						kind = 2
					}
					if k == 0 {
						kind = 0
					}
				}
			}
		})
		if kind == 2 {
			if _, ok := m.Loc.(*EIdent); !ok {
				kind = 2
			}
			x.ef.add(c, "", false)
			continue
		}
		if kind == 0 {
			x.ef.add(c, "", true)
			continue
		}
		v, err := env.expr(m.Loc)
		if err != nil {
			x.ef.add(c, "", true)
			continue
		}
		x.ef.add(c, env.keyOf(v), false)
	}
}

// ---- loop translation ----

func (fr *Frame) contractLoops() []*LoopSpec {
	var out []*LoopSpec
	seen := map[*LoopSpec]bool{}
	add := func(c *Contract) {
		if c == nil {
			return
		}
		for _, l := range c.Loops {
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	add(fr.con)
	if fr.parent != nil {
		for p := fr.parent; p != nil; p = p.parent {
			add(p.con)
		}
	}
	return out
}

func (fr *Frame) phiVals(l *loopInfo) map[ssa.Value]Val {
	m := map[ssa.Value]Val{}
	for _, p := range l.phis {
		m[p] = fr.vals[p]
	}
	return m
}

// specParams: the contract's parameter names bound to entry values
func (fr *Frame) specParams() map[string]Val {
	m := map[string]Val{}
	for k, v := range fr.vc.params {
		m[k] = v
	}
	if fr.con != nil && fr.parent != nil {
		for i, p := range fr.con.Params {
			if i < len(fr.fn.Params) {
				m[p] = fr.vals[fr.fn.Params[i]]
			}
		}
	}
	return m
}

type roleBind map[string]func(phi map[ssa.Value]Val) Val

// roles enumerates bindings of a loop spec's role variables
func (fr *Frame) roles(l *loopInfo, ls *LoopSpec, all bool) []roleBind {
	vc := fr.vc
	cands := make([][]func(map[ssa.Value]Val) Val, len(ls.Vars))
	for i, r := range ls.Vars {
		isIdx := r.Typ == "index"
		var T types.Type = tInt
		if !isIdx {
			t, err := vc.P.resolveType(r.Typ, vc.pkg)
			if err != nil {
				vc.unsup("loop var %s: %v", r.Name, err)
				return nil
			}
			T = t
		}
		exact := false
		for _, p := range l.phis {
			p := p
			if isIdx && !isIntType(p.Type()) {
				continue
			}
			if p.Comment == r.Name && (sortOf(p.Type()) == sortOf(T)) {
				cands[i] = append(cands[i], func(m map[ssa.Value]Val) Val { return m[p] })
				exact = true
			}
		}
		if exact {
			continue
		}
		for _, p := range l.phis {
			p := p
			if sortOf(p.Type()) != sortOf(T) || isStruct(p.Type()) {
				continue
			}
			if isIdx && !isIntType(p.Type()) {
				continue
			}
			if isIdx {
				if p.Comment == "rangeindex" {
					cands[i] = append(cands[i], func(m map[ssa.Value]Val) Val { return mk(tInt, app("+", m[p].S, "1")) })
				} else {
					cands[i] = append(cands[i], func(m map[ssa.Value]Val) Val { return m[p] })
				}
			} else if p.Comment != "rangeindex" {
				cands[i] = append(cands[i], func(m map[ssa.Value]Val) Val { return m[p] })
			}
		}
		if len(cands[i]) == 0 && !isIdx {
			// a value made before the loop and used in it
			seen := map[ssa.Value]bool{}
			for _, b := range fr.fn.Blocks {
				if !l.body[b] {
					continue
				}
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						v := *op
						if v == nil || seen[v] || !types.Identical(v.Type(), T) {
							continue
						}
						seen[v] = true
						if d, ok := v.(ssa.Instruction); ok {
							if l.body[d.Block()] {
								continue
							}
						} else if _, ok := v.(*ssa.Parameter); !ok {
							continue
						}
						if x, ok := fr.vals[v]; ok {
							cands[i] = append(cands[i], func(map[ssa.Value]Val) Val { return x })
						}
					}
				}
			}
		}
		if len(cands[i]) == 0 {
			return nil
		}
		if isIdx && len(cands[i]) > 1 {
			// prefer the range index
			for _, p := range l.phis {
				if p.Comment == "rangeindex" {
					p := p
					cands[i] = []func(map[ssa.Value]Val) Val{func(m map[ssa.Value]Val) Val { return mk(tInt, app("+", m[p].S, "1")) }}
				}
			}
		}
	}
	out := []roleBind{{}}
	for i, r := range ls.Vars {
		var nxt []roleBind
		for _, o := range out {
			for _, c := range cands[i] {
				n := roleBind{}
				for k, v := range o {
					n[k] = v
				}
				n[r.Name] = c
				nxt = append(nxt, n)
			}
		}
		out = nxt
		if len(out) > 12 {
			out = out[:12]
		}
	}
	return out
}

func (vc *VC) newCand(desc string, user bool) int {
	vc.cands = append(vc.cands, &Cand{desc: desc, user: user})
	vc.decls = append(vc.decls, fmt.Sprintf("(declare-const keep_%d Bool)", len(vc.cands)-1))
	return len(vc.cands) - 1
}

func (fr *Frame) enterLoop(l *loopInfo, node int, st *State) {
	vc := fr.vc
	l.node = node
	l.entrySt = st.copy()
	entPhi := fr.phiVals(l)
	pos := "loop " + fmt.Sprint(l.ord) + " of " + fnKey(fr.fn)
	// effects
	x := &effCtx{fr: fr, l: l, st: l.entrySt, ef: effects{}, amap: map[ssa.Value]ssa.Value{}, seen: map[*ssa.Function]bool{fr.fn: true}, vc: vc}
	var bls []*ssa.BasicBlock
	for b := range l.body {
		bls = append(bls, b)
	}
	sort.Slice(bls, func(i, j int) bool { return bls[i].Index < bls[j].Index })
	for _, b := range bls {
		x.instrs(b)
	}
	ghosts := map[string]bool{}
	// contract loops
	for _, ls := range fr.contractLoops() {
		if ls.Ord != 0 && (ls.Ord != l.ord && !(ls.Ord == -1 && l.ord == len(fr.loops)) || (fr.con == nil || !hasLoop(fr.con, ls))) {
			continue
		}
		binds := fr.roles(l, ls, false)
		if binds == nil {
			continue
		}
		for _, rb := range binds {
			rb := rb
			mkEnv := func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int, hdr bool) *SEnv {
				e := &SEnv{vc: vc, vars: fr.specParams(), st: st, old: vc.entry, ent: l.entrySt, node: node, pkg: vc.pkg, fr: fr, blk: blk, atHdr: hdr, phi: phi, entVars: map[string]Val{}}
				for k, f := range rb {
					e.vars[k] = f(phi)
					e.entVars[k] = f(entPhi)
				}
				return e
			}
			for _, gs := range ls.Inits {
				g := vc.Sp.Ghosts[gs.Comp]
				if g == nil {
					vc.unsup("init of unknown ghost %s", gs.Comp)
					continue
				}
				c := vc.ghostComp(g, vc.pkg)
				e := mkEnv(entPhi, st, l.header, node, true)
				loc, err := e.expr(gs.Loc)
				if err != nil {
					continue
				}
				v, err := e.expr(gs.E)
				if err != nil {
					continue
				}
				x.ef.add(c, "", true)
				vc.setComp(node, st, c, sStore(vc.get(st, c), e.keyOf(loc), e.coerceNil(v, c.elem).S))
				l.entrySt = st.copy()
			}
			for _, cl := range ls.Inv {
				cl := cl
				// does it evaluate here?
				if _, err := mkEnv(entPhi, st, l.header, -1, true).boolExpr(cl.E); err != nil {
					vc.note("loop clause %q does not apply to %s: %v", cl.name(), pos, err)
					continue
				}
				l.invs = append(l.invs, &loopInv{cand: vc.newCand(pos+": "+cl.name(), true), desc: cl.name(),
					ev: func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) (string, error) {
						return mkEnv(phi, st, l.header, node, true).boolExpr(cl.E)
					}})
			}
			if len(ls.Dec) > 0 {
				ds := ls.Dec
				ok := true
				for _, d := range ds {
					if _, err := mkEnv(entPhi, st, l.header, -1, true).expr(d); err != nil {
						ok = false
					}
				}
				if ok {
					l.decs = append(l.decs, &loopDec{ev: func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) ([]string, error) {
						var out []string
						for _, d := range ds {
							v, err := mkEnv(phi, st, l.header, node, true).expr(d)
							if err != nil {
								return nil, err
							}
							out = append(out, v.S)
						}
						return out, nil
					}})
				}
			}
			for _, u := range ls.Upd {
				u := u
				ghosts["ghost:"+u.Name] = true
				l.updates = append(l.updates, &loopUpd{name: u.Name, ev: func(st *State, blk *ssa.BasicBlock, node int) (string, error) {
					e := mkEnv(fr.phiVals(l), st, blk, node, false)
					e.phi = nil
					v, err := e.expr(u.E)
					return v.S, err
				}})
			}
			for _, gs := range ls.Sets {
				gs := gs
				g := vc.Sp.Ghosts[gs.Comp]
				if g == nil {
					vc.unsup("set of unknown ghost %s", gs.Comp)
					continue
				}
				c := vc.ghostComp(g, vc.pkg)
				x.ef.add(c, "", true)
				l.updates = append(l.updates, &loopUpd{name: c.name, comp: c, ev: func(st *State, blk *ssa.BasicBlock, node int) (string, error) {
					e := mkEnv(fr.phiVals(l), st, blk, node, false)
					e.phi = nil
					loc, err := e.expr(gs.Loc)
					if err != nil {
						return "", err
					}
					v, err := e.expr(gs.E)
					if err != nil {
						return "", err
					}
					return sStore(vc.get(st, c), e.keyOf(loc), e.coerceNil(v, c.elem).S), nil
				}})
			}
			for _, us := range ls.Uses {
				us := us
				l.uses = append(l.uses, func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int, hdr bool) (string, error) {
					e := mkEnv(phi, st, blk, node, hdr)
					if !hdr {
						e.phi = nil
					}
					return e.useLemma(us.E)
				})
			}
		}
	}
	fr.autoInvariants(l, entPhi, x.ef)
	// entry obligations
	for _, iv := range l.invs {
		t, err := iv.ev(entPhi, st, l.header, node)
		if err != nil {
			vc.unsup("invariant %s: %v", iv.desc, err)
			continue
		}
		vc.oblige(node, "inv-entry", iv.desc, pos, t, iv.cand)
	}
	// havoc
	for _, p := range l.phis {
		v := vc.freshVal(fr.hint(p), p.Type())
		fr.vals[p] = v
	}
	nn := vc.fresh("next", "Int")
	vc.fact(node, app(">=", nn, vc.next(st)))
	st.m["next"] = nn
	for _, c := range sortedKeys(x.ef) {
		cc := comps[c]
		if c == "next" {
			continue
		}
		vc.get(l.entrySt, cc)
		st.m[c] = vc.fresh(c, cc.sort)
	}
	for _, c := range sortedKeys(x.ef) {
		if c == "next" {
			continue
		}
		if ax := vc.baseAxiom(st.m[c], comps[c], st); ax != "" {
			vc.fact(node, ax)
		}
	}
	for _, g := range sortedKeys(ghosts) {
		st.m[g] = vc.fresh(g, ghostVarSorts[g])
	}
	for _, p := range l.phis {
		vc.pfact(node, vc.typeFact(fr.vals[p], st))
	}
	hphi := fr.phiVals(l)
	for _, iv := range l.invs {
		t, err := iv.ev(hphi, st, l.header, node)
		if err != nil {
			continue
		}
		vc.pfact(node, sImp(fmt.Sprintf("keep_%d", iv.cand), t))
	}
	for _, u := range l.uses {
		if t, err := u(hphi, st, l.header, node, true); err == nil {
			vc.pfact(node, t)
		}
	}
	l.headSt = st.copy()
	for _, d := range l.decs {
		h, err := d.ev(hphi, st, l.header, node)
		if err == nil {
			for i, t := range h {
				h[i] = vc.def(node, "measure", "Int", t)
			}
			d.head = h
		}
	}
	if vc.con != nil && vc.con.Term && len(l.decs) == 0 {
		fr.autoMeasure(l, hphi, st, node)
		if len(l.decs) == 0 {
			vc.check(node, "decreases", "loop has a termination measure", pos, "false")
		}
	}
}

func hasLoop(c *Contract, l *LoopSpec) bool {
	for _, x := range c.Loops {
		if x == l {
			return true
		}
	}
	return false
}

// headerGuard finds the loop's guard comparison in the header block
func headerGuard(l *loopInfo) *ssa.BinOp {
	n := len(l.header.Instrs)
	if n == 0 {
		return nil
	}
	i, ok := l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, _ := i.Cond.(*ssa.BinOp)
	return b
}

func (fr *Frame) invariantVal(l *loopInfo, v ssa.Value) (Val, bool) {
	if c, ok := v.(*ssa.Const); ok {
		return fr.vc.constVal(c), true
	}
	if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
		return Val{}, false
	}
	x, ok := fr.vals[v]
	return x, ok
}

// phiStep: phi's back-edge values are phi + k with a single sign
func phiStep(l *loopInfo, p *ssa.Phi) int {
	sign := 0
	for i, e := range p.Edges {
		if !l.body[p.Block().Preds[i]] {
			continue
		}
		s := stepOf(l, p, e, 0)
		if s == 2 {
			return 0
		}
		if s == 0 {
			continue
		}
		if sign != 0 && sign != s {
			return 0
		}
		sign = s
	}
	return sign
}

func stepOf(l *loopInfo, p *ssa.Phi, e ssa.Value, d int) int {
	if e == p {
		return 0
	}
	if d > 6 {
		return 2
	}
	switch b := e.(type) {
	case *ssa.BinOp:
		if b.Op == token.ADD || b.Op == token.SUB {
			n, ok := constInt(b.Y)
			if !ok {
				return 2
			}
			s := n.Sign()
			if b.Op == token.SUB {
				s = -s
			}
			r := stepOf(l, p, b.X, d+1)
			if r == 0 || r == s {
				return s
			}
		}
		return 2
	case *ssa.Phi:
		sign := 0
		for _, x := range b.Edges {
			s := stepOf(l, p, x, d+1)
			if s == 2 {
				return 2
			}
			if s == 0 {
				continue
			}
			if sign != 0 && sign != s {
				return 2
			}
			sign = s
		}
		return sign
	}
	return 2
}

func (fr *Frame) autoInvariants(l *loopInfo, ent map[ssa.Value]Val, ef effects) {
	vc := fr.vc
	pos := "loop " + fmt.Sprint(l.ord) + " of " + fnKey(fr.fn)
	add := func(desc string, ev func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) (string, error)) {
		l.invs = append(l.invs, &loopInv{cand: vc.newCand(pos+": "+desc, false), desc: desc, ev: ev})
	}
	g := headerGuard(l)
	for _, p := range l.phis {
		p := p
		if _, ok := intKind(p.Type()); ok {
			s := phiStep(l, p)
			e0 := ent[p].S
			if s > 0 {
				add("auto "+p.Comment+" does not decrease", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
					return app("<=", e0, phi[p].S), nil
				})
			}
			if s < 0 {
				add("auto "+p.Comment+" does not increase", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
					return app("<=", phi[p].S, e0), nil
				})
			}
			if g != nil {
				off := ""
				if g.X == p {
					off = "0"
				} else if b, ok := g.X.(*ssa.BinOp); ok && b.X == p && b.Op == token.ADD {
					if n, ok := constInt(b.Y); ok {
						off = n.String()
					}
				}
				if off != "" {
					if y, ok := fr.invariantVal(l, g.Y); ok && y.S != "" && sortOf(y.T) == "Int" {
						slack := ""
						switch g.Op {
						case token.LSS, token.NEQ:
							slack = "0"
						case token.LEQ:
							slack = "1"
						}
						if slack != "" && s >= 0 {
							slack, off := slack, off
							add("auto "+p.Comment+" stays within the loop bound", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
								return sOr(app("<=", sAdd(phi[p].S, off), sAdd(y.S, slack)), sEq(phi[p].S, e0)), nil
							})
						}
						switch g.Op {
						case token.GTR, token.NEQ:
							slack = "0"
						case token.GEQ:
							slack = "1"
						default:
							slack = ""
						}
						if slack != "" && s < 0 {
							slack := slack
							add("auto "+p.Comment+" stays above the loop bound", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
								return sOr(app(">=", sAdd(phi[p].S, slack), y.S), sEq(phi[p].S, e0)), nil
							})
						}
					}
				}
			}
		}
		if sortOf(p.Type()) == "Slice" {
			e0 := ent[p].S
			nx := vc.next(l.entrySt)
			add("auto "+p.Comment+" keeps its backing array or gets a fresh one", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
				b := "(sl_b " + phi[p].S + ")"
				return sOr(sEq(b, "(sl_b "+e0+")"), sAnd(app(">=", b, nx), sEq(sSel(vc.get(st, comps["owner"]), b), "0"))), nil
			})
		}
	}
	for _, h := range vc.Sp.HeapInvs {
		h := h
		touched := vc.hinvOn[h.Name]
		for _, c := range vc.hinvComps(h) {
			if _, ok := ef[c.name]; ok {
				touched = true
			}
		}
		if touched {
			add("heap invariant "+h.Name, func(_ map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, node int) (string, error) {
				return vc.hinvTerm(h, st, node), nil
			})
		}
	}
	// frame: only the statically known locations and fresh objects change
	for _, cn := range sortedKeys(ef) {
		c := comps[cn]
		e := ef[cn]
		if c.key == "scalar" || cn == "next" {
			continue
		}
		old := vc.get(l.entrySt, c)
		nx := vc.next(l.entrySt)
		if cn == "owner" {
			add("auto frame owner", func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
				nw := vc.get(st, c)
				return fmt.Sprintf("(forall ((r! Int)) (! (=> (< r! %s) (= (select %s r!) (select %s r!))) :pattern ((select %s r!))))", nx, nw, old, nw), nil
			})
			continue
		}
		if !e.unknown {
			locs := e.locs
			add("auto frame "+cn, func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
				return frameTerm(vc.get(st, c), old, vc.P.allocGuard(c, "r!", nx), locs), nil
			})
		} else if locs, ok := fr.contractLocs(c); ok {
			// the function's own frame, so far
			n0 := vc.next(vc.entry)
			o0 := vc.get(vc.entry, c)
			add("auto function frame "+cn, func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) (string, error) {
				return frameTerm(vc.get(st, c), o0, vc.P.allocGuard(c, "r!", n0), locs), nil
			})
		}
	}
}

func frameTerm(nw, old, guard string, locs []string) string {
	g := []string{guard}
	for _, l := range locs {
		g = append(g, sNot(sEq("r!", l)))
	}
	return fmt.Sprintf("(forall ((r! Int)) (! (=> %s (= (select %s r!) (select %s r!))) :pattern ((select %s r!))))", sAnd(g...), nw, old, nw)
}

// contractLocs: the locations of component c the function under proof may modify
func (fr *Frame) contractLocs(c *Comp) ([]string, bool) {
	vc := fr.vc
	if vc.con == nil {
		return nil, true
	}
	var locs []string
	for _, m := range vc.con.Mod {
		mc, err := vc.compByPattern(m.Comp, vc.pkg)
		if err != nil || mc != c {
			continue
		}
		if m.Loc == nil {
			return nil, false
		}
		env := &SEnv{vc: vc, vars: vc.params, st: vc.entry, old: vc.entry, node: 0, pkg: vc.pkg}
		v, err := env.expr(m.Loc)
		if err != nil {
			return nil, false
		}
		locs = append(locs, env.keyOf(v))
	}
	return locs, true
}

func (fr *Frame) autoMeasure(l *loopInfo, hphi map[ssa.Value]Val, st *State, node int) {
	g := headerGuard(l)
	if g == nil {
		return
	}
	for _, p := range l.phis {
		p := p
		s := phiStep(l, p)
		if s == 0 {
			continue
		}
		match := g.X == p
		if b, ok := g.X.(*ssa.BinOp); ok && b.X == p {
			match = true
		}
		if !match {
			continue
		}
		y, ok := fr.invariantVal(l, g.Y)
		if !ok || y.S == "" {
			continue
		}
		var ev func(phi map[ssa.Value]Val, st *State, blk *ssa.BasicBlock, node int) ([]string, error)
		if s > 0 {
			ev = func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) ([]string, error) {
				return []string{app("-", sAdd(y.S, "1"), phi[p].S)}, nil
			}
		} else {
			ev = func(phi map[ssa.Value]Val, st *State, _ *ssa.BasicBlock, _ int) ([]string, error) {
				return []string{app("-", sAdd(phi[p].S, "1"), y.S)}, nil
			}
		}
		h, _ := ev(hphi, st, nil, node)
		l.decs = append(l.decs, &loopDec{head: h, ev: ev})
		return
	}
}

func (fr *Frame) backEdge(l *loopInfo, b *ssa.BasicBlock, node int, st *State) {
	vc := fr.vc
	pos := "loop " + fmt.Sprint(l.ord) + " of " + fnKey(fr.fn)
	phi := map[ssa.Value]Val{}
	idx := -1
	for i, p := range l.header.Preds {
		if p == b {
			idx = i
		}
	}
	cond := fr.edgeCondB(b, l.header, idx)
	if cond == "false" {
		return
	}
	// lemma uses at the latch
	for _, u := range l.uses {
		if t, err := u(fr.phiVals(l), st, b, node, false); err == nil {
			vc.pfact(node, t)
		}
	}
	for _, p := range l.phis {
		phi[p] = fr.val1(p.Edges[idx], st)
	}
	st2 := st.copy()
	for _, u := range l.updates {
		t, err := u.ev(st2, b, node)
		if u.comp != nil {
			if err != nil {
				vc.note("ghost assignment to %s does not apply at %s: %v", u.name, pos, err)
				st2.m[u.name] = vc.fresh(u.name, u.comp.sort)
			} else {
				st2.m[u.name] = vc.def(node, u.name, u.comp.sort, t)
			}
			continue
		}
		if err != nil {
			vc.note("ghost update %s does not apply at %s: %v", u.name, pos, err)
			st2.m["ghost:"+u.name] = vc.fresh("ghost", ghostVarSorts["ghost:"+u.name])
			continue
		}
		s := vc.fresh("ghost:"+u.name, ghostVarSorts["ghost:"+u.name])
		vc.fact(node, sEq(s, t))
		st2.m["ghost:"+u.name] = s
	}
	for _, iv := range l.invs {
		t, err := iv.ev(phi, st2, b, node)
		if err != nil {
			vc.unsup("invariant %s: %v", iv.desc, err)
			continue
		}
		vc.oblige(node, "inv-preserve", iv.desc, pos, sImp(cond, t), iv.cand)
		o := vc.obs[len(vc.obs)-1]
		for _, p := range l.phis {
			if h, ok := fr.vals[p]; ok && isIntType(p.Type()) && len(o.Split) < 2 {
				if p.Comment == "rangeindex" {
					o.Split = append([]string{app("+", h.S, "1")}, o.Split...)
				} else {
					o.Split = append(o.Split, h.S)
				}
			}
		}
	}
	if vc.con != nil && vc.con.Term && len(l.decs) > 0 {
		var alts []string
		for _, d := range l.decs {
			n, err := d.ev(phi, st2, b, node)
			if err != nil || d.head == nil {
				continue
			}
			alts = append(alts, lexLess(n, d.head))
		}
		if len(alts) == 1 {
			vc.oblige(node, "decreases", "loop measure decreases", pos, sImp(cond, alts[0]), -1)
		} else {
			// several applicable measures: one of them must work on every path; try the first
			vc.oblige(node, "decreases", "loop measure decreases", pos, sImp(cond, alts[0]), -1)
		}
	}
	_ = strings.Join
}

func (fr *Frame) edgeCondB(p, b *ssa.BasicBlock, predIdx int) string {
	o := fr.out[p]
	if o == nil {
		return "false"
	}
	return fr.edgeCond(p, b, predIdx)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
