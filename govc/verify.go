package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verifyFunc generates all obligations of one function under contract.
func verifyFunc(P *Program, Sp *Spec, con *Contract) *VC {
	vc := newVC(P, Sp, con.Key)
	vc.con = con
	vc.mathint = con.MathInt
	vc.pkg = P.tpkgs[con.Pkg]
	f := P.funcs[con.Key]
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	vc.nodes = append(vc.nodes, &Node{reach: "true"})
	st := &State{map[string]string{}}
	vc.entry = &State{map[string]string{}}
	vc.params = map[string]Val{}
	fr := &Frame{vc: vc, fn: f, con: con, vals: map[ssa.Value]Val{}, may: con.MayPanic}
	vc.top = fr
	for i, p := range f.Params {
		v := vc.freshVal("p_"+p.Name(), p.Type())
		fr.vals[p] = v
		vc.fact(0, vc.typeFact(v, vc.entry))
		if i < len(con.Params) {
			vc.params[con.Params[i]] = v
		}
		if b, ok := under(p.Type()).(*types.Interface); ok && b != nil {
			_ = b
		}
	}
	if len(con.Params) > len(f.Params) {
		vc.unsup("contract of %s names %d parameters, the function has %d", con.Key, len(con.Params), len(f.Params))
	}
	for _, p := range f.FreeVars {
		v := vc.freshVal("fv_"+p.Name(), p.Type())
		fr.vals[p] = v
		vc.fact(0, vc.typeFact(v, vc.entry))
	}
	for _, g := range con.Ghosts {
		t, err := P.resolveType(g.Typ, vc.pkg)
		if err != nil {
			vc.unsup("ghost %s: %v", g.Name, err)
			continue
		}
		k := "ghost:" + g.Name
		ghostVarSorts[k] = sortOf(t)
		ghostVarTypes[k] = t
		st.m[k] = vc.fresh("ghost:"+g.Name, sortOf(t))
	}
	vc.next(vc.entry)
	vc.hinvOn = map[string]bool{}
	vc.hinvKnown = map[string][]int{}
	for _, h := range Sp.HeapInvs {
		vc.hinvOn[h.Name] = mentionsType(f, h.On)
	}
	vc.hinvAssume(0, vc.entry)
	env := &SEnv{vc: vc, vars: vc.params, st: vc.entry, old: vc.entry, node: 0, pkg: vc.pkg}
	for _, r := range con.Req {
		t, err := env.boolExpr(r.E)
		if err != nil {
			vc.unsup("requires %s: %v", r.name(), err)
			continue
		}
		vc.fact(0, t)
	}
	for _, u := range con.Uses {
		t, err := env.useLemma(u.E)
		if err != nil {
			vc.unsup("use %s: %v", u.name(), err)
			continue
		}
		vc.fact(0, t)
	}
	// termination: every callee in a terminating function must itself terminate
	fr.run(0, st)
	for i, e := range fr.exits {
		pe := &SEnv{vc: vc, vars: map[string]Val{}, st: e.st, old: vc.entry, node: e.node, pkg: vc.pkg}
		for k, v := range vc.params {
			pe.vars[k] = v
		}
		for j, r := range con.Results {
			if j < len(e.vals) {
				pe.vars[r] = e.vals[j]
			}
		}
		if len(con.Results) > len(e.vals) {
			vc.unsup("contract of %s names %d results, the function has %d", con.Key, len(con.Results), len(e.vals))
		}
		pos := fmt.Sprintf("return %d (%s)", i+1, e.pos)
		for _, gs := range con.Sets {
			g := Sp.Ghosts[gs.Comp]
			if g == nil {
				vc.unsup("set of unknown ghost %s", gs.Comp)
				continue
			}
			c := vc.ghostComp(g, vc.pkg)
			se := pe.clone()
			se.fr = fr
			se.blk = e.blk
			l, err := se.expr(gs.Loc)
			if err == nil {
				var v Val
				if v, err = se.expr(gs.E); err == nil {
					v = pe.coerceNil(v, c.elem)
					vc.setComp(e.node, e.st, c, sStore(vc.get(e.st, c), pe.keyOf(l), v.S))
				}
			}
			if err != nil {
				vc.unsup("set %s: %v", gs.Comp, err)
			}
		}
		ue := pe.clone()
		ue.fr = fr
		ue.blk = e.blk
		for _, u := range con.ExitUses {
			t, err := ue.useLemma(u.E)
			if err != nil {
				continue
			}
			vc.pfact(e.node, t)
		}
		for _, en := range con.Ens {
			for _, g := range conjuncts(en.E) {
				t, err := pe.boolExpr(g)
				if err != nil {
					vc.unsup("ensures %s: %v", en.name(), err)
					continue
				}
				vc.oblige(e.node, "ensures", en.name(), pos, t, -1)
			}
		}
		vc.hinvCheck(e.node, e.st, "holds at exit", pos)
		// frame
		for _, cn := range sortedKeys(e.st.m) {
			c := comps[cn]
			if c == nil || cn == "next" {
				continue
			}
			nw, old := e.st.m[cn], vc.get(vc.entry, c)
			if nw == old {
				continue
			}
			locs, ok := fr.contractLocs(c)
			if !ok {
				continue
			}
			if c.key == "scalar" {
				if !vc.modListed(c) {
					vc.oblige(e.node, "frame", cn+" unchanged", pos, sEq(nw, old), -1)
				}
				continue
			}
			r := vc.fresh("frame", "Int")
			guard := vc.P.allocGuard(c, r, vc.next(vc.entry))
			g := []string{guard}
			if strings.HasPrefix(guard, "(isal") {
				g = append(g, sOr(app(">", r, "0"), app("<", r, "(- 1000)")))
			} else {
				g = append(g, app(">", r, "0"))
			}
			for _, l := range locs {
				g = append(g, sNot(sEq(r, l)))
			}
			if c.key == "mem" {
				vc.oblige(e.node, "frame", cn+" changes only where listed", pos, sImp(sAnd(g...), sEq(sSel(nw, r), sSel(old, r))), -1)
			} else {
				vc.oblige(e.node, "frame", cn+" changes only where listed", pos, sImp(sAnd(g...), sEq(sSel(nw, r), sSel(old, r))), -1)
			}
		}
	}
	for _, e := range fr.exits {
		o := vc.oblige(e.node, "smoke", "exit reachable", e.pos, "false", -1)
		o.Kind = "smoke"
	}
	if len(fr.exits) == 0 && !con.MayPanic {
		vc.note("%s never returns", con.Key)
	}
	for u := range vc.unsupported {
		vc.oblige(0, "unsupported", u, "", "false", -1)
	}
	return vc
}

func (vc *VC) modListed(c *Comp) bool {
	for _, m := range vc.con.Mod {
		mc, err := vc.compByPattern(m.Comp, vc.pkg)
		if err == nil && mc == c {
			return true
		}
	}
	return false
}

func conjuncts(x Expr) []Expr {
	if b, ok := x.(*EBin); ok {
		if b.Op == "&&" {
			return append(conjuncts(b.X), conjuncts(b.Y)...)
		}
		if b.Op == "==>" {
			var out []Expr
			for _, y := range conjuncts(b.Y) {
				out = append(out, &EBin{"==>", b.X, y})
			}
			return out
		}
	}
	return []Expr{x}
}

// verifyLemma generates the obligations of a lemma.
func verifyLemma(P *Program, Sp *Spec, l *Lemma) *VC {
	vc := newVC(P, Sp, "lemma "+l.Name)
	vc.curLemma = l
	vc.pkg = P.tpkgs[l.Pkg]
	vc.entry = &State{map[string]string{}}
	vc.nodes = append(vc.nodes, &Node{reach: "true"})
	env, _, err := vc.lemmaEnv(l, func(n, s string) string { return vc.fresh(n, s) })
	if err != nil {
		fatal("lemma %s: %v", l.Name, err)
	}
	env.node = 0
	env.bound = 1
	for _, r := range l.Req {
		t, err := env.boolExpr(r)
		if err != nil {
			fatal("lemma %s: %v", l.Name, err)
		}
		vc.fact(0, t)
	}
	explicit := false
	for _, u := range l.Uses {
		if c, ok := u.E.(*ECall); ok && c.F == l.Name {
			explicit = true
		}
	}
	if l.Induct != "" && !explicit {
		// induction hypothesis: the lemma for smaller values of the measure, all other parameters arbitrary, same heap
		ih := env.clone()
		var bind []string
		for _, p := range l.Params {
			t, err := P.resolveType(p.Typ, vc.pkg)
			if err != nil {
				fatal("lemma %s: %v", l.Name, err)
			}
			s := q(p.Name + "?ih")
			bind = append(bind, fmt.Sprintf("(%s %s)", s, sortOf(t)))
			ih.vars[p.Name] = mk(t, s)
		}
		t, err := l.instance(ih)
		if err != nil {
			fatal("lemma %s: %v", l.Name, err)
		}
		m, m0 := ih.vars[l.Induct], env.vars[l.Induct]
		t = sImp(sAnd(app("<=", "0", m.S), app("<", m.S, m0.S)), t)
		if len(l.Trig) > 0 {
			var ts []string
			for _, x := range l.Trig {
				v, err := ih.expr(x)
				if err != nil {
					fatal("lemma %s: %v", l.Name, err)
				}
				ts = append(ts, v.S)
			}
			t = "(! " + t + " :pattern (" + strings.Join(ts, " ") + "))"
		}
		vc.fact(0, "(forall ("+strings.Join(bind, " ")+") "+t+")")
	}
	for _, u := range l.Uses {
		if c, ok := u.E.(*ECall); ok && c.F == l.Name {
			// explicit instance of the induction hypothesis
			ih := env.clone()
			for i, a := range c.Args {
				v, err := env.expr(a)
				if err != nil {
					fatal("lemma %s: %v", l.Name, err)
				}
				ih.vars[l.Params[i].Name] = v
			}
			t, err := l.instance(ih)
			if err != nil {
				fatal("lemma %s: %v", l.Name, err)
			}
			m, m0 := ih.vars[l.Induct], env.vars[l.Induct]
			vc.fact(0, sImp(sAnd(app("<=", "0", m.S), app("<", m.S, m0.S)), t))
			continue
		}
		t, err := env.useLemma(u.E)
		if err != nil {
			fatal("lemma %s: use: %v", l.Name, err)
		}
		vc.fact(0, t)
	}
	for i, r := range l.Ens {
		for _, g := range conjuncts(r) {
			t, err := env.boolExpr(g)
			if err != nil {
				fatal("lemma %s: %v", l.Name, err)
			}
			vc.oblige(0, "lemma", fmt.Sprintf("%s (%d)", l.Name, i+1), "", t, -1)
		}
	}
	vc.oblige(0, "smoke", "hypotheses consistent", "", "false", -1)
	return vc
}
