package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vc *VC) hinvComps(h *HeapInv) []*Comp {
	var out []*Comp
	for _, r := range h.Reads {
		c, err := vc.compByPattern(r, vc.P.tpkgs[h.Pkg])
		if err != nil {
			fatal("heapinv %s: %v", h.Name, err)
		}
		out = append(out, c)
	}
	return out
}

func (vc *VC) hinvTerm(h *HeapInv, st *State, node int) string {
	env := &SEnv{vc: vc, vars: map[string]Val{}, st: st, old: st, node: node, pkg: vc.P.tpkgs[h.Pkg]}
	t, err := env.boolExpr(h.E)
	if err != nil {
		fatal("heapinv %s: %v", h.Name, err)
	}
	return t
}

func (vc *VC) hinvKey(h *HeapInv, st *State, withNext bool) string {
	k := h.Name
	for _, c := range vc.hinvComps(h) {
		if v, ok := st.m[c.name]; ok {
			k += "," + v
		} else {
			k += "," + q(c.name+"@0")
		}
	}
	if withNext {
		k += "," + vc.next(st)
	}
	return k
}

// mentionsType: does the function body handle values of the named type
func mentionsType(f *ssa.Function, n string) bool {
	has := func(t types.Type) bool {
		return t != nil && strings.Contains(types.TypeString(t, func(*types.Package) string { return "" }), n)
	}
	for _, p := range f.Params {
		if has(p.Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && has(v.Type()) {
				return true
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && has((*op).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// assume the heap invariants at node for state st
func (vc *VC) hinvAssume(node int, st *State) {
	for _, h := range vc.Sp.HeapInvs {
		if !vc.hinvOn[h.Name] {
			continue
		}
		k := vc.hinvKey(h, st, true)
		if vc.hinvIs(k, node) {
			continue
		}
		vc.pfact(node, vc.hinvTerm(h, st, node))
		vc.hinvKnown[k] = append(vc.hinvKnown[k], node)
	}
}

func (vc *VC) hinvIs(k string, node int) bool {
	ns := vc.hinvKnown[k]
	if len(ns) == 0 {
		return false
	}
	anc := vc.ancestors(node)
	for _, n := range ns {
		if anc[n] {
			return true
		}
	}
	return false
}

// require the heap invariants at node for state st
func (vc *VC) hinvCheck(node int, st *State, what, pos string) {
	for _, h := range vc.Sp.HeapInvs {
		if vc.hinvKey(h, st, false) == vc.hinvKey(h, vc.entry, false) {
			if !vc.hinvOn[h.Name] {
				continue
			}
		}
		k := vc.hinvKey(h, st, true)
		if vc.hinvIs(k, node) {
			continue
		}
		t := vc.hinvTerm(h, st, node)
		vc.oblige(node, "heapinv", h.Name+" "+what, pos, t, -1)
		vc.pfact(node, t)
		vc.hinvKnown[k] = append(vc.hinvKnown[k], node)
	}
}

// hinvExtend: an external function may allocate objects; it creates none that
// violate the heap invariants (assumption), so invariants known before it are
// known after it.
func (vc *VC) hinvExtend(node int, pre, st *State) {
	for _, h := range vc.Sp.HeapInvs {
		if !vc.hinvOn[h.Name] {
			continue
		}
		k := vc.hinvKey(h, st, true)
		if vc.hinvKey(h, pre, false) != vc.hinvKey(h, st, false) || vc.hinvIs(k, node) {
			continue
		}
		if vc.hinvIs(vc.hinvKey(h, pre, true), node) {
			vc.pfact(node, vc.hinvTerm(h, st, node))
			vc.hinvKnown[k] = append(vc.hinvKnown[k], node)
		} else {
			vc.pfact(node, sImp(vc.hinvTerm(h, pre, node), vc.hinvTerm(h, st, node)))
		}
	}
}
