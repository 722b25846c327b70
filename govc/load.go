package main

// Loading /repo's current source as typed SSA.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    map[string]*ssa.Package // by name
	tpkgs    map[string]*types.Package
	funcs    map[string]*ssa.Function
	inRepo   map[*ssa.Package]bool
	gstores  map[*ssa.Global]bool // globals stored outside init
	ginit    map[*ssa.Global]ssa.Value
	repoDir  string
	typeIDs  map[string]int
	typeByID []types.Type
}

func loadProgram(dir string) *Program {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	P := &Program{pkgs: pkgs, spkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, inRepo: map[*ssa.Package]bool{}, gstores: map[*ssa.Global]bool{},
		ginit: map[*ssa.Global]ssa.Value{}, repoDir: dir, typeIDs: map[string]int{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fatal("load: %v", e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	P.prog = prog
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		n := sp.Pkg.Name()
		if n == "main" {
			n = "main_" + strings.ReplaceAll(sp.Pkg.Path()[strings.LastIndex(sp.Pkg.Path(), "/")+1:], "-", "_")
		}
		P.spkgs[n] = sp
		P.inRepo[sp] = true
	}
	for _, p := range prog.AllPackages() {
		if _, ok := P.tpkgs[p.Pkg.Name()]; !ok || P.inRepo[p] {
			P.tpkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for _, p := range pkgs {
		P.tpkgs[p.Types.Name()] = p.Types
	}
	var imp func(p *types.Package, seen map[*types.Package]bool)
	imp = func(p *types.Package, seen map[*types.Package]bool) {
		if seen[p] {
			return
		}
		seen[p] = true
		if _, ok := P.tpkgs[p.Name()]; !ok {
			P.tpkgs[p.Name()] = p
		}
		for _, q := range p.Imports() {
			imp(q, seen)
		}
	}
	seen := map[*types.Package]bool{}
	for _, p := range pkgs {
		imp(p.Types, seen)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.inRepo[f.Pkg] && f.Synthetic == "" {
			P.funcs[fnKey(f)] = f
		}
	}
	for sp := range P.inRepo {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Synthetic == "" {
				P.funcs[fnKey(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg != nil && P.inRepo[f.Pkg] {
							P.funcs[fnKey(f)] = f
						}
					}
				}
			}
		}
	}
	for sp := range P.inRepo {
		initf := sp.Func("init")
		for k, f := range P.funcs {
			_ = k
			if f.Pkg != sp {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						P.gstores[g] = true
					}
				}
			}
		}
		if initf != nil {
			for _, b := range initf.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							P.ginit[g] = s.Val
						}
					}
				}
			}
		}
	}
	return P
}

func qual(p *types.Package) string { return p.Name() }

func tstr(t types.Type) string { return types.TypeString(t, qual) }

func fnKey(f *ssa.Function) string {
	if f.Parent() != nil {
		k := fnKey(f.Parent())
		return k + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	sig := f.Signature
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pk + ".(*" + typeBase(p.Elem()) + ")." + f.Name()
		}
		return pk + "." + typeBase(t) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func typeBase(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return tstr(t)
}

func (P *Program) typeID(t types.Type) int {
	s := canonType(t)
	if id, ok := P.typeIDs[s]; ok {
		return id
	}
	id := len(P.typeIDs) + 1
	P.typeIDs[s] = id
	P.typeByID = append(P.typeByID, t)
	return id
}

// GArr is a ghost (mathematical, total) array type used only in contracts.
type GArr struct{ K, V types.Type }

func (g *GArr) Underlying() types.Type { return g }
func (g *GArr) String() string         { return "map[" + g.K.String() + "]" + g.V.String() }

// resolveType resolves a type expression of the contract language.
func (P *Program) resolveType(s string, pkg *types.Package) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case s == "interface{}" || s == "any":
		return types.NewInterfaceType(nil, nil), nil
	case strings.HasPrefix(s, "*"):
		t, err := P.resolveType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := P.resolveType(s[2:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "gomap["):
		k := strings.Index(s, "]")
		a, err := P.resolveType(s[6:k], pkg)
		if err != nil {
			return nil, err
		}
		b, err := P.resolveType(s[k+1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewMap(a, b), nil
	case strings.HasPrefix(s, "map["):
		d := 0
		k := -1
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k = i
					break
				}
			}
		}
		a, err := P.resolveType(s[4:k], pkg)
		if err != nil {
			return nil, err
		}
		b, err := P.resolveType(s[k+1:], pkg)
		if err != nil {
			return nil, err
		}
		return &GArr{a, b}, nil
	case strings.HasPrefix(s, "func("):
		return types.NewSignatureType(nil, nil, nil, nil, nil, false), nil
	}
	if i := strings.Index(s, "."); i >= 0 {
		p := P.tpkgs[s[:i]]
		if p == nil {
			return nil, fmt.Errorf("unknown package %s", s[:i])
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			return nil, fmt.Errorf("unknown type %s", s)
		}
		return o.Type(), nil
	}
	if s == "str" {
		s = "string"
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(s); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
	}
	return nil, fmt.Errorf("unknown type %q", s)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
