package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverCfg struct {
	name string
	args func(ms int) []string
	pre  string
}

var z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

var solvers = []solverCfg{
	{"z3-5.3", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, z3opts},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, z3opts},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}, "(set-logic ALL)\n"},
	{"z3-4.8-seed", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, z3opts + "(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"},
	{"z3-5.3-seed", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, z3opts + "(set-option :smt.random_seed 3)\n(set-option :smt.case_split 3)\n(set-option :smt.array.extensional false)\n"},
}

func (vc *VC) ancestors(n int) map[int]bool {
	seen := map[int]bool{0: true}
	work := []int{n}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			if x != 0 {
				continue
			}
		}
		seen[x] = true
		for _, p := range vc.nodes[x].preds {
			if !seen[p] {
				work = append(work, p)
			}
		}
	}
	return seen
}

type prepared struct {
	head string
}

func (vc *VC) prepare() *prepared {
	fd, fa := vc.emitFuncs()
	var b strings.Builder
	b.WriteString(prelude)
	for _, s := range vc.litOrder {
		v := vc.lits[s]
		fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", v, v, len(s))
		if len(s) <= 64 {
			for i := 0; i < len(s); i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", v, i, s[i])
			}
		}
		if len(s) == 1 {
			fmt.Fprintf(&b, "(assert (= %s (schr %d)))\n", v, s[0])
		}
	}
	for _, s := range vc.pre {
		b.WriteString(s + "\n")
	}
	for _, s := range fd {
		b.WriteString(s + "\n")
	}
	for _, s := range vc.decls {
		b.WriteString(s + "\n")
	}
	for _, s := range vc.preAx {
		b.WriteString(s + "\n")
	}
	for _, s := range fa {
		b.WriteString(s + "\n")
	}
	return &prepared{b.String()}
}

func (vc *VC) query(p *prepared, o *Oblig) string {
	return vc.context(p, o, vc.ancestors(o.Node)) + "(assert (not " + o.Goal + "))\n(check-sat)\n"
}

// a pathCase is a set of the paths that lead to an obligation
type pathCase struct {
	nodes   map[int]bool // nodes passed after front
	asserts []string
	front   int
}

// pathCases splits the paths to node n by the edges they take; together the cases cover all of them
func (vc *VC) pathCases(n int, max int) []pathCase {
	cs := []pathCase{{nodes: map[int]bool{}, front: n}}
	for {
		k := -1
		for i := range cs {
			c := &cs[i]
			for len(vc.nodes[c.front].preds) == 1 {
				c.nodes[c.front] = true
				c.front = vc.nodes[c.front].preds[0]
			}
			np := len(vc.nodes[c.front].preds)
			if np > 1 && len(vc.nodes[c.front].edges) == np && len(cs)+np-1 <= max && (k < 0 || len(cs[i].asserts) < len(cs[k].asserts)) {
				k = i
			}
		}
		if k < 0 {
			return cs
		}
		c := cs[k]
		nd := vc.nodes[c.front]
		var out []pathCase
		for i, p := range nd.preds {
			m := map[int]bool{c.front: true}
			for x := range c.nodes {
				m[x] = true
			}
			as := append([]string{}, c.asserts...)
			for j := 0; j < i; j++ {
				as = append(as, "(not "+nd.edges[j]+")")
			}
			as = append(as, nd.edges[i])
			out = append(out, pathCase{m, as, p})
		}
		cs = append(append(append([]pathCase{}, cs[:k]...), out...), cs[k+1:]...)
	}
}

// context gives the query up to its goal
func (vc *VC) context(p *prepared, o *Oblig, anc map[int]bool) string {
	var b strings.Builder
	b.WriteString(p.head)
	for i, c := range vc.cands {
		if c.drop {
			fmt.Fprintf(&b, "(assert (not keep_%d))\n", i)
		} else {
			fmt.Fprintf(&b, "(assert keep_%d)\n", i)
		}
	}
	seen := map[string]bool{}
	for _, it := range vc.items[:o.Upto] {
		if anc[it.node] && !seen[it.text] {
			seen[it.text] = true
			b.WriteString("(assert " + it.text + ")\n")
		}
	}
	if r := vc.nodes[o.Node].reach; r != "true" {
		b.WriteString("(assert " + r + ")\n")
	}
	return b.String()
}

var sem = make(chan bool, 8)

func runSolver(c solverCfg, q string, ms int) (string, string) {
	return runSolverCtx(context.Background(), c, q, ms)
}

func runSolverCtx(parent context.Context, c solverCfg, q string, ms int) (string, string) {
	sem <- true
	defer func() { <-sem }()
	if parent.Err() != nil {
		return "cancelled", ""
	}
	// the limit is processor time, so that a loaded machine does not change the outcome
	a := append([]string{"prlimit", fmt.Sprintf("--cpu=%d", (ms+999)/1000), "--"}, c.args(3*ms)...)
	ctx, cancel := context.WithTimeout(parent, time.Duration(3*ms+3000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			if strings.Contains(s, "(error") {
				return "error", s
			}
			return l, s
		}
	}
	if strings.Contains(s, "error") {
		return "error", s
	}
	return "timeout", s
}

// a stage runs its solvers at the same time; the first proof ends it
type stage []struct{ solver, ms int }

var quickStages = []stage{{{0, 1000}}, {{0, 4000}, {1, 4000}, {2, 4000}}}
var devStages = []stage{{{0, 1000}}, {{0, 4000}, {1, 4000}, {2, 4000}}}
var fullStages = []stage{{{0, 1000}}, {{0, 4000}, {1, 4000}, {2, 4000}}, {{0, 20000}, {1, 20000}, {2, 20000}, {3, 20000}, {4, 20000}}}

func (vc *VC) solveOne(p *prepared, o *Oblig, stages []stage) {
	if o.Goal == "true" {
		o.Status, o.Backend = "proved", "generator"
		return
	}
	q := vc.query(p, o)
	t0 := time.Now()
	var outs []string
	if time.Now().UnixNano() > deadline.Load() {
		o.Status, o.Out = "failed", "time budget of the check exhausted"
		return
	}
	if atomic.LoadInt32(&manyFailed) > 12 && len(stages) > 2 {
		stages = stages[:2]
	}
	for k, st := range stages {
		if k > 0 && time.Now().UnixNano() > deadline.Load() {
			outs = append(outs, "time budget of the check exhausted")
			break
		}
		ctx, cancel := context.WithCancel(context.Background())
		type res struct {
			k      int
			r, out string
		}
		ch := make(chan res, len(st))
		for _, s := range st {
			go func(k, ms int) {
				r, out := runSolverCtx(ctx, solvers[k], q, ms)
				ch <- res{k, r, out}
			}(s.solver, s.ms)
		}
		won := -1
		for range st {
			x := <-ch
			if won >= 0 {
				continue
			}
			if x.r == "unsat" {
				won = x.k
				cancel()
				continue
			}
			outs = append(outs, solvers[x.k].name+": "+x.r)
			if x.r == "error" {
				outs = append(outs, x.out)
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SOLVER ERROR", vc.key, o.Kind, o.Label, x.out)
				}
			}
		}
		cancel()
		if won < 0 && k == 1 {
			if be, why := vc.solveParts(p, o); be != "" {
				o.Status, o.Backend, o.Out = "proved", be, ""
				o.Ms = time.Since(t0).Milliseconds()
				return
			} else if why != "" {
				outs = append(outs, why)
			}
		}
		if won >= 0 {
			o.Status, o.Backend = "proved", solvers[won].name
			o.Ms = time.Since(t0).Milliseconds()
			o.Out = ""
			return
		}
	}
	o.Status = "failed"
	o.Out = strings.Join(outs, "; ")
	o.Ms = time.Since(t0).Milliseconds()
	if o.Cand < 0 {
		atomic.AddInt32(&manyFailed, 1)
	}
}

// ---- goals taken apart ----

// sexpEnd gives the end of the term that starts at p
func sexpEnd(g string, p int) int {
	if p < len(g) && g[p] == '|' {
		q := strings.IndexByte(g[p+1:], '|')
		if q < 0 {
			return len(g)
		}
		return p + q + 2
	}
	if p >= len(g) || g[p] != '(' {
		for p < len(g) && g[p] != ' ' && g[p] != ')' {
			p++
		}
		return p
	}
	d := 0
	for p < len(g) {
		switch g[p] {
		case '|':
			q := strings.IndexByte(g[p+1:], '|')
			if q < 0 {
				return len(g)
			}
			p += q + 1
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return p + 1
			}
		}
		p++
	}
	return p
}

// sexpList gives the elements of the list g
func sexpList(g string) []string {
	if len(g) < 2 || g[0] != '(' {
		return nil
	}
	var out []string
	p := 1
	for p < len(g)-1 {
		if g[p] == ' ' {
			p++
			continue
		}
		e := sexpEnd(g, p)
		out = append(out, g[p:e])
		p = e
	}
	return out
}

type goalPart struct {
	decls, hyps []string
	ints        []string
	goal        string
}

// takeApart splits a goal into goals that together imply it
func takeApart(b goalPart, max int) []goalPart {
	add := func(s []string, x string) []string { return append(append([]string{}, s...), x) }
	l := sexpList(b.goal)
	if len(l) == 0 {
		return []goalPart{b}
	}
	switch l[0] {
	case "=>":
		if len(l) == 3 {
			b.hyps = add(b.hyps, l[1])
			b.goal = l[2]
			return takeApart(b, max)
		}
	case "and":
		var out []goalPart
		for _, x := range l[1:] {
			n := b
			n.goal = x
			out = append(out, takeApart(n, max)...)
		}
		if len(out) > max {
			return []goalPart{b}
		}
		return out
	case "ite":
		if len(l) == 4 {
			n, m := b, b
			n.hyps, n.goal = add(b.hyps, l[1]), l[2]
			m.hyps, m.goal = add(b.hyps, "(not "+l[1]+")"), l[3]
			out := append(takeApart(n, max), takeApart(m, max)...)
			if len(out) > max {
				return []goalPart{b}
			}
			return out
		}
	case "forall":
		if len(l) == 3 {
			body := l[2]
			if y := sexpList(body); len(y) > 1 && y[0] == "!" {
				body = y[1]
			}
			for _, v := range sexpList(l[1]) {
				d := sexpList(v)
				if len(d) != 2 {
					return []goalPart{b}
				}
				b.decls = add(b.decls, "(declare-const "+d[0]+" "+d[1]+")")
				if d[1] == "Int" {
					b.ints = add(b.ints, d[0])
				}
			}
			b.goal = body
			return takeApart(b, max)
		}
	}
	return []goalPart{b}
}

// solveParts proves the parts of a goal one by one; it gives the back end used, or "" and the reason
func (vc *VC) solveParts(p *prepared, o *Oblig) (string, string) {
	parts := takeApart(goalPart{goal: o.Goal}, 24)
	var all []goalPart
	for _, g := range parts {
		if len(o.Split) > 0 && len(g.ints) > 0 {
			h := o.Split[0]
			n, m := g, g
			n.hyps = append(append([]string{}, g.hyps...), "(= "+g.ints[0]+" "+h+")")
			m.hyps = append(append([]string{}, g.hyps...), "(not (= "+g.ints[0]+" "+h+"))")
			all = append(all, n, m)
			continue
		}
		all = append(all, g)
	}
	cases := vc.pathCases(o.Node, 10)
	if len(all) < 2 && len(parts) == 1 && parts[0].goal == o.Goal && len(cases) < 2 {
		return "", ""
	}
	q := vc.context(p, o, vc.ancestors(o.Node))
	used := map[string]bool{}
	run := func(q string, sts []stage) string {
		for _, st := range sts {
			if time.Now().UnixNano() > deadline.Load() {
				return ""
			}
			ctx, cancel := context.WithCancel(context.Background())
			type res struct {
				k int
				r string
			}
			ch := make(chan res, len(st))
			for _, s := range st {
				go func(k, ms int) {
					r, _ := runSolverCtx(ctx, solvers[k], q, ms)
					ch <- res{k, r}
				}(s.solver, s.ms)
			}
			be := ""
			for range st {
				x := <-ch
				if x.r == "unsat" && be == "" {
					be = solvers[x.k].name
					cancel()
				}
			}
			cancel()
			if be != "" {
				return be
			}
		}
		return ""
	}
	tail := func(g goalPart) string {
		var b strings.Builder
		for _, d := range g.decls {
			b.WriteString(d + "\n")
		}
		for _, h := range g.hyps {
			b.WriteString("(assert " + h + ")\n")
		}
		b.WriteString("(assert (not " + g.goal + "))\n(check-sat)\n")
		return b.String()
	}
	first := []stage{{{0, 1000}}, {{0, 3000}, {1, 3000}, {2, 3000}}}
	last := []stage{{{0, 1000}}, {{0, 8000}, {1, 8000}, {2, 8000}, {4, 8000}}}
	var heads []string
	for i, g := range all {
		t := tail(g)
		if be := run(q+t, first); be != "" {
			used[be] = true
			continue
		}
		if heads == nil {
			for _, c := range cases {
				anc := vc.ancestors(c.front)
				for n := range c.nodes {
					anc[n] = true
				}
				h := vc.context(p, o, anc)
				for _, a := range c.asserts {
					h += "(assert " + a + ")\n"
				}
				heads = append(heads, h)
			}
		}
		for j, h := range heads {
			be := run(h+t, last)
			if be == "" {
				if os.Getenv("GOVC_PARTS") != "" {
					f := fmt.Sprintf("/tmp/part%d.smt2", o.Upto)
					os.WriteFile(f, []byte(h+t), 0644)
					fmt.Printf("       part %d of %d, case %d of %d of %s fails (%s): %.300s\n", i+1, len(all), j+1, len(heads), o.Label, f, g.goal)
				}
				return "", fmt.Sprintf("part %d of %d, case %d of %d fails", i+1, len(all), j+1, len(heads))
			}
			used[be] = true
		}
	}
	var names []string
	for _, s := range solvers {
		if used[s.name] {
			names = append(names, s.name)
		}
	}
	return strings.Join(names, "+"), ""
}

var manyFailed int32
var deadline = func() *atomic.Int64 { d := &atomic.Int64{}; d.Store(time.Now().Add(24 * time.Hour).UnixNano()); return d }()

// setDeadline brings the end of the solver time forward
func setDeadline(t time.Time) {
	for {
		o := deadline.Load()
		if o <= t.UnixNano() || deadline.CompareAndSwap(o, t.UnixNano()) {
			return
		}
	}
}

func (vc *VC) solveAll(stages []stage) { vc.solveWith(vc.prepare(), stages) }

func (vc *VC) solveWith(p *prepared, stages []stage) {
	par := func(os []*Oblig, f func(o *Oblig)) {
		var wg sync.WaitGroup
		for _, o := range os {
			wg.Add(1)
			go func(o *Oblig) { defer wg.Done(); f(o) }(o)
		}
		wg.Wait()
	}
	// phase 1: invariant candidates (Houdini)
	if os.Getenv("GOVC_KEEP") != "" { // development aid: every user invariant is assumed, failures are listed
		par(vc.obs, func(o *Oblig) {
			if o.Cand < 0 || vc.cands[o.Cand].drop {
				return
			}
			vc.solveOne(p, o, stages)
			if o.Status == "failed" {
				if vc.cands[o.Cand].user {
					fmt.Printf("       %s %s: %s (%dms)\n", o.Kind, vc.cands[o.Cand].desc, o.Out, o.Ms)
				} else {
					fmt.Printf("       (auto) %s %s\n", o.Kind, vc.cands[o.Cand].desc)
				}
			}
		})
	}
	todo := []*Oblig{}
	for _, o := range vc.obs {
		if o.Cand >= 0 && os.Getenv("GOVC_KEEP") == "" {
			todo = append(todo, o)
		}
	}
	for round := 0; round < 12 && len(todo) > 0; round++ {
		par(todo, func(o *Oblig) {
			if vc.cands[o.Cand].drop {
				o.Status = "dropped"
				return
			}
			if vc.cands[o.Cand].user || strings.Contains(vc.cands[o.Cand].desc, "auto function frame") || strings.Contains(vc.cands[o.Cand].desc, "heap invariant") {
				vc.solveOne(p, o, stages)
			} else {
				vc.solveOne(p, o, quickStages)
			}
		})
		dropped := map[int]bool{}
		for _, o := range todo {
			if o.Status == "failed" && !vc.cands[o.Cand].drop {
				vc.cands[o.Cand].drop = true
				dropped[o.Cand] = true
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Printf("       round %d drops %s %s (%dms)\n", round, o.Kind, vc.cands[o.Cand].desc, o.Ms)
				}
			}
		}
		if len(dropped) == 0 {
			break
		}
		var next []*Oblig
		for _, o := range vc.obs {
			if o.Cand < 0 || vc.cands[o.Cand].drop {
				if o.Cand >= 0 && o.Status != "failed" {
					o.Status = "dropped"
				}
				continue
			}
			dep := false
			for _, it := range vc.items[:o.Upto] {
				if strings.Contains(it.text, "keep_") {
					for c := range dropped {
						if strings.Contains(it.text, fmt.Sprintf("keep_%d ", c)) {
							dep = true
						}
					}
				}
			}
			if dep {
				next = append(next, o)
			}
		}
		todo = next
	}
	var rest []*Oblig
	for _, o := range vc.obs {
		if o.Cand < 0 {
			rest = append(rest, o)
		}
	}
	par(rest, func(o *Oblig) {
		if o.Kind == "smoke" {
			q := vc.query(p, o)
			r, _ := runSolver(solvers[0], q, 1500)
			if r == "unsat" {
				o.Status = "vacuous"
			} else {
				o.Status = "proved"
			}
			o.Backend = solvers[0].name
			return
		}
		if o.Kind == "unsupported" {
			o.Status = "failed"
			o.Out = "outside the generator's subset"
			return
		}
		vc.solveOne(p, o, stages)
	})
}

// failures of a verified unit: obligations not discharged (dropped auto candidates are not failures)
func (vc *VC) failures() []*Oblig {
	var out []*Oblig
	smoke, vac := 0, 0
	var last *Oblig
	for _, o := range vc.obs {
		switch {
		case o.Kind == "smoke":
			smoke++
			last = o
			if o.Status == "vacuous" {
				vac++
			}
		case o.Cand >= 0:
		case o.Status != "proved":
			out = append(out, o)
		}
	}
	if smoke > 0 && smoke == vac {
		last.Out = "every exit is provably unreachable: contradictory assumptions"
		out = append(out, last)
	}
	return out
}
