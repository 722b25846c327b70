package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func loadSpec(dir string) *Spec {
	sp := &Spec{Funcs: map[string]*SpecFunc{}, Macros: map[string]*Macro{}, Lemmas: map[string]*Lemma{},
		Contracts: map[string]*Contract{}, Ghosts: map[string]*GhostDecl{}, Owned: map[string]bool{}, Counters: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		sp.parseFile(f)
	}
	for n := range sp.Ghosts {
		if sp.Macros[n] != nil || sp.Funcs[n] != nil {
			fmt.Println(n + " is declared twice")
			os.Exit(2)
		}
	}
	for n := range sp.Macros {
		if sp.Funcs[n] != nil {
			fmt.Println(n + " is declared twice")
			os.Exit(2)
		}
	}
	return sp
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	fn := flag.String("fn", "", "verify only functions whose key contains this")
	verbose := flag.Bool("v", false, "list every obligation")
	dump := flag.String("dump", "", "dump the query of obligations whose text contains this")
	ssaDump := flag.String("ssa", "", "print SSA of function")
	list := flag.Bool("list", false, "list functions")
	prop := flag.String("prop", "", "check a property")
	root := flag.String("root", "/verif", "root of the verification framework")
	flag.Parse()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specError); ok {
				fmt.Fprintln(os.Stderr, "govc:", string(e))
				os.Exit(3)
			}
			panic(r)
		}
	}()
	if *prop != "" {
		os.Exit(checkProp(*repo, *dir, *root, *prop))
	}
	t0 := time.Now()
	P := loadProgram(*repo)
	Sp := loadSpec(*dir)
	if *list {
		for _, k := range sortedKeys(P.funcs) {
			c := " "
			if Sp.Contracts[k] != nil {
				c = "*"
			}
			fmt.Println(c, k)
		}
		return
	}
	if *ssaDump != "" {
		for k, f := range P.funcs {
			if strings.Contains(k, *ssaDump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	run := func(vc *VC) {
		t1 := time.Now()
		if os.Getenv("GOVC_KEEP") != "" {
			vc.solveAll(devStages)
		} else {
			vc.solveAll(fullStages)
		}
		n, ok := 0, 0
		for _, o := range vc.obs {
			if o.Kind == "smoke" || o.Cand >= 0 && o.Status != "proved" {
				continue
			}
			n++
			if o.Status == "proved" {
				ok++
			}
		}
		fails := vc.failures()
		st := "ok"
		if len(fails) > 0 {
			st = "FAIL"
		}
		fmt.Printf("%-4s %-50s %d/%d obligations %v\n", st, vc.key, ok, n, time.Since(t1).Round(time.Millisecond))
		for _, o := range fails {
			fmt.Printf("     - [%s] %s @ %s: %s\n", o.Kind, o.Label, o.Pos, o.Out)
		}
		if *verbose || len(fails) > 0 {
			for i, c := range vc.cands {
				if c.drop {
					for _, o := range vc.obs {
						if o.Cand == i && o.Status == "failed" {
							fmt.Printf("       dropped candidate: %s (user=%v; %s %s)\n", c.desc, c.user, o.Kind, o.Out)
							break
						}
					}
				}
			}
		}
		if *verbose {
			for _, o := range vc.obs {
				fmt.Printf("       %-8s %-12s %-60s %s %s %dms\n", o.Status, o.Kind, o.Label, o.Pos, o.Backend, o.Ms)
			}
			for n := range vc.notes {
				fmt.Println("       note:", n)
			}
		}
		if *dump != "" {
			p := vc.prepare()
			for i, o := range vc.obs {
				if strings.Contains(o.Kind+" "+o.Label+" "+o.Pos, *dump) {
					f := fmt.Sprintf("/tmp/q%d.smt2", i)
					os.WriteFile(f, []byte(z3opts+vc.query(p, o)), 0644)
					fmt.Println("       dumped", f, o.Kind, o.Label, o.Status)
				}
			}
		}
	}
	for _, ln := range Sp.LemOrder {
		if *fn != "" && !strings.Contains("lemma "+ln, *fn) {
			continue
		}
		run(verifyLemma(P, Sp, Sp.Lemmas[ln]))
	}
	for _, k := range Sp.ConOrder {
		c := Sp.Contracts[k]
		if c.Trusted || c.Inline || (*fn != "" && !strings.Contains(k, *fn)) {
			continue
		}
		vc := verifyFunc(P, Sp, c)
		if vc == nil {
			fmt.Println("MISSING", k)
			continue
		}
		run(vc)
	}
	fmt.Fprintf(os.Stderr, "total %v\n", time.Since(t0))
}
