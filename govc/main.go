package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("REPO_DIR", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadSpecs() (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Funcs: map[string]*SpecFunc{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]*TypeX{}}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "contracts", "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := parseSpec(sp, f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check PROP | func KEY... | lemma NAME... | spec | list")
		os.Exit(2)
	}
	sp, err := loadSpecs()
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	if os.Args[1] == "check" {
		os.Exit(runCheck(sp, os.Args[2]))
	}
	prog, err := loadProg(repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := newSpecCtx(sp, prog)
	v := newVerifier(prog, sc)
	v.verbose = true
	v.Timeout = 10 * time.Second
	if t := os.Getenv("GOVC_T"); t != "" {
		n := 0
		fmt.Sscan(t, &n)
		v.Timeout = time.Duration(n) * time.Second
	}
	t0 := time.Now()
	bad := 0
	match := func(name string) bool {
		for _, a := range os.Args[2:] {
			if a == name || strings.HasSuffix(a, "*") && strings.HasPrefix(name, strings.TrimSuffix(a, "*")) || strings.HasSuffix(name, "."+a) {
				return true
			}
		}
		return len(os.Args) == 2
	}
	switch os.Args[1] {
	case "func":
		lockProps["C25"] = true
		for _, c := range sp.Order {
			if c.Kind == "func" && !c.Trusted && match(c.Key()) {
				r := v.verifyFunc(c, os.Getenv("GOVC_RESCUE") != "")
				bad += r.print()
			}
		}
	case "lemma":
		for _, l := range sp.LemOrder {
			if !l.Axiom && match(l.Name) {
				bad += v.verifyLemma(l).print()
			}
		}
	case "spec":
		for _, f := range sp.FuncOrder {
			if f.Rec && match(f.Name) {
				bad += v.verifySpec(f).print()
			}
		}
	case "ssa":
		for _, a := range os.Args[2:] {
			i := strings.LastIndex(a, ".")
			c := &Contract{Pkg: a[:i], Name: a[i+1:]}
			if j := strings.LastIndex(a[:i], "."); j > 0 && a[j+1] >= 'A' {
				c.Pkg, c.Recv = a[:j], a[j+1:i]
			}
			if f := prog.findFunc(c); f != nil {
				f.WriteTo(os.Stdout)
				for _, an := range f.AnonFuncs {
					an.WriteTo(os.Stdout)
				}
			} else {
				fmt.Println("not found", c.Key())
			}
		}
	case "list":
		for _, c := range sp.Order {
			fmt.Println(c.Kind, c.Key(), c.Props)
		}
	}
	fmt.Printf("%.1fs, %d queries, solver %.1fs, %d bad\n", time.Since(t0).Seconds(), v.s.Queries, v.s.Total, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
