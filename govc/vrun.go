package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Verifier drives obligation generation and solving.
type Verifier struct {
	skip    func(*Oblig) bool // obligations the check is not about
	prog    *Prog
	sc      *SpecCtx
	s       *Solver
	cache   map[[32]byte]*Oblig
	Timeout time.Duration
	verbose bool
	dump    string
	done    map[string]*Result
	inline  map[string]bool
	budget  time.Time
}

// Result of verifying one unit (function, lemma, spec function).
type Result struct {
	Name    string
	Kind    string
	Unit    *Unit
	Obls    []*Oblig // the obligations of the final round
	Dropped []string // loop invariants given up
	Err     string
	Secs    float64
	Rescue  bool
}

func newVerifier(p *Prog, sc *SpecCtx) *Verifier {
	d, _ := os.MkdirTemp("", "govc")
	return &Verifier{prog: p, sc: sc, s: &Solver{Dir: d}, cache: map[[32]byte]*Oblig{}, Timeout: 10 * time.Second, done: map[string]*Result{}, inline: map[string]bool{}, dump: os.Getenv("GOVC_DUMP")}
}

func (v *Verifier) close() { os.RemoveAll(v.s.Dir) }

var bvRe = regexp.MustCompile(`![0-9]+`)

func normQuery(q string) string {
	m := map[string]string{}
	return bvRe.ReplaceAllStringFunc(q, func(s string) string {
		r, ok := m[s]
		if !ok {
			r = fmt.Sprintf("!%d", len(m))
			m[s] = r
		}
		return r
	})
}

// run solves obligations with the given time limit per back end.
func (v *Verifier) run(obls []*Oblig, to time.Duration, tries int) {
	var todo []*Oblig
	keys := map[*Oblig][32]byte{}
	dup := map[[32]byte]*Oblig{}
	var alias [][2]*Oblig
	for _, o := range obls {
		if o.Status == "proved" {
			continue
		}
		if o.Guard == TFalse || o.T == TTrue {
			o.Status, o.Solver = "proved", "trivial"
			continue
		}
		if o.Query == "" {
			o.Query = normQuery(v.sc.query(o))
		}
		k := sha256.Sum256([]byte(o.Kind + o.Query))
		keys[o] = k
		if c := v.cache[k]; c != nil && (c.Status == "proved" || c.Secs >= to.Seconds()*float64(tries)*0.9 || c.Status == "vacuous") {
			o.Status, o.Solver, o.Model, o.Secs = c.Status, c.Solver, c.Model, c.Secs
			continue
		}
		if d := dup[k]; d != nil {
			alias = append(alias, [2]*Oblig{o, d})
			continue
		}
		dup[k] = o
		if tries > 1 && o.Kind != "reach" && o.Query2 == "" {
			o.Query2 = normQuery(v.sc.query2(o))
		}
		todo = append(todo, o)
	}
	v.s.Timeout = to
	v.s.solveAll(todo, tries)
	for _, o := range todo {
		v.cache[keys[o]] = &Oblig{Status: o.Status, Solver: o.Solver, Model: o.Model, Secs: o.Secs}
	}
	for _, a := range alias {
		a[0].Status, a[0].Solver, a[0].Model = a[1].Status, a[1].Solver, a[1].Model
	}
}

func failing(os []*Oblig) (out []*Oblig) {
	for _, o := range os {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return
}

func (v *Verifier) solveUnit(obls []*Oblig) {
	quick := v.Timeout / 3
	if quick < 3*time.Second {
		quick = 3 * time.Second
	}
	v.run(obls, quick, 1)
	if f := failing(obls); len(f) > 0 {
		var g []*Oblig
		for _, o := range f {
			// cheap automatic candidates are not worth a second look
			if o.Inv != nil && strings.Contains(o.Inv.Key, "/auto:") || o.Status == "vacuous" {
				continue
			}
			g = append(g, o)
		}
		// once an obligation fails with every back end the unit fails; with
		// very many open obligations only some get the long treatment
		v.run(g, v.Timeout, 3)
	}
}

// verifyFunc proves a function against its contract; loop invariants that
// do not hold are dropped one round at a time (Houdini).
func (v *Verifier) verifyFunc(c *Contract, rescue bool) *Result {
	t0 := time.Now()
	r := &Result{Name: c.Key(), Kind: "func", Rescue: rescue}
	dropped := map[string]bool{}
	defer func() { r.Secs = time.Since(t0).Seconds() }()
	for round := 0; ; round++ {
		u, _ := genFunc(v.prog, v.sc, c, dropped, rescue, v.inline)
		r.Unit = u
		r.Obls = nil
		for _, o := range u.Obls {
			if v.skip == nil || !v.skip(o) {
				r.Obls = append(r.Obls, o)
			}
		}
		if u.Err != "" {
			r.Err = u.Err
			return r
		}
		// invariants first
		var invs, rest []*Oblig
		for _, o := range r.Obls {
			if o.Inv != nil {
				invs = append(invs, o)
			} else {
				rest = append(rest, o)
			}
		}
		v.solveUnit(invs)
		drop := map[string]bool{}
		for _, o := range failing(invs) {
			drop[o.Inv.Key] = true
		}
		if len(drop) > 0 && round < 12 {
			for k := range drop {
				dropped[k] = true
				if !strings.Contains(k, "/auto:") {
					r.Dropped = append(r.Dropped, k)
				}
			}
			if v.verbose && !rescue {
				for _, o := range failing(invs) {
					if !strings.Contains(o.Inv.Key, "/auto:") {
						fmt.Printf("  drop %-60s %s [%s] %s %s\n", o.Inv.Key, o.Kind, o.Status, short(o.Src, 100), o.Model)
						v.dumpQuery(o)
					}
				}
			}
			continue
		}
		v.solveUnit(rest)
		sort.Strings(r.Dropped)
		return r
	}
}

func (v *Verifier) verifyLemma(l *Lemma) *Result {
	t0 := time.Now()
	u := genLemma(v.prog, v.sc, l)
	r := &Result{Name: u.Name, Kind: "lemma", Unit: u, Obls: u.Obls, Err: u.Err}
	if u.Err == "" {
		v.solveUnit(u.Obls)
	}
	r.Secs = time.Since(t0).Seconds()
	return r
}

func (v *Verifier) verifySpec(f *SpecFunc) *Result {
	t0 := time.Now()
	u := genSpecFunc(v.prog, v.sc, f)
	r := &Result{Name: u.Name, Kind: "spec", Unit: u, Obls: u.Obls, Err: u.Err}
	if u.Err == "" {
		v.solveUnit(u.Obls)
	}
	r.Secs = time.Since(t0).Seconds()
	return r
}

func (v *Verifier) dumpQuery(o *Oblig) {
	if v.dump == "" || o.Query == "" {
		return
	}
	os.MkdirAll(v.dump, 0o755)
	n := symFile(fmt.Sprintf("%s-%s-%s-%s", o.Func, o.Kind, o.Label, o.Pos))
	os.WriteFile(filepath.Join(v.dump, n+".smt2"), []byte(o.Query), 0o644)
}

func symFile(s string) string {
	s = regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func (r *Result) print() int {
	n := map[string]int{}
	for _, o := range r.Obls {
		n[o.Status]++
	}
	ok := "ok  "
	bad := failing(r.Obls)
	if r.Err != "" || len(bad) > 0 {
		ok = "FAIL"
	}
	fmt.Printf("%s %-60s %d/%d  %.1fs dropped=%d %s\n", ok, r.Name, n["proved"], len(r.Obls), r.Secs, len(r.Dropped), r.Err)
	if len(r.Dropped) > 0 {
		fmt.Println("     dropped:", strings.Join(r.Dropped, " "))
	}
	for _, o := range bad {
		fmt.Printf("     %-8s %s/%s at %s: %s %s\n", o.Status, o.Kind, o.Label, o.Pos, short(o.Src, 160), short(o.Model, 300))
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			(&Verifier{dump: d}).dumpQuery(o)
		}
	}
	if os.Getenv("GOVC_V") != "" {
		for k, c := range r.Unit.Notes {
			fmt.Println("     note:", k, c)
		}
		for k := range r.Unit.Inlined {
			fmt.Println("     inlined:", k)
		}
		for _, o := range r.Obls {
			fmt.Printf("       %-7s %-8s %5.2fs %s/%s %s %s\n", o.Status, o.Solver, o.Secs, o.Kind, o.Label, o.Pos, short(o.Src, 80))
		}
	}
	if r.Err != "" && len(bad) == 0 {
		return 1
	}
	return len(bad)
}
