package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type queryBuilder struct {
	sc    *SpecCtx
	unit  *Unit
	terms []*Term // asserted
	seen  map[*Term]bool
	ops   map[string]*Term // op -> sample application
	sorts map[string]bool
	lits  map[string]bool
	fnQ   []string
	fnIn  map[string]bool
	ax    []*Term
	lemIn map[string]bool
	extra []string
	level map[string]int // fuel level already emitted
}

func (q *queryBuilder) addSort(s *Sort) {
	if q.sorts[s.Name] {
		return
	}
	q.sorts[s.Name] = true
	if s.Elem != nil {
		q.addSort(s.Elem)
	}
	if s.Key != nil {
		q.addSort(s.Key)
	}
	for _, f := range s.Fields {
		q.addSort(f.Sort)
	}
}

func (q *queryBuilder) scan(t *Term) {
	walk(t, q.seen, func(u *Term) {
		q.addSort(u.Sort)
		for _, v := range u.Vars {
			q.addSort(v.Sort)
		}
		switch u.Op {
		case "int", "true", "false", "bvar", "not", "and", "or", "=>", "=", "ite", "+", "-", "*", "div", "mod", "<", "<=", "forall", "exists", "select", "store":
			return
		case "lit":
			q.lits[u.Lit] = true
			return
		case "var":
			q.ops["var "+u.Lit] = u
			return
		}
		if _, ok := q.ops[u.Op]; !ok {
			q.ops[u.Op] = u
			if strings.HasPrefix(u.Op, "f_") {
				n := strings.TrimPrefix(u.Op, "f_")
				if i := strings.Index(n, "$"); i >= 0 {
					n = n[:i]
				}
				if !q.fnIn[n] {
					q.fnIn[n] = true
					q.fnQ = append(q.fnQ, n)
				}
			}
		}
	})
}

func (q *queryBuilder) addAxiom(t *Term) {
	q.ax = append(q.ax, t)
	q.scan(t)
}

func (q *queryBuilder) defAxioms(n string) {
	q.sc.usedFn[n] = true
	cf := q.sc.compile(n)
	if cf == nil || cf.f.Body == nil {
		return
	}
	all := append(append([]*Term{}, cf.params...), cf.hvars...)
	f0 := "f_" + n
	if !cf.f.Rec {
		app := mkApp(f0, cf.ret, all...)
		q.addAxiom(mkForall(all, [][]*Term{{app}}, mkEqRaw(app, cf.body)))
		return
	}
	fuel := cf.f.Fuel
	name := func(k int) string {
		if k == 0 {
			return f0
		}
		return fmt.Sprintf("%s$%d", f0, k)
	}
	for k := 0; k < fuel; k++ {
		app := mkApp(name(k), cf.ret, all...)
		nxt := mkApp(name(k+1), cf.ret, all...)
		body := renameFn(cf.body, map[string]string{f0: name(k + 1)})
		q.addAxiom(mkForall(all, [][]*Term{{app}}, mkEqRaw(app, body)))
		q.addAxiom(mkForall(all, [][]*Term{{app}}, mkEqRaw(app, nxt)))
	}
}

// mkEqRaw is plain "=" even for sequences.
func mkEqRaw(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	return intern(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

func (q *queryBuilder) lemmaAxiom(n string) {
	if q.lemIn[n] {
		return
	}
	q.lemIn[n] = true
	q.sc.usedLem[n] = true
	l := q.sc.sp.Lemmas[n]
	if l == nil {
		panic(specErr("unknown lemma in use: " + n))
	}
	q.addAxiom(q.sc.lemmaFormula(l))
}

func (sc *SpecCtx) lemmaFormula(l *Lemma) *Term {
	vars := map[string]SV{}
	var bvs []*Term
	for _, p := range l.Params {
		s, g := sc.typeOf(p.Type)
		b := freshBV(p.Name, s)
		bvs = append(bvs, b)
		vars[p.Name] = SV{T: b, GT: g}
	}
	env := &heapEnv{vars: vars, heap: map[string]*Term{}}
	var pre, post []*Term
	for _, r := range l.Requires {
		pre = append(pre, sc.EvalBool(r.E, env))
	}
	for _, r := range l.Ensures {
		post = append(post, sc.EvalBool(r.E, env))
	}
	var pats [][]*Term
	for _, ps := range l.Pats {
		var p []*Term
		for _, e := range ps {
			p = append(p, sc.Eval(e, env).T)
		}
		pats = append(pats, p)
	}
	for _, h := range env.heap {
		bvs = append(bvs, h)
	}
	return mkForall(bvs, pats, mkImp(mkAnd(pre...), mkAnd(post...)))
}

func varsOf(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	walk(t, seen, func(u *Term) {
		if u.Op == "var" {
			out[u] = true
		}
	})
}

// query renders the SMT problem of one obligation.
// query2 is the query after equational simplification: "" if that changes
// nothing, "trivial" if it decides the obligation.
func (sc *SpecCtx) query2(o *Oblig) string {
	return sc.buildQuery(o, true)
}

func (sc *SpecCtx) query(o *Oblig) string { return sc.buildQuery(o, false) }

func (sc *SpecCtx) buildQuery(o *Oblig, simp bool) string {
	u := o.unit
	q := &queryBuilder{sc: sc, unit: u, seen: map[*Term]bool{}, ops: map[string]*Term{}, sorts: map[string]bool{}, lits: map[string]bool{}, fnIn: map[string]bool{}, lemIn: map[string]bool{}}
	goal := skolem(o.Guard, o.T)
	// cone of influence
	rel := map[*Term]bool{}
	seen := map[*Term]bool{}
	varsOf(goal, rel, seen)
	type cand struct {
		t    *Term
		vs   map[*Term]bool
		def  *Term
		used bool
		pos  int
	}
	var cs []*cand
	for i, it := range u.Items[:o.Index] {
		switch it.Kind {
		case "def":
			c := &cand{t: mkEqRaw(it.Var, it.T), def: it.Var, vs: map[*Term]bool{}, pos: i}
			varsOf(c.t, c.vs, map[*Term]bool{})
			cs = append(cs, c)
		case "assume":
			if t := mkImp(it.Guard, it.T); t != TTrue && it.Guard != TFalse {
				c := &cand{t: t, vs: map[*Term]bool{}, pos: i}
				varsOf(c.t, c.vs, map[*Term]bool{})
				cs = append(cs, c)
			}
		case "assert":
			// an earlier safety obligation is checked on its own, so it may be assumed here
			if it.Ob.Kind == "bounds" || it.Ob.Kind == "nil" || it.Ob.Kind == "panic" {
				if t := mkImp(it.Guard, it.T); t != TTrue && it.Guard != TFalse {
					c := &cand{t: t, vs: map[*Term]bool{}, pos: i}
					varsOf(c.t, c.vs, map[*Term]bool{})
					cs = append(cs, c)
				}
			}
		}
	}
	for _, f := range u.Facts {
		c := &cand{t: f, vs: map[*Term]bool{}, pos: -1}
		varsOf(f, c.vs, map[*Term]bool{})
		cs = append(cs, c)
	}
	for changed := true; changed; {
		changed = false
		for _, c := range cs {
			if c.used {
				continue
			}
			ok := false
			if c.def != nil {
				ok = rel[c.def]
			} else if len(c.vs) == 0 {
				ok = true
			} else {
				for v := range c.vs {
					if rel[v] {
						ok = true
						break
					}
				}
			}
			if ok {
				c.used = true
				changed = true
				for v := range c.vs {
					rel[v] = true
				}
			}
		}
	}
	for _, c := range cs {
		if c.used {
			q.terms = append(q.terms, c.t)
		}
	}
	if simp {
		ts, g, ch := eqSimplify(q.terms, goal)
		if !ch {
			return ""
		}
		if g == TFalse {
			return "trivial"
		}
		q.terms, goal = ts, g
	}
	q.terms, goal = liftPatIte(q.terms, goal)
	for _, t := range q.terms {
		q.scan(t)
	}
	q.scan(goal)
	for _, n := range u.Uses {
		q.lemmaAxiom(n)
	}
	for {
		for len(q.fnQ) > 0 {
			n := q.fnQ[0]
			q.fnQ = q.fnQ[1:]
			q.defAxioms(n)
		}
		// auto lemmas/axioms: included when all functions in one of their triggers occur
		added := false
		for _, l := range sc.sp.LemOrder {
			if !l.Auto || q.lemIn[l.Name] || u.Lemma != nil && lemIndex(sc.sp, l.Name) >= lemIndex(sc.sp, u.Lemma.Name) {
				continue
			}
			f := sc.lemmaFormula(l)
			if f.Op != "forall" {
				continue
			}
			ok := false
			for _, p := range f.Pats {
				all := true
				for _, t := range p {
					walk(t, map[*Term]bool{}, func(v *Term) {
						if strings.HasPrefix(v.Op, "f_") && q.ops[v.Op] == nil {
							all = false
						}
					})
				}
				if all {
					ok = true
				}
			}
			if ok {
				q.lemmaAxiom(l.Name)
				added = true
			}
		}
		if !added && len(q.fnQ) == 0 {
			break
		}
	}
	return q.render(goal)
}

// skolem negates a goal and names its universally quantified variables, so
// that the terms in its triggers are ground.
func skolem(guard, t *Term) *Term {
	n := 0
	for {
		switch t.Op {
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range t.Vars {
				n++
				m[v] = mkVar(fmt.Sprintf("sk%d@sk", n), v.Sort)
			}
			for _, ps := range t.Pats {
				for _, p := range ps {
					p = substT(p, m)
					if p.Sort.Kind == KArray {
						continue
					}
					guard = mkAnd(guard, mkApp("touch_"+symClean(p.Sort.Name), SBool, p))
				}
			}
			t = substT(t.Args[0], m)
			continue
		case "=>":
			guard = mkAnd(guard, t.Args[0])
			t = t.Args[1]
			continue
		}
		// ground terms under the remaining quantifiers are named as well
		for _, g := range groundUnder(t) {
			guard = mkAnd(guard, mkApp("touch_"+symClean(g.Sort.Name), SBool, g))
		}
		return mkAnd(guard, mkNot(t))
	}
}

func groundUnder(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	memo := map[*Term]bool{}
	var ground func(t *Term) bool
	ground = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		r := t.Op != "bvar" && t.Op != "forall" && t.Op != "exists"
		for _, a := range t.Args {
			r = r && ground(a)
		}
		memo[t] = r
		return r
	}
	var rec func(t *Term, under bool)
	rec = func(t *Term, under bool) {
		if under && (strings.HasPrefix(t.Op, "at_") || strings.HasPrefix(t.Op, "f_")) && t.Sort.Kind != KArray && ground(t) {
			if !seen[t] && len(out) < 40 {
				seen[t] = true
				out = append(out, t)
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			under = true
		}
		for _, a := range t.Args {
			rec(a, under)
		}
	}
	rec(t, false)
	return out
}

// liftPatIte gives names to the values of branches ("if" terms without bound
// variables) that occur in patterns, where solvers do not accept them.
func liftPatIte(ts []*Term, goal *Term) ([]*Term, *Term) {
	m := map[*Term]*Term{}
	var defs []*Term
	memo := map[*Term]bool{}
	var ground func(t *Term) bool
	ground = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		r := t.Op != "bvar" && t.Op != "forall" && t.Op != "exists"
		for _, a := range t.Args {
			r = r && ground(a)
		}
		memo[t] = r
		return r
	}
	var inPat func(t *Term)
	inPat = func(t *Term) {
		if t.Op == "ite" && t.Sort != SBool && ground(t) {
			if m[t] == nil {
				v := mkVar(fmt.Sprintf("branch$%d", len(defs)), t.Sort)
				m[t] = v
				defs = append(defs, intern(&Term{Op: "=", Args: []*Term{v, t}, Sort: SBool}))
			}
			return
		}
		for _, a := range t.Args {
			inPat(a)
		}
	}
	seen := map[*Term]bool{}
	look := func(v *Term) {
		for _, p := range v.Pats {
			for _, a := range p {
				inPat(a)
			}
		}
	}
	for _, t := range ts {
		walk(t, seen, look)
	}
	walk(goal, seen, look)
	if len(m) == 0 {
		return ts, goal
	}
	out := defs
	for _, t := range ts {
		out = append(out, substT(t, m))
	}
	return out, substT(goal, m)
}

func (q *queryBuilder) render(goal *Term) string {
	var sb strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&sb, f, a...); sb.WriteByte('\n') }
	w("(set-option :smt.auto_config false)")
	w("(set-option :smt.mbqi false)")
	w("(set-option :smt.qi.eager_threshold 100)")
	// literals need B
	if len(q.lits) > 0 {
		q.addSort(SB)
	}
	for _, s := range sortOrder {
		if !q.sorts[s.Name] {
			continue
		}
		switch s.Kind {
		case KSeq, KOpaque:
			w("(declare-sort %s 0)", symQ(s.Name))
		case KStruct:
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", symQ(s.Name), symQ("mk_"+s.Name))
			for _, f := range s.Fields {
				fmt.Fprintf(&sb, " (%s %s)", symQ("fld_"+s.Name+"_"+f.Name), symQN(f.Sort.Name))
			}
			w("))))")
		}
	}
	for _, s := range sortOrder {
		if q.sorts[s.Name] && s.Kind == KSeq {
			sb.WriteString(seqAxioms(s))
		}
	}
	var ls []string
	for l := range q.lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		n := litName(l)
		w("(declare-const %s B)", n)
		w("(assert (= (len_B %s) %d))", n, len(l))
		for i := 0; i < len(l); i++ {
			w("(assert (= (at_B %s %d) %d))", n, i, l[i])
		}
		if len(l) == 1 {
			w("(assert (= (unit_B %d) %s))", l[0], n)
		}
	}
	var ops []string
	for o := range q.ops {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		t := q.ops[o]
		if t.Op == "var" {
			w("(declare-const %s %s)", symQ(t.Lit), symQN(t.Sort.Name))
			continue
		}
		if builtinOp(o) {
			continue
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, symQN(a.Sort.Name))
		}
		w("(declare-fun %s (%s) %s)", symQ(o), strings.Join(as, " "), symQN(t.Sort.Name))
	}
	for _, a := range q.ax {
		w("(assert %s)", a)
	}
	for _, t := range q.terms {
		w("(assert %s)", t)
	}
	w("(assert %s)", goal)
	w("(check-sat)")
	return sb.String()
}

func symQN(n string) string {
	if strings.HasPrefix(n, "(") {
		return n
	}
	return symQ(n)
}

func builtinOp(o string) bool {
	for _, p := range []string{"len_", "at_", "cat_", "sub_", "unit_", "upd_", "rep_", "empty_", "seqeq_", "mk_", "fld_"} {
		if strings.HasPrefix(o, p) {
			return true
		}
	}
	return false
}

func seqAxioms(s *Sort) string {
	n := symQ(s.Name)
	e := symQN(s.Elem.Name)
	L, A, C, S, U, P, R, E, Q := "len_"+s.Name, "at_"+s.Name, "cat_"+s.Name, "sub_"+s.Name, "unit_"+s.Name, "upd_"+s.Name, "rep_"+s.Name, "empty_"+s.Name, "seqeq_"+s.Name
	for _, p := range []*string{&L, &A, &C, &S, &U, &P, &R, &E, &Q} {
		*p = symQ(*p)
	}
	D := symQ("diff_" + s.Name)
	rng := func(v string) string {
		if s.Byte {
			return "(and (<= 0 " + v + ") (<= " + v + " 255))"
		}
		return "true"
	}
	t := `
(declare-fun L (N) Int)
(declare-fun A (N Int) E)
(declare-fun C (N N) N)
(declare-fun S (N Int Int) N)
(declare-fun U (E) N)
(declare-fun P (N Int E) N)
(declare-fun R (E Int) N)
(declare-fun EMP () N)
(declare-fun Q (N N) Bool)
(declare-fun D (N N) Int)
(assert (forall ((s N)) (! (<= 0 (L s)) :pattern ((L s)))))
(assert (= (L EMP) 0))
(assert (forall ((s N)) (! (=> (= (L s) 0) (= s EMP)) :pattern ((L s)))))
(assert (forall ((v E)) (! (and (= (L (U v)) 1) (=> RNGv (= (A (U v) 0) v))) :pattern ((U v)))))
(assert (forall ((a N) (b N)) (! (= (L (C a b)) (+ (L a) (L b))) :pattern ((C a b)))))
(assert (forall ((a N) (b N) (i Int)) (! (=> (and (<= 0 i) (< i (+ (L a) (L b)))) (= (A (C a b) i) (ite (< i (L a)) (A a i) (A b (- i (L a)))))) :pattern ((A (C a b) i)))))
(assert (forall ((a N) (b N)) (! (=> (= (L a) 0) (= (C a b) b)) :pattern ((C a b)))))
(assert (forall ((a N) (b N)) (! (=> (= (L b) 0) (= (C a b) a)) :pattern ((C a b)))))
(assert (forall ((a N) (b N) (c N)) (! (= (C a (C b c)) (C (C a b) c)) :pattern ((C a (C b c))))))
(assert (forall ((s N) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (L s))) (= (L (S s i j)) (- j i))) :pattern ((S s i j)))))
(assert (forall ((s N) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (L s)) (<= 0 k) (< k (- j i))) (= (A (S s i j) k) (A s (+ i k)))) :pattern ((A (S s i j) k)))))
(assert (forall ((s N) (i Int) (j Int)) (! (=> (and (= i 0) (= j (L s))) (= (S s i j) s)) :pattern ((S s i j)))))
(assert (forall ((s N) (i Int) (j Int) (a Int) (b Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (L s)) (<= 0 a) (<= a b) (<= b (- j i))) (= (S (S s i j) a b) (S s (+ i a) (+ i b)))) :pattern ((S (S s i j) a b)))))
(assert (forall ((s N) (i Int) (v E)) (! (= (L (P s i v)) (L s)) :pattern ((P s i v)))))
(assert (forall ((s N) (i Int) (v E) (k Int)) (! (=> (and (<= 0 k) (< k (L s)) RNGv) (= (A (P s i v) k) (ite (= k i) v (A s k)))) :pattern ((A (P s i v) k)))))
(assert (forall ((v E) (n Int)) (! (=> (<= 0 n) (= (L (R v n)) n)) :pattern ((R v n)))))
(assert (forall ((v E) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) RNGv) (= (A (R v n) k) v)) :pattern ((A (R v n) k)))))
(assert (forall ((a N) (b N)) (! (=> (Q a b) (= a b)) :pattern ((Q a b)))))
(assert (forall ((a N) (b N)) (! (or (Q a b) (not (= (L a) (L b))) (and (<= 0 (D a b)) (< (D a b) (L a)) (not (= (A a (D a b)) (A b (D a b)))))) :pattern ((Q a b)))))
`
	if s.Byte {
		t += "(assert (forall ((s N) (i Int)) (! (and (<= 0 (A s i)) (<= (A s i) 255)) :pattern ((A s i)))))\n"
	}
	// whole-word replacement of the single-letter placeholders
	var sb strings.Builder
	word := ""
	flush := func() {
		switch word {
		case "N":
			sb.WriteString(n)
		case "E":
			sb.WriteString(e)
		case "L":
			sb.WriteString(L)
		case "A":
			sb.WriteString(A)
		case "C":
			sb.WriteString(C)
		case "S":
			sb.WriteString(S)
		case "U":
			sb.WriteString(U)
		case "P":
			sb.WriteString(P)
		case "R":
			sb.WriteString(R)
		case "EMP":
			sb.WriteString(E)
		case "Q":
			sb.WriteString(Q)
		case "D":
			sb.WriteString(D)
		case "RNGv":
			sb.WriteString(rng("v"))
		default:
			sb.WriteString(word)
		}
		word = ""
	}
	for _, c := range t {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' {
			word += string(c)
			continue
		}
		flush()
		sb.WriteRune(c)
	}
	flush()
	return sb.String()
}

// ---------------------------------------------------------------- running solvers

type Solver struct {
	Dir     string
	Timeout time.Duration
	Jobs    int
	mu      sync.Mutex
	n       int
	Total   float64
	Queries int
	hard    atomic.Int64 // unix nanoseconds after which no solver is started
}

// StopAt brings the end of all solving forward.
func (s *Solver) StopAt(t time.Time) {
	n := t.UnixNano()
	for {
		o := s.hard.Load()
		if o != 0 && o <= n || s.hard.CompareAndSwap(o, n) {
			return
		}
	}
}

func (s *Solver) run(bin string, args []string, query string, to time.Duration) string {
	to += 2 * time.Second
	if h := s.hard.Load(); h != 0 {
		left := time.Until(time.Unix(0, h))
		if left <= 0 {
			return "timeout (no time left for this check)"
		}
		to = min(to, left)
	}
	s.mu.Lock()
	s.n++
	f := filepath.Join(s.Dir, fmt.Sprintf("q%d.smt2", s.n))
	s.mu.Unlock()
	os.WriteFile(f, []byte(query), 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, append(args, f)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	s.mu.Lock()
	s.Total += time.Since(t0).Seconds()
	s.Queries++
	s.mu.Unlock()
	return strings.TrimSpace(out.String())
}

func firstLine(s string) string {
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		s = s[i+1:]
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// solve discharges one obligation, trying the back ends in turn.
func (s *Solver) solve(o *Oblig, query string, tries int) {
	t0 := time.Now()
	defer func() { o.Secs = time.Since(t0).Seconds() }()
	if o.Guard == TFalse || o.T == TTrue {
		o.Status, o.Solver = "proved", "trivial"
		return
	}
	secs := int(s.Timeout.Seconds())
	if d := os.Getenv("GOVC_DUMPALL"); d != "" {
		defer func() {
			if o.Secs = time.Since(t0).Seconds(); o.Secs > 1 {
				os.MkdirAll(d, 0o755)
				n := symFile(o.Func + "-" + o.Kind + "-" + short(o.Src, 60))
				os.WriteFile(filepath.Join(d, n+".smt2"), []byte(query), 0o644)
				os.WriteFile(filepath.Join(d, n+"+eq.smt2"), []byte(o.Query2), 0o644)
			}
		}()
	}
	if o.Kind == "reach" {
		r := s.run("z3-new", []string{"-T:3"}, query, 3*time.Second)
		if firstLine(r) == "unsat" {
			o.Status = "vacuous"
		} else {
			o.Status = "proved"
		}
		o.Solver = "z3-new"
		return
	}
	type be struct {
		name string
		bin  string
		args []string
		fix  func(string) string
	}
	plain := func(q string) string {
		var out []string
		for _, l := range strings.Split(q, "\n") {
			if !strings.HasPrefix(l, "(set-option :smt.") {
				out = append(out, l)
			}
		}
		return "(set-logic ALL)\n" + strings.Join(out, "\n")
	}
	bes := []be{
		{"z3-5.3", "z3-new", []string{fmt.Sprintf("-T:%d", secs)}, nil},
		{"cvc5-1.1", "cvc5", []string{fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2"}, plain},
		{"z3-4.8", "z3", []string{fmt.Sprintf("-T:%d", secs)}, nil},
	}
	if tries < len(bes) {
		bes = bes[:tries]
	}
	if secs > 3 {
		// short attempts first: where one back end loops the other is often done at once
		bes = append([]be{
			{"z3-5.3", "z3-new", []string{"-T:2"}, nil},
			{"cvc5-1.1", "cvc5", []string{"--tlimit=3000", "--lang=smt2"}, plain},
		}, bes...)
	}
	if o.Query2 == "trivial" {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	if o.Query2 != "" {
		bes = append([]be{
			{"z3-5.3+eq", "z3-new", []string{"-T:2"}, nil},
			{"cvc5-1.1+eq", "cvc5", []string{"--tlimit=2000", "--lang=smt2"}, plain},
		}, bes...)
		bes = append(bes, be{"z3-5.3+eq", "z3-new", []string{fmt.Sprintf("-T:%d", secs)}, nil}, be{"cvc5-1.1+eq", "cvc5", []string{fmt.Sprintf("--tlimit=%d", secs*1000), "--lang=smt2"}, plain})
	}
	if secs > 3 {
		// the search of z3 depends on its seed: a few more short attempts
		// before the long ones
		short := 2
		if o.Query2 != "" {
			short = 4
		}
		var more []be
		if q := relevantQuery(query); q != "" {
			rel := func(string) string { return q }
			more = append(more, be{"z3-5.3", "z3-new", []string{"-T:3", "smt.random_seed=4"}, rel}, be{"z3-5.3", "z3-new", []string{"-T:3", "smt.random_seed=1"}, rel})
		}
		for _, sd := range []int{3, 1, 7, 4, 11} {
			more = append(more, be{"z3-5.3", "z3-new", []string{"-T:3", fmt.Sprintf("smt.random_seed=%d", sd)}, nil})
			if o.Query2 != "" && sd < 5 {
				more = append(more, be{"z3-5.3+eq", "z3-new", []string{"-T:3", fmt.Sprintf("smt.random_seed=%d", sd)}, nil})
			}
		}
		if o.Inv != nil && strings.Contains(o.Inv.Key, "/auto:") {
			bes = append(append([]be{}, bes[:short]...), more[:1]...) // a guess: not worth more
		} else {
			bes = append(append(append([]be{}, bes[:short]...), more...), bes[short:]...)
		}
	}
	for _, b := range bes {
		qq := query
		if strings.HasSuffix(b.name, "+eq") {
			qq = o.Query2
		}
		if b.fix != nil {
			qq = b.fix(qq)
		}
		r := s.run(b.bin, b.args, qq, s.Timeout)
		switch firstLine(r) {
		case "unsat":
			o.Status, o.Solver = "proved", b.name
			return
		case "sat":
			if strings.HasSuffix(b.name, "+eq") {
				o.Model += b.name + ": sat; "
				o.Status = "unknown"
				continue
			}
			o.Status, o.Solver = "failed", b.name
			o.Model = "sat"
			return
		case "unknown", "timeout":
			o.Status = "unknown"
			o.Model += b.name + ": " + firstLine(r) + "; "
		default:
			o.Status = "unknown"
			o.Model += b.name + ": " + short(r, 300) + "; "
			if strings.Contains(r, "error") && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", o.Func, o.Label, short(r, 600))
			}
		}
	}
}

func (s *Solver) solveAll(obls []*Oblig, tries int) {
	ch := make(chan *Oblig, 64)
	var wg sync.WaitGroup
	n := s.Jobs
	if n == 0 {
		n = runtime.NumCPU()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				s.solve(o, o.Query, tries)
			}
		}()
	}
	for _, o := range obls {
		ch <- o
	}
	close(ch)
	wg.Wait()
}
