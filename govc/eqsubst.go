package main

// Equational simplification of a query, used as a second attempt: what the
// path condition says outright is propagated into the facts, and variables
// that a fact defines are replaced by their definitions. Every step replaces
// equals by equals, so the simplified query is unsatisfiable only if the
// original one is.

func treeSize(t *Term, memo map[*Term]int) int {
	if n, ok := memo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += treeSize(a, memo)
		if n > 1<<20 {
			n = 1 << 20
		}
	}
	memo[t] = n
	return n
}

func occursIn(v, t *Term) bool {
	found := false
	walk(t, map[*Term]bool{}, func(u *Term) {
		if u == v {
			found = true
		}
	})
	return found
}

func hasBound(t *Term) bool {
	found := false
	walk(t, map[*Term]bool{}, func(u *Term) {
		if u.Op == "bvar" || u.Op == "forall" || u.Op == "exists" {
			found = true
		}
	})
	return found
}

// eqSimplify returns the simplified facts and negated goal.
func eqSimplify(terms []*Term, goal *Term) ([]*Term, *Term, bool) {
	changedAny := false
	sizes := map[*Term]int{}
	const limit = 3000
	for round := 0; round < 200; round++ {
		// literals that hold outright
		known := map[*Term]*Term{}
		learn := func(t *Term) {
			for _, c := range conjuncts(t) {
				if c.Op == "not" && c.Args[0].Op != "forall" && c.Args[0].Op != "exists" {
					known[c.Args[0]] = TFalse
				} else if c.Op != "forall" && c.Op != "exists" && c.Op != "=>" && c.Op != "or" && c != TTrue && c != TFalse {
					known[c] = TTrue
				}
			}
		}
		learn(goal)
		for _, t := range terms {
			learn(t)
		}
		changed := false
		for i, t := range terms {
			if t.Op == "forall" || t.Op == "exists" {
				continue
			}
			if _, lit := known[t]; lit || t.Op == "not" && known[t.Args[0]] == TFalse {
				continue
			}
			if n := substT(t, known); n != t && n.Op != "and" {
				terms[i] = n
				changed = true
			} else if n != t {
				terms[i] = n
				changed = true
			}
		}
		// split conjunctions
		var ts []*Term
		for _, t := range terms {
			if t == TTrue {
				continue
			}
			ts = append(ts, conjuncts(t)...)
		}
		terms = ts
		// one variable with a definition
		var v, d *Term
		at := -1
		for i, t := range terms {
			var a, b *Term
			if (t.Op == "=" || len(t.Op) > 6 && t.Op[:6] == "seqeq_") && len(t.Args) == 2 {
				a, b = t.Args[0], t.Args[1]
			} else if t.Op == "var" && t.Sort == SBool {
				a, b = t, TTrue
			} else if t.Op == "not" && t.Args[0].Op == "var" {
				a, b = t.Args[0], TFalse
			} else {
				continue
			}
			ok := func(a, b *Term) bool {
				return a.Op == "var" && !hasBound(b) && !occursIn(a, b) && treeSize(b, sizes) < limit
			}
			if ok(a, b) {
				v, d, at = a, b, i
			} else if ok(b, a) {
				v, d, at = b, a, i
			} else {
				continue
			}
			break
		}
		if v == nil {
			if !changed {
				break
			}
			changedAny = true
			continue
		}
		changedAny = true
		m := map[*Term]*Term{v: d}
		terms = append(terms[:at:at], terms[at+1:]...)
		for i, t := range terms {
			terms[i] = substT(t, m)
		}
		goal = substT(goal, m)
		// what the guard of the goal says holds in the rest of it, too
		if cs := conjuncts(goal); len(cs) > 1 {
			last := cs[len(cs)-1]
			k2 := map[*Term]*Term{}
			for _, c := range cs[:len(cs)-1] {
				if c.Op == "not" {
					k2[c.Args[0]] = TFalse
				} else if c.Op != "forall" && c.Op != "exists" && c.Op != "or" {
					k2[c] = TTrue
				}
			}
			goal = mkAnd(append(append([]*Term{}, cs[:len(cs)-1]...), substT(last, k2))...)
		}
		if goal == TFalse {
			break
		}
	}
	return terms, goal, changedAny
}
