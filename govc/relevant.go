package main

import (
	"regexp"
	"strings"
)

var specSym = regexp.MustCompile(`[( ]f_[A-Za-z0-9_]+`)

// relevantQuery keeps of a query the hypotheses about specification functions
// the goal speaks of, directly or through their definitions. Dropping
// hypotheses can only lose a proof. "" if nothing would be dropped.
func relevantQuery(q string) string {
	lines := strings.Split(q, "\n")
	goal := -1
	syms := make([][]string, len(lines))
	def := map[string][]int{}
	for i, l := range lines {
		if !strings.HasPrefix(l, "(assert") {
			continue
		}
		goal = i
		for _, m := range specSym.FindAllString(l, -1) {
			syms[i] = append(syms[i], m[1:])
		}
		if h, _, ok := strings.Cut(l, "(! (= (f_"); ok && strings.HasPrefix(h, "(assert (forall (") && !strings.Contains(h, "(!") {
			n := l[len(h)+len("(! (= ("):]
			n = n[:strings.IndexAny(n, " $)")]
			def[n] = append(def[n], i)
		}
	}
	if goal < 0 {
		return ""
	}
	rel := map[string]bool{}
	work := append([]string{}, syms[goal]...)
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if rel[n] {
			continue
		}
		rel[n] = true
		for _, i := range def[n] {
			work = append(work, syms[i]...)
		}
	}
	var out []string
	dropped := 0
	for i, l := range lines {
		keep := true
		for _, s := range syms[i] {
			keep = keep && rel[s]
		}
		if keep {
			out = append(out, l)
		} else {
			dropped++
		}
	}
	if dropped == 0 {
		return ""
	}
	return strings.Join(out, "\n")
}
