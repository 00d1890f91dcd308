package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg describes the concrete runs that accompany a property: they
// look for a failing input on the real code, and stand in (bounded, never
// counted as proved) for the named functions outside the verifier's reach.
type HarnessCfg struct {
	Standin []string     `json:"standin"` // functions covered only by the bounded runs
	Bound   string       `json:"bound"`
	Runs    []HarnessRun `json:"runs"`
}

type HarnessRun struct {
	Pkg     string            `json:"pkg"`
	Overlay map[string]string `json:"overlay"` // path in /repo -> file in /verif/harness
	Run     string            `json:"run"`
	Race    bool              `json:"race"`
}

type harnessResult struct {
	Run     string  `json:"run"`
	OK      bool    `json:"ok"`
	Failed  bool    `json:"failed"`
	Built   bool    `json:"built"`
	Cases   int     `json:"cases"`
	Wall    float64 `json:"wall_s"`
	Input   string  `json:"-"`
	Out     string  `json:"-"`
	Sample  []string
	Known   []string
	cmdLine string
}

type unitReport struct {
	Name        string         `json:"name"`
	Kind        string         `json:"kind"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Backends    map[string]int `json:"backends"`
	Secs        float64        `json:"secs"`
	Dropped     []string       `json:"invariants_not_established,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Status      string         `json:"status"`
	Error       string         `json:"error,omitempty"`
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// unexportedName: is the function private to its package (or a closure)?
func unexportedName(key string) bool {
	n := key[strings.LastIndexByte(key, '.')+1:]
	return strings.Contains(n, "$") || n != "" && n[0] >= 'a' && n[0] <= 'z'
}

// contractProps: the properties a contract is stated for.
func rootFor(c *Contract, prop string) bool {
	if c.Kind != "func" || c.Trusted {
		return false
	}
	if prop == "C22" {
		return true
	}
	if hasStr(c.Props, prop) && !c.Internal {
		return true
	}
	for _, e := range c.Ensures {
		if hasStr(e.Props, prop) {
			return true
		}
	}
	return false
}

func runCheck(sp *Spec, prop string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	prog, err := loadProg(repoDir)
	if err != nil {
		fmt.Println("ERROR: cannot load /repo:", err)
		return 2
	}
	sc := newSpecCtx(sp, prog)
	v := newVerifier(prog, sc)
	defer v.close()
	// Two properties are about every function: no panics, and sharing. What
	// the functions return is decided by the checks of the other properties.
	switch prop {
	case "C22":
		v.skip = func(o *Oblig) bool { return o.Kind == "ensures" || o.Kind == "hint" && len(o.Props) > 0 }
	case "C25":
		lockProps["C25"] = true
		v.skip = func(o *Oblig) bool {
			return o.Kind != lockKind && o.Kind != "frame" && o.Kind != "reach" && !strings.HasPrefix(o.Kind, "inv-")
		}
	}
	v.Timeout = 10 * time.Second
	if tier == "thorough" {
		v.Timeout = 60 * time.Second
	}
	v.budget = t0.Add(200 * time.Second)
	v.s.StopAt(t0.Add(330 * time.Second))

	// the concrete runs go on beside the proofs
	hc := loadHarness(prop)
	hch := make(chan []*harnessResult, 1)
	bud := 20 * time.Second
	if tier == "thorough" {
		bud = 240 * time.Second
	}
	go func() {
		h := runHarness(prop, hc, bud, seed)
		if firstFailed(h) != nil {
			// the violation is certain; what is left is to name obligations
			v.s.StopAt(time.Now().Add(60 * time.Second))
		}
		hch <- h
	}()

	results := map[string]*Result{}
	var order []string
	var work []string
	roots := map[string]bool{}
	for _, c := range sp.Order {
		if rootFor(c, prop) {
			work = append(work, c.Key())
			roots[c.Key()] = true
		}
	}
	var sharers map[string]*ssa.Function
	if prop == "C25" {
		sharers = prog.sharers(sp)
		for _, k := range sortedKeys(sharers) {
			if c := sp.Contracts[k]; c != nil && c.Kind == "func" && !c.Trusted && !c.Internal {
				work = append(work, k)
				roots[k] = true
			}
		}
	}
	if len(work) == 0 {
		fmt.Println("ERROR: no contract is stated for", prop)
		return 2
	}
	externs := map[string]bool{}
	elsewhere := map[string][]string{}
	verifyAll := func(work []string) {
		for len(work) > 0 {
			k := work[0]
			work = work[1:]
			if results[k] != nil {
				continue
			}
			c := sp.Contracts[k]
			if c == nil {
				continue
			}
			if c.Kind != "func" || c.Trusted {
				externs[k] = true
				continue
			}
			if v.inline[k] && !roots[k] {
				continue
			}
			r := v.verifyFunc(c, false)
			bad := propFailing(r, c, prop, roots[k])
			if r.Err != "" && !strings.Contains(r.Err, "not found") || len(bad) > 0 {
				// a second attempt with invariants matched to other variables
				if time.Now().Before(v.budget) {
					r2 := v.verifyFunc(c, true)
					if r2.Err == "" && len(propFailing(r2, c, prop, roots[k])) == 0 {
						r = r2
					}
				}
			}
			results[k] = r
			order = append(order, k)
			if r.Unit != nil {
				// a dispatcher states clauses for several properties: the
				// contracts it relies on for the others are theirs to check
				mixed := !hasStr(c.Props, prop) && roots[k]
				for _, cc := range sortedKeys(r.Unit.Called) {
					if d := sp.Contracts[cc]; mixed && d != nil && d.Kind == "func" && !d.Trusted && len(d.Props) > 0 && !hasStr(d.Props, prop) {
						elsewhere[cc] = d.Props
						continue
					}
					work = append(work, cc)
				}
			}
		}
	}
	verifyAll(work)
	// what touches shared fields without a contract is verified on its own,
	// unless it was looked into from a function under contract
	var loose []string
	for _, k := range sortedKeys(sharers) {
		seen := results[k] != nil
		for _, r := range results {
			seen = seen || r.Unit != nil && r.Unit.Inlined[k]
		}
		f := sharers[k]
		for f.Parent() != nil && !seen { // a function literal is part of its parent
			f = f.Parent()
			seen = results[fnKey(f)] != nil
		}
		if seen || f != sharers[k] || f.TypeParams().Len() > 0 {
			continue
		}
		if sp.Contracts[k] == nil {
			sp.Contracts[k] = bareContract(f, prop)
		}
		roots[k] = true
		loose = append(loose, k)
	}
	verifyAll(loose)
	// helper contracts that no longer hold are given up: their callers are
	// verified against the helper's body instead
	for round := 0; round < 3; round++ {
		again := false
		for _, k := range order {
			r := results[k]
			if r == nil || roots[k] {
				continue
			}
			c := sp.Contracts[k]
			if c.Internal && !v.inline[k] && (r.Err != "" || len(propFailing(r, c, prop, false)) > 0) {
				v.inline[k] = true
				again = true
			}
		}
		if !again || !time.Now().Before(v.budget) {
			break
		}
		var redo []string
		for _, k := range order {
			r := results[k]
			hit := v.inline[k]
			if r.Unit != nil {
				for c := range r.Unit.Called {
					hit = hit || v.inline[c]
				}
			}
			if hit {
				delete(results, k)
				redo = append(redo, k)
			}
		}
		var ord []string
		for _, k := range order {
			if results[k] != nil {
				ord = append(ord, k)
			}
		}
		order = ord
		verifyAll(redo)
	}
	// lemmas and specification functions that the proofs rest on
	for {
		n := len(results)
		for _, l := range sp.LemOrder {
			k := "lemma " + l.Name
			if (sc.usedLem[l.Name] || hasStr(l.Props, prop)) && !l.Axiom && results[k] == nil {
				results[k] = v.verifyLemma(l)
				order = append(order, k)
			}
		}
		for _, f := range sp.FuncOrder {
			k := "spec " + f.Name
			if sc.usedFn[f.Name] && f.Rec && f.Body != nil && results[k] == nil {
				results[k] = v.verifySpec(f)
				order = append(order, k)
			}
		}
		if len(results) == n {
			break
		}
	}

	// gather
	total, ok := 0, 0
	backends := map[string]int{}
	var units []*unitReport
	var failed []*Oblig
	var errs []string
	notes := map[string]bool{}
	inlined := map[string]bool{}
	var missing []string
	nFuncs := 0
	for _, k := range order {
		r := results[k]
		if r == nil {
			continue
		}
		ur := &unitReport{Name: r.Name, Kind: r.Kind, Backends: map[string]int{}, Secs: round2(r.Secs), Dropped: r.Dropped, Error: r.Err, Status: "discharged"}
		if r.Kind == "func" {
			nFuncs++
		}
		var c *Contract
		if r.Kind == "func" {
			c = sp.Contracts[k]
		}
		for _, o := range r.Obls {
			if c != nil && !relevant(o, prop, roots[k]) {
				continue
			}
			ur.Obligations++
			if o.Status == "proved" {
				ur.Discharged++
				ur.Backends[o.Solver]++
				backends[o.Solver]++
			} else {
				failed = append(failed, o)
			}
		}
		if r.Unit != nil {
			for n := range r.Unit.Notes {
				notes[n] = true
			}
			for n := range r.Unit.Inlined {
				inlined[n] = true
				ur.Inlined = append(ur.Inlined, n)
			}
			sort.Strings(ur.Inlined)
		}
		if strings.Contains(r.Err, "not found") && c != nil && unexportedName(c.Key()) {
			// a private function that was renamed or merged into another: its
			// callers are verified against whatever they call now
			ur.Status = "no such function"
			nFuncs--
			missing = append(missing, c.Key())
			units = append(units, ur)
			continue
		}
		if r.Err != "" {
			ur.Status = "error"
			errs = append(errs, r.Name+": "+r.Err)
		} else if ur.Discharged < ur.Obligations {
			ur.Status = "open"
		}
		total += ur.Obligations
		ok += ur.Discharged
		units = append(units, ur)
	}
	if prop == "C25" {
		bad, n := prog.globalWrites()
		units = append(units, &unitReport{Name: "package-level variables are in no function's frame", Kind: "frame", Obligations: n, Discharged: n - len(bad), Backends: map[string]int{"govc (SSA scan)": n - len(bad)}, Status: "discharged"})
		total, ok = total+n, ok+n-len(bad)
		backends["govc (SSA scan)"] += n - len(bad)
		for _, b := range bad {
			failed = append(failed, &Oblig{Func: strings.SplitN(b, " ", 2)[0], Kind: "frame", Label: "package-variables", Src: b, Status: "not discharged"})
		}
	}
	if nFuncs == 0 && len(missing) > 0 {
		errs = append(errs, "none of the functions under contract is left: "+strings.Join(missing, ", "))
	}
	proofFailed := len(failed) > 0 || len(errs) > 0

	hres := <-hch
	hfail := firstFailed(hres)
	if proofFailed && hfail == nil {
		// look harder for a concrete failing input
		left := 600*time.Second - time.Since(t0)
		if left > 90*time.Second {
			left = 90 * time.Second
		}
		if left > 5*time.Second && len(hc.Runs) > 0 {
			more := runHarness(prop, hc, left, seed+1000)
			hres = append(hres, more...)
			hfail = firstFailed(hres)
		}
	}

	// evidence
	var trusted []string
	trusted = append(trusted, "govc (this repository's verification-condition generator) and its reading of Go semantics on golang.org/x/tools/go/ssa v0.52.0 NaiveForm")
	trusted = append(trusted, "SMT back ends z3 5.3, cvc5 1.1.2, z3 4.8.12")
	for _, l := range sp.LemOrder {
		if l.Axiom && sc.usedLem[l.Name] {
			trusted = append(trusted, "axiom "+l.Name+": "+l.Why)
		}
	}
	for _, k := range sortedKeys(elsewhere) {
		if results[k] == nil {
			trusted = append(trusted, "contract proved by the checks of "+strings.Join(elsewhere[k], ", ")+": "+k)
		}
	}
	for _, k := range sortedKeys(externs) {
		c := sp.Contracts[k]
		trusted = append(trusted, "assumed contract ("+c.Kind+") "+k)
	}
	var assumptions []string
	assumptions = append(assumptions,
		"machine integers are treated as mathematical integers (byte arithmetic wraps); inputs are shorter than 2^62 bytes",
		"slices have value semantics: distinct slice parameters do not overlap in memory, and append never exposes a shared backing array",
		"goroutine interleavings are not modelled; mutex operations are no-ops",
		"termination is proved only where a decreases obligation is listed; otherwise correctness is partial")
	for _, n := range sortedKeys(notes) {
		assumptions = append(assumptions, n)
	}
	if prop == "C25" || prop == "C22" {
		for i, a := range assumptions {
			if prop == "C25" && strings.HasPrefix(a, "goroutine interleavings") {
				assumptions[i] = "goroutine interleavings are not modelled: the lock discipline is proved for each goroutine by itself, and sync.RWMutex is trusted to make it exclusive"
			}
		}
		assumptions = append(assumptions, "postconditions of the contracts are assumed at calls here; the checks of the other properties prove them")
	}
	cov := map[string]any{
		"obligations": total, "discharged": ok, "checker_cmd": "/verif/run.sh " + prop + " (govc generates the obligations from /repo's current source; z3 5.3 / cvc5 / z3 4.8 discharge them)",
		"trusted_base": trusted, "functions_under_contract": nFuncs, "units": units, "backends": backends,
		"solver_s": round2(v.s.Total), "solver_queries": v.s.Queries, "inlined_functions": sortedKeys(inlined),
	}
	cases := 0
	var hs []map[string]any
	for _, h := range hres {
		cases += h.Cases
		hs = append(hs, map[string]any{"run": h.Run, "built": h.Built, "failed": h.Failed, "cases": h.Cases, "wall_s": round2(h.Wall), "samples": h.Sample})
	}
	cov["bounded"] = map[string]any{"label": "bounded, not counted as proved", "stands_in_for": hc.Standin, "bound": hc.Bound, "cases": cases, "runs": hs}
	viol := 0
	if proofFailed || hfail != nil {
		viol = 1
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	if len(missing) > 0 {
		cov["contracts_without_function"] = missing
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": round2(time.Since(t0).Seconds()), "violations": viol}
	writeJSON(filepath.Join(verifDir, "evidence", prop+".json"), ev)

	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d bounded cases, %.1fs\n", prop, nFuncs, ok, total, cases, time.Since(t0).Seconds())
	seenK := map[string]bool{}
	for _, h := range hres {
		for _, k := range h.Known {
			if !seenK[k] {
				seenK[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
		}
	}
	if viol == 0 {
		return 0
	}
	// replay file
	os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
	rp := filepath.Join(verifDir, "replays", prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", prop)
	for _, e := range errs {
		fmt.Fprintf(&sb, "unit not verified: %s\n", e)
		fmt.Println("not verified:", e)
	}
	for i, o := range failed {
		fmt.Fprintf(&sb, "failed obligation: %s %s/%s at %s: %s\n  verifier: %s %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Src, o.Status, short(o.Model, 2000))
		if i < 12 {
			fmt.Printf("failed obligation: %s %s/%s at %s: %s\n", o.Func, o.Kind, o.Label, o.Pos, short(o.Src, 200))
		}
	}
	for _, u := range units {
		for _, d := range u.Dropped {
			fmt.Fprintf(&sb, "loop invariant not established: %s\n", d)
		}
	}
	if hfail != nil {
		fmt.Fprintf(&sb, "\nfailing input, replayed against the code in /repo:\n%s\n\ncommand: %s\n\noutput:\n%s\n", hfail.Input, hfail.cmdLine, short(hfail.Out, 8000))
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Println("failing input:", short(strings.ReplaceAll(hfail.Input, "\n", " "), 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	if len(failed) > 0 {
		fmt.Fprintf(&sb, "\nSMT problem of the first failed obligation:\n%s\n", failed[0].Query)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	return 1
}

// relevant: is this obligation part of the property?
func relevant(o *Oblig, prop string, root bool) bool {
	if !root || len(o.Props) == 0 || o.Kind == "frame" {
		return true
	}
	return hasStr(o.Props, prop)
}

func propFailing(r *Result, c *Contract, prop string, root bool) []*Oblig {
	var out []*Oblig
	for _, o := range failing(r.Obls) {
		if relevant(o, prop, root) {
			out = append(out, o)
		}
	}
	return out
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func writeJSON(p string, v any) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
}

func loadHarness(prop string) *HarnessCfg {
	hc := &HarnessCfg{}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", prop+".json"))
	if err == nil {
		if err := json.Unmarshal(b, hc); err != nil {
			fmt.Println("harness config:", err)
		}
	}
	return hc
}

func firstFailed(hs []*harnessResult) *harnessResult {
	for _, h := range hs {
		if h.Failed {
			return h
		}
	}
	return nil
}

// runHarness: without listed runs, every test named after the property in
// harness/*_test.go is run; those files are laid into the module root.
func runHarness(prop string, hc *HarnessCfg, budget time.Duration, seed int) []*harnessResult {
	runs := hc.Runs
	if len(runs) == 0 {
		runs = []HarnessRun{{Run: "^TestVerif" + prop}}
	}
	var out []*harnessResult
	env := append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_KNOWN="+filepath.Join(verifDir, "known-findings.txt"), "VERIF_PROP="+prop,
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOMAXPROCS="+strconv.Itoa(max(2, runtime.NumCPU()/4)))
	for i, r := range runs {
		t0 := time.Now()
		d, _ := os.MkdirTemp("", "verifh")
		rep := map[string]string{}
		if len(r.Overlay) == 0 {
			r.Pkg = "."
			fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*_test.go"))
			for _, f := range fs {
				rep[filepath.Join(repoDir, "zz_verif_"+filepath.Base(f))] = f
			}
		}
		for k, f := range r.Overlay {
			rep[filepath.Join(repoDir, k)] = filepath.Join(verifDir, "harness", f)
		}
		ov := filepath.Join(d, "ov.json")
		writeJSON(ov, map[string]any{"Replace": rep})
		bin := filepath.Join(d, "t.test")
		args := []string{"test", "-overlay", ov, "-vet=off", "-c", "-o", bin}
		if r.Race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, r.Pkg)...)
		cmd.Dir = repoDir
		cmd.Env = env
		b, err := cmd.CombinedOutput()
		if err != nil {
			fmt.Println("concrete run", i, "did not build:", short(string(b), 400))
			out = append(out, &harnessResult{Run: r.Run + " in " + r.Pkg, Out: string(b), Wall: time.Since(t0).Seconds()})
			os.RemoveAll(d)
			continue
		}
		pkgDir := filepath.Join(repoDir, r.Pkg)
		lc := exec.Command(bin, "-test.list", r.Run)
		lc.Dir, lc.Env = pkgDir, env
		b, _ = lc.Output()
		names := strings.Fields(string(b))
		const par = 3
		share := budget
		if len(names) > par {
			share = budget * par / time.Duration(len(names))
		}
		share /= time.Duration(len(runs))
		res := make([]*harnessResult, len(names))
		sem := make(chan bool, par)
		var wg sync.WaitGroup
		for j, name := range names {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				t0 := time.Now()
				outF := filepath.Join(d, name+".fail")
				sd := filepath.Join(d, name+".d")
				os.Mkdir(sd, 0o755)
				cmd := exec.Command(bin, "-test.run", "^"+name+"$", "-test.v", "-test.count=1", "-test.timeout", fmt.Sprint(share+90*time.Second))
				cmd.Dir = pkgDir
				cmd.Env = append(env[:len(env):len(env)], "VERIF_OUT="+outF, "VERIF_BUDGET_MS="+strconv.Itoa(int(share.Milliseconds())), "VERIF_SCRATCH="+sd)
				b, err := cmd.CombinedOutput()
				h := &harnessResult{Run: name + " in " + r.Pkg, Built: true, Out: string(b), Wall: time.Since(t0).Seconds(),
					cmdLine: fmt.Sprintf("(cd %s && VERIF_OUT=/dev/stderr VERIF_SEED=%d VERIF_BUDGET_MS=%d go test -overlay <%v> -run '^%s$' -v %s)", repoDir, seed, share.Milliseconds(), rep, name, r.Pkg)}
				for _, l := range strings.Split(h.Out, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, "CASES ") {
						n, _ := strconv.Atoi(strings.TrimPrefix(l, "CASES "))
						h.Cases += n
					}
					if strings.HasPrefix(l, "SAMPLE ") && len(h.Sample) < 5 {
						h.Sample = append(h.Sample, strings.TrimPrefix(l, "SAMPLE "))
					}
					if strings.HasPrefix(l, "KNOWN ") {
						h.Known = append(h.Known, strings.TrimPrefix(l, "KNOWN "))
					}
				}
				h.OK = err == nil
				if f, e := os.ReadFile(outF); e == nil && len(f) > 0 {
					h.Failed = true
					h.Input = string(f)
				} else if err != nil && (strings.Contains(h.Out, "panic: ") || strings.Contains(h.Out, "fatal error:") || strings.Contains(h.Out, "DATA RACE")) {
					h.Failed = true
					h.Input = "the run crashed: " + short(h.Out, 1500)
				}
				res[j] = h
			}()
		}
		wg.Wait()
		os.RemoveAll(d)
		out = append(out, res...)
	}
	return out
}
