package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Closures that call themselves, functions passed as parameters, calls
// deferred in a loop and tables of functions.

type capture struct {
	name string
	a    *Addr
}

// selfVar: the captured variable that holds the closure itself, if there is one
// (var f func(..); f = func(..) { .. f(..) .. }) and nothing else is stored in it.
func selfVar(fn *ssa.Function) *ssa.FreeVar {
	for i, fv := range fn.FreeVars {
		al := boundAlloc(fn, i)
		if al == nil {
			continue
		}
		n, self := 0, false
		for _, r := range *al.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == ssa.Value(al) {
					n++
					if mc, ok := s.Val.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						self = true
					}
				} else {
					n = 99
				}
			}
		}
		if n == 1 && self && !storedIn(fn, fv) {
			return fv
		}
	}
	return nil
}

// boundAlloc: the variable of the enclosing function that is captured.
func boundAlloc(fn *ssa.Function, i int) *ssa.Alloc {
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) && i < len(mc.Bindings) {
				al, _ := mc.Bindings[i].(*ssa.Alloc)
				return al
			}
		}
	}
	return nil
}

func storedIn(fn *ssa.Function, v ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Store:
				if u.Addr == v || u.Val == v {
					return true
				}
			case *ssa.MakeClosure:
				for _, w := range u.Bindings {
					if w == v {
						return true
					}
				}
			}
		}
	}
	return false
}

// callCaptured calls a self-recursive closure by its contract; the variables it
// captured are further names of the contract.
func (x *Exec) callCaptured(fr *Frame, st *State, gp **Term, c *Contract, fn *ssa.Function, bindings, args []Val, names []string, rt types.Type, pos token.Pos) Val {
	self := selfVar(fn)
	x.caps = nil
	for i, fv := range fn.FreeVars {
		if a, ok := bindings[i].(*Addr); ok && fv != self {
			x.caps = append(x.caps, capture{fv.Name(), a})
		}
	}
	return x.callContract(fr, st, gp, c, args, names, rt, pos)
}

// paramOf: the parameter (possibly captured by a closure) a value was read from.
func paramOf(v ssa.Value) *ssa.Parameter {
	for depth := 0; depth < 8; depth++ {
		switch u := v.(type) {
		case *ssa.Parameter:
			return u
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil
			}
			v = u.X
		case *ssa.FreeVar:
			fn := u.Parent()
			k := -1
			for i, fv := range fn.FreeVars {
				if fv == u {
					k = i
				}
			}
			if storedIn(fn, u) || fn.Parent() == nil {
				return nil
			}
			v = nil
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						v = mc.Bindings[k]
					}
				}
			}
			if v == nil {
				return nil
			}
		case *ssa.Alloc:
			var val ssa.Value
			n := 0
			for _, r := range *u.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
					n++
					val = s.Val
				}
			}
			if n != 1 {
				return nil
			}
			v = val
		default:
			return nil
		}
	}
	return nil
}

// paramFuncContract: "functype pkg.Func.param(..)" is what a function may expect
// of the function it is given.
func (x *Exec) paramFuncContract(v ssa.Value) *Contract {
	p := paramOf(v)
	if p == nil || p.Parent() == nil || p.Parent().Object() == nil {
		return nil
	}
	return x.contractFor("functype", p.Parent().Object().Pkg(), "", p.Parent().Name()+"."+p.Name())
}

// provided: what is passed to a function with such an expectation must meet it:
// the function passed has the same contract (its clauses are proved for it), or
// is itself a parameter with the same expectation.
func (x *Exec) provided(fr *Frame, st *State, g *Term, c *Contract, fn *ssa.Function, args []Val, pos token.Pos) {
	if fn.Object() == nil || fn.Object().Pkg() == nil {
		return
	}
	for i, p := range fn.Params {
		want := x.contractFor("functype", fn.Object().Pkg(), "", fn.Name()+"."+p.Name())
		if want == nil || i >= len(args) {
			continue
		}
		var got *Contract
		name := "an unknown function"
		cl, _ := args[i].(*Closure)
		if t, ok := args[i].(*Term); ok {
			cl = x.closBack[t]
		}
		if cl != nil {
			name = fnKey(cl.Fn)
			got = x.sc.sp.Contracts[name]
		}
		sig, _ := p.Type().Underlying().(*types.Signature)
		if cl == nil && i < len(x.argVals) {
			if q := paramOf(x.argVals[i]); q != nil {
				if got = x.paramFuncContract(q); got != nil {
					name = got.Key()
				}
			}
		}
		x.unit.Called[name] = true
		ok := got != nil && !got.ModAll && len(got.Modifies) == 0 && got.Opts["noframe"] == "" && len(got.Requires) <= len(want.Requires)
		t := TTrue
		if !ok {
			t = TFalse
		} else if len(want.Ensures) > 0 {
			t = x.implies(st, got, want, sig)
		}
		x.assert("requires", c.Key()+"."+p.Name(), name+" meets the contract of "+want.Key(), want.Props, g, t, pos, nil)
	}
}

// implies: the postconditions of got imply those of want, for arguments that
// meet the preconditions of want (neither has effects).
func (x *Exec) implies(st *State, got, want *Contract, sig *types.Signature) *Term {
	st = st.clone()
	x.havocHeap(st)
	eg := &callEnv{x: x, vars: map[string]SV{}, st: st}
	ew := &callEnv{x: x, vars: map[string]SV{}, st: st}
	eg.old, ew.old = eg, ew
	for i := 0; i < sig.Params().Len(); i++ {
		sv, err := x.specVal(st, x.freshVal("prov", sig.Params().At(i).Type(), TTrue), sig.Params().At(i).Type())
		if err != "" || i >= len(got.Params) || i >= len(want.Params) {
			return TFalse
		}
		eg.vars[got.Params[i]], ew.vars[want.Params[i]] = sv, sv
	}
	for i := 0; i < sig.Results().Len(); i++ {
		sv, err := x.specVal(st, x.freshVal("prov_r", sig.Results().At(i).Type(), TTrue), sig.Results().At(i).Type())
		if err != "" {
			return TFalse
		}
		if i < len(got.Results) {
			eg.vars[got.Results[i]] = sv
		}
		if i < len(want.Results) {
			ew.vars[want.Results[i]] = sv
		}
	}
	var hyp, pre, con []*Term
	for _, r := range want.Requires {
		hyp = append(hyp, x.sc.EvalBool(r.E, ew))
	}
	for _, r := range got.Requires {
		pre = append(pre, x.sc.EvalBool(r.E, eg))
	}
	for _, r := range got.Ensures {
		hyp = append(hyp, x.sc.EvalBool(r.E, eg))
	}
	for _, r := range want.Ensures {
		con = append(con, x.sc.EvalBool(r.E, ew))
	}
	return mkAnd(mkImp(mkAnd(hyp[:len(want.Requires)]...), mkAnd(pre...)), mkImp(mkAnd(hyp...), mkAnd(con...)))
}

// ---- calls deferred in a loop ------------------------------------------------

type loopDefer struct {
	cl   *Closure
	c    *Contract
	args []Val   // some set of arguments that may have been deferred
	pre  []*Term // what is known of them when the calls are deferred
	in   *ssa.Defer
}

// deferInLoop: "defer f(..)" in a loop, where f has a contract. The arguments
// must meet its precondition when the call is deferred.
func (x *Exec) deferInLoop(fr *Frame, st *State, g *Term, d *ssa.Defer, args []Val) bool {
	if d.Call.IsInvoke() {
		return false
	}
	cl, _ := x.val(fr, st, d.Call.Value).(*Closure)
	if cl == nil {
		return false
	}
	c := x.sc.sp.Contracts[fnKey(cl.Fn)]
	if c == nil || len(c.Params) != len(args) {
		return false
	}
	env := &callEnv{x: x, vars: map[string]SV{}, st: st}
	for i, n := range c.Params {
		sv, err := x.specVal(st, args[i], cl.Fn.Params[i].Type())
		if err != "" {
			return false
		}
		env.vars[n] = sv
	}
	x.capVars(env, st, cl)
	for k, r := range c.Requires {
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprintf("r%d", k+1)
		}
		x.assert("requires", c.Key()+"."+lab, r.Src, r.Props, g, x.sc.EvalBool(r.E, env), d.Pos(), nil)
	}
	for _, e := range fr.loopDefers {
		if e.in == d {
			return true
		}
	}
	ld := loopDefer{cl: cl, c: c, in: d}
	for i, n := range c.Params {
		ld.args = append(ld.args, x.freshVal("deferred_"+n, cl.Fn.Params[i].Type(), TTrue))
	}
	ld.pre = x.preTerms(st, &ld)
	fr.loopDefers = append(fr.loopDefers, ld)
	return true
}

// preTerms: the precondition of the deferred function for its arguments.
func (x *Exec) preTerms(st *State, d *loopDefer) (ts []*Term) {
	env := &callEnv{x: x, vars: map[string]SV{}, st: st}
	for i, n := range d.c.Params {
		sv, err := x.specVal(st, d.args[i], d.cl.Fn.Params[i].Type())
		if err != "" {
			unsup("deferred argument: %s", err)
		}
		env.vars[n] = sv
	}
	x.capVars(env, st, d.cl)
	for _, r := range d.c.Requires {
		ts = append(ts, x.sc.EvalBool(r.E, env))
	}
	return
}

func (x *Exec) capVars(env *callEnv, st *State, cl *Closure) {
	self := selfVar(cl.Fn)
	for i, fv := range cl.Fn.FreeVars {
		if a, ok := cl.Bindings[i].(*Addr); ok && fv != self {
			if sv, err := x.specVal(st, x.load(st, a), a.Typ); err == "" {
				if _, ok := env.vars[fv.Name()]; !ok {
					env.vars[fv.Name()] = sv
				}
			}
		}
	}
}

// runLoopDefers runs the calls deferred in loops: any number of them, in any
// order, with any arguments that meet the precondition. The invariant of these
// calls is the postcondition of the function itself, without its results (what
// holds between its entry and its end), which must be reflexive and transitive.
func (x *Exec) runLoopDefers(fr *Frame, st *State, gp **Term) {
	if len(fr.loopDefers) == 0 {
		return
	}
	if fr.up != nil || x.con == nil || x.entryEnv == nil {
		unsup("calls deferred in a loop of an inlined function")
	}
	c := x.con
	pre, _ := x.entryEnv.(*callEnv)
	inv := func(st *State) *Term {
		env := &callEnv{x: x, vars: map[string]SV{}, st: st, old: pre}
		for k, v := range pre.vars {
			env.vars[k] = v
		}
		var ts []*Term
		for _, e := range c.Ensures {
			ts = append(ts, x.sc.EvalBool(e.E, env))
		}
		return mkAnd(ts...)
	}
	g := *gp
	check := func(what string, st *State, pos token.Pos) {
		for _, cj := range conjuncts(inv(st)) {
			x.assert("inv", "deferred-"+what, "the postcondition holds between the deferred calls", c.Props, g, cj, pos, nil)
		}
	}
	pos := fr.loopDefers[0].in.Pos()
	check("init", st, pos)
	// what held of the arguments when the calls were deferred
	for i := range fr.loopDefers {
		d := &fr.loopDefers[i]
		for k, t := range x.preTerms(st, d) {
			if t != d.pre[k] {
				unsup("the heap changes between the deferred calls of %s and the end of the function", d.c.Key())
			}
			x.assume(g, t)
		}
	}
	// an arbitrary state between two deferred calls
	mod := map[string]bool{}
	for _, d := range fr.loopDefers {
		if d.c.ModAll {
			unsup("deferred call of %s, which may change everything", d.c.Key())
		}
		for _, m := range d.c.Modifies {
			if !mod[exprKey(m)] {
				mod[exprKey(m)] = true
				env := &callEnv{x: x, vars: map[string]SV{}, st: st}
				x.havocTarget(d.c, st, env, m, nil, nil, nil, env)
			}
		}
	}
	x.assume(g, inv(st))
	mid := st.clone()
	for _, d := range fr.loopDefers {
		s2 := mid.clone()
		g2 := g
		x.argSrc = nil
		x.callCaptured(fr, s2, &g2, d.c, d.cl.Fn, d.cl.Bindings, d.args, d.c.Params, nil, d.in.Pos())
		check("step", s2, d.in.Pos())
	}
}

// ---- tables of functions ------------------------------------------------------

// once: what is in a local variable that is set once.
func once(v ssa.Value) ssa.Value {
	for i := 0; i < 4; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		n := 0
		var w ssa.Value
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				n++
				w = s.Val
			}
		}
		if n != 1 {
			return v
		}
		v = w
	}
	return v
}

type tableFn struct {
	fn   *ssa.Function
	keys []ssa.Value
}

// globalMapFuncs: the value was looked up in a package-level map of functions;
// these are the functions the map is initialised with (nothing else writes to
// it, which the check of C25 establishes).
func globalMapFuncs(v ssa.Value) (fs []tableFn, ok, key ssa.Value) {
	v = once(v)
	l, _ := v.(*ssa.Lookup)
	if e, isE := v.(*ssa.Extract); isE {
		l, _ = e.Tuple.(*ssa.Lookup)
	}
	if l == nil {
		return nil, nil, nil
	}
	if l.CommaOk {
		for _, r := range *l.Referrers() {
			if e, isE := r.(*ssa.Extract); isE && e.Index == 1 {
				ok = e
			}
		}
	}
	u, isU := l.X.(*ssa.UnOp)
	if !isU {
		return nil, nil, nil
	}
	gl, isG := u.X.(*ssa.Global)
	if !isG || gl.Pkg == nil || gl.Pkg.Func("init") == nil {
		return nil, nil, nil
	}
	var mk ssa.Value
	for _, b := range gl.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, isS := in.(*ssa.Store); isS && s.Addr == ssa.Value(gl) {
				if mk != nil {
					return nil, nil, nil
				}
				mk = once(s.Val)
			}
		}
	}
	if mk == nil || mk.Referrers() == nil {
		return nil, nil, nil
	}
	seen := map[*ssa.Function][]ssa.Value{}
	for _, r := range *mk.Referrers() {
		switch m := r.(type) {
		case *ssa.MapUpdate:
			v := m.Value
			if ct, isC := v.(*ssa.ChangeType); isC {
				v = ct.X
			}
			f, isF := v.(*ssa.Function)
			if !isF || m.Map != mk {
				return nil, nil, nil
			}
			seen[f] = append(seen[f], m.Key)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, nil, nil
		}
	}
	for f, ks := range seen {
		fs = append(fs, tableFn{f, ks})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].fn.Name() < fs[j].fn.Name() })
	return fs, ok, l.Index
}

// callOneOf calls one of the functions, whichever it is.
func (x *Exec) callOneOf(fr *Frame, st *State, gp **Term, f *Term, fns []tableFn, found, key ssa.Value, args []Val, rt types.Type, pos token.Pos) Val {
	x.note("a function looked up in a package-level map is one of those the map is initialised with")
	if found != nil {
		if t, ok := fr.regs[found].(*Term); ok {
			x.fact(mkImp(t, mkNot(mkEq(f, mkInt(0)))))
		}
	}
	x.safe("nil", *gp, mkNot(mkEq(f, mkInt(0))), pos, "nil function value")
	which := x.fresh("which", SInt)
	x.fact(mkAnd(mkLe(mkInt(0), which), mkLt(which, mkInt(int64(len(fns))))))
	var es []edge
	var res []Val
	for i, e := range fns {
		fn := e.fn
		if k, ok := fr.regs[key].(*Term); ok {
			var is []*Term
			for _, kv := range e.keys {
				if t, ok := x.val(fr, st, kv).(*Term); ok {
					is = append(is, mkEq(k, t))
				} else {
					is = append(is, TTrue)
				}
			}
			x.assume(*gp, mkImp(mkEq(which, mkInt(int64(i))), mkOr(is...)))
		}
		s := st.clone()
		g := *gp
		c := mkEq(which, mkInt(int64(i)))
		g = mkAnd(g, c)
		src := x.argSrc
		v, _ := x.callFn(fr, s, &g, fn, nil, args, rt, pos)
		x.argSrc = src
		es = append(es, edge{nil, s, g})
		res = append(res, v)
	}
	v := res[len(res)-1]
	for i := len(res) - 2; i >= 0; i-- {
		v = x.iteVal(es[i].guard, res[i], v)
	}
	ns, g := x.mergeEdges(es)
	*st = *ns
	*gp = g
	return v
}

func exprKey(e *Expr) string {
	s := e.K + ":" + e.Name
	for _, a := range e.Args {
		s += "(" + exprKey(a) + ")"
	}
	return s
}

// ---- closures as values -------------------------------------------------------

// An option is a function that is passed on and called somewhere else. Its
// contract says what its name stands for ("stands", over fn and what was
// captured): uninterpreted functions of fn, which nothing else speaks of, so
// every closure that is made is free to be given them. The closure is then
// proved to do what the contract of the function type says of fn.

func (x *Exec) standsFor(st *State, cl *Closure, vars []ssa.Value) {
	c := x.sc.sp.Contracts[fnKey(cl.Fn)]
	if c == nil || len(c.Stands) == 0 || len(cl.Bindings) == 0 {
		return
	}
	for i, v := range vars { // what was captured must stay what it is
		n := 0
		for _, r := range [][]ssa.Instruction{*v.Referrers(), *cl.Fn.FreeVars[i].Referrers()} {
			for _, in := range r {
				if s, ok := in.(*ssa.Store); ok && (s.Addr == v || s.Addr == ssa.Value(cl.Fn.FreeVars[i])) {
					n++
				}
			}
		}
		if n > 1 {
			unsup("%s: the captured variable %s is assigned", fnKey(cl.Fn), cl.Fn.FreeVars[i].Name())
		}
	}
	env := &callEnv{x: x, vars: map[string]SV{"fn": {T: x.closureTerm(cl)}}, st: st}
	x.capVars(env, st, cl)
	for _, s := range c.Stands {
		x.fact(x.sc.EvalBool(s.E, env))
	}
}

func (x *Exec) standsAs(c *Contract, fn *ssa.Function, pre *callEnv) *Contract {
	if len(c.Stands) == 0 {
		return nil
	}
	t := x.fresh("fn", SInt)
	x.fact(mkLt(mkInt(0), t))
	pre.vars["fn"] = SV{T: t}
	for _, s := range c.Stands {
		x.assume(TTrue, x.sc.EvalBool(s.E, pre))
	}
	for _, w := range x.sc.sp.Contracts {
		if w.Kind == "functype" && w.Key() == strings.Trim(c.Opts["as"], `"`) {
			return w
		}
	}
	panic(specErr(c.Key() + ": no function type " + c.Opts["as"]))
}

func (x *Exec) asOption(c, as *Contract, pre, post *callEnv, g *Term, pos token.Pos) {
	if as == nil {
		return
	}
	ren := func(e *callEnv) *callEnv {
		n := &callEnv{x: x, vars: map[string]SV{}, st: e.st}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		for i, p := range as.Params {
			if i < len(c.Params) {
				n.vars[p] = e.vars[c.Params[i]]
			}
		}
		for i, p := range as.Results {
			if i < len(c.Results) {
				if v, ok := e.vars[c.Results[i]]; ok {
					n.vars[p] = v
				}
			}
		}
		return n
	}
	b, a := ren(pre), ren(post)
	a.old = b
	for _, e := range as.Ensures {
		for _, cj := range conjuncts(x.sc.EvalBool(e.E, a)) {
			x.assert("ensures", "as_"+as.Name, e.Src, e.Props, g, cj, pos, nil)
		}
	}
	listed := map[string]bool{}
	last := func(m *Expr) string { return m.Src[strings.LastIndex(m.Src, ".")+1:] }
	for _, m := range as.Modifies {
		listed[last(m)] = true
	}
	for _, m := range c.Modifies {
		if !listed[last(m)] {
			x.assert("frame", "as_"+as.Name, as.Key()+" does not modify "+m.Src, nil, g, TFalse, pos, nil)
		}
	}
}

// beforeCall: what the function under proof promises of the calls it makes.
func (x *Exec) beforeCall(st *State, g *Term, c *Contract, pre *callEnv, pos token.Pos) {
	if x.con == nil {
		return
	}
	en, _ := x.entryEnv.(*callEnv)
	for k, b := range x.con.Before {
		if en == nil || c.Name != b.Callee {
			continue
		}
		if x.reached == nil {
			x.reached = map[int]bool{}
		}
		env := &callEnv{x: x, vars: map[string]SV{}, st: st, old: en}
		for n, v := range en.vars {
			env.vars[n] = v
		}
		for n, v := range pre.vars {
			env.vars["arg_"+n] = v
		}
		t, ok := x.tryBool(b.E, env)
		if !ok {
			continue // a function of the same name, with other parameters
		}
		x.reached[k] = true
		for _, cj := range conjuncts(t) {
			x.assert("before", b.Label, b.Src, b.Props, g, cj, pos, nil)
		}
	}
}

// tryBool evaluates a clause; false if it speaks of a name that env lacks.
func (x *Exec) tryBool(e *Expr, env Env) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unresolved); !is {
				panic(r)
			}
			ok = false
		}
	}()
	return x.sc.EvalBool(e, env), true
}
