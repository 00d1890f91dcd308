package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genFunc symbolically executes a function under contract and records its obligations.
func genFunc(p *Prog, sc *SpecCtx, c *Contract, dropped map[string]bool, rescue bool, inlineSet map[string]bool) (u *Unit, x *Exec) {
	u = &Unit{Name: c.Key(), Contract: c, Uses: c.Uses}
	x = newExec(p, sc, u)
	x.con = c
	x.dropped = dropped
	x.rescue = rescue
	x.inlineSet = inlineSet
	fn := p.findFunc(c)
	if fn == nil {
		u.Err = "function not found in the current tree"
		return
	}
	x.target = fn
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				u.Err = "outside the verifier's subset: " + e.msg
			case unresolved:
				u.Err = e.Error()
			case specErr:
				u.Err = "contract error: " + e.Error()
			case string:
				u.Err = "internal: " + e
			default:
				panic(r)
			}
		}
	}()
	names := c.Params
	if c.Recv != "" && !strings.Contains(c.Name, "$") {
		names = append([]string{c.RecvName}, c.Params...)
	}
	if len(names) != len(fn.Params) {
		u.Err = fmt.Sprintf("signature changed: contract names %d parameters, function has %d", len(names), len(fn.Params))
		return
	}
	st := newState()
	pre := &callEnv{x: x, vars: map[string]SV{}, st: st}
	var args []Val
	writers := map[string]*Addr{}
	for i, prm := range fn.Params {
		t := prm.Type()
		var v Val
		switch {
		case isWriterType(t):
			cell := x.newCell(names[i], bufferType(p))
			st.cells[cell] = x.fresh(names[i], SB)
			a := &Addr{Cell: cell, Typ: cell.Typ}
			writers[names[i]] = a
			if _, ok := t.Underlying().(*types.Interface); ok {
				v = &IfaceV{Dyn: types.NewPointer(cell.Typ), V: a}
			} else {
				v = a
			}
		default:
			if pt, ok := t.Underlying().(*types.Pointer); ok && (c.Opts["local_"+names[i]] != "") {
				// pointer parameter denoting a caller-owned variable
				cell := x.newCell(names[i], pt.Elem())
				st.cells[cell] = x.freshVal(names[i], pt.Elem(), TTrue)
				a := &Addr{Cell: cell, Typ: cell.Typ}
				writers[names[i]] = a
				v = a
			} else {
				v = x.freshVal(names[i], t, TTrue)
				if tm, ok := v.(*Term); ok && tm.Sort == SInt {
					switch t.Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Map:
						x.fact(mkApp("preexisting", SBool, tm))
						x.fact(mkLe(mkInt(0), tm))
						if _, ok := t.Underlying().(*types.Pointer); ok && i == 0 && c.Recv != "" {
							x.fact(mkLt(mkInt(0), tm)) // callers check the receiver
						}
					}
				}
			}
		}
		args = append(args, v)
		sv, err := x.specVal(st, v, t)
		if err != "" {
			u.Err = err
			return
		}
		pre.vars[names[i]] = sv
	}
	var bindings []Val
	for _, fv := range fn.FreeVars {
		t := fv.Type().(*types.Pointer).Elem()
		cell := x.newCell(fv.Name(), t)
		st.cells[cell] = x.freshVal(fv.Name(), t, TTrue)
		if _, ok := pre.vars[fv.Name()]; !ok {
			if sv, err := x.specVal(st, st.cells[cell], t); err == "" {
				pre.vars[fv.Name()] = sv // what the closure captured, on entry
			}
		}
		bindings = append(bindings, &Addr{Cell: cell, Typ: t})
	}
	if sv := selfVar(fn); sv != nil {
		for i, fv := range fn.FreeVars {
			if fv == sv {
				st.cells[bindings[i].(*Addr).Cell] = &Closure{Fn: fn, Bindings: bindings}
				delete(pre.vars, fv.Name())
			}
		}
	}
	pre.st = st.clone()
	x.entryEnv = pre
	for _, r := range c.Requires {
		x.assume(TTrue, sc.EvalBool(r.E, pre))
	}
	for _, r := range c.Given {
		x.note("given on entry of %s, not checked at calls: %s", c.Key(), r.Src)
		x.assume(TTrue, sc.EvalBool(r.E, pre))
	}
	as := x.standsAs(c, fn, pre)
	_, x.frameEx, _ = x.modTargets(c, pre, writers)
	// vacuity guard: the precondition must be satisfiable
	x.assert("reach", "precondition", "precondition is satisfiable", nil, TTrue, TFalse, fn.Pos(), nil)
	x.depth++
	x.stack = append(x.stack, fn)
	fr := x.newFrame(fn, bindings, nil)
	for i, prm := range fn.Params {
		fr.regs[prm] = args[i]
	}
	pre.st = st.clone()
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, st, TTrue}}}
	x.runBlocks(fr, fr.rpo, in, nil)
	res := fn.Signature.Results()
	sort.SliceStable(fr.rets, func(i, j int) bool { return fr.rets[i].pos < fr.rets[j].pos })
	for ri, r := range fr.rets {
		x.noLocks(r.st, r.guard, "every lock is released", r.pos)
		post := &callEnv{x: x, vars: map[string]SV{}, st: r.st, old: pre}
		for k, v := range pre.vars {
			post.vars[k] = v
		}
		for n, a := range writers {
			sv, err := x.specVal(r.st, a, types.NewPointer(a.Typ))
			if err != "" {
				u.Err = err
				return
			}
			post.vars[n] = sv
		}
		for i, prm := range fn.Params {
			if _, ok := args[i].(*SliceV); !ok {
				continue
			}
			for _, m := range c.Modifies {
				if m.K == "id" && m.Name == names[i] {
					if a := paramCell(fr, prm); a != nil {
						if sv, ok := x.load(r.st, a).(*SliceV); ok {
							post.vars[names[i]] = SV{T: sv.T, GT: sv.Typ, Nil: sv.Nil}
						}
					}
				}
			}
		}
		for i, fv := range fn.FreeVars {
			a := bindings[i].(*Addr)
			v0, v1 := pre.st.cells[a.Cell], x.load(r.st, a)
			if sameVal(v0, v1) {
				continue
			}
			sv, err := x.specVal(r.st, v1, a.Typ)
			if err != "" {
				continue
			}
			listed := false
			for _, m := range c.Modifies {
				listed = listed || m.K == "id" && m.Name == fv.Name()
			}
			if listed {
				post.vars[fv.Name()] = sv
			} else if selfVar(fn) != nil {
				x.assert("frame", "frame."+fv.Name(), fv.Name()+" is not modified", c.Props, r.guard, mkEq(sv.T, pre.vars[fv.Name()].T), r.pos, nil)
			}
		}
		bad := ""
		bind := func(n string, v Val, t types.Type) {
			if sv, err := x.specVal(r.st, v, t); err == "" {
				if t != nil {
					sv.GT = t
				}
				post.vars[n] = sv
			} else {
				bad = err
			}
		}
		if res.Len() == 1 {
			if len(c.Results) > 0 {
				bind(c.Results[0], r.val, res.At(0).Type())
			}
		} else {
			tv, _ := r.val.(TupleV)
			for i, n := range c.Results {
				if i < len(tv) {
					bind(n, tv[i], res.At(i).Type())
				}
			}
		}
		if bad != "" {
			u.Err = "result not representable: " + bad
			return
		}
		x.publish(fr, r.st)
		// lemma applications may mention locals, parameters and results
		fenv := &frameEnv{x: x, fr: fr, st: r.st, extra: map[string]SV{}}
		fr.block = nil
		for k, v := range post.vars {
			fenv.extra[k] = v
		}
		x.applyIn(c.Applies, fenv, r.guard)
		for k, h := range c.Hints {
			if t, err := x.tryEval(h.E, fenv); err == nil {
				lab := h.Label
				if lab == "" {
					lab = fmt.Sprintf("hint%d", k+1)
				}
				x.assert("hint", lab, h.Src, h.Props, r.guard, t, r.pos, nil)
				x.assume(r.guard, t)
			}
		}
		for k, e := range c.Ensures {
			lab := e.Label
			if lab == "" {
				lab = fmt.Sprintf("e%d", k+1)
			}
			t := sc.EvalBool(e.E, post)
			for _, cj := range conjuncts(t) {
				x.assert("ensures", lab, e.Src, e.Props, r.guard, cj, r.pos, nil)
			}
		}
		x.asOption(c, as, pre, post, r.guard, r.pos)
		x.frameObligs(c, pre, post, r, writers)
		_ = ri
	}
	if len(fr.rets) == 0 && c.Opts["panics"] == "" {
		u.Err = "no return path"
	}
	for k, b := range c.Before {
		if !x.reached[k] {
			x.note("%s no longer calls %s itself: the clause %q about that call is not checked", c.Key(), b.Callee, b.Label)
		}
	}
	// vacuity guard on the way out: at least one return must be reachable
	var gs []*Term
	for _, r := range fr.rets {
		gs = append(gs, r.guard)
	}
	if len(gs) > 0 {
		x.assert("reach", "exit", "a return is reachable", nil, mkOr(gs...), TFalse, fn.Pos(), nil)
	}
	return
}

// paramCell: the variable a parameter is spilled to on entry.
func paramCell(fr *Frame, prm *ssa.Parameter) *Addr {
	for _, in := range fr.fn.Blocks[0].Instrs {
		if s, ok := in.(*ssa.Store); ok && s.Val == ssa.Value(prm) {
			if a, ok := fr.regs[s.Addr].(*Addr); ok {
				return a
			}
		}
	}
	return nil
}

// modTargets reads the modifies clauses: names, fields of single objects and
// whole fields.
func (x *Exec) modTargets(c *Contract, pre *callEnv, writers map[string]*Addr) (mod map[string]bool, fields map[string][]*Term, whole map[string]bool) {
	mod = map[string]bool{}
	fields = map[string][]*Term{}
	whole = map[string]bool{}
	for _, m := range c.Modifies {
		switch m.K {
		case "id":
			mod[m.Name] = true
			if v, ok := pre.vars[m.Name]; ok && v.GT != nil && writers[m.Name] == nil {
				if pt, ok := v.GT.Underlying().(*types.Pointer); ok {
					if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for k := 0; k < s.NumFields(); k++ {
							key := heapKey(pt.Elem(), s.Field(k).Name())
							fields[key] = append(fields[key], v.T)
						}
					}
				}
			}
		case "call":
			if m.Name == "mapof" {
				v := x.sc.Eval(m.Args[0], pre)
				mk := mapKey(types.Unalias(v.GT).Underlying().(*types.Map))
				fields[mk+"$dom"] = append(fields[mk+"$dom"], v.T)
				fields[mk+"$val"] = append(fields[mk+"$val"], v.T)
			}
		case "fld":
			if m.Args[0].K == "id" {
				if v, ok := pre.vars[m.Args[0].Name]; ok && v.GT != nil {
					if pt, ok := v.GT.Underlying().(*types.Pointer); ok {
						key := heapKey(pt.Elem(), m.Name)
						fields[key] = append(fields[key], v.T)
					} else {
						mod[m.Args[0].Name] = true
					}
				}
			} else if pt, v := x.nestedTarget(m, pre); pt != nil {
				key := heapKey(pt.Elem(), m.Name)
				fields[key] = append(fields[key], v)
			} else if m.Args[0].K == "fld" {
				t := x.prog.findType(m.Args[0].Args[0].Name + "." + m.Args[0].Name)
				whole[heapKey(t, m.Name)] = true
			}
		}
	}
	return
}

// publish makes the contents of local structs whose address was converted to a
// term (it left the function in an interface, say) visible in the heap.
func (x *Exec) publish(fr *Frame, st *State) {
	local := map[*Cell]bool{}
	for _, c := range fr.cells {
		local[c] = true
	}
	var ts []*Term
	for t, a := range x.addrBack {
		if a.Cell != nil && len(a.Path) == 0 && local[a.Cell] {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		a := x.addrBack[t]
		v, ok := st.cells[a.Cell]
		if _, isStruct := a.Cell.Typ.Underlying().(*types.Struct); !ok || !isStruct || isBufferType(a.Cell.Typ) {
			continue
		}
		x.fact(mkNot(mkApp("preexisting", SBool, t)))
		x.store(st, &Addr{Ref: t, Typ: a.Cell.Typ}, v)
	}
}

// frameObligs: what the contract does not list as modified stays the same.
func (x *Exec) frameObligs(c *Contract, pre, post *callEnv, r edgeRet, writers map[string]*Addr) {
	mod, fields, whole := x.modTargets(c, pre, writers)
	for n := range writers {
		if !mod[n] {
			x.assert("frame", "frame."+n, n+" is not modified", c.Props, r.guard, mkEq(post.vars[n].T, pre.vars[n].T), r.pos, nil)
		}
	}
	if c.ModAll || c.Opts["noframe"] != "" {
		return
	}
	if r.st.gen != 0 {
		x.assert("frame", "frame.heap", "no heap object is modified", c.Props, r.guard, TFalse, r.pos, nil)
		return
	}
	var ks []string
	for k := range r.st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if whole[k] || k == clockKey {
			continue
		}
		h1 := r.st.heap[k]
		h0 := x.heapInit(k, h1.Sort)
		if h1 == h0 {
			continue
		}
		if strings.HasPrefix(k, "G$") {
			if !mod[strings.TrimPrefix(k, "G$")] {
				x.assert("frame", "frame."+k, k+" unchanged", c.Props, r.guard, mkEq(h1, h0), r.pos, nil)
			}
			continue
		}
		bv := freshBV("o", SInt)
		var ex []*Term
		for _, f := range fields[k] {
			ex = append(ex, mkEq(bv, f))
		}
		body := mkImp(mkAnd(mkApp("preexisting", SBool, bv), mkNot(mkOr(ex...))), mkEq(mkSelect(h1, bv), mkSelect(h0, bv)))
		x.assert("frame", "frame."+strings.TrimPrefix(k, "H$"), k+" unchanged outside modifies", c.Props, r.guard, mkForall([]*Term{bv}, [][]*Term{{mkSelect(h1, bv)}}, body), r.pos, nil)
	}
}

func isWriterType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Writer" {
		if _, ok := n.Underlying().(*types.Interface); ok {
			return true
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isBufferType(p.Elem())
	}
	return false
}

func bufferType(p *Prog) types.Type { return p.findType("bytes.Buffer") }

// genLemma builds the proof obligations of a lemma (by induction when it applies itself).
func genLemma(p *Prog, sc *SpecCtx, l *Lemma) (u *Unit) {
	u = &Unit{Name: "lemma " + l.Name, Lemma: l, Uses: l.Uses}
	x := newExec(p, sc, u)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unresolved:
				u.Err = e.Error()
			case specErr:
				u.Err = e.Error()
			case string:
				u.Err = e
			default:
				panic(r)
			}
		}
	}()
	vars := map[string]SV{}
	for _, prm := range l.Params {
		s, g := sc.typeOf(prm.Type)
		vars[prm.Name] = SV{T: mkVar(prm.Name+"@p", s), GT: g}
	}
	st := newState()
	env := &callEnv{x: x, vars: vars, st: st}
	var pre []*Term
	for _, r := range l.Requires {
		pre = append(pre, sc.EvalBool(r.E, env))
	}
	for _, t := range pre {
		x.assume(TTrue, t)
	}
	if len(pre) > 0 {
		x.assert("reach", "precondition", "hypotheses are satisfiable", nil, TTrue, TFalse, 0, nil)
	}
	var m0 *Term
	if l.Decr != nil {
		m0 = sc.Eval(l.Decr, env).T
	}
	for _, a := range l.Applies {
		when := TTrue
		if a.When != nil {
			when = sc.EvalBool(a.When, env)
		}
		if a.Lemma == l.Name {
			// induction hypothesis: measure must decrease
			if m0 == nil {
				panic(specErr("lemma " + l.Name + " applies itself without a measure"))
			}
			v2 := map[string]SV{}
			for i, prm := range l.Params {
				v := sc.Eval(a.Args[i], env)
				v2[prm.Name] = SV{T: v.T, GT: vars[prm.Name].GT}
			}
			m1 := sc.Eval(l.Decr, &callEnv{x: x, vars: v2, st: st}).T
			x.assert("decreases", "induction", a.Src, nil, when, mkAnd(mkLe(mkInt(0), m1), mkLt(m1, m0)), 0, nil)
		} else if lemIndex(sc.sp, a.Lemma) >= lemIndex(sc.sp, l.Name) {
			panic(specErr("lemma " + l.Name + " applies a later lemma " + a.Lemma))
		}
		t, err := x.lemmaInstance(a, env)
		if err != nil {
			panic(specErr(err.Error()))
		}
		x.assume(when, t)
	}
	for _, us := range l.Uses {
		if lemIndex(sc.sp, us) >= lemIndex(sc.sp, l.Name) {
			panic(specErr("lemma " + l.Name + " uses a later lemma " + us))
		}
	}
	for k, a := range l.Asserts {
		t := sc.EvalBool(a.E, env)
		x.assert("hint", fmt.Sprintf("step%d", k+1), a.Src, nil, TTrue, t, 0, nil)
		x.assume(TTrue, t)
	}
	cases := []*Term{TTrue}
	for _, s := range l.Splits {
		c := sc.EvalBool(s, env)
		var n []*Term
		for _, k := range cases {
			n = append(n, mkAnd(k, c), mkAnd(k, mkNot(c)))
		}
		cases = n
	}
	for k, e := range l.Ensures {
		lab := e.Label
		if lab == "" {
			lab = fmt.Sprintf("e%d", k+1)
		}
		for _, cs := range cases {
			for _, cj := range conjuncts(sc.EvalBool(e.E, env)) {
				x.assert("lemma", lab, e.Src, nil, cs, cj, 0, nil)
			}
		}
	}
	return
}

func lemIndex(sp *Spec, n string) int {
	for i, l := range sp.LemOrder {
		if l.Name == n {
			return i
		}
	}
	panic(specErr("unknown lemma " + n))
}

// genSpecFunc: recursion in a spec function must be well-founded.
func genSpecFunc(p *Prog, sc *SpecCtx, f *SpecFunc) (u *Unit) {
	u = &Unit{Name: "spec " + f.Name}
	if f.Body == nil || !f.Rec {
		return
	}
	x := newExec(p, sc, u)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unresolved:
				u.Err = e.Error()
			case specErr:
				u.Err = e.Error()
			case string:
				u.Err = e
			default:
				panic(r)
			}
		}
	}()
	cf := sc.compile(f.Name)
	m := map[*Term]*Term{}
	vars := map[string]SV{}
	for i, b := range cf.params {
		v := mkVar(f.Params[i].Name+"@p", b.Sort)
		m[b] = v
		vars[f.Params[i].Name] = SV{T: v, GT: cf.ptypes[i]}
	}
	henv := &heapEnv{vars: vars, heap: map[string]*Term{}}
	for i, k := range cf.heap {
		v := mkVar("heap@p"+fmt.Sprint(i), cf.hsorts[i])
		m[cf.hvars[i]] = v
		henv.heap[k] = v
	}
	body := substT(cf.body, m)
	m0 := sc.Eval(f.Decr, henv).T
	var visit func(t *Term, pc *Term)
	seen := map[string]bool{}
	visit = func(t *Term, pc *Term) {
		k := fmt.Sprintf("%d/%d", t.id, pc.id)
		if seen[k] {
			return
		}
		seen[k] = true
		switch t.Op {
		case "ite":
			visit(t.Args[0], pc)
			visit(t.Args[1], mkAnd(pc, t.Args[0]))
			visit(t.Args[2], mkAnd(pc, mkNot(t.Args[0])))
			return
		case "and":
			c := pc
			for _, a := range t.Args {
				visit(a, c)
				c = mkAnd(c, a)
			}
			return
		case "or":
			c := pc
			for _, a := range t.Args {
				visit(a, c)
				c = mkAnd(c, mkNot(a))
			}
			return
		case "=>":
			visit(t.Args[0], pc)
			visit(t.Args[1], mkAnd(pc, t.Args[0]))
			return
		}
		if t.Op == "f_"+f.Name {
			v2 := map[string]SV{}
			for i := range cf.params {
				v2[f.Params[i].Name] = SV{T: t.Args[i], GT: cf.ptypes[i]}
			}
			h2 := &heapEnv{vars: v2, heap: henv.heap}
			m1 := sc.Eval(f.Decr, h2).T
			x.assert("decreases", "wellfounded", f.Name, nil, pc, mkAnd(mkLe(mkInt(0), m1), mkLt(m1, m0)), 0, nil)
		}
		for _, a := range t.Args {
			visit(a, pc)
		}
	}
	visit(body, TTrue)
	return
}
