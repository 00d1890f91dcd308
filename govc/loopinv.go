package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopLabel = regexp.MustCompile(`^L(\d+)`)

// frameEnv resolves source-level names inside a function frame.
type frameEnv struct {
	x      *Exec
	fr     *Frame
	st     *State
	loop   *Loop
	rename map[string]*Cell
	extra  map[string]SV
}

func (e *frameEnv) Heap(k string, s *Sort) *Term { return e.x.heapGet(e.st, k, s) }
func (e *frameEnv) Old() Env                     { return e.x.entryEnv }
func (e *frameEnv) Lookup(n string) (SV, bool) {
	if v, ok := e.extra[n]; ok {
		return v, true
	}
	if n == "$i" || n == "$pos" {
		for l, fr := e.loop, e.fr; l != nil && fr != nil; {
			if v, ok := e.x.loopCounter(fr, l, e.st, n); ok {
				return v, true
			}
			break
		}
		return SV{}, false
	}
	if n == "$up" { // completed iterations of the enclosing loop
		if o := enclosingLoop(e.fr, e.loop); o != nil {
			if c, _ := e.x.counterCell(e.fr, o); c != nil {
				if t, ok := e.st.cells[c].(*Term); ok {
					return SV{T: t, GT: types.Typ[types.Int]}, true
				}
			}
		}
		return SV{}, false
	}
	if n == "$all" || n == "$upall" { // what the loop ranges over
		l := e.loop
		if n == "$upall" {
			l = enclosingLoop(e.fr, e.loop)
		}
		if l == nil {
			return SV{}, false
		}
		return e.x.rangedOver(e.fr, l, e.st)
	}
	if c, ok := e.rename[n]; ok {
		return e.cellVal(c)
	}
	for fr := e.fr; fr != nil; fr = fr.up {
		if v, ok := e.lookupIn(fr, n); ok {
			return v, true
		}
	}
	return SV{}, false
}

func (e *frameEnv) lookupIn(fr *Frame, n string) (SV, bool) {
	// a source variable declared in this frame
	var best *Cell
	for _, c := range fr.names[n] {
		if _, ok := e.st.cells[c]; !ok {
			continue
		}
		al := fr.cellPos[c]
		if al != nil && fr == e.fr && e.loop != nil {
			if !(al.Block().Dominates(e.loop.head)) || al.Block() == e.loop.head && e.loop.blocks[al.Block()] {
				continue
			}
		} else if al != nil && fr.block != nil && !al.Block().Dominates(fr.block) {
			continue
		}
		if best == nil || c.Pos > best.Pos {
			best = c
		}
	}
	if best != nil {
		return e.cellVal(best)
	}
	for fv, b := range fr.bindings {
		if fv.Name() == n {
			if a, ok := b.(*Addr); ok && a.Cell != nil {
				return e.addrVal(a)
			}
		}
	}
	return SV{}, false
}

func (e *frameEnv) cellVal(c *Cell) (SV, bool) {
	v, ok := e.st.cells[c]
	if !ok {
		return SV{}, false
	}
	sv, err := e.x.specVal(e.st, v, c.Typ)
	if err != "" {
		return SV{}, false
	}
	return sv, true
}
func (e *frameEnv) addrVal(a *Addr) (sv SV, ok bool) {
	v := e.x.load(e.st, a)
	s, err := e.x.specVal(e.st, v, a.Typ)
	return s, err == ""
}

func enclosingLoop(fr *Frame, l *Loop) *Loop {
	var best *Loop
	if fr == nil || l == nil {
		return nil
	}
	for _, m := range fr.loops {
		if m != l && m.head != l.head && m.blocks[l.head] && (best == nil || len(m.blocks) < len(best.blocks)) {
			best = m
		}
	}
	return best
}

// rangedOver gives the slice that a range loop goes over, as it was when the loop began.
func (x *Exec) rangedOver(fr *Frame, l *Loop, st *State) (SV, bool) {
	c, kind := x.counterCell(fr, l)
	if c == nil || kind != "rangeindex" {
		return SV{}, false
	}
	var uses func(v ssa.Value, d int) bool
	uses = func(v ssa.Value, d int) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok {
				return fr.cells[a] == c
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && d > 0 {
			return uses(b.X, d-1)
		}
		return false
	}
	for _, b := range fr.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !uses(ia.Index, 2) {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); !ok || l.blocks[d.Block()] {
				continue
			}
			if v, ok := fr.regs[ia.X]; ok {
				sv, err := x.specVal(st, v, ia.X.Type())
				return sv, err == ""
			}
		}
	}
	return SV{}, false
}

// loopCounter gives the number of completed iterations of a counting loop.
func (x *Exec) loopCounter(fr *Frame, l *Loop, st *State, n string) (SV, bool) {
	I := types.Typ[types.Int]
	if n == "$pos" {
		for _, b := range fr.fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if it, ok := fr.regs[nx.Iter].(*RangeIter); ok && it.Cell != nil {
						if v, ok := st.cells[it.Cell].(*Term); ok {
							return SV{T: v, GT: I}, true
						}
					}
				}
			}
		}
	}
	c, kind := x.counterCell(fr, l)
	if c == nil {
		return SV{}, false
	}
	t, ok := st.cells[c].(*Term)
	if !ok {
		return SV{}, false
	}
	if kind == "rangeindex" {
		return SV{T: mkAdd(t, mkInt(1)), GT: I}, true
	}
	return SV{T: t, GT: I}, true
}

func (x *Exec) counterCell(fr *Frame, l *Loop) (*Cell, string) {
	steps := x.loopSteps(fr, l)
	var only *Cell
	n := 0
	for _, s := range steps {
		if s.kind != 0 && x.innerLoopOf(fr, l, s) {
			continue
		}
		switch s.cell.Name {
		case "rangeindex":
			if s.kind == 1 {
				return s.cell, "rangeindex"
			}
		case "rangeint.iter":
			if s.kind == 1 {
				return s.cell, "rangeint"
			}
		}
	}
	for _, s := range steps {
		if s.kind == 1 && s.step == 1 && !x.innerLoopOf(fr, l, s) && x.inHeaderCond(fr, l, s.alloc) {
			only = s.cell
			n++
		}
	}
	if n == 1 {
		return only, "for"
	}
	return nil, ""
}

func (x *Exec) inHeaderCond(fr *Frame, l *Loop, a *ssa.Alloc) bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	found := false
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if d > 6 || found {
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == a {
			found = true
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					rec(*op, d+1)
				}
			}
		}
	}
	rec(iff.Cond, 0)
	return found
}

// innerLoopOf: the stores happen only in a nested loop.
func (x *Exec) innerLoopOf(fr *Frame, l *Loop, s loopStep) bool {
	for _, m := range fr.loops {
		if m == l || !l.blocks[m.head] || l.head == m.head {
			continue
		}
		all := true
		for _, b := range s.blocks {
			if !m.blocks[b] {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

type loopStep struct {
	cell   *Cell
	alloc  *ssa.Alloc
	kind   int // 1: every store adds a positive constant, -1: subtracts, 0: other
	step   int64
	blocks []*ssa.BasicBlock
}

// loopSteps classifies the integer variables stored in a loop.
func (x *Exec) loopSteps(fr *Frame, l *Loop) []loopStep {
	m := map[*ssa.Alloc]*loopStep{}
	var order []*ssa.Alloc
	for _, b := range fr.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.Alloc)
			if !ok || fr.cells[a] == nil || goSort(a.Type().(*types.Pointer).Elem()) != SInt {
				continue
			}
			bt, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			if l.blocks[a.Block()] && a.Block() != fr.fn.Blocks[0] {
				continue
			}
			st := m[a]
			if st == nil {
				st = &loopStep{cell: fr.cells[a], alloc: a, kind: 2}
				m[a] = st
				order = append(order, a)
			}
			st.blocks = append(st.blocks, b)
			k, n := 0, int64(0)
			if bo, ok := s.Val.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if ld, ok := bo.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == a {
					if c, ok := bo.Y.(*ssa.Const); ok {
						n = c.Int64()
						if bo.Op == token.SUB {
							n = -n
						}
						if n > 0 {
							k = 1
						} else if n < 0 {
							k = -1
						}
					}
				}
			}
			if st.kind == 2 {
				st.kind, st.step = k, n
			} else {
				if st.kind != k {
					st.kind = 0
				}
				if st.step != n {
					st.step = 0
				}
			}
		}
	}
	var out []loopStep
	for _, a := range order {
		out = append(out, *m[a])
	}
	return out
}

// pureEval evaluates an SSA expression (loads, len, + - and constants) in a given state.
func (x *Exec) pureEval(fr *Frame, st *State, v ssa.Value, inLoop *Loop) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	switch u := v.(type) {
	case *ssa.Const:
		return x.toTerm(x.val(fr, st, u))
	case *ssa.UnOp:
		if u.Op == token.MUL {
			var a *Addr
			switch p := u.X.(type) {
			case *ssa.Alloc:
				if c := fr.cells[p]; c != nil {
					a = &Addr{Cell: c, Typ: c.Typ}
				}
			case *ssa.FreeVar:
				a, _ = fr.bindings[p].(*Addr)
			}
			if a == nil {
				return nil
			}
			if _, ok := st.cells[a.Cell]; a.Cell != nil && !ok {
				return nil
			}
			return x.toTerm(x.load(st, a))
		}
	case *ssa.BinOp:
		a, b := x.pureEval(fr, st, u.X, inLoop), x.pureEval(fr, st, u.Y, inLoop)
		if a == nil || b == nil || a.Sort != SInt || b.Sort != SInt {
			return nil
		}
		switch u.Op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		}
		return nil
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if in, ok := u.Call.Args[0].(ssa.Instruction); ok && inLoop != nil && !inLoop.blocks[in.Block()] {
				if r, ok := fr.regs[u]; ok {
					return x.toTerm(r)
				}
			}
			if a := x.pureEval(fr, st, u.Call.Args[0], inLoop); a != nil && a.Sort.Kind == KSeq {
				return mkLen(a)
			}
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok && (inLoop == nil || !inLoop.blocks[in.Block()]) {
		if r, ok := fr.regs[v]; ok {
			return x.toTerm(r)
		}
	}
	return nil
}

func (x *Exec) headerCond(l *Loop) *ssa.BinOp {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, _ := iff.Cond.(*ssa.BinOp)
	return b
}

func (x *Exec) makeCands(fr *Frame, l *Loop, ctx *loopCtx, entry *State, isMod func(*Cell) bool) {
	lid := fmt.Sprintf("%s#%d", fnKey(fr.fn), l.ord)
	add := func(key, src string, props []string, user bool, f func(*State) *Term) {
		inst := &InvInst{Key: lid + "/" + key}
		if x.dropped[inst.Key] {
			return
		}
		ctx.cands = append(ctx.cands, &invCand{inst: inst, eval: f, src: src, props: props, user: user})
	}
	steps := x.loopSteps(fr, l)
	hc := x.headerCond(l)
	for _, s := range steps {
		s := s
		e0, ok := entry.cells[s.cell].(*Term)
		if !ok {
			continue
		}
		cur := func(st *State) *Term { t, _ := st.cells[s.cell].(*Term); return t }
		if s.kind == 1 {
			add("auto:"+s.cell.Name+">=init", s.cell.Name+" >= its initial value", nil, false, func(st *State) *Term { return mkLe(e0, cur(st)) })
		}
		if s.kind == -1 {
			add("auto:"+s.cell.Name+"<=init", s.cell.Name+" <= its initial value", nil, false, func(st *State) *Term { return mkLe(cur(st), e0) })
		}
		if s.cell.Name == "rangeint.iter" && !x.innerLoopOf(fr, l, s) {
			// bottom test: iter < n
			for _, b := range s.blocks {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS {
						add("auto:rangeint<n", "range counter below its bound", nil, false, func(st *State) *Term {
							n := x.pureEval(fr, st, bo.Y, l)
							if n == nil {
								return nil
							}
							return mkLt(cur(st), n)
						})
					}
				}
			}
		}
		if hc != nil && s.step == 1 && s.kind == 1 && x.inHeaderCond(fr, l, s.alloc) && (hc.Op == token.LSS || hc.Op == token.NEQ) {
			add("auto:"+s.cell.Name+"<=bound", s.cell.Name+" <= loop bound", nil, false, func(st *State) *Term {
				a, b := x.pureEval(fr, st, hc.X, l), x.pureEval(fr, st, hc.Y, l)
				if a == nil || b == nil || a.Sort != SInt {
					return nil
				}
				return mkOr(mkLe(a, b), mkEq(cur(st), e0))
			})
		}
		if hc != nil && s.step == -1 && s.kind == -1 && x.inHeaderCond(fr, l, s.alloc) && (hc.Op == token.GEQ || hc.Op == token.GTR) {
			add("auto:"+s.cell.Name+">=bound", s.cell.Name+" >= loop bound", nil, false, func(st *State) *Term {
				a, b := x.pureEval(fr, st, hc.X, l), x.pureEval(fr, st, hc.Y, l)
				if a == nil || b == nil || a.Sort != SInt {
					return nil
				}
				if hc.Op == token.GEQ {
					b = mkSub(b, mkInt(1))
				}
				return mkOr(mkLe(b, a), mkEq(cur(st), e0))
			})
		}
	}
	// user invariants
	pools := []*Contract{}
	if c := x.sc.sp.Contracts[fnKey(fr.fn)]; c != nil {
		pools = append(pools, c)
	}
	if x.con != nil && (len(pools) == 0 || pools[0] != x.con) {
		pools = append(pools, x.con)
	}
	for _, c := range pools {
		own := c.Key() == fnKey(fr.fn)
		for k, iv := range c.Invs {
			iv := iv
			if m := loopLabel.FindStringSubmatch(iv.Label); m != nil && own && !x.rescue {
				n, _ := strconv.Atoi(m[1])
				if n != l.ord {
					continue
				}
			} else if m != nil && !own && !x.rescue && strings.Contains(fnKey(fr.fn), ".") && x.sc.sp.Contracts[fnKey(fr.fn)] != nil {
				continue
			}
			name := iv.Label
			if name == "" {
				name = fmt.Sprintf("inv%d", k+1)
			} else if loopLabel.MatchString(name) {
				name = fmt.Sprintf("%s-%d", name, k+1)
			}
			cjs := splitConj(iv.E)
			for j, cj := range cjs {
				cj := cj
				x.userCand(fr, l, ctx, entry, c, name, j, cj, iv, add)
			}
		}
		for _, d := range c.Decr {
			d := d
			if m := loopLabel.FindStringSubmatch(d.Label); m != nil && own && !x.rescue {
				n, _ := strconv.Atoi(m[1])
				if n != l.ord {
					continue
				}
			}
			if ctx.dec != nil {
				continue
			}
			env := &frameEnv{x: x, fr: fr, st: entry, loop: l}
			if _, err := x.tryEval(d.E, env); err == nil {
				ctx.dec = func(st *State) []*Term {
					t, err := x.tryEval(d.E, &frameEnv{x: x, fr: fr, st: st, loop: l})
					if err != nil {
						return nil
					}
					return []*Term{t}
				}
				ctx.decSrc = d.Src
			}
		}
	}
	// termination measures for counting loops
	if ctx.dec == nil && hc != nil {
		_, kind := x.counterCell(fr, l)
		isRange := kind == "rangeindex" || kind == "rangeint"
		if _, isPtr := hc.X.Type().Underlying().(*types.Pointer); !isRange && !isPtr {
			if a, b := x.pureEval(fr, entry, hc.X, l), x.pureEval(fr, entry, hc.Y, l); a != nil && b != nil && a.Sort == SInt && b.Sort == SInt {
				switch hc.Op {
				case token.LSS, token.LEQ, token.NEQ:
					ctx.dec = func(st *State) []*Term {
						return []*Term{mkSub(x.pureEval(fr, st, hc.Y, l), x.pureEval(fr, st, hc.X, l))}
					}
					ctx.decSrc = "loop bound - counter"
				case token.GTR, token.GEQ:
					ctx.dec = func(st *State) []*Term {
						return []*Term{mkSub(x.pureEval(fr, st, hc.X, l), x.pureEval(fr, st, hc.Y, l))}
					}
					ctx.decSrc = "counter - loop bound"
				}
			}
		} else {
			ctx.auto = true
		}
	}
	if ctx.dec == nil && !ctx.auto {
		if _, kind := x.counterCell(fr, l); kind == "" && !x.stringRange(fr, l) {
			x.note("termination of loop %s not proved (no measure)", lid)
		}
	}
}

func (x *Exec) stringRange(fr *Frame, l *Loop) bool {
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func splitConj(e *Expr) []*Expr {
	if e.K == "bin" && e.Name == "&&" {
		return append(splitConj(e.Args[0]), splitConj(e.Args[1])...)
	}
	return []*Expr{e}
}

func (x *Exec) tryEval(e *Expr, env Env) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unresolved); ok {
				err = u
				return
			}
			if x.rescue {
				if u, ok := r.(specErr); ok {
					err = u
					return
				}
				if s, ok := r.(string); ok {
					err = specErr(s)
					return
				}
			}
			panic(r)
		}
	}()
	return x.sc.Eval(e, env).T, nil
}

func (x *Exec) userCand(fr *Frame, l *Loop, ctx *loopCtx, entry *State, c *Contract, name string, j int, e *Expr, iv *Clause, add func(string, string, []string, bool, func(*State) *Term)) {
	env := &frameEnv{x: x, fr: fr, st: entry, loop: l}
	src := e.Src
	if src == "" {
		src = iv.Src
	}
	_, err := x.tryEval(e, env)
	if err == nil {
		add(fmt.Sprintf("%s.%d", name, j), src, iv.Props, true, func(st *State) *Term {
			t, err := x.tryEval(e, &frameEnv{x: x, fr: fr, st: st, loop: l})
			if err != nil {
				return nil
			}
			return t
		})
	}
	if !x.rescue {
		return
	}
	// rescue: instantiate the names that are local variables by every
	// variable of the same sort that is live here
	names := map[string]bool{}
	freeNames(e, map[string]bool{}, names)
	var unk []string
	for n := range names {
		if x.sc.sp.Funcs[n] != nil || n == "nil" || strings.HasPrefix(n, "$") {
			continue
		}
		if _, ok := x.entryEnv.Lookup(n); ok {
			continue
		}
		unk = append(unk, n)
	}
	if len(unk) == 0 || len(unk) > 3 {
		return
	}
	var cells []*Cell
	for f := fr; f != nil; f = f.up {
		for nm, cs := range f.names {
			if strings.HasPrefix(nm, "$") {
				continue
			}
			for _, c := range cs {
				if _, ok := entry.cells[c]; ok {
					cells = append(cells, c)
				}
			}
		}
	}
	if len(cells) > 12 {
		cells = cells[:12]
	}
	var rec func(i int, m map[string]*Cell)
	cnt := 0
	rec = func(i int, m map[string]*Cell) {
		if cnt > 80 {
			return
		}
		if i == len(unk) {
			rm := map[string]*Cell{}
			var sb strings.Builder
			for k, v := range m {
				rm[k] = v
			}
			for _, u := range unk {
				fmt.Fprintf(&sb, "%s=%d,", u, rm[u].ID)
			}
			if _, err := x.tryEval(e, &frameEnv{x: x, fr: fr, st: entry, loop: l, rename: rm}); err != nil {
				return
			}
			cnt++
			add(fmt.Sprintf("%s.%d[%s]", name, j, sb.String()), src+" ["+sb.String()+"]", iv.Props, true, func(st *State) *Term {
				t, err := x.tryEval(e, &frameEnv{x: x, fr: fr, st: st, loop: l, rename: rm})
				if err != nil {
					return nil
				}
				return t
			})
			return
		}
		for _, c := range cells {
			m[unk[i]] = c
			rec(i+1, m)
		}
	}
	rec(0, map[string]*Cell{})
}

func freeNames(e *Expr, bound, out map[string]bool) {
	if e == nil {
		return
	}
	switch e.K {
	case "id":
		if !bound[e.Name] {
			out[e.Name] = true
		}
		return
	case "old":
		return
	case "forall", "exists":
		b := map[string]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, v := range e.Vars {
			b[v.Name] = true
		}
		for _, a := range e.Args {
			freeNames(a, b, out)
		}
		return
	case "let":
		freeNames(e.Args[0], bound, out)
		b := map[string]bool{e.Name: true}
		for k := range bound {
			b[k] = true
		}
		freeNames(e.Args[1], b, out)
		return
	}
	for _, a := range e.Args {
		freeNames(a, bound, out)
	}
}

// applyLemmas instantiates the contract's lemma applications whose
// arguments make sense at this point; a lemma instance is always true.
func (x *Exec) applyLemmas(fr *Frame, st *State, g *Term) {
	if x.con == nil {
		return
	}
	env := &frameEnv{x: x, fr: fr, st: st}
	x.applyIn(x.con.Applies, env, g)
}

func (x *Exec) applyIn(as []*Apply, env Env, g *Term) {
	for _, a := range as {
		t, err := x.lemmaInstance(a, env)
		if err != nil {
			continue
		}
		x.assume(TTrue, t)
	}
}

func (x *Exec) lemmaInstance(a *Apply, env Env) (t *Term, err error) {
	l := x.sc.sp.Lemmas[a.Lemma]
	if l == nil {
		panic(specErr("unknown lemma " + a.Lemma))
	}
	if len(a.Args) != len(l.Params) {
		panic(specErr("lemma " + a.Lemma + ": wrong number of arguments"))
	}
	vars := map[string]SV{}
	for i, p := range l.Params {
		v, err := x.tryEvalSV(a.Args[i], env)
		if err != nil {
			return nil, err
		}
		s, gt := x.sc.typeOf(p.Type)
		if v.T.Sort != s {
			v.T = coerce(v.T, s)
			if v.T.Sort != s {
				return nil, specErr("sort")
			}
		}
		vars[p.Name] = SV{T: v.T, GT: gt}
	}
	e2 := &scope{vars: vars, up: env}
	var pre, post []*Term
	if a.When != nil {
		t, err := x.tryEval(a.When, env)
		if err != nil {
			return nil, err
		}
		pre = append(pre, t)
	}
	for _, r := range l.Requires {
		pre = append(pre, x.sc.EvalBool(r.E, e2))
	}
	for _, r := range l.Ensures {
		post = append(post, x.sc.EvalBool(r.E, e2))
	}
	x.sc.usedLem[a.Lemma] = true
	return mkImp(mkAnd(pre...), mkAnd(post...)), nil
}

func (x *Exec) tryEvalSV(e *Expr, env Env) (v SV, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unresolved); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	return x.sc.Eval(e, env), nil
}
