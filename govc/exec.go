package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	Kind  string // def assume assert
	Var   *Term
	Guard *Term
	T     *Term
	Ob    *Oblig
	Path  []int // enclosing return-path ids (unused)
}

type Oblig struct {
	ID     string
	Func   string
	Label  string
	Kind   string // ensures requires bounds nil panic inv-init inv-step decreases frame lemma reach
	Props  []string
	Src    string
	Pos    string
	Index  int
	Guard  *Term
	T      *Term
	Inv    *InvInst
	Status string // proved failed unknown
	Solver string
	Secs   float64
	Model  string
	Query  string
	Query2 string
	unit   *Unit
}

// Unit is one verification task: a function under contract, or a lemma.
type Unit struct {
	Name     string
	Contract *Contract
	Lemma    *Lemma
	Items    []*Item
	Facts    []*Term
	Obls     []*Oblig
	Uses     []string
	Err      string
	Notes    map[string]int
	Inlined  map[string]bool
	Called   map[string]bool
	LoopSrc  []string
}

type InvInst struct {
	Key  string // function/loop/label
	Drop bool
}

type Frame struct {
	fn         *ssa.Function
	regs       map[ssa.Value]Val
	bindings   map[*ssa.FreeVar]Val
	up         *Frame
	names      map[string][]*Cell
	cellPos    map[*Cell]*ssa.Alloc
	rets       []edgeRet
	loops      []*Loop
	headOf     map[*ssa.BasicBlock]*Loop
	rpo        []*ssa.BasicBlock
	rpoIdx     map[*ssa.BasicBlock]int
	active     []*loopCtx
	defers     []deferred
	loopDefers []loopDefer
	con        *Contract
	cells      map[*ssa.Alloc]*Cell
	params     map[string]SV
	block      *ssa.BasicBlock
}

type deferred struct {
	sync  bool
	call  *ssa.CallCommon
	args  []Val
	block *ssa.BasicBlock
	guard *Term
}

type edgeRet struct {
	st    *State
	guard *Term
	val   Val
	pos   token.Pos
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type invCand struct {
	inst  *InvInst
	eval  func(st *State) *Term // nil result: not applicable
	src   string
	props []string
	user  bool
}

type loopCtx struct {
	loop   *Loop
	cands  []*invCand
	entry  *State
	dec    func(st *State) []*Term
	decVal []*Term
	decSrc string
	dry    bool
	back   []edge
	auto   bool
}

type Exec struct {
	lockCells map[string]*Cell
	lock0     map[string]*Term
	prog      *Prog
	sc        *SpecCtx
	unit      *Unit
	cells     int
	freshN    map[string]int
	nNames    int
	depth     int
	mute      int
	dropped   map[string]bool
	addrTerms map[string]*Term
	addrBack  map[*Term]*Addr
	closTerms map[*Closure]*Term
	reached   map[int]bool // the "before" clauses whose call was reached
	closBack  map[*Term]*Closure
	fnTerms   map[*Term]bool
	heap0     map[string]*Term
	heapSorts map[string]*Sort
	nameMemo  map[*Term]*Term
	target    *ssa.Function
	con       *Contract
	entryEnv  Env
	stack     []*ssa.Function
	allocN    *Term
	rescue    bool
	frameEx   map[string][]*Term // objects the contract allows to change
	objects   map[*Term][]string
	globals   map[*ssa.Global]*Cell
	initDone  map[*ssa.Package]*State
	assumed   map[string]bool
	factSeen  map[*Term]bool
	freshRefs []*Term
	inlineSet map[string]bool
	gens      int
	sorts     int
	caps      []capture
	argVals   []ssa.Value // the arguments of the current call
	argSrc    []*Addr     // where the arguments of the current call were loaded from
}

func newExec(p *Prog, sc *SpecCtx, u *Unit) *Exec {
	u.Notes = map[string]int{}
	u.Inlined = map[string]bool{}
	u.Called = map[string]bool{}
	return &Exec{prog: p, sc: sc, unit: u, freshN: map[string]int{}, dropped: map[string]bool{}, addrTerms: map[string]*Term{}, addrBack: map[*Term]*Addr{}, closBack: map[*Term]*Closure{},
		heap0: map[string]*Term{}, heapSorts: map[string]*Sort{}, nameMemo: map[*Term]*Term{}, globals: map[*ssa.Global]*Cell{}, initDone: map[*ssa.Package]*State{}, assumed: map[string]bool{}, factSeen: map[*Term]bool{}}
}

func (x *Exec) fresh(n string, s *Sort) *Term {
	n = symClean(n)
	x.freshN[n]++
	return mkVar(fmt.Sprintf("%s@%d", n, x.freshN[n]), s)
}

func (x *Exec) emit(it *Item) { x.unit.Items = append(x.unit.Items, it) }

func (x *Exec) assume(g, t *Term) {
	if t == TTrue {
		return
	}
	x.emit(&Item{Kind: "assume", Guard: g, T: t})
}

// fact records an unconditional truth (type invariants, identities of boxes).
func (x *Exec) fact(t *Term) {
	if t == TTrue || x.factSeen[t] {
		return
	}
	x.factSeen[t] = true
	x.unit.Facts = append(x.unit.Facts, t)
}

func termSize(t *Term, lim int) int {
	n := 1
	for _, a := range t.Args {
		n += termSize(a, lim-n)
		if n >= lim {
			return n
		}
	}
	return n
}

// name introduces a definition for a large term.
func (x *Exec) name(n string, t *Term) *Term {
	if len(t.Args) == 0 || termSize(t, 8) < 8 {
		return t
	}
	if v, ok := x.nameMemo[t]; ok {
		return v
	}
	v := x.fresh(n, t.Sort)
	x.emit(&Item{Kind: "def", Var: v, T: t})
	x.nameMemo[t] = v
	return v
}

func (x *Exec) truncate(n int) {
	for _, it := range x.unit.Items[n:] {
		if it.Kind == "def" {
			delete(x.nameMemo, it.T)
		}
	}
	x.unit.Items = x.unit.Items[:n]
}

func (x *Exec) note(f string, a ...any) { x.unit.Notes[fmt.Sprintf(f, a...)]++ }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) assert(kind, label, src string, props []string, g, t *Term, pos token.Pos, inv *InvInst) {
	if x.mute > 0 {
		return
	}
	o := &Oblig{Kind: kind, Label: label, Src: src, Props: props, Guard: g, T: t, Pos: x.pos(pos), Inv: inv, Func: x.unit.Name, unit: x.unit}
	it := &Item{Kind: "assert", Guard: g, T: t, Ob: o}
	o.Index = len(x.unit.Items)
	x.emit(it)
	x.unit.Obls = append(x.unit.Obls, o)
}

// safety obligations (bounds, nil, panic)
func (x *Exec) safe(kind string, g, t *Term, pos token.Pos, src string) {
	if t == TTrue || x.mute > 0 {
		return
	}
	x.assert(kind, kind, src, nil, g, t, pos, nil)
}

// ---------------------------------------------------------------- heap

func (x *Exec) heapInit(key string, s *Sort) *Term {
	if t, ok := x.heap0[key]; ok {
		return t
	}
	if s == nil {
		s = x.heapSorts[key]
		if s == nil {
			panic("heapInit: unknown " + key)
		}
	}
	t := mkVar(key+"@0", s)
	x.heap0[key] = t
	x.heapSorts[key] = s
	return t
}

func (x *Exec) heapGet(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if s != nil {
		x.heapSorts[key] = s
	}
	var t *Term
	if st.gen == 0 {
		t = x.heapInit(key, s)
	} else {
		t = mkVar(fmt.Sprintf("%s@g%d", key, st.gen), x.heapSorts[key])
	}
	st.heap[key] = t
	return t
}

func fieldOf(t types.Type, i int) *types.Var {
	return t.Underlying().(*types.Struct).Field(i)
}

// ---------------------------------------------------------------- addresses

func (x *Exec) newCell(name string, t types.Type) *Cell {
	x.cells++
	return &Cell{ID: x.cells, Name: name, Typ: t}
}

func (x *Exec) addrOf(v Val, t types.Type, g *Term, pos token.Pos) *Addr {
	switch u := v.(type) {
	case *Addr:
		return u
	case *Term:
		if a, ok := x.addrBack[u]; ok {
			return a
		}
		x.safe("nil", g, mkNot(mkEq(u, mkInt(0))), pos, "nil pointer dereference")
		return &Addr{Ref: u, Typ: t}
	case *Poison:
		unsup("address is poison: %s", u.Why)
	}
	unsup("bad address %T", v)
	return nil
}

func (x *Exec) load(st *State, a *Addr) Val {
	var v Val
	path := a.Path
	cur := a.Typ
	if a.Cell != nil {
		cv, ok := st.cells[a.Cell]
		if !ok {
			cv = x.zero(a.Cell.Typ)
		}
		v = cv
		cur = a.Cell.Typ
	} else {
		st0, ok := cur.Underlying().(*types.Struct)
		if !ok || isBufferType(cur) {
			// pointer to a non-struct: one heap array per type
			s := goSort(cur)
			h := x.heapGet(st, "HV$"+typeName(cur), arrayOf(SInt, s))
			v = x.lift(mkSelect(h, a.Ref), cur)
		} else if len(path) == 0 {
			sv := &StructV{Typ: cur}
			for i := 0; i < st0.NumFields(); i++ {
				ft := st0.Field(i).Type()
				h := x.heapGet(st, heapKey(cur, st0.Field(i).Name()), arrayOf(SInt, goSort(ft)))
				t := mkSelect(h, a.Ref)
				x.typeInv(t, ft, TTrue)
				sv.Fields = append(sv.Fields, x.lift(t, ft))
			}
			return sv
		} else {
			f := st0.Field(path[0].Field)
			h := x.heapGet(st, heapKey(cur, f.Name()), arrayOf(SInt, goSort(f.Type())))
			t := mkSelect(h, a.Ref)
			x.typeInv(t, f.Type(), TTrue)
			v = x.lift(t, f.Type())
			cur = f.Type()
			path = path[1:]
		}
	}
	for _, p := range path {
		v, cur = x.project(v, cur, p)
	}
	return v
}

func (x *Exec) project(v Val, cur types.Type, p PathElem) (Val, types.Type) {
	if p.Field >= 0 {
		f := fieldOf(cur, p.Field)
		switch u := v.(type) {
		case *StructV:
			return u.Fields[p.Field], f.Type()
		case *Term:
			return x.lift(mkField(u, p.Field), f.Type()), f.Type()
		}
		unsup("field of %T", v)
	}
	et := elemType(cur)
	switch u := v.(type) {
	case *ArrV:
		if p.Idx.isInt() {
			k := int(p.Idx.Int.Int64())
			if k >= 0 && k < len(u.Elems) {
				return u.Elems[k], et
			}
		}
		return x.lift(mkAt(x.toTerm(u), p.Idx), et), et
	case *SliceV:
		if u.Elems != nil && p.Idx.isInt() {
			k := int(p.Idx.Int.Int64())
			if k >= 0 && k < len(u.Elems) {
				return u.Elems[k], et
			}
		}
		t := mkAt(u.T, p.Idx)
		x.typeInv(t, et, TTrue)
		return x.lift(t, et), et
	case *Term:
		t := mkAt(u, p.Idx)
		x.typeInv(t, et, TTrue)
		return x.lift(t, et), et
	}
	unsup("index of %T", v)
	return nil, nil
}

func (x *Exec) store(st *State, a *Addr, nv Val) {
	if a.Cell != nil {
		old, ok := st.cells[a.Cell]
		if !ok {
			old = x.zero(a.Cell.Typ)
		}
		st.cells[a.Cell] = x.update(old, a.Cell.Typ, a.Path, nv)
		return
	}
	cur := a.Typ
	st0, ok := cur.Underlying().(*types.Struct)
	if !ok || isBufferType(cur) {
		s := goSort(cur)
		k := "HV$" + typeName(cur)
		h := x.heapGet(st, k, arrayOf(SInt, s))
		ov := x.lift(mkSelect(h, a.Ref), cur)
		st.heap[k] = x.name(k, mkStore(h, a.Ref, x.toTerm(x.update(ov, cur, a.Path, nv))))
		return
	}
	if len(a.Path) == 0 {
		for i := 0; i < st0.NumFields(); i++ {
			fv, _ := x.project(nv, cur, PathElem{Field: i})
			x.store(st, &Addr{Ref: a.Ref, Typ: cur, Path: []PathElem{{Field: i}}}, fv)
		}
		return
	}
	f := st0.Field(a.Path[0].Field)
	k := heapKey(cur, f.Name())
	h := x.heapGet(st, k, arrayOf(SInt, goSort(f.Type())))
	var ov Val
	if len(a.Path) > 1 {
		ov = x.lift(mkSelect(h, a.Ref), f.Type())
	}
	n := x.update(ov, f.Type(), a.Path[1:], nv)
	st.heap[k] = x.name(k, mkStore(h, a.Ref, x.toTerm(n)))
}

func (x *Exec) update(old Val, t types.Type, path []PathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	inner, it := x.project(old, t, p)
	n := x.update(inner, it, path[1:], nv)
	if p.Field >= 0 {
		switch u := old.(type) {
		case *StructV:
			fs := append([]Val{}, u.Fields...)
			fs[p.Field] = n
			return &StructV{Typ: u.Typ, Fields: fs}
		case *Term:
			return mkSetField(u, p.Field, x.toTerm(n))
		}
		unsup("field update of %T", old)
	}
	switch u := old.(type) {
	case *ArrV:
		if p.Idx.isInt() {
			k := int(p.Idx.Int.Int64())
			if k >= 0 && k < len(u.Elems) {
				es := append([]Val{}, u.Elems...)
				es[k] = n
				return &ArrV{Typ: u.Typ, Elems: es}
			}
		}
		return x.name("upd", mkUpd(x.toTerm(u), p.Idx, x.toTerm(n)))
	case *SliceV:
		return &SliceV{T: x.name("upd", mkUpd(u.T, p.Idx, x.toTerm(n))), Nil: u.Nil, Typ: u.Typ}
	case *Term:
		return x.name("upd", mkUpd(u, p.Idx, x.toTerm(n)))
	}
	unsup("element update of %T", old)
	return nil
}

// ---------------------------------------------------------------- operands

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch u := v.(type) {
	case *ssa.Const:
		if u.Value == nil {
			return x.zero(u.Type())
		}
		t := constTerm(u.Value, u.Type())
		if goSort(u.Type()) == SInt && t.Sort != SInt {
			if i := constant.ToInt(u.Value); i.Kind() == constant.Int {
				k, _ := constant.Int64Val(i)
				return mkInt(k)
			}
		}
		return t
	case *ssa.Global:
		return &Addr{Cell: x.globalCell(st, u), Typ: u.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &Closure{Fn: u}
	case *ssa.FreeVar:
		return fr.bindings[u]
	case *ssa.Builtin:
		return &BuiltinV{u}
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("use of undefined register %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term { return x.toTerm(x.val(fr, st, v)) }

// ---------------------------------------------------------------- globals

func (x *Exec) globalCell(st *State, g *ssa.Global) *Cell {
	if c, ok := x.globals[g]; ok {
		if _, have := st.cells[c]; !have {
			st.cells[c] = x.prog.globals[g]
			if st.cells[c] == nil {
				st.cells[c] = x.globalVal(g)
			}
		}
		return c
	}
	c := x.newCell("global_"+g.Name(), g.Type().(*types.Pointer).Elem())
	x.globals[g] = c
	st.cells[c] = x.globalVal(g)
	return c
}

// globalVal evaluates a package-level variable by executing the package
// initialiser symbolically (only for variables never assigned elsewhere).
func (x *Exec) globalVal(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg == nil || len(x.prog.ssaPkg) == 0 || x.prog.gstores[g] {
		x.note("global %s.%s treated as arbitrary", g.Pkg.Pkg.Name(), g.Name())
		return x.freshVal("g_"+g.Name(), t, TTrue)
	}
	if v, ok := x.prog.globals[g]; ok && v != nil {
		return v
	}
	if x.prog.ssaPkg[g.Pkg.Pkg.Path()] == nil {
		x.note("external global %s.%s treated as arbitrary", g.Pkg.Pkg.Name(), g.Name())
		v := x.lift(mkVar("ext_"+symClean(g.Pkg.Pkg.Name()+"."+g.Name()), goSort(t)), t)
		return v
	}
	st, ok := x.initDone[g.Pkg]
	if !ok {
		st = newState()
		x.initDone[g.Pkg] = st
		x.runInit(g.Pkg, st)
	}
	if c, ok := x.globals[g]; ok {
		if v, ok := st.cells[c]; ok {
			if p, bad := v.(*Poison); bad {
				x.note("global %s arbitrary (%s)", g.Name(), p.Why)
				return x.freshVal("g_"+g.Name(), t, TTrue)
			}
			return v
		}
	}
	return x.zero(t)
}

// runInit executes the straight-line package initialiser, instruction by
// instruction; what it cannot model becomes an arbitrary value.
func (x *Exec) runInit(p *ssa.Package, st *State) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	x.mute++
	defer func() { x.mute-- }()
	fr := x.newFrame(fn, nil, nil)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(unsupported); ok {
							if v, ok := in.(ssa.Value); ok {
								fr.regs[v] = &Poison{e.msg}
							}
							if s, ok := in.(*ssa.Store); ok {
								if g, ok := s.Addr.(*ssa.Global); ok {
									c := x.globalCellRaw(g)
									st.cells[c] = &Poison{e.msg}
								}
							}
							return
						}
						panic(r)
					}
				}()
				switch i := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					return
				case *ssa.Call:
					if c := i.Call.StaticCallee(); c != nil && strings.HasPrefix(c.Name(), "init") {
						return
					}
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok {
						c := x.globalCellRaw(g)
						v := x.val(fr, st, i.Val)
						st.cells[c] = v
						return
					}
				case *ssa.UnOp:
					if g, ok := i.X.(*ssa.Global); ok && g.Pkg == p {
						c := x.globalCellRaw(g)
						if v, ok := st.cells[c]; ok {
							fr.regs[i] = v
						} else {
							fr.regs[i] = x.zero(i.Type())
						}
						return
					}
				}
				g := TTrue
				x.instr(fr, st, &g, in)
			}()
		}
	}
}

func (x *Exec) globalCellRaw(g *ssa.Global) *Cell {
	if c, ok := x.globals[g]; ok {
		return c
	}
	c := x.newCell("global_"+g.Name(), g.Type().(*types.Pointer).Elem())
	x.globals[g] = c
	return c
}

// ---------------------------------------------------------------- frames and loops

func (x *Exec) newFrame(fn *ssa.Function, bindings []Val, up *Frame) *Frame {
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, bindings: map[*ssa.FreeVar]Val{}, up: up, names: map[string][]*Cell{}, cellPos: map[*Cell]*ssa.Alloc{}, cells: map[*ssa.Alloc]*Cell{}}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			fr.bindings[fv] = bindings[i]
		}
	}
	fr.findLoops()
	return fr
}

func (fr *Frame) findLoops() {
	fn := fr.fn
	fr.headOf = map[*ssa.BasicBlock]*Loop{}
	fr.rpoIdx = map[*ssa.BasicBlock]int{}
	if len(fn.Blocks) == 0 {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpoIdx[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.headOf[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.headOf[s] = l
					fr.loops = append(fr.loops, l)
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range c.Preds {
						if seen[p] && !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(fr.loops, func(i, j int) bool { return fr.rpoIdx[fr.loops[i].head] < fr.rpoIdx[fr.loops[j].head] })
	for i, l := range fr.loops {
		l.ord = i + 1
	}
}

// callBody executes a function body inline.
func (x *Exec) callBody(fn *ssa.Function, args []Val, bindings []Val, st *State, guard *Term, up *Frame, con *Contract) (Val, *State, *Term, *Frame) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if x.depth > 24 {
		unsup("inlining too deep at %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s needs a contract", fn)
		}
	}
	x.depth++
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	fr := x.newFrame(fn, bindings, up)
	fr.con = con
	fr.params = map[string]SV{}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, st, guard}}}
	x.runBlocks(fr, fr.rpo, in, nil)
	if len(fr.rets) == 0 {
		return x.zeroResult(fn), st.clone(), TFalse, fr
	}
	var es []edge
	for _, r := range fr.rets {
		es = append(es, edge{nil, r.st, r.guard})
	}
	v := fr.rets[len(fr.rets)-1].val
	for i := len(fr.rets) - 2; i >= 0; i-- {
		v = x.iteVal(fr.rets[i].guard, fr.rets[i].val, v)
	}
	ns, g := x.mergeEdges(es)
	v = x.nameVal("ret_"+fn.Name(), v)
	return v, ns, g, fr
}

func (x *Exec) zeroResult(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return x.zero(r.At(0).Type())
	}
	var t TupleV
	for i := 0; i < r.Len(); i++ {
		t = append(t, x.zero(r.At(i).Type()))
	}
	return t
}

// runBlocks executes the given blocks in order. dry, when set, is the loop
// whose body is being explored to find what it modifies.
func (x *Exec) runBlocks(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, dry *loopCtx) {
	for _, b := range order {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		var live []edge
		for _, e := range es {
			if e.guard != TFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		st, g := x.mergeEdges(live)
		fr.block = b
		x.phis(fr, b, live)
		if l := fr.headOf[b]; l != nil && !(dry != nil && dry.loop == l) {
			st = x.enterLoop(fr, l, st, g)
		}
		alive := true
		gp := g
		for _, in2 := range b.Instrs {
			if _, ok := in2.(*ssa.Phi); ok {
				continue
			}
			if !x.instr(fr, st, &gp, in2) {
				alive = false
				break
			}
			if gp == TFalse {
				alive = false
				break
			}
		}
		if !alive {
			continue
		}
		add := func(s *ssa.BasicBlock, eg *Term) {
			if eg == TFalse {
				return
			}
			if l := fr.headOf[s]; l != nil && l.blocks[b] && s.Dominates(b) {
				if dry != nil && dry.loop == l {
					dry.back = append(dry.back, edge{b, st, eg})
					return
				}
				for i := len(fr.active) - 1; i >= 0; i-- {
					if fr.active[i].loop == l {
						x.backEdge(fr, fr.active[i], st, eg, b)
						return
					}
				}
				return
			}
			if dry != nil && !dry.loop.blocks[s] {
				return
			}
			in[s] = append(in[s], edge{b, st, eg})
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			c := x.term(fr, st, t.Cond)
			c = x.name("cond", c)
			add(b.Succs[0], mkAnd(gp, c))
			add(b.Succs[1], mkAnd(gp, mkNot(c)))
		case *ssa.Jump:
			add(b.Succs[0], gp)
		}
	}
}

func (x *Exec) phis(fr *Frame, b *ssa.BasicBlock, es []edge) {
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		have := false
		for i := len(es) - 1; i >= 0; i-- {
			e := es[i]
			k := -1
			for j, p := range b.Preds {
				if p == e.from {
					k = j
				}
			}
			if k < 0 {
				continue
			}
			w := x.val(fr, e.st, ph.Edges[k])
			if !have {
				v, have = w, true
			} else {
				v = x.iteVal(e.guard, w, v)
			}
		}
		if !have {
			v = &Poison{"phi without incoming edge"}
		}
		fr.regs[ph] = x.nameVal("phi", v)
	}
}

// ---------------------------------------------------------------- loops

func (x *Exec) havocLike(st *State, name string, cur, oldv, newv Val, t types.Type) Val {
	switch u := cur.(type) {
	case *Term:
		f := x.fresh(name, u.Sort)
		if t != nil {
			x.typeInv(f, t, TTrue)
		}
		return f
	case *SliceV:
		f := x.fresh(name, u.T.Sort)
		n := x.fresh(name+"_nil", SBool)
		x.fact(mkImp(n, mkEq(mkLen(f), mkInt(0))))
		return &SliceV{T: f, Nil: n, Typ: u.Typ}
	case *StructV:
		r := &StructV{Typ: u.Typ}
		st0 := u.Typ.Underlying().(*types.Struct)
		ov, _ := oldv.(*StructV)
		nv, _ := newv.(*StructV)
		for i, f := range u.Fields {
			if ov != nil && nv != nil && sameVal(ov.Fields[i], nv.Fields[i]) {
				r.Fields = append(r.Fields, f)
				continue
			}
			var a, b Val
			if ov != nil && nv != nil {
				a, b = ov.Fields[i], nv.Fields[i]
			}
			r.Fields = append(r.Fields, x.havocLike(st, name+"_"+st0.Field(i).Name(), f, a, b, st0.Field(i).Type()))
		}
		return r
	case *ArrV:
		f := x.fresh(name, goSort(u.Typ))
		return f
	}
	if t != nil {
		s := goSort(t)
		_ = s
		if _, isP := cur.(*Poison); !isP {
			return x.freshVal(name, t, TTrue)
		}
	}
	return &Poison{"modified in a loop: " + name}
}

func (x *Exec) enterLoop(fr *Frame, l *Loop, st *State, g *Term) *State {
	var order []*ssa.BasicBlock
	for _, b := range fr.rpo {
		if l.blocks[b] {
			order = append(order, b)
		}
	}
	type modRec struct{ old, new Val }
	mods := map[*Cell]modRec{}
	hmods := map[string]bool{}
	genMod := false
	entry := st.clone()
	savedRets := len(fr.rets)
	savedDef := len(fr.defers)
	for round := 0; round < 12; round++ {
		mark := len(x.unit.Items)
		x.mute++
		s := entry.clone()
		for c, m := range mods {
			s.cells[c] = x.havocLike(s, c.Name, s.cells[c], m.old, m.new, c.Typ)
		}
		if genMod {
			x.havocHeap(s)
		}
		for h := range hmods {
			s.heap[h] = x.fresh(h, x.heapSorts[h])
		}
		start := s.clone()
		ctx := &loopCtx{loop: l, dry: true}
		in := map[*ssa.BasicBlock][]edge{l.head: {{nil, s, TTrue}}}
		func() {
			defer func() { x.mute-- }()
			saved := map[ssa.Value]Val{}
			for k, v := range fr.regs {
				saved[k] = v
			}
			x.runBlocksDry(fr, order, in, ctx)
			fr.regs = saved
		}()
		fr.rets = fr.rets[:savedRets]
		fr.defers = fr.defers[:savedDef]
		changed := false
		for _, e := range ctx.back {
			for c, v0 := range start.cells {
				v1 := e.st.cells[c]
				if !sameVal(v0, v1) {
					if old, ok := mods[c]; !ok {
						mods[c] = modRec{v0, v1}
						changed = true
					} else {
						// widen: record fields that change
						m := modRec{widen(old.old, old.new, v0, v1, 0), widen(old.old, old.new, v0, v1, 1)}
						if !sameVal(m.new, old.new) {
							mods[c] = m
							changed = true
						}
					}
				}
			}
			if e.st.gen != start.gen && !genMod {
				genMod = true
				changed = true
			}
			for h, t1 := range e.st.heap {
				t0 := x.heapGet(start, h, t1.Sort)
				if t0 != t1 && !hmods[h] {
					hmods[h] = true
					changed = true
				}
			}
		}
		x.truncate(mark)
		if !changed {
			break
		}
	}
	// candidate invariants
	ctx := &loopCtx{loop: l, entry: entry}
	x.makeCands(fr, l, ctx, entry, func(c *Cell) bool { _, ok := mods[c]; return ok })
	if !genMod {
		// objects that existed before the function was called keep their fields
		var hs []string
		for h := range hmods {
			if (strings.HasPrefix(h, "H$") || strings.HasPrefix(h, "M$")) && x.heapSorts[h].Kind == KArray && x.heapSorts[h].Key == SInt {
				hs = append(hs, h)
			}
		}
		sort.Strings(hs)
		for _, h := range hs {
			h := h
			inst := &InvInst{Key: fmt.Sprintf("%s#%d/auto:frame:%s", fnKey(fr.fn), l.ord, h)}
			if x.dropped[inst.Key] {
				continue
			}
			h0 := x.heapGet(entry, h, x.heapSorts[h])
			ctx.cands = append(ctx.cands, &invCand{inst: inst, src: "existing objects keep " + h, eval: func(st *State) *Term {
				h1 := x.heapGet(st, h, x.heapSorts[h])
				if h1 == h0 {
					return TTrue
				}
				bv := freshBV("o", SInt)
				var ex []*Term
				for _, f := range x.frameEx[h] {
					ex = append(ex, mkEq(bv, f))
				}
				return mkForall([]*Term{bv}, [][]*Term{{mkSelect(h1, bv)}}, mkImp(mkAnd(mkApp("preexisting", SBool, bv), mkNot(mkOr(ex...))), mkEq(mkSelect(h1, bv), mkSelect(h0, bv))))
			}})
		}
	}
	for _, c := range ctx.cands {
		t := c.eval(entry)
		if t == nil {
			c.eval = nil
			continue
		}
		x.assert("inv-init", c.src, c.src, c.props, g, t, l.head.Instrs[0].Pos(), c.inst)
	}
	var cs []*invCand
	for _, c := range ctx.cands {
		if c.eval != nil {
			cs = append(cs, c)
		}
	}
	ctx.cands = cs
	s := entry.clone()
	var mc []*Cell
	for c := range mods {
		mc = append(mc, c)
	}
	sort.Slice(mc, func(i, j int) bool { return mc[i].ID < mc[j].ID })
	for _, c := range mc {
		m := mods[c]
		s.cells[c] = x.havocLike(s, c.Name, s.cells[c], m.old, m.new, c.Typ)
	}
	var hk []string
	for h := range hmods {
		hk = append(hk, h)
	}
	sort.Strings(hk)
	if genMod {
		x.havocHeap(s)
	}
	for _, h := range hk {
		s.heap[h] = x.fresh(h, x.heapSorts[h])
	}
	for _, c := range ctx.cands {
		if t := c.eval(s); t != nil {
			x.assume(g, t)
		}
	}
	x.applyLemmas(fr, s, g)
	if ctx.dec != nil {
		ctx.decVal = ctx.dec(s)
	}
	// pop inactive contexts
	fr.active = append(fr.active, ctx)
	return s
}

func widen(o1, n1, o2, n2 Val, which int) Val {
	a, ok1 := o1.(*StructV)
	b, ok2 := n1.(*StructV)
	c, ok3 := o2.(*StructV)
	d, ok4 := n2.(*StructV)
	if ok1 && ok2 && ok3 && ok4 {
		r := &StructV{Typ: a.Typ}
		for i := range a.Fields {
			if !sameVal(a.Fields[i], b.Fields[i]) {
				if which == 0 {
					r.Fields = append(r.Fields, a.Fields[i])
				} else {
					r.Fields = append(r.Fields, b.Fields[i])
				}
			} else if which == 0 {
				r.Fields = append(r.Fields, c.Fields[i])
			} else {
				if sameVal(c.Fields[i], d.Fields[i]) {
					r.Fields = append(r.Fields, c.Fields[i])
				} else {
					r.Fields = append(r.Fields, d.Fields[i])
				}
			}
		}
		return r
	}
	if which == 0 {
		return o1
	}
	return n1
}

func (x *Exec) runBlocksDry(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, ctx *loopCtx) {
	// nested contexts created while exploring are discarded
	n := len(fr.active)
	x.runBlocks(fr, order, in, ctx)
	fr.active = fr.active[:n]
}

func (x *Exec) backEdge(fr *Frame, ctx *loopCtx, st *State, g *Term, b *ssa.BasicBlock) {
	x.applyLemmas(fr, st, g)
	pos := ctx.loop.head.Instrs[0].Pos()
	for _, c := range ctx.cands {
		t := c.eval(st)
		if t == nil {
			t = TFalse
		}
		x.assert("inv-step", c.src, c.src, c.props, g, t, pos, c.inst)
	}
	if ctx.dec != nil {
		nv := ctx.dec(st)
		var alts []*Term
		eq := []*Term{}
		for i := range nv {
			if i >= len(ctx.decVal) {
				break
			}
			alts = append(alts, mkAnd(append(append([]*Term{}, eq...), mkLt(nv[i], ctx.decVal[i]), mkLe(mkInt(0), ctx.decVal[i]))...))
			eq = append(eq, mkEq(nv[i], ctx.decVal[i]))
		}
		x.assert("decreases", "terminates", ctx.decSrc, nil, g, mkOr(alts...), pos, nil)
	}
}
