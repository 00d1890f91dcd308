package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes one instruction; false means the path ends.
func (x *Exec) instr(fr *Frame, st *State, gp **Term, in ssa.Instruction) bool {
	g := *gp
	switch i := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		if i.Comment == "defer$stack" {
			fr.regs[i] = &Poison{"defer stack"}
			return true
		}
		if i.Heap && (i.Comment == "complit" || i.Comment == "new") {
			if _, ok := t.Underlying().(*types.Struct); ok && !isBufferType(t) {
				fr.regs[i] = x.heapAlloc(st, t)
				return true
			}
		}
		c, ok := fr.cells[i]
		if !ok {
			n := i.Comment
			if n == "" {
				n = i.Name()
			}
			c = x.newCell(n, t)
			c.Pos = int(i.Pos())
			fr.cells[i] = c
			if token.IsIdentifier(n) {
				fr.names[n] = append(fr.names[n], c)
			} else {
				fr.names["$"+n] = append(fr.names["$"+n], c)
			}
			fr.cellPos[c] = i
		}
		st.cells[c] = x.zero(t)
		fr.regs[i] = &Addr{Cell: c, Typ: t}
	case *ssa.Store:
		if p, ok := fr.regs[i.Addr].(*Poison); ok && p.Why == "defer stack" {
			return true
		}
		a := x.addrOf(x.val(fr, st, i.Addr), i.Addr.Type().Underlying().(*types.Pointer).Elem(), g, i.Pos())
		v := x.val(fr, st, i.Val)
		if _, ok := v.(*ArrV); !ok {
			v = x.nameVal("v", v)
		}
		x.guardedAccess(st, g, a, 2, i.Pos())
		x.store(st, a, v)
	case *ssa.UnOp:
		fr.regs[i] = x.unop(fr, st, g, i)
	case *ssa.BinOp:
		fr.regs[i] = x.binop(fr, st, g, i)
	case *ssa.Call:
		v, ok := x.call(fr, st, gp, &i.Call, i.Type(), i.Pos())
		if !ok {
			return false
		}
		fr.regs[i] = v
	case *ssa.MakeInterface:
		v := x.val(fr, st, i.X)
		fr.regs[i] = &IfaceV{Dyn: i.X.Type(), V: v}
	case *ssa.ChangeInterface:
		fr.regs[i] = x.val(fr, st, i.X)
	case *ssa.ChangeType:
		v := x.val(fr, st, i.X)
		fr.regs[i] = x.retype(v, i.Type())
	case *ssa.Convert:
		fr.regs[i] = x.convert(fr, st, i)
	case *ssa.Extract:
		v := x.val(fr, st, i.Tuple)
		t, ok := v.(TupleV)
		if !ok {
			unsup("extract from %T", v)
		}
		fr.regs[i] = t[i.Index]
	case *ssa.Field:
		v, _ := x.project(x.val(fr, st, i.X), i.X.Type(), PathElem{Field: i.Field})
		fr.regs[i] = v
	case *ssa.FieldAddr:
		a := x.addrOf(x.val(fr, st, i.X), i.X.Type().Underlying().(*types.Pointer).Elem(), g, i.Pos())
		fr.regs[i] = &Addr{Cell: a.Cell, Ref: a.Ref, Typ: a.Typ, Path: append(append([]PathElem{}, a.Path...), PathElem{Field: i.Field})}
	case *ssa.Index:
		s := x.val(fr, st, i.X)
		idx := x.term(fr, st, i.Index)
		x.boundsIdx(g, x.lenOf(s), idx, i.Pos())
		v, _ := x.project(s, i.X.Type(), PathElem{Field: -1, Idx: idx})
		fr.regs[i] = v
	case *ssa.IndexAddr:
		fr.regs[i] = x.indexAddr(fr, st, g, i)
	case *ssa.Lookup:
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.term(fr, st, i.X)
			idx := x.term(fr, st, i.Index)
			x.boundsIdx(g, mkLen(s), idx, i.Pos())
			t := mkAt(s, idx)
			x.typeInv(t, types.Typ[types.Uint8], TTrue)
			fr.regs[i] = t
			return true
		}
		x.guardedAccess(st, g, x.mapSource(fr, st, i.X), 1, i.Pos())
		fr.regs[i] = x.mapLookup(fr, st, i)
	case *ssa.MapUpdate:
		x.safe("nil", g, mkNot(mkEq(x.term(fr, st, i.Map), mkInt(0))), i.Pos(), "map is not nil")
		x.guardedAccess(st, g, x.mapSource(fr, st, i.Map), 2, i.Pos())
		x.mapUpdate(fr, st, i)
	case *ssa.MakeMap:
		r := x.fresh("map", SInt)
		x.fact(mkLt(mkInt(0), r))
		x.fact(mkNot(mkApp("preexisting", SBool, r)))
		mt := i.Type().Underlying().(*types.Map)
		k := mapKey(mt)
		d := x.heapGet(st, k+"$dom", arrayOf(SInt, arrayOf(goSort(mt.Key()), SBool)))
		empty := mkVar("emptydom_"+symClean(goSort(mt.Key()).Name), arrayOf(goSort(mt.Key()), SBool))
		bv := freshBV("k", goSort(mt.Key()))
		sel := mkSelect(empty, bv)
		x.fact(mkForall([]*Term{bv}, [][]*Term{{sel}}, mkNot(sel)))
		st.heap[k+"$dom"] = x.name("dom", mkStore(d, r, empty))
		fr.regs[i] = r
	case *ssa.Slice:
		fr.regs[i] = x.slice(fr, st, g, i)
	case *ssa.MakeSlice:
		n := x.term(fr, st, i.Len)
		x.safe("bounds", g, mkLe(mkInt(0), n), i.Pos(), "make: negative length")
		s := goSort(i.Type())
		et := i.Type().Underlying().(*types.Slice).Elem()
		z := x.toTerm(x.zero(et))
		var t *Term
		if n.isInt() && n.Int.Sign() == 0 {
			t = mkEmpty(s)
		} else {
			t = mkRep(s, z, n)
		}
		fr.regs[i] = &SliceV{T: t, Nil: TFalse, Typ: i.Type()}
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Bindings = append(c.Bindings, x.val(fr, st, b))
		}
		fr.regs[i] = c
		x.standsFor(st, c, i.Bindings)
	case *ssa.Range:
		switch u := i.X.Type().Underlying().(type) {
		case *types.Basic:
			c := x.newCell("$iter", types.Typ[types.Int])
			st.cells[c] = mkInt(0)
			s := x.term(fr, st, i.X)
			fr.regs[i] = &RangeIter{S: s, Cell: c}
			fr.names["$strpos"] = append(fr.names["$strpos"], c)
			fr.names["$strpos@"+u.Name()] = nil
		default:
			fr.regs[i] = &RangeIter{Map: true}
			x.note("map iteration order abstracted")
		}
	case *ssa.Next:
		it, ok := x.val(fr, st, i.Iter).(*RangeIter)
		if !ok || it.Map {
			fr.regs[i] = x.freshVal("next", i.Type(), g)
			return true
		}
		p := x.toTerm(st.cells[it.Cell])
		more := x.name("more", mkLt(p, mkLen(it.S)))
		r := mkApp("f_decodeRune", SInt, it.S, p)
		w := mkApp("f_runeWidth", SInt, it.S, p)
		st.cells[it.Cell] = x.name("strpos", mkIte(more, mkAdd(p, w), p))
		fr.regs[i] = TupleV{more, p, r}
	case *ssa.TypeAssert:
		fr.regs[i] = x.typeAssert(fr, st, g, i)
	case *ssa.Panic:
		if x.con == nil || x.con.Opts["panics"] == "" {
			x.safe("panic", g, TFalse, i.Pos(), "explicit panic")
		}
		*gp = TFalse
		return false
	case *ssa.Return:
		var v Val
		if len(i.Results) == 1 {
			v = x.val(fr, st, i.Results[0])
		} else {
			var t TupleV
			for _, r := range i.Results {
				t = append(t, x.val(fr, st, r))
			}
			v = t
		}
		fr.rets = append(fr.rets, edgeRet{st.clone(), g, v, i.Pos()})
		return false
	case *ssa.Defer:
		var args []Val
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		if i.Call.StaticCallee() != nil && isSyncOp(i.Call.StaticCallee()) {
			fr.defers = append(fr.defers, deferred{true, &i.Call, args, i.Block(), g})
			return true
		}
		if x.deferInLoop(fr, st, g, i, args) {
			return true
		}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				args = append([]Val{x.val(fr, st, i.Call.Value)}, args...)
			}
		}
		fr.defers = append(fr.defers, deferred{false, &i.Call, args, i.Block(), g})
		x.note("defer of %s executed at function exit, not modelled", i.Call.String())
	case *ssa.RunDefers:
		x.runSyncDefers(fr, st, g, i.Block())
		x.runLoopDefers(fr, st, gp)
		return true
	case *ssa.If, *ssa.Jump:
		return true
	default:
		unsup("instruction %T", in)
	}
	return true
}

// clockKey: with "opt clock" every object is born at a time of its own, so that
// objects allocated in a loop are known to differ (allocated(x): x is older
// than now)
const clockKey = "G$$clock"

func (x *Exec) heapAlloc(st *State, t types.Type) Val {
	r := x.fresh("new_"+typeName(t), SInt)
	x.fact(mkLt(mkInt(0), r))
	x.freshRefs = append(x.freshRefs, r)
	// distinct from every other fresh object
	for _, o := range x.freshRefs[:len(x.freshRefs)-1] {
		x.fact(mkNot(mkEq(o, r)))
	}
	x.fact(mkNot(mkApp("preexisting", SBool, r)))
	if x.con != nil && x.con.Opts["clock"] != "" {
		now := x.heapGet(st, clockKey, SInt)
		x.fact(mkEq(mkApp("born", SInt, r), now))
		st.heap[clockKey] = x.name("clock", mkAdd(now, mkInt(1)))
	}
	a := &Addr{Ref: r, Typ: t}
	x.store(st, a, x.zero(t))
	return r
}

func (x *Exec) retype(v Val, t types.Type) Val {
	switch u := v.(type) {
	case *StructV:
		return &StructV{Typ: t, Fields: u.Fields}
	case *SliceV:
		return &SliceV{T: u.T, Nil: u.Nil, Elems: u.Elems, Typ: t}
	}
	return v
}

func (x *Exec) lenOf(v Val) *Term {
	switch u := v.(type) {
	case *SliceV:
		return mkLen(u.T)
	case *ArrV:
		return mkInt(int64(len(u.Elems)))
	case *Term:
		return mkLen(u)
	}
	unsup("len of %T", v)
	return nil
}

func (x *Exec) boundsIdx(g, n, i *Term, pos token.Pos) {
	x.safe("bounds", g, mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), pos, "index in range")
}

func (x *Exec) indexAddr(fr *Frame, st *State, g *Term, i *ssa.IndexAddr) Val {
	idx := x.term(fr, st, i.Index)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		a := x.addrOf(x.val(fr, st, i.X), u.Elem(), g, i.Pos())
		at := u.Elem().Underlying().(*types.Array)
		x.boundsIdx(g, mkInt(at.Len()), idx, i.Pos())
		return &Addr{Cell: a.Cell, Ref: a.Ref, Typ: a.Typ, Path: append(append([]PathElem{}, a.Path...), PathElem{Field: -1, Idx: idx})}
	case *types.Slice:
		sv := x.val(fr, st, i.X)
		x.boundsIdx(g, x.lenOf(sv), idx, i.Pos())
		// where does the slice live?
		if ld, ok := i.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			base := x.addrOf(x.val(fr, st, ld.X), i.X.Type(), g, i.Pos())
			return &Addr{Cell: base.Cell, Ref: base.Ref, Typ: base.Typ, Path: append(append([]PathElem{}, base.Path...), PathElem{Field: -1, Idx: idx})}
		}
		// a temporary slice: make it addressable through a fresh cell (reads only)
		c := x.newCell("$tmp", i.X.Type())
		st.cells[c] = sv
		return &Addr{Cell: c, Typ: i.X.Type(), Path: []PathElem{{Field: -1, Idx: idx}}}
	}
	unsup("IndexAddr on %s", i.X.Type())
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, g *Term, i *ssa.Slice) Val {
	var v Val
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer:
		a := x.addrOf(x.val(fr, st, i.X), u.Elem(), g, i.Pos())
		v = x.load(st, a)
	default:
		v = x.val(fr, st, i.X)
	}
	if i.Low == nil && i.High == nil && i.Max == nil {
		if av, ok := v.(*ArrV); ok {
			r := &SliceV{T: nil, Nil: TFalse, Elems: av.Elems, Typ: i.Type()}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
					}
				}()
				r.T = x.seqTerm(av.Elems, goSort(i.Type()))
			}()
			if r.T == nil {
				r.T = x.fresh("varargs", goSort(i.Type()))
				x.fact(mkEq(mkLen(r.T), mkInt(int64(len(av.Elems)))))
			}
			return r
		}
		if t, ok := v.(*Term); ok {
			if _, isSl := i.Type().Underlying().(*types.Slice); isSl {
				return &SliceV{T: t, Nil: TFalse, Typ: i.Type()}
			}
		}
		return v
	}
	t := x.toTerm(v)
	lo, hi := mkInt(0), mkLen(t)
	if i.Low != nil {
		lo = x.term(fr, st, i.Low)
	}
	if i.High != nil {
		hi = x.term(fr, st, i.High)
	}
	x.safe("bounds", g, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkLen(t))), i.Pos(), "slice bounds in range")
	r := x.name("sub", mkSubseq(t, lo, hi))
	if _, ok := i.Type().Underlying().(*types.Slice); ok {
		nl := TFalse
		if sv, ok := v.(*SliceV); ok {
			nl = sv.Nil
		}
		return &SliceV{T: r, Nil: nl, Typ: i.Type()}
	}
	return r
}

func (x *Exec) unop(fr *Frame, st *State, g *Term, i *ssa.UnOp) Val {
	switch i.Op {
	case token.MUL:
		v := x.val(fr, st, i.X)
		if p, ok := v.(*Poison); ok && p.Why == "defer stack" {
			return p
		}
		a := x.addrOf(v, i.Type(), g, i.Pos())
		x.guardedAccess(st, g, a, 1, i.Pos())
		return x.load(st, a)
	case token.NOT:
		return mkNot(x.term(fr, st, i.X))
	case token.SUB:
		t := mkSub(mkInt(0), x.term(fr, st, i.X))
		return x.wrap(t, i.Type())
	}
	x.note("operator %s abstracted", i.Op)
	return x.freshVal("unop", i.Type(), g)
}

func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	if isUint8(ty) && !t.isInt() {
		return mkMod(t, mkInt(256))
	}
	if isUint8(ty) && t.isInt() {
		return mkMod(t, mkInt(256))
	}
	return t
}

func (x *Exec) binop(fr *Frame, st *State, g *Term, i *ssa.BinOp) Val {
	av, bv := x.val(fr, st, i.X), x.val(fr, st, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		t := x.equal(st, av, bv, i.X.Type(), i.Y.Type(), i.X, i.Y)
		if i.Op == token.NEQ {
			t = mkNot(t)
		}
		return t
	}
	a, b := x.toTerm(av), x.toTerm(bv)
	if a.Sort == SB {
		switch i.Op {
		case token.ADD:
			return x.name("str", mkCat(a, b))
		case token.LSS:
			return mkApp("strlt", SBool, a, b)
		case token.GTR:
			return mkApp("strlt", SBool, b, a)
		case token.LEQ:
			return mkNot(mkApp("strlt", SBool, b, a))
		case token.GEQ:
			return mkNot(mkApp("strlt", SBool, a, b))
		}
	}
	if a.Sort != SInt || b.Sort != SInt {
		if a.Sort == SBool {
			switch i.Op {
			case token.AND, token.LAND:
				return mkAnd(a, b)
			case token.OR, token.LOR:
				return mkOr(a, b)
			}
		}
		x.note("operator %s on %s abstracted", i.Op, a.Sort.Name)
		return x.freshVal("binop", i.Type(), g)
	}
	over := func(t *Term) *Term {
		if x.con != nil && x.con.Opts["overflow"] != "" && !isUint8(i.Type()) && !t.isInt() {
			lim := mkInt(9223372036854775807)
			x.safe("overflow", g, mkAnd(mkLe(mkSub(mkInt(-1), lim), t), mkLe(t, lim)), i.Pos(), "no integer overflow")
		}
		return x.wrap(t, i.Type())
	}
	switch i.Op {
	case token.ADD:
		return over(mkAdd(a, b))
	case token.SUB:
		return over(mkSub(a, b))
	case token.MUL:
		return over(mkMul(a, b))
	case token.QUO:
		x.safe("panic", g, mkNot(mkEq(b, mkInt(0))), i.Pos(), "division by zero")
		if isUnsigned(i.Type()) {
			return mkDiv(a, b)
		}
		return x.name("quo", mkIte(mkLe(mkInt(0), a), mkDiv(a, b), mkSub(mkInt(0), mkDiv(mkSub(mkInt(0), a), b))))
	case token.REM:
		x.safe("panic", g, mkNot(mkEq(b, mkInt(0))), i.Pos(), "division by zero")
		if isUnsigned(i.Type()) {
			return mkMod(a, b)
		}
		return x.name("rem", mkIte(mkLe(mkInt(0), a), mkMod(a, b), mkSub(mkInt(0), mkMod(mkSub(mkInt(0), a), b))))
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.SHL:
		if b.isInt() && b.Int.IsInt64() && b.Int.Int64() < 62 {
			return over(mkMul(a, mkInt(1<<uint(b.Int.Int64()))))
		}
	case token.OR, token.AND, token.AND_NOT, token.XOR:
		if r := x.bitOp(i, a, b, g); r != nil {
			return r
		}
	case token.SHR:
		if b.isInt() && b.Int.IsInt64() && b.Int.Int64() < 62 {
			return mkDiv(a, mkInt(1<<uint(b.Int.Int64())))
		}
	}
	x.note("operator %s abstracted", i.Op)
	return x.freshVal("binop", i.Type(), g)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type, sa, sb ssa.Value) *Term {
	if isNilConst(sb) {
		return x.isNil(a)
	}
	if isNilConst(sa) {
		return x.isNil(b)
	}
	ia, ok1 := a.(*IfaceV)
	ib, ok2 := b.(*IfaceV)
	if ok1 && ok2 {
		if !types.Identical(ia.Dyn, ib.Dyn) {
			return TFalse
		}
		return mkEq(x.toTerm(ia.V), x.toTerm(ib.V))
	}
	s1, ok1 := a.(*StructV)
	s2, ok2 := b.(*StructV)
	if ok1 && ok2 {
		var cs []*Term
		for i := range s1.Fields {
			cs = append(cs, x.equal(st, s1.Fields[i], s2.Fields[i], nil, nil, nil, nil))
		}
		return mkAnd(cs...)
	}
	return mkEq(x.toTerm(a), x.toTerm(b))
}

func (x *Exec) isNil(v Val) *Term {
	switch u := v.(type) {
	case *SliceV:
		return u.Nil
	case *Addr:
		if u.Cell == nil && len(u.Path) == 0 {
			return mkEq(u.Ref, mkInt(0))
		}
		return TFalse
	case *Closure:
		return TFalse
	case *IfaceV:
		return TFalse
	case *Term:
		if u.Sort == SInt {
			return mkEq(u, mkInt(0))
		}
	}
	unsup("nil comparison of %T", v)
	return nil
}

func (x *Exec) convert(fr *Frame, st *State, i *ssa.Convert) Val {
	v := x.val(fr, st, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		return ok && goSort(s) == SB
	}
	isRunes := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}
	switch {
	case isStr(from) && isBytes(to):
		return &SliceV{T: x.toTerm(v), Nil: TFalse, Typ: i.Type()}
	case isBytes(from) && isStr(to):
		return x.toTerm(v)
	case isStr(from) && isStr(to):
		return v
	case isStr(from) && isRunes(to):
		return &SliceV{T: mkApp("f_runesOf", seqOf(SInt), x.toTerm(v)), Nil: TFalse, Typ: i.Type()}
	case isRunes(from) && isStr(to):
		return mkApp("f_utf8All", SB, x.toTerm(v))
	case fok && fb.Info()&types.IsInteger != 0 && isStr(to):
		return x.runeString(x.toTerm(v))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := x.toTerm(v)
		if tb.Kind() == types.Uint8 {
			return x.wrap(t, i.Type())
		}
		return t
	}
	x.note("conversion %s to %s abstracted", i.X.Type(), i.Type())
	return x.freshVal("conv", i.Type(), TTrue)
}

func (x *Exec) runeString(t *Term) *Term {
	if t.isInt() && t.Int.IsInt64() {
		return mkLit(string(rune(t.Int.Int64())))
	}
	return mkApp("f_utf8enc", SB, t)
}

func (x *Exec) typeAssert(fr *Frame, st *State, g *Term, i *ssa.TypeAssert) Val {
	v := x.val(fr, st, i.X)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	if iv, ok := v.(*IfaceV); ok && !toIface {
		ok := types.Identical(iv.Dyn, i.AssertedType)
		if i.CommaOk {
			if ok {
				return TupleV{iv.V, TTrue}
			}
			return TupleV{x.zero(i.AssertedType), TFalse}
		}
		if !ok {
			x.safe("panic", g, TFalse, i.Pos(), "type assertion")
		}
		return iv.V
	}
	var ok *Term
	var r Val
	if toIface {
		x.note("type assertion to interface %s abstracted", i.AssertedType)
		ok = x.fresh("isa", SBool)
		if !i.CommaOk {
			return v
		}
		return TupleV{v, ok}
	}
	t := x.toTerm(v)
	tn := typeName(i.AssertedType)
	ok = x.name("isa", mkAnd(mkNot(mkEq(t, mkInt(0))), mkEq(mkApp("dyntype", SInt, t), typeTag(tn))))
	s := goSort(i.AssertedType)
	if s == SB {
		r = mkApp("unbox_"+boxName(i.AssertedType), SB, t)
	} else if s == SInt {
		switch i.AssertedType.Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
			r = x.lift(t, i.AssertedType)
		default:
			r = mkApp("unbox_Int_"+tn, SInt, t)
		}
	} else {
		r = x.lift(mkApp("unbox_"+symClean(s.Name)+"_"+tn, s, t), i.AssertedType)
	}
	if i.CommaOk {
		return TupleV{x.iteVal(ok, r, x.zero(i.AssertedType)), ok}
	}
	x.safe("panic", g, ok, i.Pos(), "type assertion holds")
	return r
}

// ---------------------------------------------------------------- maps

func mapKey(m *types.Map) string {
	return "M$" + symClean(types.TypeString(m, func(p *types.Package) string { return p.Name() }))
}

func (x *Exec) mapLookup(fr *Frame, st *State, i *ssa.Lookup) Val {
	mt := i.X.Type().Underlying().(*types.Map)
	m := x.term(fr, st, i.X)
	k := x.term(fr, st, i.Index)
	ks, vs := goSort(mt.Key()), goSort(mt.Elem())
	dom := x.heapGet(st, mapKey(mt)+"$dom", arrayOf(SInt, arrayOf(ks, SBool)))
	vals := x.heapGet(st, mapKey(mt)+"$val", arrayOf(SInt, arrayOf(ks, vs)))
	in := mkAnd(mkNot(mkEq(m, mkInt(0))), mkSelect(mkSelect(dom, m), k))
	v := x.iteVal(in, x.lift(mkSelect(mkSelect(vals, m), k), mt.Elem()), x.zero(mt.Elem()))
	v = x.nameVal("mapval", v)
	if i.CommaOk {
		in = x.name("inmap", in)
		if fns, _, _ := globalMapFuncs(i); len(fns) > 0 { // a table of functions: the keys are known
			var is []*Term
			for _, f := range fns {
				for _, kv := range f.keys {
					if t, ok := x.val(fr, st, kv).(*Term); ok {
						is = append(is, mkImp(mkEq(k, t), in))
					}
				}
			}
			x.fact(mkAnd(is...))
		}
		return TupleV{v, in}
	}
	return v
}

func (x *Exec) mapUpdate(fr *Frame, st *State, i *ssa.MapUpdate) {
	mt := i.Map.Type().Underlying().(*types.Map)
	m := x.term(fr, st, i.Map)
	k, v := x.term(fr, st, i.Key), x.term(fr, st, i.Value)
	ks, vs := goSort(mt.Key()), goSort(mt.Elem())
	dk, vk := mapKey(mt)+"$dom", mapKey(mt)+"$val"
	dom := x.heapGet(st, dk, arrayOf(SInt, arrayOf(ks, SBool)))
	vals := x.heapGet(st, vk, arrayOf(SInt, arrayOf(ks, vs)))
	st.heap[dk] = x.name("dom", mkStore(dom, m, mkStore(mkSelect(dom, m), k, TTrue)))
	st.heap[vk] = x.name("vals", mkStore(vals, m, mkStore(mkSelect(vals, m), k, v)))
}

func isSyncOp(f *ssa.Function) bool {
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
		return true
	}
	return f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "sync"
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = fmt.Sprintf
var _ = strings.Join

// bitOp: bit operations with a constant of few bits, or of two constants, are
// exact; the other operand has to be non-negative, otherwise the result is any
func (x *Exec) bitOp(i *ssa.BinOp, a, b, g *Term) *Term {
	if a.isInt() && b.isInt() && a.Int.Sign() >= 0 && b.Int.Sign() >= 0 {
		r := new(big.Int)
		switch i.Op {
		case token.OR:
			r.Or(a.Int, b.Int)
		case token.AND:
			r.And(a.Int, b.Int)
		case token.AND_NOT:
			r.AndNot(a.Int, b.Int)
		default:
			r.Xor(a.Int, b.Int)
		}
		return mkBig(r)
	}
	if a.isInt() && i.Op != token.AND_NOT {
		a, b = b, a
	}
	if !b.isInt() || b.Int.Sign() < 0 || b.Int.BitLen() > 62 {
		return nil
	}
	var r *Term = a
	if i.Op == token.AND {
		r = mkInt(0)
	}
	for k := 0; k < b.Int.BitLen(); k++ {
		if b.Int.Bit(k) == 0 {
			continue
		}
		p := mkInt(1 << uint(k))
		set := mkEq(mkMod(mkDiv(a, p), mkInt(2)), mkInt(1))
		switch i.Op {
		case token.AND:
			r = mkAdd(r, mkIte(set, p, mkInt(0)))
		case token.OR:
			r = mkAdd(r, mkIte(set, mkInt(0), p))
		case token.AND_NOT:
			r = mkAdd(r, mkIte(set, mkSub(mkInt(0), p), mkInt(0)))
		default:
			r = mkAdd(r, mkIte(set, mkSub(mkInt(0), p), p))
		}
	}
	if isUnsigned(i.Type()) {
		return x.name("bits", r)
	}
	any, ok := x.freshVal("bits", i.Type(), g).(*Term)
	if !ok {
		return nil
	}
	return x.name("bits", mkIte(mkLe(mkInt(0), a), r, any))
}
