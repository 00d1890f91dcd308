package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// *Term is a plain value.
type SliceV struct { // slice value with nil flag and, when known, static elements
	T     *Term
	Nil   *Term
	Elems []Val
	Typ   types.Type
}
type StructV struct {
	Typ    types.Type
	Fields []Val
}
type ArrV struct {
	Typ   types.Type
	Elems []Val
}
type PathElem struct {
	Field int // -1: index
	Idx   *Term
}
type Addr struct { // static pointer
	Cell *Cell
	Ref  *Term      // heap object (when Cell == nil)
	Typ  types.Type // type of the root object
	Path []PathElem
}
type Cell struct {
	ID   int
	Name string
	Typ  types.Type
	Pos  int
}
type Closure struct {
	Fn       *ssa.Function
	Bindings []Val
}
type IfaceV struct { // statically known dynamic type
	Dyn types.Type
	V   Val
}
type TupleV []Val
type Poison struct{ Why string }
type RangeIter struct {
	S    *Term
	Cell *Cell
	Map  bool
}
type BuiltinV struct{ B *ssa.Builtin }

type State struct {
	cells map[*Cell]Val
	heap  map[string]*Term
	gen   int
}

func newState() *State { return &State{cells: map[*Cell]Val{}, heap: map[string]*Term{}} }
func (s *State) clone() *State {
	n := newState()
	n.gen = s.gen
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------------------------------------------------------------- conversion to terms

func (x *Exec) toTerm(v Val) *Term {
	switch u := v.(type) {
	case *Term:
		return u
	case *SliceV:
		return u.T
	case *StructV:
		if isBufferType(u.Typ) {
			unsup("buffer struct as term")
		}
		s := goSort(u.Typ)
		var fs []*Term
		for i, f := range u.Fields {
			t := x.toTerm(f)
			if t.Sort != s.Fields[i].Sort {
				unsup("field %s of %s: sort %s, want %s", s.Fields[i].Name, s.Name, t.Sort.Name, s.Fields[i].Sort.Name)
			}
			fs = append(fs, t)
		}
		return mkStruct(s, fs...)
	case *ArrV:
		return x.seqTerm(u.Elems, goSort(u.Typ))
	case *IfaceV:
		return x.boxIface(u)
	case *Closure:
		if len(u.Bindings) == 0 {
			t := mkVar("fn$"+symClean(fnKey(u.Fn)), SInt)
			if x.fnTerms == nil {
				x.fnTerms = map[*Term]bool{}
			}
			if !x.fnTerms[t] {
				x.fnTerms[t] = true
				x.fact(mkLt(mkInt(0), t))
			}
			return t
		}
		return x.closureTerm(u)
	case *Addr:
		return x.addrTerm(u)
	case *Poison:
		unsup("value not representable: %s", u.Why)
	case nil:
		unsup("nil internal value")
	}
	unsup("cannot represent %T as a term", v)
	return nil
}

func (x *Exec) closureTerm(c *Closure) *Term {
	if x.closTerms == nil {
		x.closTerms = map[*Closure]*Term{}
	}
	if t, ok := x.closTerms[c]; ok {
		return t
	}
	t := x.fresh("closure$"+symClean(c.Fn.Name()), SInt)
	x.fact(mkLt(mkInt(0), t))
	x.closTerms[c] = t
	x.closBack[t] = c
	return t
}

// addrTerm gives a static address an opaque identity (non-nil).
func (x *Exec) addrTerm(a *Addr) *Term {
	if a.Cell == nil && len(a.Path) == 0 {
		return a.Ref
	}
	k := addrKey(a)
	if t, ok := x.addrTerms[k]; ok {
		return t
	}
	t := x.fresh("addr", SInt)
	x.fact(mkLt(mkInt(0), t))
	x.addrTerms[k] = t
	x.addrBack[t] = a
	return t
}

func addrKey(a *Addr) string {
	var sb strings.Builder
	if a.Cell != nil {
		fmt.Fprintf(&sb, "c%d", a.Cell.ID)
	} else {
		fmt.Fprintf(&sb, "r%d:%s", a.Ref.id, typeName(a.Typ))
	}
	for _, p := range a.Path {
		if p.Field >= 0 {
			fmt.Fprintf(&sb, ".%d", p.Field)
		} else {
			fmt.Fprintf(&sb, "[%d]", p.Idx.id)
		}
	}
	return sb.String()
}

func (x *Exec) boxIface(u *IfaceV) *Term {
	tn := typeName(u.Dyn)
	var t *Term
	switch v := u.V.(type) {
	case *Addr:
		t = x.addrTerm(v)
	default:
		in := x.toTerm(v)
		if in.Sort == SInt {
			switch u.Dyn.Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
				t = in // pointers keep their identity
			default:
				t = mkApp("box_Int_"+tn, SInt, in)
			}
		} else {
			t = mkApp("box_"+symClean(in.Sort.Name)+"_"+tn, SInt, in)
			if in.Sort == SB {
				t = mkApp("box_"+boxName(u.Dyn), SInt, in)
				x.fact(mkEq(mkApp("unbox_"+boxName(u.Dyn), SB, t), in))
			}
			x.fact(mkNot(mkEq(t, mkInt(0))))
		}
	}
	x.fact(mkEq(mkApp("dyntype", SInt, t), typeTag(tn)))
	return t
}

// boxName: texts of different types are different values in an interface
func boxName(t types.Type) string {
	if tn := typeName(t); tn != "string" {
		return "B_" + tn
	}
	return "B"
}

func (x *Exec) seqTerm(es []Val, s *Sort) *Term {
	t := mkEmpty(s)
	for _, e := range es {
		et := x.toTerm(e)
		if et.Sort != s.Elem {
			unsup("sequence element sort %s, want %s", et.Sort.Name, s.Elem.Name)
		}
		t = mkCat(t, mkUnit(s, et))
	}
	return t
}

func (x *Exec) zero(t types.Type) Val {
	t = types.Unalias(t)
	if isBufferType(t) {
		return mkEmpty(SB)
	}
	if isSyncType(t) {
		return mkInt(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.Fields = append(sv.Fields, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if u.Len() <= 64 {
			a := &ArrV{Typ: t}
			for i := int64(0); i < u.Len(); i++ {
				a.Elems = append(a.Elems, x.zero(u.Elem()))
			}
			return a
		}
		return mkRep(goSort(t), x.toTerm(x.zero(u.Elem())), mkInt(u.Len()))
	case *types.Slice:
		return &SliceV{T: mkEmpty(goSort(t)), Nil: TTrue, Elems: []Val{}, Typ: t}
	case *types.Tuple:
		return TupleV{}
	}
	s := goSort(t)
	switch s.Kind {
	case KInt:
		return mkInt(0)
	case KBool:
		return TFalse
	case KSeq:
		return mkEmpty(s)
	}
	return mkVar("zero_"+s.Name, s)
}

// freshVal makes an unconstrained value of Go type t (with its type invariant assumed).
func (x *Exec) freshVal(name string, t types.Type, g *Term) Val {
	t = types.Unalias(t)
	if tup, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tup.Len(); i++ {
			r = append(r, x.freshVal(fmt.Sprintf("%s.%d", name, i), tup.At(i).Type(), g))
		}
		return r
	}
	s := goSort(t)
	v := x.fresh(name, s)
	x.typeInv(v, t, g)
	if _, ok := t.Underlying().(*types.Slice); ok {
		n := x.fresh(name+"_isnil", SBool)
		x.fact(mkImp(n, mkEq(mkLen(v), mkInt(0))))
		return &SliceV{T: v, Nil: n, Typ: t}
	}
	if st, ok := t.Underlying().(*types.Struct); ok && !isBufferType(t) {
		sv := &StructV{Typ: t}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			f := mkField(v, i)
			if _, ok := ft.Underlying().(*types.Slice); ok {
				sv.Fields = append(sv.Fields, x.wrapSlice(f, ft))
			} else {
				x.typeInv(f, ft, g)
				sv.Fields = append(sv.Fields, f)
			}
		}
		return sv
	}
	return v
}

// wrapSlice attaches an unknown nil flag to a slice term.
func (x *Exec) wrapSlice(t *Term, ty types.Type) *SliceV {
	n := mkApp("isnil_"+t.Sort.Name, SBool, t)
	_ = n
	fn := x.fresh("isnil", SBool)
	x.fact(mkImp(fn, mkEq(mkLen(t), mkInt(0))))
	return &SliceV{T: t, Nil: fn, Typ: ty}
}

// lift turns a term of Go type t into the richest Val.
func (x *Exec) lift(t *Term, ty types.Type) Val {
	if ty == nil {
		return t
	}
	ty = types.Unalias(ty)
	if a, ok := x.addrBack[t]; ok {
		return a
	}
	if c, ok := x.closBack[t]; ok {
		return c
	}
	if isBufferType(ty) {
		return t
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		if t.Sort.Kind == KSeq {
			return x.wrapSlice(t, ty)
		}
	case *types.Struct:
		sv := &StructV{Typ: ty}
		for i := 0; i < u.NumFields(); i++ {
			sv.Fields = append(sv.Fields, x.lift(mkField(t, i), u.Field(i).Type()))
		}
		return sv
	}
	return t
}

// typeInv assumes the range invariant of a Go type.
func (x *Exec) typeInv(v *Term, t types.Type, g *Term) {
	if f := typeInvT(v, t); f != TTrue {
		x.fact(f)
	}
}

func typeInvT(v *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.Sort != SInt {
		return TTrue
	}
	switch b.Kind() {
	case types.Uint8:
		return mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(255)))
	case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
		return mkLe(mkInt(0), v)
	case types.Int32:
		return mkAnd(mkLe(mkInt(-2147483648), v), mkLe(v, mkInt(2147483647)))
	case types.Int:
		return mkAnd(mkLe(mkSub(mkInt(-9223372036854775807), mkInt(1)), v), mkLe(v, mkInt(9223372036854775807)))
	}
	return TTrue
}

// ---------------------------------------------------------------- merging

func sameVal(a, b Val) bool {
	if t, ok := a.(TupleV); ok {
		w, ok := b.(TupleV)
		if !ok || len(w) != len(t) {
			return false
		}
		for i := range t {
			if !sameVal(t[i], w[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	if a == b {
		return true
	}
	switch u := a.(type) {
	case *Term:
		w, ok := b.(*Term)
		return ok && u == w
	case *SliceV:
		w, ok := b.(*SliceV)
		return ok && u.T == w.T && u.Nil == w.Nil
	case *StructV:
		w, ok := b.(*StructV)
		if !ok || len(u.Fields) != len(w.Fields) {
			return false
		}
		for i := range u.Fields {
			if !sameVal(u.Fields[i], w.Fields[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		w, ok := b.(*ArrV)
		if !ok || len(u.Elems) != len(w.Elems) {
			return false
		}
		for i := range u.Elems {
			if !sameVal(u.Elems[i], w.Elems[i]) {
				return false
			}
		}
		return true
	case *Addr:
		w, ok := b.(*Addr)
		return ok && addrKey(u) == addrKey(w)
	case *Closure:
		w, ok := b.(*Closure)
		if !ok || u.Fn != w.Fn {
			return false
		}
		for i := range u.Bindings {
			if !sameVal(u.Bindings[i], w.Bindings[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		w, ok := b.(*IfaceV)
		return ok && types.Identical(u.Dyn, w.Dyn) && sameVal(u.V, w.V)
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(u) != len(w) {
			return false
		}
		for i := range u {
			if !sameVal(u[i], w[i]) {
				return false
			}
		}
		return true
	case *Poison:
		_, ok := b.(*Poison)
		return ok
	case *RangeIter:
		w, ok := b.(*RangeIter)
		return ok && u.Cell == w.Cell
	}
	return false
}

// iteVal merges two values under condition c.
func (x *Exec) iteVal(c *Term, a, b Val) (res Val) {
	if sameVal(a, b) {
		return a
	}
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	switch u := a.(type) {
	case *SliceV:
		if w, ok := b.(*SliceV); ok {
			if u.T.Sort != w.T.Sort {
				return &Poison{"merge of different slice sorts"}
			}
			return &SliceV{T: mkIte(c, u.T, w.T), Nil: mkIte(c, u.Nil, w.Nil), Typ: u.Typ}
		}
	case *StructV:
		if w, ok := b.(*StructV); ok && len(u.Fields) == len(w.Fields) {
			r := &StructV{Typ: u.Typ}
			for i := range u.Fields {
				r.Fields = append(r.Fields, x.iteVal(c, u.Fields[i], w.Fields[i]))
			}
			return r
		}
	case *ArrV:
		if w, ok := b.(*ArrV); ok && len(u.Elems) == len(w.Elems) {
			r := &ArrV{Typ: u.Typ}
			for i := range u.Elems {
				r.Elems = append(r.Elems, x.iteVal(c, u.Elems[i], w.Elems[i]))
			}
			return r
		}
	case TupleV:
		if w, ok := b.(TupleV); ok && len(u) == len(w) {
			var r TupleV
			for i := range u {
				r = append(r, x.iteVal(c, u[i], w[i]))
			}
			return r
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupported); ok {
				res = &Poison{e.msg}
				return
			}
			panic(r)
		}
	}()
	ta, tb := x.toTerm(a), x.toTerm(b)
	if ta.Sort != tb.Sort {
		return &Poison{"merge of different sorts"}
	}
	return mkIte(c, ta, tb)
}

type edge struct {
	from  *ssa.BasicBlock
	st    *State
	guard *Term
}

func (x *Exec) mergeEdges(es []edge) (*State, *Term) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].guard
	}
	var gs []*Term
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	g := mkOr(gs...)
	st := newState()
	st.gen = es[0].st.gen
	for _, e := range es {
		if e.st.gen != st.gen {
			x.gens++
			st.gen = x.gens
			break
		}
	}
	seenC := map[*Cell]bool{}
	var cs []*Cell
	for _, e := range es {
		for c := range e.st.cells {
			if !seenC[c] {
				seenC[c] = true
				cs = append(cs, c)
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		var v Val
		have := false
		for i := len(es) - 1; i >= 0; i-- {
			w, ok := es[i].st.cells[c]
			if !ok {
				continue
			}
			if !have {
				v, have = w, true
				continue
			}
			v = x.iteVal(es[i].guard, w, v)
		}
		st.cells[c] = x.nameVal(c.Name, v)
	}
	seenH := map[string]bool{}
	var hs []string
	for _, e := range es {
		for h := range e.st.heap {
			if !seenH[h] {
				seenH[h] = true
				hs = append(hs, h)
			}
		}
	}
	sort.Strings(hs)
	for _, h := range hs {
		var v *Term
		for i := len(es) - 1; i >= 0; i-- {
			w := x.heapGet(es[i].st, h, nil)
			if v == nil {
				v = w
			} else {
				v = mkIte(es[i].guard, w, v)
			}
		}
		st.heap[h] = x.name(h, v)
	}
	return st, x.name("reach", g)
}

func (x *Exec) nameVal(n string, v Val) Val {
	switch u := v.(type) {
	case *Term:
		return x.name(n, u)
	case *SliceV:
		t, nl := x.name(n, u.T), x.name(n+"_nil", u.Nil)
		if t == u.T && nl == u.Nil {
			return u
		}
		return &SliceV{T: t, Nil: nl, Elems: u.Elems, Typ: u.Typ}
	case *StructV:
		r := &StructV{Typ: u.Typ}
		for i, f := range u.Fields {
			r.Fields = append(r.Fields, x.nameVal(fmt.Sprintf("%s_%d", n, i), f))
		}
		return r
	}
	return v
}
