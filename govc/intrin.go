package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic models the few library functions whose meaning cannot be
// written as a DSL contract (buffers, variadic formatting). Everything
// else in the standard library is an `extern` contract.
func (x *Exec) intrinsic(fr *Frame, st *State, gp **Term, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos) (Val, bool) {
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if isBufferType(t) && len(args) > 0 {
			if w := writerCell(args[0]); w != nil {
				return x.bufferMethod(st, *gp, w, fn.Name(), args[1:], rt, pos)
			}
		}
		if v, ok := x.textObject(t, fn.Name(), args); ok {
			return v, true
		}
		return nil, false
	}
	switch pkg + "." + fn.Name() {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		c := x.newCell("$buf", bufferType(x.prog))
		st.cells[c] = x.toTerm(args[0])
		return &Addr{Cell: c, Typ: c.Typ}, true
	case "fmt.Sprintf":
		if v, ok := x.sprintf(args); ok {
			return v, true
		}
	case "strconv.Itoa":
		return mkApp("f_itoa", SB, x.toTerm(args[0])), true
	case "fmt.Sprint":
		if sv, ok := args[0].(*SliceV); ok && sv.Elems != nil && len(sv.Elems) == 1 {
			if t, ok := x.fmtArg('v', sv.Elems[0]); ok {
				return t, true
			}
		}
	case "bytes.TrimLeftFunc", "bytes.TrimRightFunc", "bytes.TrimFunc", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		name := map[string]string{"TrimLeftFunc": "TrimLeftSpace", "TrimRightFunc": "TrimRightSpace", "TrimFunc": "TrimSpace"}[fn.Name()]
		if c := x.sc.sp.Contracts[pkg+"."+name]; c != nil && isSpaceFn(x, args[1]) {
			x.unit.Called[c.Key()] = true
			return x.callContract(fr, st, gp, c, args[:1], c.Params, rt, pos), true
		}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if v, ok := x.sortSlice(fr, st, gp, fn.Name(), args, pos); ok {
			return v, true
		}
	case "strings.NewReplacer":
		if sv, ok := args[0].(*SliceV); ok && sv.Elems != nil {
			var lits []string
			for _, e := range sv.Elems {
				t := x.toTerm(e)
				if t.Op != "lit" && !strings.HasPrefix(t.Op, "empty_") {
					return nil, false
				}
				lits = append(lits, t.Lit)
			}
			return x.object(fn.Name(), lits), true
		}
	case "regexp.MustCompile":
		if t := x.toTerm(args[0]); t.Op == "lit" {
			return x.object(fn.Name(), []string{t.Lit}), true
		}
	case "errors.New", "fmt.Errorf":
		e := x.fresh("err", SInt)
		x.fact(mkLt(mkInt(0), e))
		return e, true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if w := writerCell(args[0]); w != nil {
			cur := x.toTerm(x.load(st, w))
			var t *Term
			if fn.Name() == "Fprintf" {
				if v, ok := x.sprintf(args[1:]); ok {
					t = x.toTerm(v)
				}
			}
			if t == nil {
				t = x.fresh("printed", SB)
			}
			x.store(st, w, x.name("buf", mkCat(cur, t)))
			return TupleV{mkLen(t), mkInt(0)}, true
		}
	}
	return nil, false
}

func (x *Exec) fmtArg(verb byte, v Val) (*Term, bool) {
	iv, ok := v.(*IfaceV)
	if !ok {
		return nil, false
	}
	b, _ := iv.Dyn.Underlying().(*types.Basic)
	switch verb {
	case 's', 'v':
		if sv, ok := iv.V.(*SliceV); ok && verb == 's' && sv.T.Sort == SB {
			return sv.T, true
		}
		if b != nil && b.Info()&types.IsString != 0 && !hasStringMethod(iv.Dyn) {
			return x.toTerm(iv.V), true
		}
		if b != nil && verb == 'v' && b.Info()&types.IsInteger != 0 && !hasStringMethod(iv.Dyn) {
			return mkApp("f_itoa", SB, x.toTerm(iv.V)), true
		}
	case 'd':
		if b != nil && b.Info()&types.IsInteger != 0 {
			return mkApp("f_itoa", SB, x.toTerm(iv.V)), true
		}
	case 'c':
		if b != nil && b.Info()&types.IsInteger != 0 {
			return x.runeString(x.toTerm(iv.V)), true
		}
	}
	return nil, false
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

func (x *Exec) sprintf(args []Val) (Val, bool) {
	f, ok := args[0].(*Term)
	if !ok {
		return nil, false
	}
	format, widths, ok := x.formatOf(f)
	if !ok {
		return nil, false
	}
	var elems []Val
	if len(args) > 1 {
		sv, ok := args[1].(*SliceV)
		if !ok || sv.Elems == nil {
			return nil, false
		}
		elems = sv.Elems
	}
	out := mkEmpty(SB)
	s := format
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = mkCat(out, mkLit(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' {
			out = mkCat(out, mkLit("%"))
			continue
		}
		// %0*d
		if strings.HasPrefix(s[i:], "0*d") && k+1 < len(elems) {
			w, ok1 := elems[k].(*IfaceV)
			d, ok2 := elems[k+1].(*IfaceV)
			if !ok1 || !ok2 {
				return nil, false
			}
			out = mkCat(out, mkApp("f_zpad", SB, x.toTerm(w.V), x.toTerm(d.V)))
			k += 2
			i += 2
			continue
		}
		if k >= len(elems) {
			return nil, false
		}
		// %0Nd, the width written out or put in by strconv.Itoa
		if s[i] == '0' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			var w *Term
			if j == i+1 && j < len(s) && s[j] == 1 && len(widths) > 0 {
				w, widths = widths[0], widths[1:]
				j++
			} else if j > i+1 && j < i+5 {
				n, _ := strconv.Atoi(s[i+1 : j])
				w = mkInt(int64(n))
			}
			d, ok := elems[k].(*IfaceV)
			if w == nil || !ok || j >= len(s) || s[j] != 'd' {
				return nil, false
			}
			if b, isB := d.Dyn.Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 || hasStringMethod(d.Dyn) {
				return nil, false
			}
			out = mkCat(out, mkApp("f_zpad", SB, w, x.toTerm(d.V)))
			k++
			i = j
			continue
		}
		t, ok := x.fmtArg(s[i], elems[k])
		if !ok {
			return nil, false
		}
		out = mkCat(out, t)
		k++
	}
	return x.name("fmt", out), true
}

// formatOf: a format that is a literal, or built from literals and numbers
// (strconv.Itoa) that stand for a width; those are returned as \x01.
func (x *Exec) formatOf(f *Term) (string, []*Term, bool) {
	if strings.HasPrefix(f.Op, "empty_") {
		return "", nil, true
	}
	if f.Op == "lit" {
		return f.Lit, nil, !strings.Contains(f.Lit, "\x01")
	}
	if f.Op == "f_itoa" {
		return "\x01", []*Term{f.Args[0]}, true
	}
	if strings.HasPrefix(f.Op, "cat_") {
		a, wa, ok := x.formatOf(f.Args[0])
		if !ok {
			return "", nil, false
		}
		b, wb, ok := x.formatOf(f.Args[1])
		return a + b, append(append([]*Term(nil), wa...), wb...), ok
	}
	for _, it := range x.unit.Items {
		if it.Kind == "def" && it.Var == f {
			return x.formatOf(it.T)
		}
	}
	return "", nil, false
}

// isSpaceFn: the function value is unicode.IsSpace, directly or through a
// literal whose whole body is "return unicode.IsSpace(r)".
func isSpaceFn(x *Exec, v Val) bool {
	var f *ssa.Function
	switch u := v.(type) {
	case *Closure:
		f = u.Fn
	case *Term:
		if c, ok := x.closBack[u]; ok {
			f = c.Fn
		}
	}
	for depth := 0; f != nil && depth < 3; depth++ {
		if f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "unicode" && f.Name() == "IsSpace" {
			return true
		}
		if len(f.Blocks) != 1 {
			return false
		}
		var calls []*ssa.Call
		ret := false
		for _, in := range f.Blocks[0].Instrs {
			switch c := in.(type) {
			case *ssa.Call:
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "ssa:deferstack" {
					continue
				}
				calls = append(calls, c)
			case *ssa.Alloc, *ssa.Store, *ssa.UnOp, *ssa.DebugRef, *ssa.RunDefers:
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.NOT {
					return false
				}
			case *ssa.Return:
				if len(calls) != 1 || len(c.Results) != 1 {
					return false
				}
				res := c.Results[0]
				if u, ok := res.(*ssa.UnOp); ok && u.Op == token.MUL {
					for _, in := range f.Blocks[0].Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == u.X {
							res = s.Val
						}
					}
				}
				ret = res == ssa.Value(calls[0])
			default:
				return false
			}
		}
		if !ret {
			return false
		}
		f = calls[0].Call.StaticCallee()
	}
	return false
}

// sortSlice models the library's sorting functions: afterwards no element
// is less than one before it, and the elements are the same. The less
// function is the real closure, executed on two arbitrary positions.
func (x *Exec) sortSlice(fr *Frame, st *State, gp **Term, name string, args []Val, pos token.Pos) (Val, bool) {
	if len(x.argSrc) != 2 || x.argSrc[0] == nil {
		return nil, false
	}
	src := x.argSrc[0]
	sv, ok := x.load(st, src).(*SliceV)
	if !ok {
		return nil, false
	}
	cl, ok := args[1].(*Closure)
	if !ok {
		if t, isT := args[1].(*Term); isT {
			cl = x.closBack[t]
		}
		if cl == nil {
			return nil, false
		}
	}
	old := sv.T
	nt := x.fresh("sorted", old.Sort)
	x.fact(mkEq(mkLen(nt), mkLen(old)))
	// the same elements: a bijection between the positions
	x.sorts++
	sid := mkInt(int64(x.sorts))
	b := freshBV("i", SInt)
	inR := func(i *Term) *Term { return mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(old))) }
	to := mkApp("sort_from", SInt, sid, b)
	x.fact(mkForall([]*Term{b}, [][]*Term{{mkAt(nt, b)}}, mkImp(inR(b), mkAnd(inR(to), mkEq(mkAt(nt, b), mkAt(old, to))))))
	b2 := freshBV("i", SInt)
	fr2 := mkApp("sort_to", SInt, sid, b2)
	x.fact(mkForall([]*Term{b2}, [][]*Term{{mkAt(old, b2)}}, mkImp(inR(b2), mkAnd(inR(fr2), mkEq(mkAt(old, b2), mkAt(nt, fr2))))))
	// a sorted slice comes out as it was: never wrong, sorting has a value either way
	x.store(st, src, &SliceV{T: nt, Nil: sv.Nil, Typ: sv.Typ})
	// the order, for arbitrary positions i < j
	i, j := x.fresh("sort_i", SInt), x.fresh("sort_j", SInt)
	mark := len(x.unit.Items)
	g := mkAnd(*gp, mkLe(mkInt(0), i), mkLt(i, j), mkLt(j, mkLen(nt)))
	var a []Val
	if strings.HasPrefix(name, "Slice") {
		a = []Val{j, i}
	} else {
		et := elemType(sv.Typ)
		a = []Val{x.lift(mkAt(nt, j), et), x.lift(mkAt(nt, i), et)}
	}
	v, _, _, _ := x.callBody(cl.Fn, a, cl.Bindings, st.clone(), g, fr, nil)
	if tv, ok := v.(TupleV); ok && len(tv) == 1 {
		v = tv[0]
	}
	r := x.toTerm(v)
	ok2 := mkNot(r)
	if r.Sort == SInt {
		ok2 = mkLe(mkInt(0), r)
	}
	// expand the definitions introduced on the way, then generalise
	defs := map[*Term]*Term{}
	for _, it := range x.unit.Items[mark:] {
		if it.Kind == "def" {
			defs[it.Var] = it.T
		}
	}
	for k := 0; k < 20; k++ {
		n := substT(ok2, defs)
		if n == ok2 {
			break
		}
		ok2 = n
	}
	bi, bj := freshBV("i", SInt), freshBV("j", SInt)
	body := substT(mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, j), mkLt(j, mkLen(nt))), ok2), map[*Term]*Term{i: bi, j: bj})
	x.assume(*gp, mkForall([]*Term{bi, bj}, [][]*Term{{mkAt(nt, bi), mkAt(nt, bj)}}, body))
	return TupleV{}, true
}

// object: an immutable library object whose constant ingredients are known.
func (x *Exec) object(kind string, lits []string) *Term {
	o := x.fresh("obj", SInt)
	x.fact(mkLt(mkInt(0), o))
	if x.objects == nil {
		x.objects = map[*Term][]string{}
	}
	x.objects[o] = append([]string{kind}, lits...)
	return o
}

// textObject: replacement by a strings.Replacer whose keys are single bytes
// (none of the replacements contains a key), and the collapsing of runs of a
// byte by a regular expression.
func (x *Exec) textObject(t types.Type, m string, args []Val) (Val, bool) {
	if len(args) < 2 {
		return nil, false
	}
	switch u := args[0].(type) {
	case *Term, *Addr:
		_ = u
	default:
		return nil, false
	}
	lits := x.objects[x.toTerm(args[0])]
	if lits == nil {
		return nil, false
	}
	switch {
	case lits[0] == "NewReplacer" && m == "Replace" && len(lits)%2 == 1 && x.sc.sp.Funcs["repl1"] != nil:
		keys := ""
		for i := 1; i < len(lits); i += 2 {
			if len(lits[i]) != 1 || strings.Contains(keys, lits[i]) {
				return nil, false
			}
			keys += lits[i]
		}
		for i := 2; i < len(lits); i += 2 {
			if strings.ContainsAny(lits[i], keys) {
				return nil, false
			}
		}
		x.note("strings.Replacer with single-byte keys: one replacement after the other, as no replacement contains a key")
		s := x.toTerm(args[1])
		// the order of the keys makes no difference: take them sorted
		var ks []int
		for i := 1; i < len(lits); i += 2 {
			ks = append(ks, i)
		}
		sort.Slice(ks, func(a, b int) bool { return lits[ks[a]] < lits[ks[b]] })
		for _, i := range ks {
			s = x.specApp("repl1", SB, s, mkInt(int64(lits[i][0])), mkLit(lits[i+1]), mkLen(s))
		}
		return x.name("replaced", s), true
	case lits[0] == "MustCompile" && (m == "ReplaceAll" || m == "ReplaceAllString") && x.sc.sp.Funcs["squeeze"] != nil:
		r := x.toTerm(args[2])
		if (lits[1] == "  +" || lits[1] == " +" || lits[1] == " {2,}") && r.Op == "lit" && r.Lit == " " {
			x.note("regexp %q with a single space: runs of spaces become one space", lits[1])
			s := x.toTerm(args[1])
			return x.name("squeezed", x.specApp("squeeze", SB, s, mkLen(s))), true
		}
	}
	return nil, false
}

// specApp applies a specification function of the contracts to terms.
func (x *Exec) specApp(name string, s *Sort, args ...*Term) *Term {
	x.sc.compile(name)
	return mkApp("f_"+name, s, args...)
}
