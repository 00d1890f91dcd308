package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, gp **Term, cc *ssa.CallCommon, rt types.Type, pos token.Pos) (Val, bool) {
	if cc.IsInvoke() {
		recv := x.val(fr, st, cc.Value)
		var args []Val
		for _, a := range cc.Args {
			args = append(args, x.val(fr, st, a))
		}
		return x.invoke(fr, st, gp, recv, cc, args, rt, pos)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, gp, b, cc, rt, pos)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	fv := x.val(fr, st, cc.Value)
	x.argSrc, x.argVals = nil, cc.Args
	for _, a := range cc.Args {
		x.argSrc = append(x.argSrc, x.sourceOf(fr, st, a))
	}
	if f, ok := fv.(*Term); ok && x.closBack[f] == nil {
		c := x.fieldFuncContract(cc.Value)
		if c == nil {
			c = x.paramFuncContract(cc.Value)
		}
		if c != nil {
			x.safe("nil", *gp, mkNot(mkEq(f, mkInt(0))), pos, "nil function value")
			return x.callContract(fr, st, gp, c, append([]Val{f}, args...), append([]string{"fn"}, c.Params...), rt, pos), true
		}
	}
	if f, ok := fv.(*Term); ok && x.closBack[f] == nil {
		if fns, found, key := globalMapFuncs(cc.Value); len(fns) > 0 {
			return x.callOneOf(fr, st, gp, f, fns, found, key, args, rt, pos), true
		}
	}
	return x.callVal(fr, st, gp, fv, cc.Value.Type(), args, rt, pos)
}

// fieldFuncContract: the contract of a function held by a struct field.
func (x *Exec) fieldFuncContract(v ssa.Value) *Contract {
	st, i := ssa.Value(nil), 0
	switch u := v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
			st, i = fa.X, fa.Field
		}
	case *ssa.Field:
		st, i = u.X, u.Field
	}
	if st == nil {
		return nil
	}
	t := types.Unalias(st.Type())
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	return x.contractFor("functype", n.Obj().Pkg(), "", n.Obj().Name()+"."+fieldOf(n, i).Name())
}

// sourceOf finds the variable an argument was read from, if it was.
func (x *Exec) sourceOf(fr *Frame, st *State, v ssa.Value) *Addr {
	for {
		switch u := v.(type) {
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.UnOp:
			if u.Op == token.MUL {
				if a, ok := x.val(fr, st, u.X).(*Addr); ok {
					return a
				}
				if t, ok := x.val(fr, st, u.X).(*Term); ok {
					if a, ok := x.addrBack[t]; ok {
						return a
					}
				}
			}
		}
		return nil
	}
}

func (x *Exec) callVal(fr *Frame, st *State, gp **Term, fv Val, ft types.Type, args []Val, rt types.Type, pos token.Pos) (Val, bool) {
	switch f := fv.(type) {
	case *Closure:
		return x.callFn(fr, st, gp, f.Fn, f.Bindings, args, rt, pos)
	case *Term:
		if c, ok := x.closBack[f]; ok {
			return x.callFn(fr, st, gp, c.Fn, c.Bindings, args, rt, pos)
		}
		x.safe("nil", *gp, mkNot(mkEq(f, mkInt(0))), pos, "nil function value")
		// function-type contract
		if a, ok := ft.(*types.Alias); ok {
			if c := x.contractFor("functype", a.Obj().Pkg(), "", a.Obj().Name()); c != nil {
				return x.callContract(fr, st, gp, c, append([]Val{f}, args...), append([]string{"fn"}, c.Params...), rt, pos), true
			}
		}
		if n, ok := types.Unalias(ft).(*types.Named); ok {
			if c := x.contractFor("functype", n.Obj().Pkg(), "", n.Obj().Name()); c != nil {
				return x.callContract(fr, st, gp, c, append([]Val{f}, args...), append([]string{"fn"}, c.Params...), rt, pos), true
			}
		}
		return x.unknownCall(fr, st, gp, "dynamic function value of type "+ft.String(), args, rt), true
	}
	unsup("call of %T", fv)
	return nil, false
}

func (x *Exec) contractFor(kind string, pkg *types.Package, recv, name string) *Contract {
	var keys []string
	if pkg != nil {
		p := fnPath(pkg.Path())
		k := p + "."
		if recv != "" {
			k += recv + "."
		}
		keys = append(keys, k+name)
		k2 := pkg.Name() + "."
		if recv != "" {
			k2 += recv + "."
		}
		keys = append(keys, k2+name)
	} else if recv != "" {
		keys = append(keys, recv+"."+name) // error.Error
	}
	for _, k := range keys {
		if c := x.sc.sp.Contracts[k]; c != nil && (kind == "" || c.Kind == kind) {
			return c
		}
	}
	return nil
}

// callFn calls a statically known function.
func (x *Exec) callFn(fr *Frame, st *State, gp **Term, fn *ssa.Function, bindings, args []Val, rt types.Type, pos token.Pos) (Val, bool) {
	if isSyncOp(fn) {
		x.note("sync operation %s: no effect on the values other goroutines can see", fn.Name())
		x.syncOp(st, *gp, fn, args, pos, TTrue)
		if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 0 {
			return TupleV{}, true
		}
		return x.freshVal("sync", rt, *gp), true
	}
	if v, ok := x.intrinsic(fr, st, gp, fn, args, rt, pos); ok {
		return v, *gp != TFalse
	}
	key := fnKey(fn)
	c := x.sc.sp.Contracts[key]
	if c == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		recv := ""
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok {
				recv = n.Obj().Name()
			}
		}
		c = x.contractFor("", fn.Object().Pkg(), recv, fn.Name())
	}
	if fn.Parent() != nil {
		c = x.sc.sp.Contracts[fnKey(fn)]
	}
	recursive := false
	for _, f := range x.stack {
		if f == fn {
			recursive = true
		}
	}
	if c != nil && (!c.Inline || recursive) && !x.inlineSet[c.Key()] {
		x.unit.Called[c.Key()] = true
		names := c.Params
		if c.Recv != "" && !strings.Contains(c.Name, "$") {
			names = append([]string{c.RecvName}, c.Params...)
		}
		if len(names) != len(args) {
			if c.Kind == "func" {
				// signature changed: fall back to inlining
				goto inline
			}
			unsup("contract %s has %d parameters, call has %d", c.Key(), len(names), len(args))
		}
		if len(bindings) > 0 {
			if selfVar(fn) == nil {
				goto inline
			}
			x.note("termination of the recursion of %s is not proved", key)
			return x.callCaptured(fr, st, gp, c, fn, bindings, args, names, rt, pos), true
		}
		x.provided(fr, st, *gp, c, fn, args, pos)
		return x.callContract(fr, st, gp, c, args, names, rt, pos), true
	}
inline:
	if (inRepo(fn) || inlinable(fn)) && len(fn.Blocks) > 0 && !recursive {
		x.unit.Inlined[fnKey(fn)] = true
		v, ns, ng, _ := x.callBody(fn, args, bindings, st, *gp, fr, nil)
		*st = *ns
		*gp = ng
		if t, ok := v.(TupleV); ok && len(t) == 1 {
			v = t[0]
		}
		return v, ng != TFalse
	}
	if recursive {
		x.note("recursive call of %s abstracted (no contract)", fnKey(fn))
	}
	if pureExtern(fn) {
		return x.pureCall(gp, fn, args, rt), true
	}
	return x.unknownCall(fr, st, gp, fnKey(fn), args, rt), true
}

// pureExtern: functions of the standard library that compute a value and
// change nothing.
func pureExtern(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Parent() != nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "path", "path/filepath", "math", "math/bits", "html", "net/url":
	default:
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if !plainData(ps.At(i).Type()) {
			return false
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if t := rs.At(i).Type(); !plainData(t) && t.String() != "error" {
			return false
		}
	}
	switch fn.Name() {
	case "AppendRune", "AppendInt", "AppendQuote", "AppendBool", "AppendUint", "AppendFloat", "AppendQuoteRune", "EncodeRune", "Glob", "EvalSymlinks", "Abs":
		return false
	}
	return true
}

func plainData(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
	case *types.Slice:
		return plainData(u.Elem())
	}
	return false
}

// pureCall: an unknown function of its arguments, without effects.
func (x *Exec) pureCall(gp **Term, fn *ssa.Function, args []Val, rt types.Type) Val {
	x.note("call of %s abstracted (an unknown function of its arguments, without effects)", fnKey(fn))
	v := x.freshVal("ret", rt, *gp)
	var as []*Term
	for _, a := range args {
		t := dataTerm(a)
		if t == nil {
			return v
		}
		as = append(as, t)
	}
	rs, ok := v.(TupleV)
	if !ok {
		rs = TupleV{v}
	}
	for i, r := range rs {
		if t := dataTerm(r); t != nil && plainData(fn.Signature.Results().At(i).Type()) {
			x.fact(mkEq(t, mkApp(fmt.Sprintf("ext_%s_%d", symClean(fnKey(fn)), i), t.Sort, as...)))
		}
	}
	return v
}

func dataTerm(v Val) *Term {
	switch u := v.(type) {
	case *Term:
		return u
	case *SliceV:
		return u.T
	}
	return nil
}

func inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), "github.com/JohannesKaufmann/")
}

// unknownCall over-approximates a call without contract or body: every
// heap location and every variable reachable from its arguments becomes
// arbitrary, and so does its result.
func (x *Exec) unknownCall(fr *Frame, st *State, gp **Term, what string, args []Val, rt types.Type) Val {
	x.note("call of %s abstracted (arbitrary result and effects)", what)
	x.havocHeap(st)
	for _, a := range args {
		x.havocReach(st, a, map[*Cell]bool{})
	}
	if rt == nil {
		return TupleV{}
	}
	return x.freshVal("ret", rt, *gp)
}

func (x *Exec) havocHeap(st *State) {
	x.gens++
	st.gen = x.gens
	st.heap = map[string]*Term{}
}

func (x *Exec) havocReach(st *State, v Val, seen map[*Cell]bool) {
	switch u := v.(type) {
	case *Addr:
		if u.Cell != nil && !seen[u.Cell] {
			seen[u.Cell] = true
			old := st.cells[u.Cell]
			x.havocReach(st, old, seen)
			st.cells[u.Cell] = x.freshVal(u.Cell.Name, u.Cell.Typ, TTrue)
		}
	case *IfaceV:
		x.havocReach(st, u.V, seen)
	case *StructV:
		for _, f := range u.Fields {
			x.havocReach(st, f, seen)
		}
	case *SliceV:
		for _, e := range u.Elems {
			x.havocReach(st, e, seen)
		}
	case *Closure:
		for _, b := range u.Bindings {
			x.havocReach(st, b, seen)
		}
	}
}

// writerCell finds the buffer behind a writer-like value.
func writerCell(v Val) *Addr {
	switch u := v.(type) {
	case *IfaceV:
		return writerCell(u.V)
	case *Addr:
		if u.Cell != nil && len(u.Path) == 0 && isBufferType(u.Cell.Typ) {
			return u
		}
		if u.Typ != nil && isBufferType(u.Typ) && len(u.Path) == 0 {
			return u
		}
		// field of buffer type
		if len(u.Path) > 0 {
			t := u.Typ
			for _, p := range u.Path {
				if p.Field < 0 {
					return nil
				}
				st, ok := t.Underlying().(*types.Struct)
				if !ok {
					return nil
				}
				t = st.Field(p.Field).Type()
			}
			if isBufferType(t) {
				return u
			}
		}
	}
	return nil
}

func (x *Exec) invoke(fr *Frame, st *State, gp **Term, recv Val, cc *ssa.CallCommon, args []Val, rt types.Type, pos token.Pos) (Val, bool) {
	m := cc.Method.Name()
	if w := writerCell(recv); w != nil {
		if v, ok := x.bufferMethod(st, *gp, w, m, args, rt, pos); ok {
			return v, true
		}
	}
	if iv, ok := recv.(*IfaceV); ok {
		if sel := x.prog.prog.MethodSets.MethodSet(iv.Dyn).Lookup(cc.Method.Pkg(), m); sel != nil {
			if fn := x.prog.prog.MethodValue(sel); fn != nil {
				if fn.Synthetic == "" || len(fn.Blocks) > 0 {
					return x.callFn(fr, st, gp, fn, nil, append([]Val{iv.V}, args...), rt, pos)
				}
			}
		}
	}
	if it, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		pkg := it.Obj().Pkg()
		if c := x.contractFor("iface", pkg, it.Obj().Name(), m); c != nil {
			x.unit.Called[c.Key()] = true
			if t, ok := recv.(*Term); ok {
				x.safe("nil", *gp, mkNot(mkEq(t, mkInt(0))), pos, "method call on nil interface")
			}
			return x.callContract(fr, st, gp, c, append([]Val{recv}, args...), append([]string{"self"}, c.Params...), rt, pos), true
		}
	}
	if t, ok := recv.(*Term); ok {
		x.safe("nil", *gp, mkNot(mkEq(t, mkInt(0))), pos, "method call on nil interface")
	}
	return x.unknownCall(fr, st, gp, cc.Value.Type().String()+"."+m, append([]Val{recv}, args...), rt), true
}

func (x *Exec) bufferMethod(st *State, g *Term, w *Addr, m string, args []Val, rt types.Type, pos token.Pos) (Val, bool) {
	cur := x.toTerm(x.load(st, w))
	appendT := func(t *Term) { x.store(st, w, x.name("buf", mkCat(cur, t))) }
	switch m {
	case "WriteString", "Write":
		t := x.toTerm(args[0])
		appendT(t)
		return TupleV{mkLen(t), mkInt(0)}, true
	case "WriteByte":
		appendT(mkUnit(SB, x.toTerm(args[0])))
		return mkInt(0), true
	case "WriteRune":
		t := x.runeString(x.toTerm(args[0]))
		appendT(t)
		return TupleV{mkLen(t), mkInt(0)}, true
	case "String":
		return cur, true
	case "Bytes":
		n := x.fresh("bytes_nil", SBool)
		x.fact(mkImp(n, mkEq(mkLen(cur), mkInt(0))))
		return &SliceV{T: cur, Nil: n, Typ: rt}, true
	case "Len":
		return mkLen(cur), true
	case "Reset":
		x.store(st, w, mkEmpty(SB))
		return TupleV{}, true
	case "Grow":
		return TupleV{}, true
	case "Truncate":
		n := x.toTerm(args[0])
		x.safe("bounds", g, mkAnd(mkLe(mkInt(0), n), mkLe(n, mkLen(cur))), pos, "buffer truncation in range")
		x.store(st, w, x.name("buf", mkSubseq(cur, mkInt(0), n)))
		return TupleV{}, true
	}
	return nil, false
}

func (x *Exec) builtin(fr *Frame, st *State, gp **Term, b *ssa.Builtin, cc *ssa.CallCommon, rt types.Type, pos token.Pos) (Val, bool) {
	g := *gp
	arg := func(i int) Val { return x.val(fr, st, cc.Args[i]) }
	switch b.Name() {
	case "len":
		v := arg(0)
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			n := x.fresh("maplen", SInt)
			x.fact(mkLe(mkInt(0), n))
			return n, true
		}
		return x.lenOf(v), true
	case "cap":
		n := x.fresh("cap", SInt)
		x.fact(mkLe(x.lenOf(arg(0)), n))
		return n, true
	case "append":
		a := arg(0)
		if len(cc.Args) == 1 {
			return a, true
		}
		bv := arg(1)
		at, bt := x.toTerm(a), x.toTerm(bv)
		if at.Sort != bt.Sort {
			if at.Sort.Kind == KSeq && strings.HasPrefix(at.Op, "empty_") {
				at = mkEmpty(bt.Sort)
			} else {
				unsup("append of %s to %s", bt.Sort.Name, at.Sort.Name)
			}
		}
		nl := mkEq(mkLen(bt), mkInt(0))
		an := TFalse
		if s, ok := a.(*SliceV); ok {
			an = s.Nil
		}
		x.appendAlias(fr, cc, pos)
		return &SliceV{T: x.name("app", mkCat(at, bt)), Nil: x.name("app_nil", mkAnd(an, nl)), Typ: rt}, true
	case "copy":
		// only into an addressable local slice
		if ld, ok := cc.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
			if a, ok := x.val(fr, st, ld.X).(*Addr); ok {
				d, s := x.toTerm(x.load(st, a)), x.toTerm(arg(1))
				n := x.name("copied", mkIte(mkLe(mkLen(d), mkLen(s)), mkLen(d), mkLen(s)))
				nt := x.name("copy", mkCat(mkSubseq(s, mkInt(0), n), mkSubseq(d, n, mkLen(d))))
				x.store(st, a, &SliceV{T: nt, Nil: x.isNil(x.load(st, a)), Typ: cc.Args[0].Type()})
				return n, true
			}
		}
		// copy(dst[i:], src): find the underlying variable
		if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.Low != nil && sl.High == nil {
			if ld, ok := sl.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if a, ok := x.val(fr, st, ld.X).(*Addr); ok {
					whole, s := x.toTerm(x.load(st, a)), x.toTerm(arg(1))
					lo := x.term(fr, st, sl.Low)
					room := mkSub(mkLen(whole), lo)
					n := x.name("copied", mkIte(mkLe(room, mkLen(s)), room, mkLen(s)))
					nt := x.name("copy", mkCat(mkCat(mkSubseq(whole, mkInt(0), lo), mkSubseq(s, mkInt(0), n)), mkSubseq(whole, mkAdd(lo, n), mkLen(whole))))
					x.store(st, a, &SliceV{T: nt, Nil: x.isNil(x.load(st, a)), Typ: sl.X.Type()})
					return n, true
				}
			}
		}
		unsup("copy into a slice of unknown origin")
	case "min", "max":
		t := x.toTerm(arg(0))
		for i := 1; i < len(cc.Args); i++ {
			u := x.toTerm(arg(i))
			if b.Name() == "min" {
				t = mkIte(mkLe(t, u), t, u)
			} else {
				t = mkIte(mkLe(t, u), u, t)
			}
		}
		return x.name("minmax", t), true
	case "print", "println":
		return TupleV{}, true
	case "panic":
		x.safe("panic", g, TFalse, pos, "explicit panic")
		*gp = TFalse
		return nil, false
	case "delete":
		x.havocHeap(st)
		return TupleV{}, true
	case "recover":
		return x.freshVal("recover", rt, g), true
	case "ssa:wrapnilchk":
		return arg(0), true
	case "ssa:deferstack":
		return &Poison{"defer stack"}, true
	case "clear":
		unsup("clear")
	}
	unsup("builtin %s", b.Name())
	return nil, false
}

func (x *Exec) appendAlias(fr *Frame, cc *ssa.CallCommon, pos token.Pos) {}

// ---------------------------------------------------------------- contract calls

type callEnv struct {
	x    *Exec
	vars map[string]SV
	st   *State
	old  *callEnv
}

func (e *callEnv) Lookup(n string) (SV, bool) { v, ok := e.vars[n]; return v, ok }
func (e *callEnv) Heap(k string, s *Sort) *Term {
	return e.x.heapGet(e.st, k, s)
}
func (e *callEnv) Old() Env {
	if e.old != nil {
		return e.old
	}
	return e
}

// specVal turns an argument value into what the contract's parameter name denotes.
func (x *Exec) specVal(st *State, v Val, t types.Type) (sv SV, err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u.msg
				return
			}
			panic(r)
		}
	}()
	if w := writerCell(v); w != nil {
		return SV{T: x.toTerm(x.load(st, w)), GT: types.Typ[types.String]}, ""
	}
	if a, ok := v.(*Addr); ok && (a.Cell != nil || len(a.Path) > 0) {
		// pointer to a local variable: denotes the pointee
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			in := x.load(st, a)
			if len(a.Path) == 0 || true {
				tt := x.toTerm(in)
				return SV{T: tt, GT: t.Underlying().(*types.Pointer).Elem(), Src: a}, ""
			}
		}
	}
	if iv, ok := v.(*IfaceV); ok {
		if a, ok := iv.V.(*Addr); ok && a.Cell == nil && len(a.Path) == 0 {
			return SV{T: a.Ref, GT: iv.Dyn}, ""
		}
	}
	if s, ok := v.(*SliceV); ok {
		return SV{T: s.T, GT: s.Typ, Nil: s.Nil}, ""
	}
	return SV{T: x.toTerm(v), GT: t}, ""
}

func (x *Exec) callContract(fr *Frame, st *State, gp **Term, c *Contract, args []Val, names []string, rt types.Type, pos token.Pos) Val {
	g := *gp
	argSrc := x.argSrc
	if len(argSrc) != len(args) {
		argSrc = make([]*Addr, len(args))
	}
	pre := &callEnv{x: x, vars: map[string]SV{}, st: st.clone()}
	for i, n := range names {
		var t types.Type = types.Typ[types.Int]
		if sv, ok := args[i].(*SliceV); ok {
			t = sv.Typ
		}
		if gt := x.argType(c, i, args[i]); gt != nil {
			t = gt
		}
		v, err := x.specVal(st, args[i], t)
		if err != "" {
			x.note("argument %s of %s not representable: %s", n, c.Key(), err)
			v = SV{T: x.fresh("arg_"+n, goSort(t)), GT: t}
		}
		pre.vars[n] = v
	}
	caps := x.caps
	x.caps = nil
	for _, cp := range caps {
		if sv, err := x.specVal(st, x.load(st, cp.a), cp.a.Typ); err == "" {
			if _, ok := pre.vars[cp.name]; !ok {
				pre.vars[cp.name] = sv
			}
		}
	}
	pre.old = nil
	if c.Kind == "func" && c.Recv != "" && len(args) > 0 {
		if t, ok := args[0].(*Term); ok && t.Sort == SInt && x.addrBack[t] == nil {
			x.safe("nil", g, mkNot(mkEq(t, mkInt(0))), pos, "nil receiver")
		}
	}
	if lockOn() && (c.Kind == "func" && x.mayLock(c) || c.Kind == "iface" || c.Kind == "functype" && c.Key() != "converter.ConvertOptionFunc") {
		x.noLocks(st, g, "no lock is held during the call of "+c.Key(), pos)
	}
	x.beforeCall(st, g, c, pre, pos)
	for k, r := range c.Requires {
		t := x.sc.EvalBool(r.E, pre)
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprintf("r%d", k+1)
		}
		x.assert("requires", c.Key()+"."+lab, r.Src, r.Props, g, t, pos, nil)
		x.assume(g, t)
	}
	// effects
	post := &callEnv{x: x, vars: map[string]SV{}, st: st, old: pre}
	for k, v := range pre.vars {
		post.vars[k] = v
	}
	if c.ModAll {
		x.havocHeap(st)
	}
effects:
	for _, m := range c.Modifies {
		for _, cp := range caps {
			if m.K == "id" && m.Name == cp.name {
				nv := x.freshVal(cp.name+"_out", cp.a.Typ, TTrue)
				x.store(st, cp.a, nv)
				if sv, err := x.specVal(st, nv, cp.a.Typ); err == "" {
					post.vars[cp.name] = sv
				}
				continue effects
			}
		}
		x.havocTarget(c, st, pre, m, names, args, argSrc, post)
	}
	// results
	var res Val
	if rt != nil {
		res = x.freshVal("r_"+c.Name, rt, g)
	}
	bind := func(n string, v Val, t types.Type) {
		sv, err := x.specVal(st, v, t)
		if err == "" {
			post.vars[n] = sv
		}
	}
	if tup, ok := rt.(*types.Tuple); ok {
		tv, _ := res.(TupleV)
		for i, n := range c.Results {
			if i < tup.Len() {
				bind(n, tv[i], tup.At(i).Type())
			}
		}
	} else if len(c.Results) > 0 && rt != nil {
		bind(c.Results[0], res, rt)
	}
	for _, e := range c.Ensures {
		x.assume(g, x.sc.EvalBool(e.E, post))
	}
	for _, e := range c.Assumes {
		x.note("assumed of %s: %s", c.Key(), e.Src)
		x.assume(g, x.sc.EvalBool(e.E, post))
	}
	return res
}

func (x *Exec) argType(c *Contract, i int, v Val) types.Type {
	if f := x.prog.findFunc(c); f != nil && c.Kind == "func" && i < len(f.Params) {
		return f.Params[i].Type()
	}
	if _, ok := v.(*Term); ok {
		if t := x.declType(c, i); t != nil {
			return t
		}
	}
	switch u := v.(type) {
	case *SliceV:
		return u.Typ
	case *StructV:
		return u.Typ
	case *Addr:
		t := u.Typ
		for _, p := range u.Path {
			if p.Field >= 0 {
				t = fieldOf(t, p.Field).Type()
			} else {
				t = elemType(t)
			}
		}
		return types.NewPointer(t)
	case *IfaceV:
		return u.Dyn
	}
	if c.Opts != nil {
		if tn := c.Opts["type_"+c.paramName(i)]; tn != "" {
			return x.prog.findType(strings.Trim(tn, `"`))
		}
	}
	return nil
}

// declType is the declared type of a parameter of a function type or interface method.
func (x *Exec) declType(c *Contract, i int) types.Type {
	pk := x.prog.pkgByName(c.Pkg)
	if pk == nil {
		return nil
	}
	var sig *types.Signature
	switch c.Kind {
	case "functype":
		if a, b, ok := strings.Cut(c.Name, "."); ok {
			if o := pk.Scope().Lookup(a); o != nil {
				if fs, ok := o.Type().(*types.Signature); ok { // a parameter of a function
					for k := 0; k < fs.Params().Len(); k++ {
						if fs.Params().At(k).Name() == b {
							sig, _ = fs.Params().At(k).Type().Underlying().(*types.Signature)
						}
					}
				} else if f, _, _ := types.LookupFieldOrMethod(o.Type(), true, pk, b); f != nil {
					sig, _ = f.Type().Underlying().(*types.Signature)
				}
			}
		} else if o := pk.Scope().Lookup(c.Name); o != nil {
			sig, _ = o.Type().Underlying().(*types.Signature)
		}
	case "extern":
		if c.Recv == "" {
			if o := pk.Scope().Lookup(c.Name); o != nil {
				if sg, ok := o.Type().(*types.Signature); ok && i < sg.Params().Len() {
					return sg.Params().At(i).Type()
				}
			}
			return nil
		}
		if o := pk.Scope().Lookup(c.Recv); o != nil {
			t := types.Type(types.NewPointer(o.Type()))
			if i == 0 {
				return t
			}
			if m, _, _ := types.LookupFieldOrMethod(t, true, pk, c.Name); m != nil {
				sig, _ = m.Type().(*types.Signature)
			}
		}
	case "iface":
		if o := pk.Scope().Lookup(c.Recv); o != nil {
			if i == 0 {
				return o.Type()
			}
			if m, _, _ := types.LookupFieldOrMethod(o.Type(), true, pk, c.Name); m != nil {
				sig, _ = m.Type().(*types.Signature)
			}
		}
	}
	if sig != nil && i >= 1 && i-1 < sig.Params().Len() {
		return sig.Params().At(i - 1).Type()
	}
	return nil
}

func (c *Contract) paramName(i int) string {
	names := c.Params
	if c.Kind == "iface" {
		names = append([]string{"self"}, c.Params...)
	} else if c.Kind == "functype" {
		names = append([]string{"fn"}, c.Params...)
	} else if c.Recv != "" && !strings.Contains(c.Name, "$") {
		names = append([]string{c.RecvName}, c.Params...)
	}
	if i < len(names) {
		return names[i]
	}
	return ""
}

// havocTarget applies one modifies clause: a writer/pointer parameter name,
// or a field of a parameter object.
func (x *Exec) havocTarget(c *Contract, st *State, pre *callEnv, m *Expr, names []string, args []Val, argSrc []*Addr, post *callEnv) {
	if m.K == "id" {
		for i, n := range names {
			if n != m.Name {
				continue
			}
			if w := writerCell(args[i]); w != nil {
				nv := x.fresh(n+"_out", SB)
				x.store(st, w, nv)
				post.vars[n] = SV{T: nv, GT: types.Typ[types.String]}
				return
			}
			if a, ok := args[i].(*Addr); ok && (a.Cell != nil || len(a.Path) > 0) {
				t := a.Typ
				for _, p := range a.Path {
					if p.Field >= 0 {
						t = fieldOf(t, p.Field).Type()
					} else {
						t = elemType(t)
					}
				}
				nv := x.freshVal(n+"_out", t, TTrue)
				x.store(st, a, nv)
				post.vars[n] = SV{T: x.toTerm(nv), GT: t}
				return
			}
			if sv, ok := args[i].(*SliceV); ok {
				// elements of a slice: the variable it was read from changes
				if argSrc[i] == nil {
					unsup("%s modifies a slice of unknown origin", c.Key())
				}
				nt := x.fresh(n+"_out", sv.T.Sort)
				x.fact(mkEq(mkLen(nt), mkLen(sv.T)))
				x.store(st, argSrc[i], &SliceV{T: nt, Nil: sv.Nil, Typ: sv.Typ})
				post.vars[n] = SV{T: nt, GT: sv.Typ, Nil: sv.Nil}
				return
			}
			// a reference: all of its fields
			if v := pre.vars[n]; v.GT != nil {
				if pt, ok := v.GT.Underlying().(*types.Pointer); ok {
					if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for k := 0; k < s.NumFields(); k++ {
							x.havocField(st, pt.Elem(), s.Field(k), v.T)
						}
						return
					}
				}
			}
			x.note("modifies %s of %s: writer not tracked", n, c.Key())
			return
		}
		if t := x.sc.sp.Ghosts[m.Name]; t != nil {
			s, _ := x.sc.typeOf(t)
			x.heapGet(st, "G$"+m.Name, s)
			st.heap["G$"+m.Name] = x.fresh(m.Name, s)
			return
		}
	}
	if m.K == "call" && m.Name == "mapof" {
		v := x.sc.Eval(m.Args[0], pre)
		mt, ok := types.Unalias(v.GT).Underlying().(*types.Map)
		if !ok {
			panic(specErr(m.Pos + ": mapof a non-map"))
		}
		ks, vs := goSort(mt.Key()), goSort(mt.Elem())
		for k, s := range map[string]*Sort{mapKey(mt) + "$dom": arrayOf(ks, SBool), mapKey(mt) + "$val": arrayOf(ks, vs)} {
			h := x.heapGet(st, k, arrayOf(SInt, s))
			st.heap[k] = x.name(k, mkStore(h, v.T, x.fresh("map", s)))
		}
		return
	}
	if m.K == "fld" {
		// "pkg.Type.field" for every object, or "p.field" for one
		if m.Args[0].K == "id" {
			if v, ok := pre.vars[m.Args[0].Name]; ok && v.GT != nil {
				if pt, ok := v.GT.Underlying().(*types.Pointer); ok {
					s := pt.Elem().Underlying().(*types.Struct)
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k).Name() == m.Name {
							x.havocField(st, pt.Elem(), s.Field(k), v.T)
							return
						}
					}
				}
				// pointer to a tracked local struct
				for i, n := range names {
					if n == m.Args[0].Name {
						if a, ok := args[i].(*Addr); ok {
							at := x.argType(c, i, args[i]).(*types.Pointer).Elem()
							s := at.Underlying().(*types.Struct)
							for k := 0; k < s.NumFields(); k++ {
								if s.Field(k).Name() == m.Name {
									fa := &Addr{Cell: a.Cell, Ref: a.Ref, Typ: a.Typ, Path: append(append([]PathElem{}, a.Path...), PathElem{Field: k})}
									x.store(st, fa, x.freshVal(n+"_"+m.Name, s.Field(k).Type(), TTrue))
									if sv, err := x.specVal(st, args[i], types.NewPointer(at)); err == "" {
										post.vars[n] = sv
									}
									return
								}
							}
						}
					}
				}
			}
		}
		if pt, v := x.nestedTarget(m, pre); pt != nil {
			s := pt.Elem().Underlying().(*types.Struct)
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == m.Name {
					x.havocField(st, pt.Elem(), s.Field(k), v)
					return
				}
			}
		}
		if m.Args[0].K == "fld" {
			tn := m.Args[0].Args[0].Name + "." + m.Args[0].Name
			t := x.prog.findType(tn)
			s := t.Underlying().(*types.Struct)
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == m.Name {
					key := heapKey(t, m.Name)
					x.heapGet(st, key, arrayOf(SInt, goSort(s.Field(k).Type())))
					st.heap[key] = x.fresh(key, x.heapSorts[key])
					return
				}
			}
		}
	}
	panic(specErr(fmt.Sprintf("%s: cannot interpret modifies clause in %s", m.Pos, c.Key())))
}

// nestedTarget resolves "p.q.field" where p is a parameter and p.q a pointer.
func (x *Exec) nestedTarget(m *Expr, pre *callEnv) (*types.Pointer, *Term) {
	if m.Args[0].K != "fld" || m.Args[0].Args[0].K != "id" {
		return nil, nil
	}
	if _, ok := pre.vars[m.Args[0].Args[0].Name]; !ok {
		return nil, nil
	}
	v := x.sc.Eval(m.Args[0], pre)
	if v.GT == nil {
		return nil, nil
	}
	pt, ok := v.GT.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return pt, v.T
}

func (x *Exec) havocField(st *State, t types.Type, f *types.Var, ref *Term) {
	key := heapKey(t, f.Name())
	s := goSort(f.Type())
	h := x.heapGet(st, key, arrayOf(SInt, s))
	st.heap[key] = x.name(key, mkStore(h, ref, x.fresh(f.Name(), s)))
}
