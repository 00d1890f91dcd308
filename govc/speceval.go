package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// SV is a typed spec value.
type SV struct {
	T   *Term
	GT  types.Type // Go type when known (needed for field access)
	Nil *Term      // nil flag for slices, when known
	Src *Addr      // what was passed, for a pointer into an object
}

type Env interface {
	Lookup(name string) (SV, bool)
	Heap(key string, s *Sort) *Term
	Old() Env
}

type scope struct {
	vars map[string]SV
	up   Env
}

func (s *scope) Lookup(n string) (SV, bool) {
	if v, ok := s.vars[n]; ok {
		return v, true
	}
	if s.up == nil {
		return SV{}, false
	}
	return s.up.Lookup(n)
}
func (s *scope) Heap(k string, srt *Sort) *Term {
	if s.up == nil {
		panic(specErr("heap access without a state: " + k))
	}
	return s.up.Heap(k, srt)
}
func (s *scope) Old() Env {
	if s.up == nil {
		return s
	}
	return &scope{vars: s.vars, up: s.up.Old()}
}

type specErr string

func (e specErr) Error() string { return string(e) }

type unresolved struct{ name string }

func (u unresolved) Error() string { return "unresolved name " + u.name }

var bvCount int

func freshBV(n string, s *Sort) *Term {
	bvCount++
	return mkBVar(fmt.Sprintf("%s!%d", n, bvCount), s)
}

// SpecCtx compiles spec functions and evaluates expressions.
type SpecCtx struct {
	sp              *Spec
	prog            *Prog
	funcs           map[string]*compiledFn
	usedLem, usedFn map[string]bool
}

type compiledFn struct {
	f      *SpecFunc
	params []*Term // bound vars
	ptypes []types.Type
	heap   []string // heap keys read
	hsorts []*Sort
	hvars  []*Term
	body   *Term
	ret    *Sort
	retGT  types.Type
}

func newSpecCtx(sp *Spec, prog *Prog) *SpecCtx {
	return &SpecCtx{sp: sp, prog: prog, funcs: map[string]*compiledFn{}, usedLem: map[string]bool{}, usedFn: map[string]bool{}}
}

func (c *SpecCtx) typeOf(t *TypeX) (*Sort, types.Type) {
	switch t.Name {
	case "int", "byte", "rune", "ref":
		return SInt, types.Typ[types.Int]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "bytes":
		return SB, types.Typ[types.String]
	case "seq":
		s, g := c.typeOf(t.Elem)
		return seqOf(s), types.NewSlice(g)
	case "ptr":
		g := c.prog.findType(t.Elem.Name)
		return SInt, types.NewPointer(g)
	}
	g := c.prog.findType(t.Name)
	return goSort(g), g
}

func (c *SpecCtx) compile(name string) *compiledFn {
	if f, ok := c.funcs[name]; ok {
		return f
	}
	f := c.sp.Funcs[name]
	if f == nil {
		return nil
	}
	cf := &compiledFn{f: f}
	vars := map[string]SV{}
	for _, p := range f.Params {
		s, g := c.typeOf(p.Type)
		bv := freshBV(p.Name, s)
		cf.params = append(cf.params, bv)
		cf.ptypes = append(cf.ptypes, g)
		vars[p.Name] = SV{T: bv, GT: g}
	}
	cf.ret, cf.retGT = c.typeOf(f.Ret)
	c.funcs[name] = cf
	if f.Body == nil {
		return cf
	}
	// iterate until the set of heap fields read is stable
	hb := map[string]*Term{}
	for {
		n := len(hb)
		env := &heapEnv{vars: vars, heap: hb}
		b := c.Eval(f.Body, env)
		cf.body = b.T
		var keys []string
		for k := range hb {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		cf.heap = keys
		cf.hsorts, cf.hvars = nil, nil
		for _, k := range keys {
			cf.hsorts = append(cf.hsorts, hb[k].Sort)
			cf.hvars = append(cf.hvars, hb[k])
		}
		if len(hb) == n && n == 0 {
			break
		}
		if len(hb) == n {
			b := c.Eval(f.Body, env)
			cf.body = b.T
			break
		}
	}
	if cf.body.Sort != cf.ret {
		panic(specErr(fmt.Sprintf("%s:%d: spec func %s: body sort %s, declared %s", f.File, f.Line, name, cf.body.Sort.Name, cf.ret.Name)))
	}
	return cf
}

type heapEnv struct {
	vars map[string]SV
	heap map[string]*Term
}

func (h *heapEnv) Lookup(n string) (SV, bool) { v, ok := h.vars[n]; return v, ok }
func (h *heapEnv) Heap(k string, s *Sort) *Term {
	if t, ok := h.heap[k]; ok {
		return t
	}
	t := freshBV("H", s)
	h.heap[k] = t
	return t
}
func (h *heapEnv) Old() Env { return h }

func heapKey(t types.Type, field string) string {
	return "H$" + typeName(t) + "$" + field
}

func isByteSort(s *Sort) bool { return s == SB }

func (c *SpecCtx) EvalBool(e *Expr, env Env) *Term {
	v := c.Eval(e, env)
	if v.T.Sort != SBool {
		panic(specErr(e.Pos + ": boolean expected: " + e.Src))
	}
	return v.T
}

func (c *SpecCtx) Eval(e *Expr, env Env) SV {
	ev := func(x *Expr) *Term { return c.Eval(x, env).T }
	switch e.K {
	case "int":
		return SV{T: mkBig(e.Int), GT: types.Typ[types.Int]}
	case "lit":
		return SV{T: mkLit(e.Name), GT: types.Typ[types.String]}
	case "bool":
		return SV{T: mkBool(e.Name == "true"), GT: types.Typ[types.Bool]}
	case "id":
		if v, ok := env.Lookup(e.Name); ok {
			return v
		}
		if f := c.sp.Funcs[e.Name]; f != nil && len(f.Params) == 0 {
			return c.callSpec(e, e.Name, nil, env)
		}
		if e.Name == "nil" {
			return SV{T: mkInt(0)}
		}
		if t := c.sp.Ghosts[e.Name]; t != nil {
			s, g := c.typeOf(t)
			return SV{T: env.Heap("G$"+e.Name, s), GT: g}
		}
		panic(unresolved{e.Name})
	case "old":
		return c.Eval(e.Args[0], env.Old())
	case "un":
		a := ev(e.Args[0])
		if e.Name == "!" {
			return SV{T: mkNot(a), GT: types.Typ[types.Bool]}
		}
		return SV{T: mkSub(mkInt(0), a), GT: types.Typ[types.Int]}
	case "if":
		a, b := c.Eval(e.Args[1], env), c.Eval(e.Args[2], env)
		at, bt := coerce(a.T, b.T.Sort), coerce(b.T, a.T.Sort)
		return SV{T: mkIte(ev(e.Args[0]), at, bt), GT: a.GT}
	case "let":
		v := c.Eval(e.Args[0], env)
		return c.Eval(e.Args[1], &scope{vars: map[string]SV{e.Name: v}, up: env})
	case "bin":
		return c.evalBin(e, env)
	case "idx":
		s := c.Eval(e.Args[0], env)
		if s.T.Sort.Kind == KArray {
			return SV{T: mkSelect(s.T, ev(e.Args[1]))}
		}
		if s.T.Sort.Kind != KSeq {
			panic(specErr(e.Pos + ": indexing a non-sequence " + e.Src))
		}
		return SV{T: mkAt(s.T, ev(e.Args[1])), GT: elemType(s.GT)}
	case "slice":
		s := c.Eval(e.Args[0], env)
		lo, hi := mkInt(0), mkLen(s.T)
		if e.Args[1] != nil {
			lo = ev(e.Args[1])
		}
		if e.Args[2] != nil {
			hi = ev(e.Args[2])
		}
		return SV{T: mkSubseq(s.T, lo, hi), GT: s.GT}
	case "fld":
		if e.Args[0].K == "id" {
			if _, ok := env.Lookup(e.Args[0].Name); !ok {
				// pkg.Const
				if t, ok := c.prog.findConst(e.Args[0].Name + "." + e.Name); ok {
					return SV{T: t}
				}
			}
		}
		return c.field(c.Eval(e.Args[0], env), e.Name, env, e)
	case "call":
		return c.evalCall(e, env)
	case "forall", "exists":
		vars := map[string]SV{}
		var bvs []*Term
		for _, p := range e.Vars {
			s, g := c.typeOf(p.Type)
			bv := freshBV(p.Name, s)
			bvs = append(bvs, bv)
			vars[p.Name] = SV{T: bv, GT: g}
		}
		env2 := &scope{vars: vars, up: env}
		var pats [][]*Term
		for _, ps := range e.Pats {
			var q []*Term
			for _, x := range ps {
				q = append(q, patternTerm(c.Eval(x, env2).T))
			}
			pats = append(pats, q)
		}
		body := c.EvalBool(e.Args[0], env2)
		if n, ok := smallBound(bvs, body, e.K); ok {
			// the range is a small constant: the quantifier is spelled out
			out := body
			for k := 0; k < n; k++ {
				name := e.Vars[0].Name
				env3 := &scope{vars: map[string]SV{name: {T: mkInt(int64(k)), GT: vars[name].GT}}, up: env}
				b := c.EvalBool(e.Args[0], env3)
				if k == 0 {
					out = b
				} else if e.K == "forall" {
					out = mkAnd(out, b)
				} else {
					out = mkOr(out, b)
				}
			}
			if n == 0 {
				out = mkBool(e.K == "forall")
			}
			return SV{T: out, GT: types.Typ[types.Bool]}
		}
		if e.K == "forall" {
			return SV{T: mkForall(bvs, pats, body)}
		}
		return SV{T: mkExists(bvs, pats, body)}
	}
	panic(specErr("eval: " + e.K))
}

// patternTerm: connectives cannot be used in patterns; the last conjunct
// is the part that mentions the variables ("map not nil and key present").
func patternTerm(t *Term) *Term {
	for t.Op == "and" {
		t = t.Args[len(t.Args)-1]
	}
	return t
}

// smallBound recognises a body "0 <= i < N ==> .." (or "0 <= i < N && ..")
// for a literal N.
func smallBound(bvs []*Term, body *Term, kind string) (int, bool) {
	if len(bvs) != 1 || bvs[0].Sort != SInt || (kind == "forall") != (body.Op == "=>") {
		return 0, false
	}
	guard := body
	if body.Op == "=>" {
		guard = body.Args[0]
	}
	conj := []*Term{guard}
	if guard.Op == "and" {
		conj = guard.Args
	}
	lo, hi := false, -1
	for _, t := range conj {
		if t.Op == "<=" && t.Args[0].isInt() && t.Args[0].Int.Sign() == 0 && t.Args[1] == bvs[0] {
			lo = true
		}
		if t.Op == "not" && t.Args[0].Op == "<=" && t.Args[0].Args[0].isInt() && t.Args[0].Args[1] == bvs[0] {
			if k := t.Args[0].Args[0].Int; k.IsInt64() && k.Int64() >= 0 && k.Int64() <= 40 {
				hi = int(k.Int64())
			}
		}
	}
	return hi, lo && hi >= 0
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

func coerce(t *Term, s *Sort) *Term {
	if t.Sort == s {
		return t
	}
	if s.Kind == KSeq && (strings.HasPrefix(t.Op, "empty_") || t.isInt() && t.Int.Sign() == 0) {
		return mkEmpty(s)
	}
	return t
}

// embeddedWith names the embedded field of struct type t that has a field
// name, or "".
func embeddedWith(t types.Type, name string) string {
	if t == nil {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		et, ok := f.Type().Underlying().(*types.Struct)
		if !f.Embedded() || !ok {
			continue
		}
		for j := 0; j < et.NumFields(); j++ {
			if et.Field(j).Name() == name {
				return f.Name()
			}
		}
	}
	return ""
}

func (c *SpecCtx) field(v SV, name string, env Env, e *Expr) SV {
	if v.T.Sort.Kind == KStruct {
		i := v.T.Sort.fieldIdx(name)
		if i < 0 {
			if emb := embeddedWith(v.GT, name); emb != "" {
				return c.field(c.field(v, emb, env, e), name, env, e)
			}
			panic(specErr(e.Pos + ": no field " + name + " in " + v.T.Sort.Name))
		}
		var gt types.Type
		if v.GT != nil {
			if st, ok := v.GT.Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == name {
						gt = st.Field(k).Type()
					}
				}
			}
		}
		return SV{T: mkField(v.T, i), GT: gt}
	}
	if v.GT != nil {
		if pt, ok := v.GT.Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == name {
						ft := st.Field(k).Type()
						fs := goSort(ft)
						h := env.Heap(heapKey(pt.Elem(), name), arrayOf(SInt, fs))
						return SV{T: mkSelect(h, v.T), GT: ft}
					}
				}
				if emb := embeddedWith(pt.Elem(), name); emb != "" {
					return c.field(c.field(v, emb, env, e), name, env, e)
				}
			}
		}
	}
	panic(specErr(fmt.Sprintf("%s: no field %s on %s (type %v)", e.Pos, name, v.T, v.GT)))
}

func (c *SpecCtx) evalBin(e *Expr, env Env) SV {
	B := types.Typ[types.Bool]
	switch e.Name {
	case "&&":
		return SV{T: mkAnd(c.EvalBool(e.Args[0], env), c.EvalBool(e.Args[1], env)), GT: B}
	case "||":
		return SV{T: mkOr(c.EvalBool(e.Args[0], env), c.EvalBool(e.Args[1], env)), GT: B}
	case "==>":
		return SV{T: mkImp(c.EvalBool(e.Args[0], env), c.EvalBool(e.Args[1], env)), GT: B}
	case "<==>":
		return SV{T: mkEq(c.EvalBool(e.Args[0], env), c.EvalBool(e.Args[1], env)), GT: B}
	}
	av, bv := c.Eval(e.Args[0], env), c.Eval(e.Args[1], env)
	a, b := av.T, bv.T
	need := func(s *Sort) {
		if a.Sort != s || b.Sort != s {
			panic(specErr(fmt.Sprintf("%s: %s needs %s operands: %s (%s, %s)", e.Pos, e.Name, s.Name, e.Src, a.Sort.Name, b.Sort.Name)))
		}
	}
	switch e.Name {
	case "==", "!=":
		// the address of a struct inside another one is never nil
		if strings.HasPrefix(a.Sort.Name, "T_") && e.Args[1].K == "id" && e.Args[1].Name == "nil" {
			return SV{T: mkBool(e.Name == "!="), GT: B}
		}
		a, b = coerce(a, b.Sort), coerce(b, a.Sort)
		if a.Sort != b.Sort {
			panic(specErr(fmt.Sprintf("%s: %s: sorts %s and %s", e.Pos, e.Name, a.Sort.Name, b.Sort.Name)))
		}
		t := mkEq(a, b)
		if e.Name == "!=" {
			t = mkNot(t)
		}
		return SV{T: t, GT: B}
	case "+", "++":
		if a.Sort.Kind == KSeq || b.Sort.Kind == KSeq {
			a, b = coerce(a, b.Sort), coerce(b, a.Sort)
			if a.Sort != b.Sort {
				panic(specErr(fmt.Sprintf("%s: ++: sorts %s and %s", e.Pos, a.Sort.Name, b.Sort.Name)))
			}
			return SV{T: mkCat(a, b), GT: av.GT}
		}
		need(SInt)
		return SV{T: mkAdd(a, b), GT: av.GT}
	}
	need(SInt)
	I := types.Typ[types.Int]
	switch e.Name {
	case "-":
		return SV{T: mkSub(a, b), GT: I}
	case "*":
		return SV{T: mkMul(a, b), GT: I}
	case "/":
		return SV{T: mkDiv(a, b), GT: I}
	case "%":
		return SV{T: mkMod(a, b), GT: I}
	case "<":
		return SV{T: mkLt(a, b), GT: B}
	case "<=":
		return SV{T: mkLe(a, b), GT: B}
	case ">":
		return SV{T: mkLt(b, a), GT: B}
	case ">=":
		return SV{T: mkLe(b, a), GT: B}
	}
	panic(specErr("bin " + e.Name))
}

func (c *SpecCtx) evalCall(e *Expr, env Env) SV {
	I := types.Typ[types.Int]
	args := func() []SV {
		var r []SV
		for _, a := range e.Args {
			r = append(r, c.Eval(a, env))
		}
		return r
	}
	switch e.Name {
	case "len":
		return SV{T: mkLen(args()[0].T), GT: I}
	case "pointsto": // pointsto(arg_p, obj, "f.g"): arg_p is &obj.f.g
		v, o := c.Eval(e.Args[0], env), c.Eval(e.Args[1], env)
		if v.Src == nil || v.Src.Ref == nil {
			panic(unresolved{"address " + e.Src})
		}
		t := v.Src.Typ
		var names []string
		for _, p := range v.Src.Path {
			st, ok := t.Underlying().(*types.Struct)
			if !ok || p.Field < 0 {
				panic(unresolved{"address " + e.Src})
			}
			names = append(names, st.Field(p.Field).Name())
			t = st.Field(p.Field).Type()
		}
		if strings.Join(names, ".") != strings.Trim(e.Args[2].Name, "\"") {
			return SV{T: TFalse, GT: types.Typ[types.Bool]}
		}
		return SV{T: mkEq(v.Src.Ref, o.T), GT: types.Typ[types.Bool]}
	case "deref": // deref(p): what a pointer to a value that is no struct points to
		v := c.Eval(e.Args[0], env)
		pt, ok := v.GT.Underlying().(*types.Pointer)
		if !ok {
			panic(specErr(e.Pos + ": deref: not a pointer: " + e.Src))
		}
		el := goSort(pt.Elem())
		return SV{T: mkSelect(env.Heap("HV$"+typeName(pt.Elem()), arrayOf(SInt, el)), v.T), GT: pt.Elem()}
	case "unit": // unit(b): one-byte sequence
		a := args()
		return SV{T: mkUnit(SB, a[0].T), GT: types.Typ[types.String]}
	case "one": // one(x): singleton sequence of x
		a := args()
		var g types.Type
		if a[0].GT != nil {
			g = types.NewSlice(a[0].GT)
		}
		return SV{T: mkUnit(seqOf(a[0].T.Sort), a[0].T), GT: g}
	case "rep": // rep(byte, n)
		a := args()
		return SV{T: mkRep(SB, a[0].T, a[1].T), GT: types.Typ[types.String]}
	case "repseq":
		a := args()
		return SV{T: mkRep(seqOf(a[0].T.Sort), a[0].T, a[1].T)}
	case "upd":
		a := args()
		return SV{T: mkUpd(a[0].T, a[1].T, a[2].T), GT: a[0].GT}
	case "isnil":
		a := args()
		if a[0].Nil != nil {
			return SV{T: a[0].Nil}
		}
		if a[0].T.Sort == SInt {
			return SV{T: mkEq(a[0].T, mkInt(0))}
		}
		panic(specErr(e.Pos + ": isnil: no nil information for " + e.Src))
	case "fresh": // allocated since the function was entered
		a := args()
		return SV{T: mkNot(mkApp("preexisting", SBool, a[0].T)), GT: types.Typ[types.Bool]}
	case "allocated": // exists by now (needs opt clock)
		a := args()
		return SV{T: mkLt(mkApp("born", SInt, a[0].T), env.Heap(clockKey, SInt)), GT: types.Typ[types.Bool]}
	case "empty":
		return SV{T: mkEmpty(SB), GT: types.Typ[types.String]}
	case "emptyseq":
		a := args()
		return SV{T: mkEmpty(seqOf(a[0].T.Sort))}
	case "min":
		a := args()
		return SV{T: mkIte(mkLe(a[0].T, a[1].T), a[0].T, a[1].T), GT: I}
	case "max":
		a := args()
		return SV{T: mkIte(mkLe(a[0].T, a[1].T), a[1].T, a[0].T), GT: I}
	case "typeis": // typeis(iface, "pkg.Type")
		v := c.Eval(e.Args[0], env)
		return SV{T: mkEq(mkApp("dyntype", SInt, v.T), typeTag(symClean(strings.Trim(e.Args[1].Name, "\""))))}
	case "make": // make("pkg.Struct", field, field, ..)
		gt := c.prog.findType(strings.Trim(e.Args[0].Name, "\""))
		srt := goSort(gt)
		var fs []*Term
		for i, a := range e.Args[1:] {
			fs = append(fs, coerce(c.Eval(a, env).T, srt.Fields[i].Sort))
		}
		return SV{T: mkStruct(srt, fs...), GT: gt}
	case "asptr": // asptr(iface, "pkg.Type"): the pointer an interface holds
		v := c.Eval(e.Args[0], env)
		return SV{T: v.T, GT: types.NewPointer(c.prog.findType(strings.Trim(e.Args[1].Name, "\"")))}
	case "haskey", "mapget": // of a Go map
		a := args()
		mt, ok := types.Unalias(a[0].GT).Underlying().(*types.Map)
		if !ok {
			panic(specErr(e.Pos + ": not a map: " + e.Src))
		}
		ks, vs := goSort(mt.Key()), goSort(mt.Elem())
		if e.Name == "haskey" {
			dom := env.Heap(mapKey(mt)+"$dom", arrayOf(SInt, arrayOf(ks, SBool)))
			return SV{T: mkAnd(mkNot(mkEq(a[0].T, mkInt(0))), mkSelect(mkSelect(dom, a[0].T), coerce(a[1].T, ks))), GT: types.Typ[types.Bool]}
		}
		vals := env.Heap(mapKey(mt)+"$val", arrayOf(SInt, arrayOf(ks, vs)))
		return SV{T: mkSelect(mkSelect(vals, a[0].T), coerce(a[1].T, ks)), GT: mt.Elem()}
	case "unboxbool":
		return SV{T: mkApp("unbox_"+symClean(SBool.Name)+"_bool", SBool, args()[0].T), GT: types.Typ[types.Bool]}
	case "unboxstr":
		return SV{T: mkApp("unbox_B", SB, args()[0].T), GT: types.Typ[types.String]}
	case "box": // the interface value that holds a value
		v := args()[0]
		if v.T.Sort == SB || v.T.Sort == SInt {
			panic(specErr(e.Pos + ": box: of a struct or a slice only"))
		}
		return SV{T: mkApp("box_"+symClean(v.T.Sort.Name)+"_"+typeName(v.GT), SInt, v.T)}
	case "boxstr":
		if len(e.Args) == 2 { // boxstr(text, "pkg.Type")
			return SV{T: mkApp("box_B_"+typeName(c.prog.findType(strings.Trim(e.Args[1].Name, "\""))), SInt, c.Eval(e.Args[0], env).T)}
		}
		return SV{T: mkApp("box_B", SInt, args()[0].T)}
	}
	if c.sp.Funcs[e.Name] != nil {
		return c.callSpec(e, e.Name, args(), env)
	}
	panic(unresolved{e.Name + "()"})
}

func (c *SpecCtx) callSpec(e *Expr, name string, args []SV, env Env) SV {
	cf := c.compile(name)
	if len(args) != len(cf.params) {
		panic(specErr(fmt.Sprintf("%s: %s takes %d arguments", e.Pos, name, len(cf.params))))
	}
	var ts []*Term
	for i, a := range args {
		t := coerce(a.T, cf.params[i].Sort)
		if t.Sort != cf.params[i].Sort {
			panic(specErr(fmt.Sprintf("%s: %s: argument %d has sort %s, want %s (%s)", e.Pos, name, i, t.Sort.Name, cf.params[i].Sort.Name, e.Src)))
		}
		ts = append(ts, t)
	}
	f := cf.f
	if f.Body != nil && !f.Rec && !f.Opaque {
		m := map[*Term]*Term{}
		for i := range ts {
			m[cf.params[i]] = ts[i]
		}
		for i, k := range cf.heap {
			m[cf.hvars[i]] = env.Heap(k, cf.hsorts[i])
		}
		return SV{T: substT(freshen(cf.body), m), GT: cf.retGT}
	}
	for i, k := range cf.heap {
		ts = append(ts, env.Heap(k, cf.hsorts[i]))
	}
	return SV{T: mkApp("f_"+name, cf.ret, ts...), GT: cf.retGT}
}

// freshen renames quantified variables so that repeated expansion cannot capture.
func freshen(t *Term) *Term {
	has := false
	walk(t, map[*Term]bool{}, func(x *Term) {
		if len(x.Vars) > 0 {
			has = true
		}
	})
	if !has {
		return t
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if len(t.Vars) > 0 {
			m := map[*Term]*Term{}
			var nv []*Term
			for _, v := range t.Vars {
				n := v.Lit
				if i := strings.Index(n, "!"); i >= 0 {
					n = n[:i]
				}
				b := freshBV(n, v.Sort)
				m[v] = b
				nv = append(nv, b)
			}
			body := substT(rec(t.Args[0]), m)
			var pats [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, a := range p {
					q = append(q, substT(a, m))
				}
				pats = append(pats, q)
			}
			if t.Op == "forall" {
				return mkForall(nv, pats, body)
			}
			return mkExists(nv, pats, body)
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		return rebuild(t, args, t.Pats)
	}
	return rec(t)
}

func renameFn(t *Term, from map[string]string) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 && from[t.Op] == "" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, a := range p {
				q = append(q, rec(a))
			}
			pats = append(pats, q)
		}
		op := t.Op
		if n := from[op]; n != "" {
			op = n
		}
		r := intern(&Term{Op: op, Args: args, Sort: t.Sort, Int: t.Int, Lit: t.Lit, Vars: t.Vars, Pats: pats})
		memo[t] = r
		return r
	}
	return rec(t)
}
