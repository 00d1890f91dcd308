package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KSeq
	KStruct
	KArray
	KOpaque
)

type Sort struct {
	Name   string
	Kind   SortKind
	Elem   *Sort // seq element, array range
	Key    *Sort // array domain
	Fields []SortField
	Byte   bool // KSeq of bytes
}

type SortField struct {
	Name string
	Sort *Sort
}

var (
	SInt  = &Sort{Name: "Int", Kind: KInt}
	SBool = &Sort{Name: "Bool", Kind: KBool}
	SB    = &Sort{Name: "B", Kind: KSeq, Elem: SInt, Byte: true}
)

var sortReg = map[string]*Sort{"Int": SInt, "Bool": SBool, "B": SB}
var sortOrder = []*Sort{SB}

func seqOf(e *Sort) *Sort {
	n := "S_" + e.Name
	if s, ok := sortReg[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: KSeq, Elem: e}
	sortReg[n] = s
	sortOrder = append(sortOrder, s)
	return s
}

func arrayOf(k, v *Sort) *Sort {
	n := "(Array " + k.Name + " " + v.Name + ")"
	if s, ok := sortReg[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: KArray, Key: k, Elem: v}
	sortReg[n] = s
	return s
}

func opaqueSort(n string) *Sort {
	if s, ok := sortReg[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: KOpaque}
	sortReg[n] = s
	sortOrder = append(sortOrder, s)
	return s
}

func structSort(n string, fields []SortField) *Sort {
	if s, ok := sortReg[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: KStruct, Fields: fields}
	sortReg[n] = s
	sortOrder = append(sortOrder, s)
	return s
}

func (s *Sort) fieldIdx(name string) int {
	for i, f := range s.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- terms

type Term struct {
	Op   string
	Args []*Term
	Sort *Sort
	Int  *big.Int // Op == "int"
	Lit  string   // Op == "lit": byte string literal
	Vars []*Term  // quantifiers: bound variables
	Pats [][]*Term
	key  string
	id   int
}

// Ops: "int" "lit" "true" "false" "var" (Lit=name) "bvar" "not" "and" "or" "=>" "=" "ite"
// "+" "-" "*" "div" "mod" "<" "<=" and any other op = function application.

var termTab = map[string]*Term{}
var termID int

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort.Name)
	if t.Int != nil {
		sb.WriteByte('|')
		sb.WriteString(t.Int.String())
	}
	if t.Op == "lit" || t.Op == "var" || t.Op == "bvar" {
		sb.WriteByte('|')
		sb.WriteString(t.Lit)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, v := range t.Vars {
		fmt.Fprintf(&sb, ";%d", v.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, a := range p {
			fmt.Fprintf(&sb, "~%d", a.id)
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termID++
	t.id = termID
	t.key = k
	termTab[k] = t
	return t
}

var (
	TTrue  = intern(&Term{Op: "true", Sort: SBool})
	TFalse = intern(&Term{Op: "false", Sort: SBool})
)

func mkInt(i int64) *Term { return mkBig(big.NewInt(i)) }
func mkBig(i *big.Int) *Term {
	return intern(&Term{Op: "int", Sort: SInt, Int: new(big.Int).Set(i)})
}
func mkVar(name string, s *Sort) *Term  { return intern(&Term{Op: "var", Lit: name, Sort: s}) }
func mkBVar(name string, s *Sort) *Term { return intern(&Term{Op: "bvar", Lit: name, Sort: s}) }
func mkLit(b string) *Term {
	if b == "" {
		return mkEmpty(SB)
	}
	return intern(&Term{Op: "lit", Lit: b, Sort: SB})
}
func mkEmpty(s *Sort) *Term { return intern(&Term{Op: "empty_" + s.Name, Sort: s}) }

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func (t *Term) isInt() bool { return t.Op == "int" }

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	}
	return intern(&Term{Op: "not", Args: []*Term{a}, Sort: SBool})
}

func mkAnd(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if x == TTrue || seen[x] {
			continue
		}
		if x == TFalse {
			return TFalse
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[mkNot(x)] {
			return TFalse
		}
	}
	if len(out) == 0 {
		return TTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "and", Args: out, Sort: SBool})
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t == TTrue {
		return nil
	}
	return []*Term{t}
}

func mkOr(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		if x == TFalse || seen[x] {
			continue
		}
		if x == TTrue {
			return TTrue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[mkNot(x)] {
			return TTrue
		}
	}
	if len(out) == 0 {
		return TFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// (g && c) || (g && !c)  ==> g   (common after diamonds)
	if len(out) == 2 {
		if r := mergeGuards(out[0], out[1]); r != nil {
			return r
		}
	}
	return intern(&Term{Op: "or", Args: out, Sort: SBool})
}

func mergeGuards(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	if len(ca) != len(cb) {
		return nil
	}
	sb := map[*Term]bool{}
	for _, x := range cb {
		sb[x] = true
	}
	var common []*Term
	var diff *Term
	for _, x := range ca {
		if sb[x] {
			common = append(common, x)
		} else if diff == nil {
			diff = x
		} else {
			return nil
		}
	}
	if diff == nil {
		return a
	}
	if sb[mkNot(diff)] {
		return mkAnd(common...)
	}
	return nil
}

func mkImp(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b == TFalse {
		return mkNot(a)
	}
	if a == b {
		return TTrue
	}
	return intern(&Term{Op: "=>", Args: []*Term{a, b}, Sort: SBool})
}

// mkEq is logical equality; for sequences use seqEq so that the solver
// gets an extensionality witness.
func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.isInt() && b.isInt() {
		return mkBool(a.Int.Cmp(b.Int) == 0)
	}
	if a.Sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return mkNot(b)
		}
		if b == TFalse {
			return mkNot(a)
		}
	}
	if a.Op == "lit" && b.Op == "lit" {
		return mkBool(a.Lit == b.Lit)
	}
	if a.Sort.Kind == KSeq {
		e := mkEmpty(a.Sort)
		if b == e {
			return mkEq(mkLen(a), mkInt(0))
		}
		if a == e {
			return mkEq(mkLen(b), mkInt(0))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return intern(&Term{Op: "seqeq_" + a.Sort.Name, Args: []*Term{a, b}, Sort: SBool})
	}
	if a.Sort.Kind == KStruct && structHasSeq(a.Sort) {
		var cs []*Term
		for i := range a.Sort.Fields {
			cs = append(cs, mkEq(mkField(a, i), mkField(b, i)))
		}
		return mkAnd(cs...)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkEq: sort mismatch %s vs %s: %s = %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

func structHasSeq(s *Sort) bool {
	for _, f := range s.Fields {
		if f.Sort.Kind == KSeq || f.Sort.Kind == KStruct && structHasSeq(f.Sort) {
			return true
		}
	}
	return false
}

func mkIte(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkIte: sort mismatch %s vs %s", a.Sort.Name, b.Sort.Name))
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

// linear decomposition for light simplification of +/-
func mkAdd(a, b *Term) *Term { return linComb(a, b, 1) }
func mkSub(a, b *Term) *Term { return linComb(a, b, -1) }

func linAcc(t *Term, c *big.Int, m map[*Term]*big.Int, k *big.Int) {
	switch t.Op {
	case "int":
		k.Add(k, new(big.Int).Mul(c, t.Int))
		return
	case "+":
		for _, a := range t.Args {
			linAcc(a, c, m, k)
		}
		return
	case "*":
		if t.Args[0].isInt() {
			linAcc(t.Args[1], new(big.Int).Mul(c, t.Args[0].Int), m, k)
			return
		}
	}
	if o, ok := m[t]; ok {
		o.Add(o, c)
	} else {
		m[t] = new(big.Int).Set(c)
	}
}

func linComb(a, b *Term, s int64) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	linAcc(a, big.NewInt(1), m, k)
	linAcc(b, big.NewInt(s), m, k)
	var ts []*Term
	for t, c := range m {
		if c.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		c := m[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: "*", Args: []*Term{mkBig(c), t}, Sort: SInt}))
		}
	}
	if k.Sign() != 0 {
		args = append(args, mkBig(k))
	}
	if len(args) == 0 {
		return mkInt(0)
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", Args: args, Sort: SInt})
}

func mkMul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		linAcc(b, a.Int, m, k)
		if b.isInt() {
			return mkBig(k)
		}
		if a.Int.Sign() == 0 {
			return mkInt(0)
		}
		if a.Int.Cmp(big.NewInt(1)) == 0 {
			return b
		}
	}
	return intern(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

func mkDiv(a, b *Term) *Term { // SMT-LIB euclidean div
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		return mkBig(new(big.Int).Div(a.Int, b.Int))
	}
	return intern(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
}
func mkMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		return mkBig(new(big.Int).Mod(a.Int, b.Int))
	}
	return intern(&Term{Op: "mod", Args: []*Term{a, b}, Sort: SInt})
}

func mkLe(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return mkBool(a.Int.Cmp(b.Int) <= 0)
	}
	if a == b {
		return TTrue
	}
	return intern(&Term{Op: "<=", Args: []*Term{a, b}, Sort: SBool})
}
func mkLt(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return mkBool(a.Int.Cmp(b.Int) < 0)
	}
	if a == b {
		return TFalse
	}
	return mkNot(mkLe(b, a))
}

// ---------------------------------------------------------------- sequences

func mkApp(op string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Args: args, Sort: s})
}

func mkLen(s *Term) *Term {
	if s.Sort.Kind != KSeq {
		panic("mkLen of " + s.Sort.Name + ": " + s.String())
	}
	switch {
	case s.Op == "lit":
		return mkInt(int64(len(s.Lit)))
	case strings.HasPrefix(s.Op, "empty_"):
		return mkInt(0)
	case strings.HasPrefix(s.Op, "unit_"):
		return mkInt(1)
	case strings.HasPrefix(s.Op, "upd_"):
		return mkLen(s.Args[0])
	case strings.HasPrefix(s.Op, "cat_"):
		return mkAdd(mkLen(s.Args[0]), mkLen(s.Args[1]))
	}
	return mkApp("len_"+s.Sort.Name, SInt, s)
}

func mkAt(s, i *Term) *Term {
	if s.Op == "lit" && i.isInt() && i.Int.IsInt64() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Lit)) {
			return mkInt(int64(s.Lit[k]))
		}
	}
	if strings.HasPrefix(s.Op, "unit_") && i.isInt() && i.Int.Sign() == 0 {
		return s.Args[0]
	}
	return mkApp("at_"+s.Sort.Name, s.Sort.Elem, s, i)
}

func mkUnit(srt *Sort, e *Term) *Term {
	if srt == SB && e.isInt() {
		return mkLit(string([]byte{byte(e.Int.Int64())}))
	}
	return mkApp("unit_"+srt.Name, srt, e)
}

func mkCat(a, b *Term) *Term {
	e := mkEmpty(a.Sort)
	if a == e {
		return b
	}
	if b == e {
		return a
	}
	if a.Op == "lit" && b.Op == "lit" {
		return mkLit(a.Lit + b.Lit)
	}
	op := "cat_" + a.Sort.Name
	// left-assoc normal form: ((a b) c)
	if b.Op == op {
		return mkCat(mkCat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == op && a.Args[1].Op == "lit" && b.Op == "lit" {
		return mkCat(a.Args[0], mkLit(a.Args[1].Lit+b.Lit))
	}
	return mkApp(op, a.Sort, a, b)
}

func mkSubseq(s, i, j *Term) *Term {
	if i == j {
		return mkEmpty(s.Sort)
	}
	if i.isInt() && i.Int.Sign() == 0 && j == mkLen(s) {
		return s
	}
	if s.Op == "lit" && i.isInt() && j.isInt() {
		a, b := i.Int.Int64(), j.Int.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.Lit)) {
			return mkLit(s.Lit[a:b])
		}
	}
	return mkApp("sub_"+s.Sort.Name, s.Sort, s, i, j)
}

func mkUpd(s, i, v *Term) *Term { return mkApp("upd_"+s.Sort.Name, s.Sort, s, i, v) }
func mkRep(srt *Sort, e, n *Term) *Term {
	if n.isInt() && n.Int.Sign() == 0 {
		return mkEmpty(srt)
	}
	return mkApp("rep_"+srt.Name, srt, e, n)
}

// ---------------------------------------------------------------- structs, arrays

func mkStruct(s *Sort, fs ...*Term) *Term { return mkApp("mk_"+s.Name, s, fs...) }
func mkField(t *Term, i int) *Term {
	if t.Op == "mk_"+t.Sort.Name {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return mkIte(t.Args[0], mkField(t.Args[1], i), mkField(t.Args[2], i))
	}
	f := t.Sort.Fields[i]
	return mkApp("fld_"+t.Sort.Name+"_"+f.Name, f.Sort, t)
}
func mkSetField(t *Term, i int, v *Term) *Term {
	fs := make([]*Term, len(t.Sort.Fields))
	for k := range fs {
		if k == i {
			fs[k] = v
		} else {
			fs[k] = mkField(t, k)
		}
	}
	return mkStruct(t.Sort, fs...)
}
func mkSelect(a, k *Term) *Term {
	if a.Op == "store" {
		if a.Args[1] == k {
			return a.Args[2]
		}
		if a.Args[1].isInt() && k.isInt() {
			return mkSelect(a.Args[0], k)
		}
	}
	return mkApp("select", a.Sort.Elem, a, k)
}
func mkStore(a, k, v *Term) *Term { return mkApp("store", a.Sort, a, k, v) }

func mkForall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == TTrue {
		return TTrue
	}
	if len(vars) == 0 {
		return body
	}
	return intern(&Term{Op: "forall", Vars: vars, Pats: pats, Args: []*Term{body}, Sort: SBool})
}
func mkExists(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == TFalse {
		return TFalse
	}
	if len(vars) == 0 {
		return body
	}
	return intern(&Term{Op: "exists", Vars: vars, Pats: pats, Args: []*Term{body}, Sort: SBool})
}

// ---------------------------------------------------------------- substitution

func substT(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, a := range p {
				b := rec(a)
				if b != a {
					ch = true
				}
				q = append(q, b)
			}
			pats = append(pats, q)
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = mkAdd(r, a)
		}
		return r
	case "*":
		return mkMul(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "forall":
		return mkForall(t.Vars, pats, args[0])
	case "exists":
		return mkExists(t.Vars, pats, args[0])
	case "select":
		return mkSelect(args[0], args[1])
	}
	switch {
	case strings.HasPrefix(t.Op, "len_"):
		return mkLen(args[0])
	case strings.HasPrefix(t.Op, "at_"):
		return mkAt(args[0], args[1])
	case strings.HasPrefix(t.Op, "cat_"):
		return mkCat(args[0], args[1])
	case strings.HasPrefix(t.Op, "sub_"):
		return mkSubseq(args[0], args[1], args[2])
	case strings.HasPrefix(t.Op, "unit_"):
		return mkUnit(t.Sort, args[0])
	case strings.HasPrefix(t.Op, "seqeq_"):
		return mkEq(args[0], args[1])
	case strings.HasPrefix(t.Op, "fld_"):
		for i, f := range args[0].Sort.Fields {
			if t.Op == "fld_"+args[0].Sort.Name+"_"+f.Name {
				return mkField(args[0], i)
			}
		}
	}
	return intern(&Term{Op: t.Op, Args: args, Sort: t.Sort, Int: t.Int, Lit: t.Lit, Vars: t.Vars, Pats: pats})
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb)
	return sb.String()
}

func litName(s string) string { return fmt.Sprintf("lit_%x", s) }

func symQ(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_$.!@%^&*-+<>=?/~", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) print(sb *strings.Builder) {
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			sb.WriteString("(- ")
			sb.WriteString(new(big.Int).Neg(t.Int).String())
			sb.WriteString(")")
		} else {
			sb.WriteString(t.Int.String())
		}
		return
	case "lit":
		sb.WriteString(litName(t.Lit))
		return
	case "var", "bvar":
		sb.WriteString(symQ(t.Lit))
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + symQ(v.Lit) + " " + v.Sort.Name + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].print(sb)
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, a := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				a.print(sb)
			}
			sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(symQ(t.Op))
		return
	}
	sb.WriteString("(")
	sb.WriteString(symQ(t.Op))
	for _, a := range t.Args {
		sb.WriteByte(' ')
		a.print(sb)
	}
	sb.WriteString(")")
}

// walk visits every distinct subterm once.
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			walk(a, seen, f)
		}
	}
}
