package main

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- AST

type Expr struct {
	K    string // int lit bool id bin un call idx slice fld if forall exists old let
	Name string
	Int  *big.Int
	Args []*Expr
	Vars []Param
	Pats [][]*Expr
	Pos  string
	Src  string
}

type Param struct {
	Name string
	Type *TypeX
}

type TypeX struct {
	Name string // int bool bytes seq ptr or Go type name (pkg.Name)
	Elem *TypeX
}

type Clause struct {
	Label string
	E     *Expr
	Props []string
	Src   string
	File  string
	Line  int
	Guard *Expr
}

type Apply struct {
	Lemma string
	Args  []*Expr
	When  *Expr
	Src   string
}

type Contract struct {
	Kind     string // func extern iface functype closure
	Pkg      string
	Recv     string
	RecvName string
	Name     string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Assumes  []*Clause // assumed by callers, not proved
	Given    []*Clause // assumed on entry, not proved at calls
	Stands   []*Clause // what the name fn of this closure stands for
	Before   []*Before // what holds at every call of a function
	Invs     []*Clause
	Decr     []*Clause
	Modifies []*Expr
	ModAll   bool
	Props    []string
	Internal bool
	Trusted  bool
	Pure     bool
	Total    bool // may not panic: safety obligations attributed
	Inline   bool
	NoInline bool
	Applies  []*Apply
	Uses     []string
	Hints    []*Clause
	Opts     map[string]string
	File     string
	Line     int
}

func (c *Contract) Key() string {
	if c.Recv != "" {
		return c.Pkg + "." + c.Recv + "." + c.Name
	}
	return c.Pkg + "." + c.Name
}

// Before is an obligation of a function at each of its calls of another one,
// whose arguments are arg_<name of the parameter>.
type Before struct {
	Callee string
	*Clause
}

type SpecFunc struct {
	Name   string
	Params []Param
	Ret    *TypeX
	Body   *Expr // nil: uninterpreted
	Rec    bool
	Decr   *Expr
	Heap   []string
	File   string
	Line   int
	Opaque bool
	Fuel   int

	sorts []*Sort
	ret   *Sort
	gos   []*TypeX
}

type Lemma struct {
	Name     string
	Params   []Param
	Requires []*Clause
	Ensures  []*Clause
	Decr     *Expr
	Pats     [][]*Expr
	Applies  []*Apply
	Asserts  []*Clause
	Uses     []string
	Axiom    bool // trusted, not proved
	Auto     bool // included everywhere
	Props    []string
	File     string
	Line     int
	Why      string
	Splits   []*Expr
}

type Spec struct {
	Contracts map[string]*Contract
	Order     []*Contract
	Funcs     map[string]*SpecFunc
	Ghosts    map[string]*TypeX // verification-only state
	FuncOrder []*SpecFunc
	Lemmas    map[string]*Lemma
	LemOrder  []*Lemma
	Guards    []*Guard
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k    string // id int str char op eof
	s    string
	line int
	nl   bool // preceded by newline
	off  int
	end  int
}

type parser struct {
	file string
	src  string
	toks []tok
	p    int
	sp   *Spec
	pkg  string
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	nl := true
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", ":="}
	add := func(k, s string, st, en int) {
		out = append(out, tok{k: k, s: s, line: line, nl: nl, off: st, end: en})
		nl = false
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] == '_' || src[j] == '$' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			add("id", src[i:j], i, j)
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f') {
				j++
			}
			add("int", src[i:j], i, j)
			i = j
		case c == '"' || c == '\'' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			j++
			if c == '\'' {
				add("char", src[i:j], i, j)
			} else {
				add("str", src[i:j], i, j)
			}
			i = j
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					add("op", o, i, i+len(o))
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				add("op", string(c), i, i+1)
				i++
			}
		}
	}
	out = append(out, tok{k: "eof", line: line, nl: true, off: len(src), end: len(src)})
	return out
}

func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s:%d: %s (at %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s))
}
func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.cur()
	if t.k != "id" {
		p.fail("expected identifier")
	}
	p.p++
	return t.s
}

// ---------------------------------------------------------------- expressions

func (p *parser) expr() *Expr {
	st := p.cur().off
	e := p.iff()
	en := p.toks[p.p-1].end
	if e.Src == "" {
		e.Src = strings.Join(strings.Fields(p.src[st:en]), " ")
	}
	return e
}

func (p *parser) mk(k, name string, args ...*Expr) *Expr {
	return &Expr{K: k, Name: name, Args: args, Pos: fmt.Sprintf("%s:%d", p.file, p.cur().line)}
}

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.is("<==>") {
		p.p++
		r := p.imp()
		l = p.mk("bin", "<==>", l, r)
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.is("==>") {
		p.p++
		r := p.imp()
		return p.mk("bin", "==>", l, r)
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.is("||") {
		p.p++
		l = p.mk("bin", "||", l, p.and())
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.is("&&") {
		p.p++
		l = p.mk("bin", "&&", l, p.cmp())
	}
	return l
}

var cmpOps = []string{"==", "!=", "<=", ">=", "<", ">"}

func (p *parser) cmpOp() string {
	t := p.cur()
	if t.k == "op" {
		for _, o := range cmpOps {
			if t.s == o {
				return o
			}
		}
	}
	return ""
}
func (p *parser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		o := p.cmpOp()
		if o == "" {
			break
		}
		p.p++
		r := p.add()
		c := p.mk("bin", o, l, r)
		if res == nil {
			res = c
		} else {
			res = p.mk("bin", "&&", res, c)
		}
		l = r
	}
	if res == nil {
		return l
	}
	return res
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") || p.is("++") {
		o := p.cur().s
		p.p++
		l = p.mk("bin", o, l, p.mul())
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.cur().s
		p.p++
		l = p.mk("bin", o, l, p.unary())
	}
	return l
}
func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") {
		o := p.cur().s
		p.p++
		return p.mk("un", o, p.unary())
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is("[") && !p.cur().nl:
			p.p++
			if p.accept(":") {
				if p.accept("]") {
					continue
				}
				hi := p.expr()
				p.expect("]")
				e = p.mk("slice", "", e, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					e = p.mk("slice", "", e, i, nil)
					continue
				}
				hi := p.expr()
				p.expect("]")
				e = p.mk("slice", "", e, i, hi)
				continue
			}
			p.expect("]")
			e = p.mk("idx", "", e, i)
		case p.is(".") && !p.cur().nl:
			p.p++
			e = p.mk("fld", p.ident(), e)
		case p.is("(") && !p.cur().nl && (e.K == "id" || e.K == "fld"):
			p.p++
			name := e.Name
			if e.K == "fld" && e.Args[0].K == "id" {
				name = e.Args[0].Name + "." + e.Name
			}
			c := p.mk("call", name)
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.k {
	case "int":
		p.p++
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad int")
		}
		e := p.mk("int", "")
		e.Int = n
		return e
	case "char":
		p.p++
		r, _, _, err := strconv.UnquoteChar(t.s[1:len(t.s)-1], '\'')
		if err != nil {
			p.fail("bad char: %v", err)
		}
		e := p.mk("int", "")
		e.Int = big.NewInt(int64(r))
		return e
	case "str":
		p.p++
		s, err := strconv.Unquote(t.s)
		if err != nil {
			p.fail("bad string: %v", err)
		}
		return p.mk("lit", s)
	case "id":
		switch t.s {
		case "true", "false":
			p.p++
			return p.mk("bool", t.s)
		case "if":
			p.p++
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return p.mk("if", "", c, a, b)
		case "let":
			p.p++
			n := p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return p.mk("let", n, v, b)
		case "forall", "exists":
			p.p++
			e := p.mk(t.s, "")
			e.Vars = p.paramList("::", "{")
			for p.accept("{") {
				var ps []*Expr
				for !p.is("}") {
					ps = append(ps, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.Pats = append(e.Pats, ps)
			}
			p.expect("::")
			e.Args = []*Expr{p.expr()}
			return e
		case "old":
			p.p++
			p.expect("(")
			a := p.expr()
			p.expect(")")
			return p.mk("old", "", a)
		}
		p.p++
		return p.mk("id", t.s)
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		// keep parenthesised source
		return e
	}
	p.fail("expected expression")
	return nil
}

func (p *parser) typ() *TypeX {
	if p.accept("*") {
		n := p.ident()
		if p.accept(".") {
			n += "." + p.ident()
		}
		return &TypeX{Name: "ptr", Elem: &TypeX{Name: n}}
	}
	n := p.ident()
	if n == "seq" {
		p.expect("[")
		e := p.typ()
		p.expect("]")
		return &TypeX{Name: "seq", Elem: e}
	}
	if n == "string" || n == "bytes" && !p.is(".") {
		n = "bytes"
		return &TypeX{Name: n}
	}
	for p.accept(".") {
		n += "." + p.ident()
	}
	return &TypeX{Name: n}
}

func (p *parser) paramList(ends ...string) []Param {
	var out []Param
	isEnd := func() bool {
		for _, e := range ends {
			if p.is(e) {
				return true
			}
		}
		return false
	}
	for !isEnd() {
		n := []string{p.ident()}
		for p.accept(",") {
			n = append(n, p.ident())
		}
		ty := p.typ()
		for _, x := range n {
			out = append(out, Param{x, ty})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

func (p *parser) nameList() []string {
	var out []string
	p.expect("(")
	for !p.is(")") {
		out = append(out, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// ---------------------------------------------------------------- declarations

var clauseKW = map[string]bool{"requires": true, "ensures": true, "invariant": true, "decreases": true, "modifies": true, "property": true,
	"internal": true, "trusted": true, "pure": true, "use": true, "apply": true, "hint": true, "opt": true, "why": true, "assert": true, "trigger": true, "auto": true, "inline": true, "split": true, "fuel": true, "opaque": true}

func (p *parser) clause() *Clause {
	c := &Clause{File: p.file, Line: p.cur().line}
	// optional label:  ident ':'
	if p.cur().k == "id" && p.toks[p.p+1].k == "op" && p.toks[p.p+1].s == ":" {
		c.Label = p.ident()
		p.expect(":")
	}
	if p.accept("{") { // property tags {C01 C02}
		for !p.accept("}") {
			c.Props = append(c.Props, p.ident())
			p.accept(",")
		}
	}
	c.E = p.expr()
	c.Src = c.E.Src
	return c
}

func (p *parser) applyClause() *Apply {
	a := &Apply{}
	st := p.cur().off
	a.Lemma = p.ident()
	p.expect("(")
	for !p.is(")") {
		a.Args = append(a.Args, p.expr())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("when") {
		a.When = p.expr()
	}
	a.Src = p.src[st:p.toks[p.p-1].end]
	return a
}

func parseSpec(sp *Spec, file string) (err error) {
	b, e := os.ReadFile(file)
	if e != nil {
		return e
	}
	short := file
	if i := strings.LastIndex(file, "/"); i >= 0 {
		short = file[i+1:]
	}
	p := &parser{file: short, src: string(b), sp: sp}
	p.toks = lex(short, p.src)
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(error); ok {
				err = pe
				return
			}
			panic(r)
		}
	}()
	for p.cur().k != "eof" {
		line := p.cur().line
		switch kw := p.ident(); kw {
		case "package":
			n := p.ident()
			for p.is("/") || p.is(".") || p.is("-") {
				o := p.cur().s
				p.p++
				n += o
				n += p.ident()
			}
			p.pkg = n
		case "guarded":
			g := &Guard{Type: p.ident()}
			p.expect(".")
			g.Type += "." + p.ident()
			p.expect(".")
			g.Mutex = p.ident()
			p.expect(":")
			for {
				g.Fields = append(g.Fields, p.ident())
				if !p.accept(",") {
					break
				}
			}
			sp.Guards = append(sp.Guards, g)
		case "ghost":
			n := p.ident()
			sp.Ghosts[n] = p.typ()
		case "spec":
			p.expect("func")
			f := &SpecFunc{Name: p.ident(), File: short, Line: line, Fuel: 2}
			p.expect("(")
			f.Params = p.paramList(")")
			p.expect(")")
			f.Ret = p.typ()
			for {
				if p.accept("decreases") {
					f.Decr = p.expr()
					f.Rec = true
				} else if p.accept("opaque") {
					f.Opaque = true
				} else if p.accept("fuel") {
					f.Fuel, _ = strconv.Atoi(p.cur().s)
					p.p++
				} else {
					break
				}
			}
			if p.accept("{") {
				f.Body = p.expr()
				p.expect("}")
			}
			if sp.Funcs[f.Name] != nil {
				p.fail("duplicate spec func %s", f.Name)
			}
			sp.Funcs[f.Name] = f
			sp.FuncOrder = append(sp.FuncOrder, f)
		case "lemma", "axiom":
			l := &Lemma{Name: p.ident(), Axiom: kw == "axiom", File: short, Line: line}
			p.expect("(")
			l.Params = p.paramList(")")
			p.expect(")")
			for {
				switch {
				case p.accept("requires"):
					l.Requires = append(l.Requires, p.clause())
				case p.accept("ensures"):
					l.Ensures = append(l.Ensures, p.clause())
				case p.accept("decreases"):
					l.Decr = p.expr()
				case p.accept("trigger"):
					ps := []*Expr{p.expr()}
					for p.accept(",") {
						ps = append(ps, p.expr())
					}
					l.Pats = append(l.Pats, ps)
				case p.accept("apply"):
					l.Applies = append(l.Applies, p.applyClause())
				case p.accept("assert"):
					l.Asserts = append(l.Asserts, p.clause())
				case p.accept("split"):
					l.Splits = append(l.Splits, p.expr())
				case p.accept("use"):
					l.Uses = append(l.Uses, p.identList()...)
				case p.accept("property"):
					l.Props = append(l.Props, p.identList()...)
				case p.accept("auto"):
					l.Auto = true
				case p.accept("why"):
					l.Why, _ = strconv.Unquote(p.cur().s)
					p.p++
				default:
					goto doneLemma
				}
			}
		doneLemma:
			if sp.Lemmas[l.Name] != nil {
				p.fail("duplicate lemma %s", l.Name)
			}
			sp.Lemmas[l.Name] = l
			sp.LemOrder = append(sp.LemOrder, l)
		case "func", "extern", "iface", "functype":
			c := &Contract{Kind: kw, Pkg: p.pkg, File: short, Line: line, Opts: map[string]string{}}
			if p.accept("(") {
				c.RecvName = p.ident()
				p.accept("*")
				n := p.ident()
				if p.accept(".") {
					c.Pkg = n
					for p.is("/") {
						p.p++
						c.Pkg += "/" + p.ident()
					}
					n = p.ident()
				}
				c.Recv = n
				p.expect(")")
			}
			n := p.ident()
			if kw != "func" && c.Recv == "" {
				// qualified: a/b.Name
				path := n
				for p.is("/") {
					p.p++
					path += "/" + p.ident()
				}
				if p.accept(".") {
					c.Pkg = path
					n = p.ident()
				}
			}
			if kw == "functype" && p.accept(".") { // a field holding a function: Pkg.Struct.Field
				n += "." + p.ident()
			}
			if kw == "iface" {
				// Pkg.Type.Method
				if p.accept(".") {
					c.Recv = n
					c.RecvName = "self"
					n = p.ident()
				}
			}
			c.Name = n
			c.Params = p.nameList()
			if p.is("(") {
				c.Results = p.nameList()
			}
			for {
				switch {
				case p.accept("requires"):
					c.Requires = append(c.Requires, p.clause())
				case p.accept("ensures"):
					c.Ensures = append(c.Ensures, p.clause())
				case p.accept("given"):
					c.Given = append(c.Given, p.clause())
				case p.accept("stands"):
					c.Stands = append(c.Stands, p.clause())
				case p.accept("before"):
					b := &Before{Callee: p.ident()}
					b.Clause = p.clause()
					c.Before = append(c.Before, b)
				case p.accept("assumes"):
					c.Assumes = append(c.Assumes, p.clause())
				case p.accept("invariant"):
					c.Invs = append(c.Invs, p.clause())
				case p.accept("decreases"):
					c.Decr = append(c.Decr, p.clause())
				case p.accept("hint"):
					c.Hints = append(c.Hints, p.clause())
				case p.accept("modifies"):
					if p.accept("*") {
						c.ModAll = true
					} else {
						c.Modifies = append(c.Modifies, p.expr())
						for p.accept(",") {
							c.Modifies = append(c.Modifies, p.expr())
						}
					}
				case p.accept("property"):
					c.Props = append(c.Props, p.identList()...)
				case p.accept("internal"):
					c.Internal = true
				case p.accept("trusted"):
					c.Trusted = true
				case p.accept("pure"):
					c.Pure = true
				case p.accept("inline"):
					c.Inline = true
				case p.accept("apply"):
					c.Applies = append(c.Applies, p.applyClause())
				case p.accept("use"):
					c.Uses = append(c.Uses, p.identList()...)
				case p.accept("opt"):
					k := p.ident()
					v := "1"
					if p.accept("=") {
						v = p.cur().s
						p.p++
					}
					c.Opts[k] = v
				default:
					goto doneC
				}
			}
		doneC:
			if sp.Contracts[c.Key()] != nil {
				p.fail("duplicate contract %s", c.Key())
			}
			sp.Contracts[c.Key()] = c
			sp.Order = append(sp.Order, c)
		default:
			p.fail("unexpected %q", kw)
		}
	}
	return nil
}

func (p *parser) identList() []string {
	out := []string{p.ident()}
	for p.accept(",") {
		out = append(out, p.ident())
	}
	return out
}
