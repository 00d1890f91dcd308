package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/JohannesKaufmann/html-to-markdown/v2"

const domPath = "github.com/JohannesKaufmann/dom"
const htmlPath = "golang.org/x/net/html"

type Prog struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	all     map[string]*types.Package
	ssaPkg  map[string]*ssa.Package
	globals map[*ssa.Global]Val
	gstores map[*ssa.Global]bool
	inst    map[string]*ssa.Function
}

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...", domPath, htmlPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics|ssa.GlobalDebug)
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	r := &Prog{prog: prog, pkgs: pkgs, all: map[string]*types.Package{}, ssaPkg: map[string]*ssa.Package{}, globals: map[*ssa.Global]Val{}}
	for i, p := range pkgs {
		if spkgs[i] != nil {
			r.ssaPkg[p.PkgPath] = spkgs[i]
		}
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { r.all[p.PkgPath] = p.Types })
	r.gstores = map[*ssa.Global]bool{}
	for _, sp := range r.ssaPkg {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				r.scanGlobalStores(f)
			}
		}
	}
	return r, nil
}

func (p *Prog) scanGlobalStores(f *ssa.Function) {
	if f.Synthetic != "" && f.Name() == "init" {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					p.gstores[g] = true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		p.scanGlobalStores(a)
	}
}

// pkgByName finds a package by path suffix or by name, the repository first.
func (p *Prog) pkgByName(n string) *types.Package {
	if t, ok := p.all[n]; ok {
		return t
	}
	if t, ok := p.all[modPath+"/"+n]; ok {
		return t
	}
	if n == "." || n == "htmltomarkdown" {
		return p.all[modPath]
	}
	var cands []string
	for path, t := range p.all {
		if t.Name() == n || strings.HasSuffix(path, "/"+n) {
			cands = append(cands, path)
		}
	}
	sort.Slice(cands, func(i, j int) bool {
		a, b := strings.HasPrefix(cands[i], modPath), strings.HasPrefix(cands[j], modPath)
		if a != b {
			return a
		}
		if len(cands[i]) != len(cands[j]) {
			return len(cands[i]) < len(cands[j])
		}
		return cands[i] < cands[j]
	})
	if len(cands) > 0 {
		return p.all[cands[0]]
	}
	return nil
}

func (p *Prog) findType(n string) types.Type {
	i := strings.LastIndex(n, ".")
	if i < 0 {
		if o := types.Universe.Lookup(n); o != nil {
			return o.Type()
		}
		panic(specErr("unknown type " + n))
	}
	pk := p.pkgByName(n[:i])
	if pk == nil {
		// the type of a struct field: pkg.Type.field
		if j := strings.LastIndex(n[:i], "."); j > 0 {
			if st, ok := p.findType(n[:i]).Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == n[i+1:] {
						return st.Field(k).Type()
					}
				}
			}
		}
		panic(specErr("unknown package in type " + n))
	}
	o := pk.Scope().Lookup(n[i+1:])
	if o == nil && n[:i] == "html" {
		if q := p.all["golang.org/x/net/html"]; q != nil {
			o = q.Scope().Lookup(n[i+1:])
		}
	}
	if o == nil {
		panic(specErr("unknown type " + n))
	}
	return o.Type()
}

func (p *Prog) findConst(n string) (*Term, bool) {
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil, false
	}
	pk := p.pkgByName(n[:i])
	if pk == nil {
		return nil, false
	}
	o := pk.Scope().Lookup(n[i+1:])
	c, ok := o.(*types.Const)
	if !ok {
		return nil, false
	}
	return constTerm(c.Val(), c.Type()), true
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkLit(constant.StringVal(v))
	case constant.Int:
		if b, ok := constant.Val(v).(*big.Int); ok {
			return mkBig(b)
		}
		i, _ := constant.Int64Val(v)
		return mkInt(i)
	}
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		k, _ := constant.Int64Val(i)
		return mkInt(k)
	}
	return mkVar("const_"+symClean(v.String()), opaqueSort("Float"))
}

func symClean(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func typeName(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		o := u.Obj()
		n := o.Name()
		if u.TypeArgs() != nil {
			for i := 0; i < u.TypeArgs().Len(); i++ {
				n += "_" + typeName(u.TypeArgs().At(i))
			}
		}
		if o.Pkg() != nil {
			return symClean(o.Pkg().Name() + "." + n)
		}
		return n
	case *types.Alias:
		return typeName(types.Unalias(t))
	}
	return symClean(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

var tagIDs = map[string]int{}

func typeTag(n string) *Term {
	id, ok := tagIDs[n]
	if !ok {
		id = len(tagIDs) + 1
		tagIDs[n] = id
	}
	return mkInt(int64(id))
}

var goSortMemo = map[string]*Sort{}

func isBufferType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// isSyncType: locks carry no data; operations on them are no-ops here.
func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func goSort(t types.Type) *Sort {
	t = types.Unalias(t)
	if isBufferType(t) {
		return SB
	}
	if isSyncType(t) {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SB
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		}
		return opaqueSort("Float")
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return SB
		}
		return seqOf(goSort(u.Elem()))
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return SB
		}
		return seqOf(goSort(u.Elem()))
	case *types.Struct:
		n := "T_" + typeName(t)
		if s, ok := sortReg[n]; ok {
			return s
		}
		var fs []SortField
		for i := 0; i < u.NumFields(); i++ {
			fn := u.Field(i).Name()
			if fn == "_" {
				fn = fmt.Sprintf("blank%d", i)
			}
			fs = append(fs, SortField{fn, goSort(u.Field(i).Type())})
		}
		return structSort(n, fs)
	}
	return SInt
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isUint8(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// findFunc resolves a contract to the SSA function it specifies.
func (p *Prog) findFunc(c *Contract) *ssa.Function {
	path := modPath
	if c.Pkg != "." && c.Pkg != "" && c.Pkg != "htmltomarkdown" {
		path = modPath + "/" + c.Pkg
	}
	if c.Pkg == "dom" {
		path = domPath
	} else if c.Pkg == "html" {
		path = htmlPath
	}
	sp := p.ssaPkg[path]
	if sp == nil {
		return nil
	}
	name := c.Name
	anon := ""
	if i := strings.Index(name, "$"); i >= 0 {
		name, anon = name[:i], name[i+1:]
	}
	var f *ssa.Function
	if c.Recv != "" {
		tn, _ := sp.Pkg.Scope().Lookup(c.Recv).(*types.TypeName)
		if tn == nil {
			return nil
		}
		if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
			return p.instance(fnPath(sp.Pkg.Path()) + "." + c.Recv + "." + name)
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, name); sel != nil {
				m := p.prog.MethodValue(sel)
				if m != nil && m.Synthetic == "" {
					f = m
					break
				}
			}
		}
	} else {
		f = sp.Func(name)
		if f != nil && f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return p.instance(fnKey(f))
		}
	}
	if f == nil {
		return nil
	}
	if anon != "" {
		for _, a := range f.AnonFuncs {
			if strings.HasSuffix(a.Name(), "$"+anon) {
				return a
			}
		}
		return nil
	}
	return f
}

func fnPath(path string) string {
	if path == modPath {
		return "htmltomarkdown"
	}
	if path == domPath {
		return "dom"
	}
	if path == htmlPath {
		return "html"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// instance picks one instantiation of a generic function: type parameters
// carry no operations here, so the proof of one stands for all of them.
func (p *Prog) instance(key string) *ssa.Function {
	if p.inst == nil {
		p.inst = map[string]*ssa.Function{}
		for f := range ssautil.AllFunctions(p.prog) {
			if f.Origin() == nil || f.Parent() != nil || len(f.TypeArgs()) == 0 || len(f.Blocks) == 0 {
				continue
			}
			conc := true
			for _, t := range f.TypeArgs() {
				if _, ok := t.(*types.TypeParam); ok {
					conc = false
				}
			}
			if !conc {
				continue
			}
			k := fnKey(f)
			if o := p.inst[k]; o == nil || f.String() < o.String() {
				p.inst[k] = f
			}
		}
	}
	return p.inst[key]
}

// fnKey returns the contract key of an SSA function: "pkg.Recv.Name".
func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil && f.Object() == nil {
		return f.Name()
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	path = fnPath(path)
	name := f.Name()
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return path + "." + n.Obj().Name() + "." + name
		}
	}
	return path + "." + name
}

func inRepo(f *ssa.Function) bool {
	g := f
	if g.Origin() != nil {
		g = g.Origin()
	}
	for g.Parent() != nil {
		g = g.Parent()
	}
	var path string
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	} else if g.Object() != nil && g.Object().Pkg() != nil {
		path = g.Object().Pkg().Path()
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}
