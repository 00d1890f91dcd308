package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Lock discipline. `guarded pkg.Type.mutex f, g, ...` states that the fields f,
// g, ... of an object are only read while the object's mutex is held by this
// goroutine, and only written while it is held exclusively; objects that the
// function made itself are not shared yet. Every function also has to leave
// with the locks it came with, takes no lock it holds already, and calls no
// function under contract while holding one. The obligations are of kind
// "lock" and belong to the property that is about sharing.

type Guard struct {
	Type, Mutex string
	Fields      []string
	Props       []string
}

// lockProps: the properties for which lock obligations are generated (all of
// them when functions are verified one by one)
var lockProps = map[string]bool{}

const lockKind = "lock"

func (x *Exec) guardOf(t types.Type, field string) *Guard {
	n := typeName(t)
	for _, g := range x.sc.sp.Guards {
		if g.Type == n && hasStr(g.Fields, field) {
			return g
		}
	}
	return nil
}

func (x *Exec) lockCell(typ, mutex string) *Cell {
	k := typ + "." + mutex
	if x.lockCells == nil {
		x.lockCells = map[string]*Cell{}
		x.lock0 = map[string]*Term{}
	}
	c := x.lockCells[k]
	if c == nil {
		c = x.newCell("$lock_"+k, types.Typ[types.Int])
		x.lockCells[k] = c
		l0 := mkVar("lock$"+symClean(k)+"@0", arrayOf(SInt, SInt))
		x.lock0[k] = l0
		bv := freshBV("o", SInt)
		x.fact(mkForall([]*Term{bv}, [][]*Term{{mkSelect(l0, bv)}}, mkEq(mkSelect(l0, bv), mkInt(0))))
	}
	return c
}

func (x *Exec) lockState(st *State, typ, mutex string) *Term {
	c := x.lockCell(typ, mutex)
	if t, ok := st.cells[c].(*Term); ok {
		return t
	}
	return x.lock0[typ+"."+mutex]
}

func lockOn() bool { return len(lockProps) > 0 }

func lockTags() []string { return sortedKeys(lockProps) }

// syncOp: taking and releasing a lock.
func (x *Exec) syncOp(st *State, g *Term, fn *ssa.Function, args []Val, pos token.Pos, cond *Term) {
	if !lockOn() || len(args) == 0 {
		return
	}
	a, ok := args[0].(*Addr)
	if !ok || a.Cell != nil || len(a.Path) != 1 || a.Path[0].Field < 0 {
		return
	}
	typ, mutex := typeName(a.Typ), fieldOf(a.Typ, a.Path[0].Field).Name()
	guarded := false
	for _, gd := range x.sc.sp.Guards {
		guarded = guarded || gd.Type == typ && gd.Mutex == mutex
	}
	if !guarded {
		return
	}
	cur := x.lockState(st, typ, mutex)
	held := mkSelect(cur, a.Ref)
	var next *Term
	say := func(ok *Term, src string) {
		if ok != TTrue {
			x.assert(lockKind, "lock", src, lockTags(), g, ok, pos, nil)
		}
	}
	switch fn.Name() {
	case "Lock":
		say(mkEq(held, mkInt(0)), "the lock is not held already")
		next = mkStore(cur, a.Ref, mkInt(2))
	case "RLock":
		say(mkEq(held, mkInt(0)), "the lock is not held already")
		next = mkStore(cur, a.Ref, mkInt(1))
	case "Unlock", "RUnlock":
		want := mkInt(2)
		if fn.Name() == "RUnlock" {
			want = mkInt(1)
		}
		say(mkImp(cond, mkEq(held, want)), "the lock that is released is held")
		if cur.Op == "store" && cur.Args[1] == a.Ref {
			next = cur.Args[0] // it was not held before, see above
		} else {
			next = mkStore(cur, a.Ref, mkInt(0))
		}
	default:
		return
	}
	if cond != TTrue {
		next = mkIte(cond, next, cur)
	}
	st.cells[x.lockCell(typ, mutex)] = next
}

// guardedAccess: reading (1) or writing (2) a field, or what a map in it holds
func (x *Exec) guardedAccess(st *State, g *Term, a *Addr, need int64, pos token.Pos) {
	if !lockOn() || a == nil || a.Cell != nil || len(a.Path) == 0 || a.Path[0].Field < 0 || a.Ref == nil {
		return
	}
	if _, ok := a.Typ.Underlying().(*types.Struct); !ok {
		return
	}
	f := fieldOf(a.Typ, a.Path[0].Field).Name()
	gd := x.guardOf(a.Typ, f)
	if gd == nil {
		return
	}
	what := "reading " + f + " with the lock held"
	if need == 2 {
		what = "writing " + f + " with the lock held exclusively"
	}
	held := mkSelect(x.lockState(st, gd.Type, gd.Mutex), a.Ref)
	ok := mkOr(mkLe(mkInt(need), held), mkNot(mkApp("preexisting", SBool, a.Ref)))
	if ok != TTrue {
		x.assert(lockKind, "guarded."+f, what, lockTags(), g, ok, pos, nil)
	}
}

// mapSource: the address a map value was read from
func (x *Exec) mapSource(fr *Frame, st *State, v ssa.Value) *Addr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a, _ := x.val(fr, st, u.X).(*Addr)
		return a
	}
	return nil
}

// noLocks: the goroutine holds no lock (at calls and at the exit)
func (x *Exec) noLocks(st *State, g *Term, what string, pos token.Pos) {
	if !lockOn() {
		return
	}
	for _, k := range sortedKeys(x.lockCells) {
		i := strings.LastIndexByte(k, '.')
		cur := x.lockState(st, k[:i], k[i+1:])
		if cur != x.lock0[k] {
			x.assert(lockKind, "lock", what, lockTags(), g, mkEq(cur, x.lock0[k]), pos, nil)
		}
	}
}

// runSyncDefers releases what was deferred, last one first.
func (x *Exec) runSyncDefers(fr *Frame, st *State, g *Term, at *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		fn := d.call.StaticCallee()
		if fn == nil || !isSyncOp(fn) {
			continue
		}
		cond := TTrue
		if !d.block.Dominates(at) {
			cond = d.guard
		}
		x.syncOp(st, g, fn, d.args, d.call.Pos(), cond)
	}
}

// mayLock: does the function, or one it calls by name, take a lock?
func (x *Exec) mayLock(c *Contract) bool {
	f := x.prog.findFunc(c)
	if f == nil {
		return true
	}
	return takesLock(f, map[*ssa.Function]bool{})
}

func takesLock(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && takesLock(mc.Fn.(*ssa.Function), seen) {
				return true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil {
				if isSyncOp(g) && strings.HasSuffix(g.Name(), "Lock") || !isSyncOp(g) && takesLock(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// sharers lists the functions of the repository that touch a guarded field or
// its mutex; they are the ones the lock discipline has to be proved for.
func (p *Prog) sharers(sp *Spec) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(p.prog) {
		if !inRepo(f) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				n, fld := typeName(pt.Elem()), fieldOf(pt.Elem(), fa.Field).Name()
				for _, g := range sp.Guards {
					if g.Type == n && (g.Mutex == fld || hasStr(g.Fields, fld)) {
						out[fnKey(f)] = f
					}
				}
			}
		}
	}
	return out
}

// bareContract: a contract without clauses, for a function that has none.
func bareContract(f *ssa.Function, prop string) *Contract {
	k := fnKey(f)
	c := &Contract{Kind: "func", Props: []string{prop}, Opts: map[string]string{}, File: "(none)"}
	c.Name = f.Name()
	k = strings.TrimSuffix(k, "."+c.Name)
	if f.Signature.Recv() != nil {
		i := strings.LastIndexByte(k, '.')
		c.Recv = k[i+1:]
		k = k[:i]
		c.RecvName = f.Params[0].Name()
	}
	c.Pkg = k
	for i := 0; i < f.Signature.Params().Len(); i++ {
		c.Params = append(c.Params, f.Signature.Params().At(i).Name())
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		c.Results = append(c.Results, "r"+strconv.Itoa(i))
	}
	return c
}

// globalWrites: package-level variables are part of no function's frame once
// the package is initialised. Lists where one is written to all the same,
// without a lock of any kind being taken in that function.
func (p *Prog) globalWrites() (bad []string, funcs int) {
	for f := range ssautil.AllFunctions(p.prog) {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if !inRepo(f) || f.Synthetic != "" || root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") {
			continue
		}
		if root.Pkg != nil && (root.Pkg.Pkg.Name() == "main" || strings.Contains(root.Pkg.Pkg.Path(), "/cli/")) {
			continue // a program of its own, not part of the library
		}
		funcs++
		var at []ssa.Instruction
		locked := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if globalOf(in.Addr, 0) != nil {
						at = append(at, in)
					}
				case *ssa.MapUpdate:
					if globalOf(in.Map, 0) != nil {
						at = append(at, in)
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "sync") {
						locked = true
					}
				}
			}
		}
		for g := f; g != nil && !locked; g = g.Parent() { // sync.Once.Do(func() { ... })
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						if h := c.Common().StaticCallee(); h.Pkg != nil && strings.HasPrefix(h.Pkg.Pkg.Path(), "sync") {
							locked = true
						}
					}
				}
			}
		}
		if locked {
			continue
		}
		for _, in := range at {
			bad = append(bad, fnKey(f)+" frame/package-variables at "+p.prog.Fset.Position(in.Pos()).String()+": no package-level variable is written after initialisation")
		}
	}
	sort.Strings(bad)
	return bad, funcs
}

// globalOf: the package-level variable of the repository that an address or a
// map comes from
func globalOf(v ssa.Value, depth int) *ssa.Global {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Global:
		if v.Pkg != nil && strings.HasPrefix(v.Pkg.Pkg.Path(), modPath) {
			return v
		}
	case *ssa.FieldAddr:
		return globalOf(v.X, depth+1)
	case *ssa.IndexAddr:
		return globalOf(v.X, depth+1)
	case *ssa.Slice:
		return globalOf(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return globalOf(v.X, depth+1)
		}
	}
	return nil
}
