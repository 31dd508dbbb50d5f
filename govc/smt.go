package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ---- go/types -------------------------------------------------------------------

// basicKind is the kind of a *types.Basic.
func basicKind(p *Term) *Term { return Fn("types.kind", "Int", p) }

func basicType() types.Type { return typesByName("go/types", "Basic") }

var progPackages []*ssa.Package

func typesByName(pkg, name string) types.Type {
	for _, p := range progPackages {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

const typTableLen = 26

func typTable() *Term { return Fn("types.Typ", seqSort(ptrSort(basicType()))) }

func identicalTypes(a, b *Term) *Term {
	bt := types.NewPointer(basicType())
	both := And(IsBox(bt, a), IsBox(bt, b))
	return Ite(both, Eq(basicKind(Unbox(bt, a)), basicKind(Unbox(bt, b))), Or(Eq(a, b), Fn("types.identical", "Bool", a, b)))
}

// ---- formats ----------------------------------------------------------------------

// literalFormats are the constant texts of the program with one or more %s
// verbs and no other: what Sprintf makes of them is known even where the
// format is a value.
var literalFormats []string

func collectFormats(fns map[*ssa.Function]bool) {
	seen := map[string]bool{}
	for fn := range fns {
		if !isRepoFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(c.Value)
					n := strings.Count(s, "%s")
					if n >= 1 && n <= 3 && strings.Count(s, "%") == n && !seen[s] {
						seen[s] = true
						literalFormats = append(literalFormats, s)
					}
				}
			}
		}
	}
	sort.Strings(literalFormats)
}

func formatAxioms() []*Term {
	var out []*Term
	as := seqSort("Any")
	for _, s := range literalFormats {
		q := Empty(as)
		var vs []*Term
		var parts []*Term
		ps := strings.Split(s, "%s")
		for i, p := range ps {
			parts = append(parts, StrT(p))
			if i < len(ps)-1 {
				v := BVar("a", "String")
				vs = append(vs, v)
				parts = append(parts, v)
				q = Push(q, Box(types.Typ[types.String], v))
			}
		}
		app := mk("fn", "fmt.format", "String", StrT(s), q)
		out = append(out, ForAll(vs, Eq(app, Concat(parts...)), []*Term{app}))
	}
	return out
}

func init() {
	fnAxioms["fmt.format"] = formatAxioms
	fnAxioms["types.Typ"] = func() []*Term {
		t := typTable()
		out := []*Term{Eq(Len(t), IntT(typTableLen))}
		i := BVar("i", "Int")
		e := Nth(t, i)
		out = append(out, ForAll([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, IntT(typTableLen))),
			And(Not(IsNilPtr(basicType(), e)), Eq(basicKind(e), i))), []*Term{e}))
		return out
	}
	// the decimal text of a number is that of no other
	fnAxioms["itoa"] = func() []*Term {
		n := BVar("n", "Int")
		t := Fn("itoa", "String", n)
		return []*Term{ForAll([]*Term{n}, Eq(Fn("itoa.inverse", "Int", t), n), []*Term{t})}
	}
	globalVals["go/types.Typ"] = func(x *Exec, st *State) SVal { return typTable() }
	pure := func(name, note string, f func(a []*Term) *Term) {
		externs[name] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(st, a))
			}
			return one(st, f(ts))
		}
		externNote[name] = note
		pureFns[name] = f
	}
	pure("go/types.Identical", "two basic types are identical exactly when their kinds are equal", func(a []*Term) *Term { return identicalTypes(a[0], a[1]) })
	pure("(*go/types.Basic).Kind", "the kind of a basic type; Typ[k] has kind k", func(a []*Term) *Term { return basicKind(a[0]) })
	pure("strings.ReplaceAll", "a function of its arguments", func(a []*Term) *Term { return Fn("strings.ReplaceAll", "String", a...) })
	setupHooks = append(setupHooks, func(pkgs []*packages.Package, prog *ssa.Program) {
		progPackages = prog.AllPackages()
	})
}

// ---- methods of unknown implementations of an interface ------------------------------

// implementers are the types of the repository that implement an interface
// declared in it.
func (x *Exec) implementers(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPath) {
		return nil
	}
	iface := n.Underlying().(*types.Interface)
	var out []types.Type
	for _, p := range x.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), repoPath) {
			continue
		}
		var names []string
		for name := range p.Members {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			t, ok := p.Members[name].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) || hasTypeParam(t.Type()) {
				continue
			}
			switch {
			case types.Implements(t.Type(), iface):
				out = append(out, t.Type())
			case types.Implements(types.NewPointer(t.Type()), iface):
				out = append(out, types.NewPointer(t.Type()))
			}
		}
	}
	return out
}

// invokeImplementers branches over the implementations of an interface.
func (x *Exec) invokeImplementers(st *State, r *Term, it types.Type, m *types.Func, args []SVal, pos token.Pos) ([]Outcome, bool) {
	ts := x.implementers(it)
	if len(ts) == 0 {
		return nil, false
	}
	var is []*Term
	for _, t := range ts {
		is = append(is, IsBox(t, r))
	}
	x.oblige(st, "safety", "the value has a type of the repository", Or(is...), pos)
	var outs []Outcome
	for i, t := range ts {
		f := x.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			return nil, false
		}
		s := st
		if i < len(ts)-1 {
			s = st.clone()
		}
		s.assume(is[i])
		if s.infeasible() {
			continue
		}
		outs = append(outs, x.callFn(s, f, append([]SVal{Unbox(t, r)}, args...), nil, pos)...)
	}
	return outs, true
}

// ---- variables initialised by a function under contract -------------------------------

// initialised is what the contract of the initialiser says about a variable.
func (x *Exec) initialised(st *State, g *ssa.Global, v *Term) {
	if !neverWritten(g) || len(globalStores[g]) != 1 {
		return
	}
	if s := staticOf(g); s != nil && s.ptr && !s.other && !s.changes(typesWritten) {
		s.facts(x, st, v, 4)
		return
	}
	call, ok := globalStores[g][0].Val.(*ssa.Call)
	if !ok || len(call.Call.Args) != 0 {
		return
	}
	f := call.Call.StaticCallee()
	if f == nil || f == x.unitFn {
		return
	}
	c := contracts[f]
	if c == nil {
		return
	}
	x.usedContracts[c] = true
	for _, cl := range c.get("post", x.prop) {
		st.assume(bindClause(cl, []*Term{v}, st.world, st.world))
	}
}

// mapsChanged finds the maps in package variables that are changed by others.
func mapsChanged(fns map[*ssa.Function]bool) {
	from := func(v ssa.Value) *ssa.Global {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			g, _ := u.X.(*ssa.Global)
			return g
		}
		return nil
	}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.MapUpdate:
					if g := from(ins.Map); g != nil {
						globalEscapes[g] = true
					}
				case *ssa.Store:
					// an element of a slice or array in a package variable
					if ia, ok := ins.Addr.(*ssa.IndexAddr); ok {
						if g := from(ia.X); g != nil {
							globalEscapes[g] = true
						}
					}
				case *ssa.Call:
					if bi, ok := ins.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
						if g := from(ins.Call.Args[0]); g != nil {
							globalEscapes[g] = true
						}
					}
				}
			}
		}
	}
}

// ---- loops with a known number of rounds -----------------------------------------------

const maxUnroll = 64

// headDecided: the condition at the head of the loop is known in this state.
func (x *Exec) headDecided(fn *ssa.Function, l *loopInfo, st *State) (decided bool) {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupportedError); ok {
				decided = false
				return
			}
			panic(e)
		}
	}()
	x.quiet++
	defer func() { x.quiet-- }()
	s := st.clone()
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			b, ok := ins.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			s.env[ins] = x.builtin(s, b, ins.Common(), ins.Pos())[0].res[0]
			continue
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert:
		default:
			return false
		}
		x.instr(fn, s, ins)
	}
	c := x.term(s, x.value(s, iff.Cond))
	return c == True || c == False
}

// unroll executes a loop round by round if the number of rounds is known.
func (x *Exec) unroll(fn *ssa.Function, l *loopInfo, st *State) *regionResult {
	if !x.headDecided(fn, l, st) {
		return nil
	}
	obls := len(x.obls)
	rr := &regionResult{}
	r := &loopRun{x: x, fn: fn, l: l}
	cur := st.clone()
	for n := 0; n <= maxUnroll; n++ {
		if !x.headDecided(fn, l, cur) {
			break
		}
		sub := r.body(cur)
		rr.returns = append(rr.returns, sub.returns...)
		rr.exits = append(rr.exits, sub.exits...)
		if len(sub.backs) == 0 {
			return rr
		}
		backs := x.joinStates(sub.backs, 1)
		if len(backs) != 1 {
			break
		}
		cur = backs[0]
	}
	x.obls = x.obls[:obls]
	return nil
}

// ---- what is written to -----------------------------------------------------------------

// A writes clause names the only destination a function writes to, beside
// those it made itself (none: nil).

type writesClause struct {
	props map[string]bool
	spec  *Clause // nil: nothing
	field int     // of the first parameter, if spec is nil and via is set
	via   bool
}

var writesOf = map[*Contract]*writesClause{}
var writesVia = map[string]*viaClause{} // pkg.Type

type viaClause struct {
	field string
	props map[string]bool
}

func framing(prop string) bool {
	for _, w := range writesOf {
		if w.props[prop] {
			return true
		}
	}
	return false
}

// destination is what a function under contract writes to.
func (c *Contract) destination(prop string, entry []*Term) (d *Term, known bool) {
	if w := writesOf[c]; w != nil && w.props[prop] {
		if w.spec == nil {
			return AnyNil, true
		}
		return bindClause(w.spec, entry, nil, nil), true
	}
	if c.fn == nil || len(c.fn.Params) == 0 {
		return nil, false
	}
	p, ok := c.fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	v := writesVia[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	if v == nil || !v.props[prop] {
		return nil, false
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == v.field {
			return FieldOf(n, i, Deref(n, entry[0])), true
		}
	}
	return nil, false
}

// mayWrite obliges the unit to write only to its destination.
func (x *Exec) mayWrite(st *State, d *Term, pos token.Pos) {
	if x.unit == nil || d == AnyNil {
		return
	}
	own, known := x.unit.destination(x.prop, x.inputs)
	if !known || x.made[d] {
		return
	}
	x.oblige(st, "frame", "writes to its destination only", Eq(d, own), pos)
}

// onlyWritten assumes that all other destinations are as they were.
func (x *Exec) onlyWritten(st *State, d, w0, w1 *Term) {
	if !framing(x.prop) {
		return
	}
	var isBuf []*Term
	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		if t := ptrTo(x, b); t != nil {
			isBuf = append(isBuf, IsBox(t, d))
		}
	}
	quiet := Or(append(isBuf, Eq(d, AnyNil))...)
	if quiet == False {
		return
	}
	for _, name := range []string{"Out", "WErr", "Late"} {
		w := BVar("w", "Any")
		o1 := observe(name, w, w1)
		if o1 == nil {
			continue
		}
		o0 := observe(name, w, w0)
		st.assume(Implies(quiet, ForAll([]*Term{w}, Implies(Not(Eq(w, d)), Eq(o1, o0)), []*Term{o1})))
	}
}
