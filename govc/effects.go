package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Effects. A call of a function value or of an interface method whose
// implementation is unknown (a visitor, a predicate) is modelled by two ghost
// functions of the specification: its result and the state of the world after
// it, both arbitrary functions of the arguments and of the world before. What
// a contract says with them holds for every visitor and predicate, and equal
// worlds mean the same calls in the same order.
//
//	//verif:dynamic result | world        first parameter: the function value
//	//verif:invoke Visit result | world   first parameter: the interface value

type effect struct {
	result, world *SpecFn
	iface         types.Type
	method        string
}

var dynEffects = map[string]*effect{}
var invEffects = map[string]*effect{}

func (e *effect) apply(x *Exec, st *State, args []*Term) []Outcome {
	if st.world == nil {
		panic(unsupported("an effect without a world"))
	}
	all := append(append([]*Term(nil), args...), st.world)
	r := e.result.Apply(fuelN(fuelDepth), all...)
	st.world = e.world.Apply(fuelN(fuelDepth), all...)
	return one(st, r)
}

// registerEffect handles the two directives.
func registerEffect(kind string, fields []string, sp *SpecFn) {
	p0 := sp.params[0].Type()
	table, key := dynEffects, typeKey(p0)
	var method string
	if kind == "invoke" {
		method = fields[0]
		fields = fields[1:]
		table, key = invEffects, typeKey(p0)+"."+method
	}
	e := table[key]
	if e == nil {
		e = &effect{iface: p0, method: method}
		table[key] = e
	}
	if fields[0] == "world" {
		e.world = sp
	} else {
		e.result = sp
	}
	if kind == "invoke" {
		invokes[key] = func(x *Exec, st *State, recv *Term, args []SVal, pos token.Pos) []Outcome {
			ts := []*Term{recv}
			for _, a := range args {
				ts = append(ts, x.give(st, a))
			}
			return e.apply(x, st, ts)
		}
	}
}

func init() {
	dynamicHook = func(x *Exec, st *State, f *Term, sig *types.Signature, args []*Term) ([]Outcome, bool) {
		e := dynEffects[typeKey(sig)]
		if e == nil || e.result == nil || e.world == nil {
			return nil, false
		}
		return e.apply(x, st, append([]*Term{f}, args...)), true
	}
	setupHooks = append(setupHooks, func(pkgs []*packages.Package, prog *ssa.Program) {
		entryHooks = append(entryHooks, func(x *Exec, st *State) { x.implementations(st) })
	})
}

// summary executes fn for arbitrary arguments: result and world afterwards as
// terms over the parameters and the world before.
func (x *Exec) summary(st *State, fn *ssa.Function, params []*Term, binds []SVal) (val, world, w *Term, ok bool) {
	before := map[string]int{}
	for k, v := range freshCount {
		before[k] = v
	}
	x.quiet++
	defer func() { x.quiet-- }()
	s0 := st.clone()
	if s0.world != nil {
		w = Fresh("w", s0.world.sort)
		s0.world = w
	}
	n0 := len(s0.facts)
	var args []SVal
	for _, p := range params {
		args = append(args, p)
	}
	outs, ok := x.tryInline(s0, fn, args, binds)
	if !ok || len(outs) == 0 {
		return nil, nil, nil, false
	}
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		for ob, cell := range st.heap {
			if o.st.heap[ob] != cell && !(o.st.heap[ob] != nil && o.st.heap[ob].val == cell.val) {
				return nil, nil, nil, false // changes captured variables
			}
		}
		var r *Term
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(unsupportedError); !is {
						panic(e)
					}
				}
			}()
			r = x.snapshot(o.st, o.res[0])
		}()
		if r == nil {
			return nil, nil, nil, false
		}
		if val == nil {
			val, world = r, o.st.world
		} else {
			// which way the body went, whether or not it panicked there: the
			// result where it panics is of no account
			var way []*Term
			for _, f := range o.st.facts[n0:] {
				if !contains(o.st.safe, f) {
					way = append(way, f)
				}
			}
			c := And(way...)
			val = Ite(c, r, val)
			if world != nil {
				world = Ite(c, o.st.world, world)
			}
		}
	}
	// nothing but the parameters may be left open
	allowed := map[*Term]bool{}
	for _, p := range params {
		allowed[p] = true
	}
	if w != nil {
		allowed[w] = true
	}
	closed := true
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && !allowed[t] {
			if i := strings.LastIndexByte(t.name, '!'); i > 0 {
				if n, err := strconv.Atoi(t.name[i+1:]); err == nil {
					base := before[t.name[:i]]
					for k, v := range before {
						if sanitize(k) == t.name[:i] && v > base {
							base = v
						}
					}
					if n > base {
						closed = false
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(val)
	walk(world)
	if !closed {
		return nil, nil, nil, false
	}
	return val, world, w, true
}

// summaryAxiom states the summary of fn, whose calls are written by app
// (result) and appW (world), for all arguments.
func summaryAxiom(params []*Term, w, val, world *Term, app, appW func(args []*Term) *Term) *Term {
	m := map[*Term]*Term{}
	var bvs, args []*Term
	for _, p := range params {
		b := BVar(p.name, p.sort)
		m[p] = b
		bvs = append(bvs, b)
		args = append(args, p)
	}
	if appW != nil {
		b := BVar("w", w.sort)
		m[w] = b
		bvs = append(bvs, b)
		args = append(args, w)
	}
	a := app(args)
	body := Eq(a, val)
	pats := [][]*Term{{Subst(a, m)}}
	if appW != nil {
		aw := appW(args)
		body = And(body, Eq(aw, world))
		pats = append(pats, []*Term{Subst(aw, m)})
	}
	return ForAll(bvs, Subst(body, m), pats...)
}

// implementations tells what the methods of the repository's own types do when
// they are called through an interface with an effect.
func (x *Exec) implementations(st *State) {
	var keys []string
	for k := range invEffects {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := invEffects[k]
		if e.result == nil || e.world == nil {
			continue
		}
		it := e.iface.Underlying().(*types.Interface)
		var names []string
		for n := range universeKey {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t := universeKey[n]
			if types.IsInterface(t) || !types.Implements(t, it) {
				continue
			}
			f := x.prog.LookupMethod(t, nil, e.method)
			if f == nil || !isRepoFn(f) || f == x.unitFn {
				continue
			}
			recv := Fresh("recv", SortOf(t))
			params := []*Term{recv}
			for _, p := range f.Params[1:] {
				params = append(params, Fresh(p.Name(), SortOf(p.Type())))
			}
			val, world, w, ok := x.summary(st, f, params, nil)
			if !ok || w == nil {
				continue
			}
			call := func(sp *SpecFn) func(args []*Term) *Term {
				return func(args []*Term) *Term {
					as := append([]*Term{Box(t, args[0])}, args[1:]...)
					return sp.Apply(fuelN(fuelDepth), as...)
				}
			}
			st.assume(summaryAxiom(params, w, val, world, call(e.result), call(e.world)))
		}
	}
}

// ---- contracts for one known closure ----------------------------------------------

// A contract named F@G$1 is about calls of F whose visitor or function
// argument is the closure G$1; its clauses name the captured variables
// (contents before) and name_out (contents after).

func closureByName(prog *ssa.Program, pkg *types.Package, name string) *ssa.Function {
	i := strings.IndexByte(name, '$')
	if i < 0 {
		return nil
	}
	sp := prog.Package(pkg)
	if sp == nil {
		return nil
	}
	f := sp.Func(name[:i])
	n, err := strconv.Atoi(name[i+1:])
	if f == nil || err != nil || n < 1 || n > len(f.AnonFuncs) {
		return nil
	}
	return f.AnonFuncs[n-1]
}

func (c *Contract) closure(x *Exec) *ssa.Function {
	return closureByName(x.prog, c.fn.Pkg.Pkg, c.variant)
}

// closureArg finds the closure cl among the arguments.
func closureArg(args []SVal, cl *ssa.Function) (int, *Clo) {
	for i, a := range args {
		if b, ok := a.(*BoxV); ok {
			a = b.val
		}
		if c, ok := a.(*Clo); ok && c.fn == cl {
			return i, c
		}
	}
	return -1, nil
}

// setupVariant replaces the parameter that takes the closure.
func (x *Exec) setupVariant(st *State, c *Contract, args []SVal) bool {
	cl := c.closure(x)
	if cl == nil {
		panic(unsupported("no closure %s", c.variant))
	}
	clo := &Clo{fn: cl}
	for _, fv := range cl.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("captured variable %s by value", fv.Name()))
		}
		o := x.newObj(pt.Elem(), fv.Name())
		o.known = true
		st.heap[o] = &Cell{val: Var("cap."+fv.Name(), SortOf(pt.Elem()))}
		clo.binds = append(clo.binds, &Ref{obj: o, elem: pt.Elem()})
	}
	for i, p := range c.fn.Params {
		if types.Identical(p.Type().Underlying(), cl.Signature) {
			args[i] = clo
			x.variantClo = clo
			return true
		}
		it, ok := p.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		var names []string
		for n := range universeKey {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t := universeKey[n]
			if s, ok := t.Underlying().(*types.Signature); ok && types.Identical(s, cl.Signature) && types.Implements(t, it) {
				args[i] = &BoxV{typ: t, val: clo}
				x.variantClo = clo
				return true
			}
		}
	}
	panic(unsupported("%s has no parameter for %s", c.fn.Name(), c.variant))
}

func (x *Exec) captured(st *State, clo *Clo) map[string]*Term {
	m := map[string]*Term{}
	for i, fv := range clo.fn.FreeVars {
		if r, ok := clo.binds[i].(*Ref); ok {
			m[fv.Name()] = x.snapshot(st, st.heap[r.obj].val)
		}
	}
	return m
}

// bindNamed applies a clause of a variant contract.
func bindNamed(cl *Clause, named map[string]*Term, vals []*Term, w0, w1 *Term) *Term {
	var args []*Term
	vi, wi := 0, 0
	for _, p := range cl.spec.params {
		if isWorld(p.Type()) {
			if wi == 0 {
				args = append(args, w0)
			} else {
				args = append(args, w1)
			}
			wi++
			continue
		}
		if t, ok := named[p.Name()]; ok {
			args = append(args, t)
			continue
		}
		if vi >= len(vals) {
			panic(unsupported("contract %s: too many parameters", cl.label))
		}
		args = append(args, vals[vi])
		vi++
	}
	return cl.spec.Apply(fuelN(fuelDepth), args...)
}

// callVariant is a call under a variant contract.
func (x *Exec) callVariant(st *State, c *Contract, fn *ssa.Function, args []SVal, pos token.Pos) []Outcome {
	x.usedContracts[c] = true
	ci, clo := closureArg(args, c.closure(x))
	named := x.captured(st, clo)
	var vals []*Term
	for i, a := range args {
		if i != ci {
			vals = append(vals, x.give(st, a))
		}
	}
	full := append([]*Term(nil), vals...)
	if ci >= 0 {
		full = append(append(append([]*Term(nil), vals[:ci]...), nil), vals[ci:]...)
	}
	x.recursion(st, fn, full, pos)
	w0 := st.world
	for _, cl := range c.get("pre", x.prop) {
		g := bindNamed(cl, named, vals, w0, w0)
		x.oblige(st, "pre", c.name+": "+cl.label, g, pos)
		st.assume(g)
	}
	if st.world != nil {
		st.world = Fresh("world", st.world.sort)
	}
	for i, fv := range clo.fn.FreeVars {
		r, ok := clo.binds[i].(*Ref)
		if !ok {
			continue
		}
		if !writesFreeVar(clo.fn, fv) {
			continue
		}
		cell := st.heap[r.obj]
		st.heap[r.obj] = &Cell{val: x.freshLike(st, cell.val, r.obj.typ, fv.Name()), escaped: cell.escaped}
	}
	for k, v := range x.captured(st, clo) {
		named[k+"_out"] = v
	}
	var res []SVal
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		t := Fresh("r."+fn.Name(), SortOf(sig.Results().At(i).Type()))
		res = append(res, t)
		vals = append(vals, t)
	}
	for _, cl := range c.get("post", x.prop) {
		st.assume(bindNamed(cl, named, vals, w0, st.world))
	}
	return one(st, res...)
}

func writesFreeVar(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == fv {
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == ssa.Value(fv) {
					return true
				}
			}
		}
	}
	return false
}

var _ = packages.NeedName

func contains(ts []*Term, t *Term) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}
