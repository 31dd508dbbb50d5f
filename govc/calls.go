package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callInstr executes a call instruction.
func (x *Exec) callInstr(st *State, ins ssa.Instruction, c *ssa.CallCommon) []Outcome {
	pos := ins.Pos()
	var args []SVal
	if c.IsInvoke() {
		recv := x.value(st, c.Value)
		for _, a := range c.Args {
			args = append(args, x.value(st, a))
		}
		return x.invoke(st, recv, c, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, c, pos)
	}
	for _, a := range c.Args {
		args = append(args, x.value(st, a))
	}
	switch f := x.value(st, c.Value).(type) {
	case *Clo:
		return x.callFn(st, f.fn, args, f.binds, pos)
	case *Term:
		return x.callDynamic(st, f, c.Signature(), args, pos)
	default:
		x.unsupported(pos, "call of %T", f)
	}
	return nil
}

func one(st *State, res ...SVal) []Outcome { return []Outcome{{st: st, res: res}} }

// callDynamic calls a function value that is not known.
func (x *Exec) callDynamic(st *State, f *Term, sig *types.Signature, args []SVal, pos token.Pos) []Outcome {
	x.safety(st, "call of a nil function", Not(Eq(f, Fn("nilfunc", "Func"))), pos)
	if outs, ok := x.callAction(st, f, sig, args); ok {
		return outs
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.give(st, a))
	}
	if h := dynamicHook; h != nil {
		if outs, ok := h(x, st, f, sig, ts); ok {
			return outs
		}
	}
	if sig.Results().Len() == 1 {
		return one(st, ApplyFunc(sig, f, ts))
	}
	x.unsupported(pos, "call of an unknown function")
	return nil
}

var dynamicHook func(x *Exec, st *State, f *Term, sig *types.Signature, args []*Term) ([]Outcome, bool)

// give is term for a value that leaves our hands: it may be kept by others.
func (x *Exec) give(st *State, v SVal) *Term {
	x.markEscaped(st, v)
	return x.term(st, v)
}

func (x *Exec) markEscaped(st *State, v SVal) {
	switch v := v.(type) {
	case *SliceV:
		c := st.heap[v.obj]
		if c != nil && !c.escaped {
			st.heap[v.obj] = &Cell{val: c.val, escaped: true, dead: c.dead}
		}
	case *MapV:
		c := st.heap[v.obj]
		if c != nil && !c.escaped {
			st.heap[v.obj] = &Cell{val: c.val, escaped: true, dead: c.dead}
		}
	case *StructV:
		for _, f := range v.fields {
			x.markEscaped(st, f)
		}
	case *BoxV:
		x.markEscaped(st, v.val)
	}
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func isRepoFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), repoPath)
}

// callFn calls a known function.
func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []SVal, pos token.Pos) []Outcome {
	name := fn.RelString(nil)
	if h, ok := externs[name]; ok {
		x.usedExterns[name] = true
		return h(x, st, args, pos)
	}
	if c := x.contractFor(fn, args); c != nil && !c.inline && !x.forceInline[fn] && !(c.variant == "" && x.statefulArg(st, args)) {
		return x.callContract(st, c, fn, args, pos)
	}
	if isRepoFn(fn) || (fn.Synthetic != "" && len(fn.Blocks) > 0) {
		if x.onStack(fn) {
			x.unsupported(pos, "recursive function %s without a contract", name)
		}
		if isRepoFn(fn) && fn.Parent() == nil {
			x.inlined[name] = true
		}
		return x.call(st, fn, args, binds)
	}
	x.unsupported(pos, "call of %s", name)
	return nil
}

// statefulArg: an argument is a closure that changes the variables it has
// captured, so that the call must be followed with the closure in view.
func (x *Exec) statefulArg(st *State, args []SVal) bool {
	for _, a := range args {
		if b, ok := a.(*BoxV); ok {
			a = b.val
		}
		if c, ok := a.(*Clo); ok && x.tryTerm(st.clone(), c) == nil {
			return true
		}
	}
	return false
}

// contractFor selects the contract of a function for a call.
func (x *Exec) contractFor(fn *ssa.Function, args []SVal) *Contract {
	if vs := variants[fn]; len(vs) > 0 {
		for _, c := range vs {
			if cl := c.closure(x); cl != nil {
				if i, _ := closureArg(args, cl); i >= 0 {
					return c
				}
			}
		}
	}
	return contracts[fn]
}

var variants = map[*ssa.Function][]*Contract{}

// ---- contract calls -----------------------------------------------------------------

// mutableObj: the object is of a type that functions may change.
func mutableObj(o *Obj) bool { return isMutableType(types.NewPointer(o.typ)) }

// freshLike gives an object of the same shape with unknown contents.
func (x *Exec) freshLike(st *State, v SVal, t types.Type, name string) SVal {
	switch s := v.(type) {
	case *StructV:
		n := &StructV{typ: s.typ}
		for i, f := range s.fields {
			fl := s.typ.Underlying().(*types.Struct).Field(i)
			n.fields = append(n.fields, x.freshLike(st, f, fl.Type(), name+"."+fl.Name()))
		}
		return n
	case *Term:
		return Fresh(name, s.sort)
	case *MapV:
		c := st.heap[s.obj]
		st.heap[s.obj] = &Cell{val: Fresh(name, x.snapshot(st, c.val).sort), escaped: c.escaped}
		return s
	case *SliceV:
		c := st.heap[s.obj]
		o := x.newObj(s.obj.typ, name)
		o.root = rootOf(s.obj)
		st.heap[o] = &Cell{val: Fresh(name, x.snapshot(st, s).sort), escaped: c.escaped}
		st.heap[s.obj] = &Cell{val: c.val, escaped: c.escaped, dead: true}
		return &SliceV{obj: o, typ: s.typ}
	case *Ref:
		if len(s.path) == 0 && mutableObj(s.obj) {
			c := st.heap[s.obj]
			st.heap[s.obj] = &Cell{val: x.freshLike(st, c.val, s.obj.typ, name), escaped: c.escaped}
		}
		return v
	case *BoxV, *Clo:
		return v
	}
	panic(unsupported("havoc of %T", v))
}

func (x *Exec) callContract(st *State, c *Contract, fn *ssa.Function, args []SVal, pos token.Pos) []Outcome {
	if c.variant != "" {
		return x.callVariant(st, c, fn, args, pos)
	}
	x.usedContracts[c] = true
	sig := fn.Signature
	entry := make([]*Term, len(args))
	type mut struct {
		i int
		r *Ref
	}
	var muts []mut
	for i, a := range args {
		pt := fn.Params[i].Type()
		if m, _ := c.mutable(i, pt); m {
			switch r := a.(type) {
			case *Ref:
				if len(r.path) != 0 {
					x.unsupported(pos, "part of an object as a mutable argument")
				}
				if oc := st.heap[r.obj]; oc.escaped && !r.obj.known {
					x.fail(st, "frame", "change of a node that has already been handed out", pos)
				}
				entry[i] = x.snapshot(st, r)
				muts = append(muts, mut{i, r})
			case *Term:
				x.fail(st, "frame", "change of a value that existed before, by "+c.name, pos)
				entry[i] = r
			default:
				x.unsupported(pos, "mutable argument %T", a)
			}
			continue
		}
		if c.pure && basicResults(sig) {
			// nothing of the argument can be kept
			entry[i] = x.snapshot(st, a)
			continue
		}
		entry[i] = x.give(st, a)
	}
	w0 := st.world
	for _, cl := range c.get("pre", x.prop) {
		g := bindClause(cl, entry, w0, w0)
		x.oblige(st, "pre", c.name+": "+cl.label, g, pos)
		st.assume(g)
	}
	x.recursion(st, fn, entry, pos)
	if c.changesWorld() && st.world != nil {
		st.world = Fresh("world", st.world.sort)
		if d, known := c.destination(x.prop, entry); known {
			x.mayWrite(st, d, pos)
			x.onlyWritten(st, d, w0, st.world)
		} else if _, own := x.unit.destination(x.prop, x.inputs); own {
			x.fail(st, "frame", "call of a function that may write anywhere: "+c.name, pos)
		}
	}
	if c.panics && (!x.unit.panics || len(x.unit.get("onpanic", x.prop)) > 0) {
		// it may not return
		ps := st.clone()
		for _, m := range muts {
			cell := ps.heap[m.r.obj]
			ps.heap[m.r.obj] = &Cell{val: x.freshLike(ps, cell.val, m.r.obj.typ, m.r.obj.name), escaped: cell.escaped}
		}
		ps.panic = Fresh("panic", "Any")
		ps.assume(Not(Eq(ps.panic, AnyNil)))
		pvals := append([]*Term(nil), entry...)
		for _, m := range muts {
			pvals = append(pvals, x.snapshot(ps, m.r))
		}
		for _, cl := range c.get("onpanic", x.prop) {
			ps.assume(bindClause(cl, pvals, w0, ps.world))
		}
		if x.unit.panics {
			x.atPanic(ps, "panic of "+c.name, False, pos)
		} else {
			x.panicking = append(x.panicking, ps)
		}
	}
	for _, m := range muts {
		cell := st.heap[m.r.obj]
		nv := x.freshLike(st, cell.val, m.r.obj.typ, m.r.obj.name)
		st.heap[m.r.obj] = &Cell{val: nv, escaped: cell.escaped}
	}
	var res []SVal
	vals := append([]*Term(nil), entry...)
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var t *Term
		if c.pure {
			t = Fn("pure."+fn.Object().(*types.Func).FullName(), SortOf(rt), entry...)
		} else {
			t = Fresh("r."+fn.Name(), SortOf(rt))
		}
		res = append(res, t)
		vals = append(vals, t)
	}
	for _, m := range muts {
		vals = append(vals, x.snapshot(st, m.r))
	}
	for _, kind := range []string{"post", "postassumed"} {
		for _, cl := range c.get(kind, x.prop) {
			st.assume(bindClause(cl, vals, w0, st.world))
			if kind == "postassumed" {
				x.usedExterns["assumed:"+c.name+": "+cl.label] = true
			}
		}
	}
	return one(st, res...)
}

func basicResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// changesWorld: the contract speaks about the state of the world.
func (c *Contract) changesWorld() bool {
	for _, cl := range c.clauses {
		if cl.kind != "post" {
			continue
		}
		n := 0
		for _, p := range cl.spec.params {
			if isWorld(p.Type()) {
				n++
			}
		}
		if n == 2 {
			return true
		}
	}
	return false
}

// ---- methods of interfaces ------------------------------------------------------------

func (x *Exec) invoke(st *State, recv SVal, c *ssa.CallCommon, args []SVal, pos token.Pos) []Outcome {
	if b, ok := recv.(*BoxV); ok {
		f := x.prog.LookupMethod(b.typ, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			x.unsupported(pos, "method %s of %s", c.Method.Name(), b.typ)
		}
		return x.callFn(st, f, append([]SVal{b.val}, args...), nil, pos)
	}
	r := x.term(st, recv)
	x.safety(st, "method call on nil", Not(Eq(r, AnyNil)), pos)
	if r.op == "ctor" && strings.HasPrefix(r.name, "box.") {
		t := universeKey[strings.TrimPrefix(r.name, "box.")]
		f := x.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if f != nil {
			return x.callFn(st, f, append([]SVal{r.args[0]}, args...), nil, pos)
		}
	}
	key := typeKey(c.Value.Type()) + "." + c.Method.Name()
	if h, ok := invokes[key]; ok {
		x.usedExterns["interface "+key] = true
		return h(x, st, r, args, pos)
	}
	if key == "error.Error" {
		return one(st, errMsg(r))
	}
	if outs, ok := x.invokeImplementers(st, r, c.Value.Type(), c.Method, args, pos); ok {
		return outs
	}
	x.unsupported(pos, "method %s of an unknown %s", c.Method.Name(), c.Value.Type())
	return nil
}

var invokes = map[string]func(x *Exec, st *State, recv *Term, args []SVal, pos token.Pos) []Outcome{}

// ---- builtins ---------------------------------------------------------------------------

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos) []Outcome {
	val := func(i int) SVal { return x.value(st, c.Args[i]) }
	switch b.Name() {
	case "len":
		switch v := val(0).(type) {
		case *SliceV:
			return one(st, Len(x.peek(st, v)))
		default:
			t := x.term(st, v)
			if t.sort == "String" {
				return one(st, StrLen(t))
			}
			if strings.HasPrefix(t.sort, "Q.") {
				return one(st, Len(t))
			}
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				n := Fn("maplen", "Int", t)
				st.assume(Le(IntT(0), n))
				st.assume(Eq(Eq(n, IntT(0)), Eq(t, Zero(mt))))
				return one(st, n)
			}
		}
	case "cap":
		switch v := val(0).(type) {
		case *SliceV:
			n := x.caps[v.obj]
			if n == nil {
				n = Fresh("cap", "Int")
				if x.caps == nil {
					x.caps = map[*Obj]*Term{}
				}
				x.caps[v.obj] = n
			}
			st.assume(Le(Len(x.peek(st, v)), n))
			return one(st, n)
		case *Term:
			n := Fresh("cap", "Int")
			if v.sort == "String" {
				st.assume(Le(StrLen(v), n))
			} else {
				st.assume(Le(Len(v), n))
			}
			return one(st, n)
		}
	case "append":
		return one(st, x.appendTo(st, val(0), val(1), c.Args[0].Type(), pos))
	case "copy":
		d, ok := val(0).(*SliceV)
		if ok {
			s := x.term(st, val(1))
			q := x.term(st, d)
			cell := st.heap[d.obj]
			if cell.escaped {
				x.fail(st, "frame", "copy into a slice that has already been handed out", pos)
			}
			n := Ite(Le(Len(q), Len(s)), Len(q), Len(s))
			st.heap[d.obj] = &Cell{val: Cat(Take(s, n), Drop(q, n)), escaped: cell.escaped}
			return one(st, n)
		}
		x.fail(st, "frame", "copy into a slice that existed before", pos)
		return one(st, Fresh("n", "Int"))
	case "delete":
		if m, ok := val(0).(*MapV); ok {
			cell := st.heap[m.obj]
			mt := c.Args[0].Type().Underlying().(*types.Map)
			o := arrSorts[SortOf(mt)][1]
			st.heap[m.obj] = &Cell{val: Store(x.term(st, cell.val), x.term(st, val(1)), Ctor("none."+o, o)), escaped: cell.escaped}
			return one(st)
		}
		x.fail(st, "frame", "delete from a map that existed before", pos)
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, val(0))
	case "min", "max":
		a, d := x.term(st, val(0)), x.term(st, val(1))
		if b.Name() == "min" {
			return one(st, Ite(Le(a, d), a, d))
		}
		return one(st, Ite(Le(a, d), d, a))
	case "recover":
		if e := st.panic; e != nil {
			st.panic = nil
			st.recovered = true
			return one(st, e)
		}
		return one(st, AnyNil)
	}
	x.unsupported(pos, "builtin %s", b.Name())
	return nil
}

// peek is the contents of a slice, even of a superseded one if still known.
func (x *Exec) peek(st *State, v *SliceV) *Term {
	c := st.heap[v.obj]
	if c.val == nil {
		panic(unsupported("use of a slice whose array was changed through another slice"))
	}
	return x.term(st, c.val)
}

func (x *Exec) appendTo(st *State, s, t SVal, typ types.Type, pos token.Pos) SVal {
	add := x.term(st, t)
	if isByteSlice(typ) {
		q := x.term(st, s)
		// byte slices are values here: appending to one that is not fresh is a
		// frame question that the code base does not raise
		if q.op != "str" {
			x.fail(st, "frame", "append to a byte slice that existed before", pos)
		}
		return Concat(q, add)
	}
	switch v := s.(type) {
	case *SliceV:
		c := st.heap[v.obj]
		if c.dead {
			x.unsupported(pos, "append to a slice that was already appended to")
		}
		q := x.term(st, v)
		o := x.newObj(typ, v.obj.name)
		o.root = rootOf(v.obj)
		st.heap[o] = &Cell{val: Cat(q, add), escaped: c.escaped}
		st.heap[v.obj] = &Cell{val: c.val, escaped: c.escaped, dead: true}
		return &SliceV{obj: o, typ: typ}
	}
	q := x.term(st, s)
	if !isEmptySeq(q) {
		// the array behind it may be shared with others
		x.fail(st, "frame", "append to a slice that existed before", pos)
	}
	o := x.newObj(typ, "slice")
	st.heap[o] = &Cell{val: Cat(q, add)}
	return &SliceV{obj: o, typ: typ}
}

// ---- package variables -------------------------------------------------------------------

// loadGlobal reads a package variable.
func (x *Exec) loadGlobal(st *State, g *ssa.Global) SVal {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if h, ok := globalVals[name]; ok {
		return h(x, st)
	}
	if t := constGlobal(g); t != nil {
		return t
	}
	if t := x.flagVar(st, g); t != nil {
		return t
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath) && !neverWritten(g) {
		panic(unsupported("package variable %s is written outside its initialiser", g.Name()))
	}
	v := Var("global."+name, SortOf(t))
	x.initialised(st, g, v)
	return v
}

var globalVals = map[string]func(x *Exec, st *State) SVal{}

// globalTerm is a package variable in a specification.
func globalTerm(v *types.Var) *Term {
	name := v.Pkg().Path() + "." + v.Name()
	if name == "go/types.Typ" {
		return typTable()
	}
	for _, g := range allGlobals {
		if g.Object() == v {
			if t := constGlobal(g); t != nil {
				return t
			}
		}
	}
	return Var("global."+name, SortOf(v.Type()))
}

var allGlobals []*ssa.Global
var globalStores map[*ssa.Global][]*ssa.Store
var globalEscapes map[*ssa.Global]bool

// scanGlobals finds all the stores to package variables of the repository.
func scanGlobals(fns map[*ssa.Function]bool) {
	globalStores = map[*ssa.Global][]*ssa.Store{}
	globalEscapes = map[*ssa.Global]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						globalStores[g] = append(globalStores[g], s)
						continue
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := ins.(*ssa.DebugRef); ok {
							continue
						}
						globalEscapes[g] = true
					}
				}
			}
		}
	}
}

func neverWritten(g *ssa.Global) bool {
	if globalEscapes[g] {
		return false
	}
	for _, s := range globalStores[g] {
		if s.Parent().Name() != "init" {
			return false
		}
	}
	return true
}

// constGlobal is the value of a variable initialised once with a constant.
func constGlobal(g *ssa.Global) *Term {
	if !neverWritten(g) || len(globalStores[g]) != 1 {
		return nil
	}
	if c, ok := globalStores[g][0].Val.(*ssa.Const); ok && c.Value != nil {
		if t, ok := constVal(c).(*Term); ok {
			return t
		}
	}
	return nil
}

// ---- measures ---------------------------------------------------------------------------

func (x *Exec) sameSCC(fn *ssa.Function) bool { return sccOf[fn] != 0 && sccOf[fn] == sccOf[x.unitFn] }

var sccOf = map[*ssa.Function]int{}

