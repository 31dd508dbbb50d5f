package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values -----------------------------------------------------------

// SVal is a symbolic value: *Term, *Ref, *SliceV, *MapV, *Clo, *BoxV, *StructV or Tuple.
type SVal interface{}

type Tuple []SVal

// Obj is an object created by the code under verification, or one it may change.
type Obj struct {
	id    int
	typ   types.Type // type of the contents
	name  string
	known bool // parameter object
	root  *Obj // first slice over the same array
}

// StructV is the contents of a struct with non-term parts.
type StructV struct {
	typ    types.Type
	fields []SVal
}

// Cell is the state of an object; cells are immutable.
type Cell struct {
	val     SVal
	escaped bool
	dead    bool // superseded slice
}

type pathElem struct {
	field int
	index *Term // non-nil: element
}

// Ref is the address of (a part of) an object.
type Ref struct {
	obj  *Obj
	path []pathElem
	elem types.Type // type of what it points to
}

// TRef is the address of a part of an immutable value.
type TRef struct {
	val  *Term // the value it points to
	elem types.Type
	what string
}

// SliceV is a slice over an object of its own.
type SliceV struct {
	obj *Obj
	typ types.Type
}

type MapV struct {
	obj *Obj
	typ types.Type
	home *Ref // where it is, if it is part of another object
}

type Clo struct {
	fn    *ssa.Function
	binds []SVal
}

// BoxV is an interface holding something that is not a term.
type BoxV struct {
	typ types.Type
	val SVal
}

// mapIter ranges over a map: nothing is known of the order.
var mapIter = &IterV{}

// IterV is a range iterator.
type IterV struct {
	obj *Obj
	typ types.Type
}

type State struct {
	env   map[ssa.Value]SVal
	heap  map[*Obj]*Cell
	facts []*Term
	safe  []*Term // those of the facts that only say that nothing panicked so far
	world *Term
	defers []*deferred
	panic *Term      // what the function panics with
	recovered bool
	super [][2]*Term // values that have been changed in place, oldest first
}

type deferred struct {
	call *ssa.Defer
	fn   SVal
	args []SVal
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]SVal, len(s.env)), heap: make(map[*Obj]*Cell, len(s.heap)), world: s.world}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.defers = append([]*deferred(nil), s.defers...)
	n.panic, n.recovered = s.panic, s.recovered
	n.safe = s.safe[:len(s.safe):len(s.safe)]
	n.super = s.super[:len(s.super):len(s.super)]
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, f := range s.facts {
		if f == t {
			return
		}
	}
	s.facts = append(s.facts[:len(s.facts):len(s.facts)], t)
}

func (s *State) infeasible() bool {
	neg := map[*Term]bool{}
	for _, f := range s.facts {
		if f == False {
			return true
		}
		neg[f] = true
	}
	for _, f := range s.facts {
		if f.op == "not" && neg[f.args[0]] {
			return true
		}
	}
	return false
}

type Outcome struct {
	st  *State
	res []SVal
	rundefers bool
}

// ---- executor ------------------------------------------------------------------

type Obligation struct {
	Unit   string
	Kind   string
	Label  string
	Facts  []*Term
	Goal   *Term
	Reason string // not empty: cannot be decided at all
	Result *solverResult
	Pos    string
}

type Exec struct {
	ownInputs []*Term // of a variant: the values of the parameters, nil for the closure
	prog    *ssa.Program
	unit    *Contract
	unitFn  *ssa.Function
	prop    string
	obls    []*Obligation
	quiet   int
	stack   []*ssa.Function
	objCount int
	inputs  []*Term // entry values of the unit's parameters
	paramObjs map[int]*Obj
	entryWorld *Term
	variantClo *Clo
	th      *theory
	loopDepth int
	steps   int
	outerVars []*loopVar
	usedContracts map[*Contract]bool
	usedExterns map[string]bool
	inlined map[string]bool
	discover    int
	frames      []*frame
	forceInline map[*ssa.Function]bool
	made        map[*Term]bool // destinations this unit has made
	private     map[*Term]bool // ... and lets nothing else see
	inner       map[*Term]*Term // worlds that differ from another in private destinations only
	ownedPtrs []*Term // owned pointers of the unit's parameters are not nil
	panicking []*State // states in which a callee has panicked
	caps map[*Obj]*Term
	owned map[*Term]bool // trees of go/parser that belong to this unit
}

const maxStates = 12
const maxSteps = 400000

func (x *Exec) unsupported(pos token.Pos, format string, args ...interface{}) {
	panic(unsupported("%s (%s)", fmt.Sprintf(format, args...), x.pos(pos)))
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	n := q.Filename
	if i := strings.Index(n, "/repo/"); i >= 0 {
		n = n[i+6:]
	}
	return fmt.Sprintf("%s:%d", n, q.Line)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	if goal == True {
		// count trivially true proof obligations of contracts, not of safety
		if kind != "post" && kind != "pre" {
			return
		}
	}
	for _, f := range st.facts {
		if f == goal && kind == "safety" {
			return
		}
	}
	if x.quiet > 0 {
		return
	}
	x.obls = append(x.obls, &Obligation{Unit: x.unit.name, Kind: kind, Label: label, Facts: st.facts, Goal: goal, Pos: x.pos(pos)})
	if goal.op == "and" && kind == "post" {
		// prove conjuncts on their own: smaller queries, better reports
		x.obls = x.obls[:len(x.obls)-1]
		for i, g := range goal.args {
			// each may use the ones before it, which have obligations of their own
			facts := append(append([]*Term(nil), st.facts...), goal.args[:i]...)
			x.obls = append(x.obls, &Obligation{Unit: x.unit.name, Kind: kind, Label: fmt.Sprintf("%s#%d", label, i+1), Facts: facts, Goal: g, Pos: x.pos(pos)})
		}
	}
}

// safety records that the condition must hold here and assumes it afterwards.
func (x *Exec) safety(st *State, label string, cond *Term, pos token.Pos) {
	if x.unit.panics {
		// a panic is no normal return
		x.atPanic(st, label, cond, pos)
		st.assume(cond)
		return
	}
	x.oblige(st, "safety", label, cond, pos)
	n := len(st.facts)
	st.assume(cond)
	st.safe = append(st.safe[:len(st.safe):len(st.safe)], st.facts[n:]...)
}

// atPanic records what must hold where the unit panics unless cond holds.
func (x *Exec) atPanic(st *State, label string, cond *Term, pos token.Pos) {
	cls := x.unit.get("onpanic", x.prop)
	if len(cls) == 0 || cond == True {
		return
	}
	vals := append([]*Term(nil), x.inputs...)
	for i := range x.unitFn.Params {
		if ob := x.paramObjs[i]; ob != nil {
			vals = append(vals, MkPtr(ob.typ, x.snapshot(st, st.heap[ob].val)))
		}
	}
	var gs []*Term
	for _, cl := range cls {
		gs = append(gs, bindClause(cl, vals, x.entryWorld, st.world))
	}
	x.oblige(st, "panic", label, Or(cond, And(gs...)), pos)
}

func (x *Exec) fail(st *State, kind, label string, pos token.Pos) {
	x.oblige(st, kind, label, False, pos)
}

func (x *Exec) newObj(t types.Type, name string) *Obj {
	x.objCount++
	return &Obj{id: x.objCount, typ: t, name: name}
}

func isNamedIdent(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st && isIdent(n)
}

// expand turns a struct term into a StructV.
func expand(v SVal, t types.Type) SVal {
	tm, ok := v.(*Term)
	if !ok {
		return v
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || !strings.HasPrefix(tm.sort, "S.") {
		return v
	}
	s := &StructV{typ: t}
	for i := 0; i < st.NumFields(); i++ {
		s.fields = append(s.fields, FieldOf(t, i, tm))
	}
	return s
}

func zeroVal(t types.Type) SVal {
	if a, ok := t.Underlying().(*types.Array); ok {
		e := SortOf(a.Elem())
		s := seqSort(e)
		q := Empty(s)
		if a.Len() <= 64 {
			for i := int64(0); i < a.Len(); i++ {
				q = Push(q, Zero(a.Elem()))
			}
			return q
		}
		return Repeat(s, Zero(a.Elem()), IntT(a.Len()))
	}
	return expand(Zero(t), t)
}

// term converts a value to a term; objects are snapshot and must not change
// afterwards.
func (x *Exec) term(st *State, v SVal) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		c := st.heap[v.obj]
		if c.dead && c.val == nil {
			panic(unsupported("use of a slice whose array was changed through another slice"))
		}
		return x.term(st, c.val)
	case *MapV:
		return x.term(st, st.heap[v.obj].val)
	case *StructV:
		var fs []*Term
		for _, f := range v.fields {
			fs = append(fs, x.term(st, f))
		}
		return MkStruct(v.typ, fs)
	case *Ref:
		if len(v.path) != 0 {
			panic(unsupported("address of a part of an object as a value"))
		}
		if _, ok := v.obj.typ.Underlying().(*types.Struct); !ok && !isMutableType(types.NewPointer(v.obj.typ)) {
			panic(unsupported("pointer to %s as a value", v.obj.typ))
		}
		c := st.heap[v.obj]
		if !c.escaped && !v.obj.known {
			st.heap[v.obj] = &Cell{val: c.val, escaped: true}
		}
		return MkPtr(v.obj.typ, x.term(st, c.val))
	case *BoxV:
		return Box(v.typ, x.term(st, v.val))
	case *Clo:
		return x.closureTerm(st, v)
	case *TRef:
		if _, ok := v.elem.Underlying().(*types.Struct); ok {
			return MkPtr(v.elem, v.val)
		}
	case nil:
		panic(unsupported("use of a value that is unknown on some path"))
	}
	panic(unsupported("value %T as a term", v))
}

// snapshot is term without marking anything as escaped (for specifications).
func (x *Exec) snapshot(st *State, v SVal) *Term {
	switch v := v.(type) {
	case *Ref:
		if len(v.path) == 0 {
			return MkPtr(v.obj.typ, x.snapshot(st, st.heap[v.obj].val))
		}
	case *StructV:
		var fs []*Term
		for _, f := range v.fields {
			fs = append(fs, x.snapshot(st, f))
		}
		return MkStruct(v.typ, fs)
	case *BoxV:
		return Box(v.typ, x.snapshot(st, v.val))
	}
	return x.term(st, v)
}

func (x *Exec) tryTerm(st *State, v SVal) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupportedError); ok {
				t = nil
				return
			}
			panic(e)
		}
	}()
	return x.term(st, v)
}

func (x *Exec) trySnapshot(st *State, v SVal) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupportedError); ok {
				t = nil
				return
			}
			panic(e)
		}
	}()
	if _, ok := v.(*Clo); ok || v == nil {
		return nil
	}
	return x.snapshot(st, v)
}

// closureTerm is the term of a closure whose body is pure.
func (x *Exec) closureTerm(st *State, c *Clo) *Term {
	var caps []*Term
	for _, b := range c.binds {
		if r, ok := b.(*Ref); ok {
			// captured variable: its current contents
			caps = append(caps, x.snapshot(st, st.heap[r.obj].val))
			continue
		}
		caps = append(caps, x.term(st, b))
	}
	t := Fn("clo."+c.fn.RelString(nil), "Func", caps...)
	st.assume(Not(Eq(t, Fn("nilfunc", "Func"))))
	// what it computes, for all arguments
	if c.fn.Signature.Results().Len() != 1 {
		panic(unsupported("the closure %s as a value", c.fn.Name()))
	}
	var params []*Term
	for _, p := range c.fn.Params {
		params = append(params, Fresh(p.Name(), SortOf(p.Type())))
	}
	val, world, w, ok := x.summary(st, c.fn, params, c.binds)
	if !ok {
		panic(unsupported("the closure %s is not a function of its arguments alone", c.fn.Name()))
	}
	with := func(sp *SpecFn) func(args []*Term) *Term {
		return func(args []*Term) *Term { return sp.Apply(fuelN(fuelDepth), append([]*Term{t}, args...)...) }
	}
	if e := dynEffects[typeKey(c.fn.Signature)]; e != nil {
		st.assume(summaryAxiom(params, w, val, world, with(e.result), with(e.world)))
		return t
	}
	if world != w {
		panic(unsupported("the closure %s has effects", c.fn.Name()))
	}
	st.assume(summaryAxiom(params, w, val, world, func(args []*Term) *Term { return ApplyFunc(c.fn.Signature, t, args) }, nil))
	return t
}

func (x *Exec) tryInline(st *State, fn *ssa.Function, args, binds []SVal) (outs []Outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupportedError); is {
				outs, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return x.call(st, fn, args, binds), true
}

// ---- memory ----------------------------------------------------------------------

func (x *Exec) load(st *State, v SVal, t types.Type, pos token.Pos) SVal {
	switch r := v.(type) {
	case *Ref:
		c := st.heap[r.obj]
		if c == nil {
			x.unsupported(pos, "load from an unknown object")
		}
		cur := c.val
		ct := r.obj.typ
		for _, p := range r.path {
			if p.index != nil {
				q := x.term(st, cur)
				cur = Nth(q, p.index)
				ct = elemType(ct)
				continue
			}
			if s, ok := cur.(*StructV); ok {
				cur = s.fields[p.field]
			} else {
				cur = FieldOf(ct, p.field, x.term(st, cur))
			}
			ct = ct.Underlying().(*types.Struct).Field(p.field).Type()
		}
		return cur
	case *TRef:
		return r.val
	case *Term:
		pt := t
		if flagVars[r] != "" {
			x.flagsSet(st, pos)
		}
		x.safety(st, "nil dereference", Not(IsNilPtr(pt, r)), pos)
		if isNamedIdent(pt) {
			return Fn("contents."+typeKey(pt), SortOf(pt), r)
		}
		return Deref(pt, r)
	}
	x.unsupported(pos, "load through %T", v)
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	panic(unsupported("element of %s", t))
}

func (x *Exec) store(st *State, addr SVal, val SVal, pos token.Pos) {
	switch r := addr.(type) {
	case *Ref:
		c := st.heap[r.obj]
		if c.escaped && !r.obj.known {
			x.fail(st, "frame", "store to a node that has already been handed out", pos)
		}
		if c.dead {
			panic(unsupported("store through a superseded slice"))
		}
		nv := x.setPath(st, c.val, r.obj.typ, r.path, val)
		if len(r.path) > 0 && r.path[0].index != nil {
			// slices over the same array see the change
			for o, oc := range st.heap {
				if o != r.obj && rootOf(o) == rootOf(r.obj) && oc.dead {
					st.heap[o] = &Cell{dead: true, escaped: oc.escaped}
				}
			}
		}
		st.heap[r.obj] = &Cell{val: nv, escaped: c.escaped}
		return
	case *TRef:
		x.fail(st, "frame", "store to "+r.what+", which existed before", pos)
		st.assume(False)
		return
	case *Term:
		x.fail(st, "frame", "store through a pointer to a value that existed before", pos)
		st.assume(False)
		return
	}
	x.unsupported(pos, "store through %T", addr)
}

func (x *Exec) setPath(st *State, cur SVal, t types.Type, path []pathElem, val SVal) SVal {
	if len(path) == 0 {
		return expand(val, t)
	}
	p := path[0]
	if p.index != nil {
		q := x.term(st, cur)
		et := elemType(t)
		inner := x.setPath(st, Nth(q, p.index), et, path[1:], val)
		return Upd(q, p.index, x.term(st, inner))
	}
	s, ok := expand(cur, t).(*StructV)
	if !ok {
		panic(unsupported("field of %s", t))
	}
	ft := t.Underlying().(*types.Struct).Field(p.field).Type()
	n := &StructV{typ: s.typ, fields: append([]SVal(nil), s.fields...)}
	n.fields[p.field] = x.setPath(st, s.fields[p.field], ft, path[1:], val)
	return n
}

// ---- merging -----------------------------------------------------------------------

// mergeVal merges two values under condition b; ok is false if impossible.
func (x *Exec) mergeVal(b *Term, s1 *State, v1 SVal, s2 *State, v2 SVal, out *State) (SVal, bool) {
	if _, tup := v1.(Tuple); !tup {
		if _, tup2 := v2.(Tuple); !tup2 && v1 == v2 {
			return v1, true
		}
	}
	t1, ok1 := v1.(*Term)
	t2, ok2 := v2.(*Term)
	if ok1 && ok2 {
		if t1.sort != t2.sort {
			return nil, false
		}
		return Ite(b, t1, t2), true
	}
	switch a := v1.(type) {
	case *StructV:
		c, ok := v2.(*StructV)
		if !ok {
			if t2, ok := v2.(*Term); ok {
				c, _ = expand(t2, a.typ).(*StructV)
			}
		}
		if c == nil || len(a.fields) != len(c.fields) {
			return nil, false
		}
		n := &StructV{typ: a.typ}
		for i := range a.fields {
			m, ok := x.mergeVal(b, s1, a.fields[i], s2, c.fields[i], out)
			if !ok {
				return nil, false
			}
			n.fields = append(n.fields, m)
		}
		return n, true
	case *SliceV:
		if c, ok := v2.(*SliceV); ok {
			if a.obj == c.obj {
				return v1, true
			}
			o := x.newObj(a.obj.typ, a.obj.name)
			c1, c2 := s1.heap[a.obj], s2.heap[c.obj]
			m, ok := x.mergeVal(b, s1, c1.val, s2, c2.val, out)
			if !ok || c1.dead || c2.dead {
				return nil, false
			}
			out.heap[o] = &Cell{val: m, escaped: c1.escaped || c2.escaped}
			return &SliceV{obj: o, typ: a.typ}, true
		}
		if t2, ok := v2.(*Term); ok {
			return x.mergeSliceTerm(b, s1, a, t2, out, false)
		}
	case *Term:
		if c, ok := v2.(*SliceV); ok {
			return x.mergeSliceTerm(b, s2, c, a, out, true)
		}
		if c, ok := v2.(*StructV); ok {
			if e, ok := expand(a, c.typ).(*StructV); ok {
				return x.mergeVal(b, s1, e, s2, v2, out)
			}
		}
		if c, ok := v2.(*BoxV); ok {
			if _, isClo := c.val.(*Clo); isClo {
				if t := x.tryTerm(s2, c); t != nil {
					return Ite(b, a, t), true
				}
			}
		}
	case *BoxV:
		if c, ok := v2.(*BoxV); ok && types.Identical(a.typ, c.typ) {
			m, ok := x.mergeVal(b, s1, a.val, s2, c.val, out)
			if ok {
				return &BoxV{typ: a.typ, val: m}, true
			}
		}
		if t2, ok := v2.(*Term); ok {
			if _, isClo := a.val.(*Clo); isClo {
				if t := x.tryTerm(s1, a); t != nil {
					return Ite(b, t, t2), true
				}
			}
		}
	case *Ref:
		if c, ok := v2.(*Ref); ok && a.obj == c.obj && samePath(a.path, c.path) {
			return a, true
		}
	case *MapV:
		if c, ok := v2.(*MapV); ok && a.obj == c.obj {
			return a, true
		}
	case *Clo:
		if c, ok := v2.(*Clo); ok && a.fn == c.fn && len(a.binds) == len(c.binds) {
			n := &Clo{fn: a.fn}
			for i := range a.binds {
				m, ok := x.mergeVal(b, s1, a.binds[i], s2, c.binds[i], out)
				if !ok {
					return nil, false
				}
				n.binds = append(n.binds, m)
			}
			return n, true
		}
	case Tuple:
		if c, ok := v2.(Tuple); ok && len(a) == len(c) {
			var n Tuple
			for i := range a {
				m, ok := x.mergeVal(b, s1, a[i], s2, c[i], out)
				if !ok {
					return nil, false
				}
				n = append(n, m)
			}
			return n, true
		}
	}
	return nil, false
}

// mergeSliceTerm merges an own slice with a plain one; if the plain one is nil
// the result is still an own slice.
func (x *Exec) mergeSliceTerm(b *Term, s *State, a *SliceV, t *Term, out *State, swapped bool) (SVal, bool) {
	c := s.heap[a.obj]
	if c == nil || c.dead {
		return nil, false
	}
	ct, ok := c.val.(*Term)
	if !ok {
		return nil, false
	}
	v1, v2 := ct, t
	if swapped {
		v1, v2 = t, ct
	}
	if isEmptySeq(t) {
		o := x.newObj(a.obj.typ, a.obj.name)
		out.heap[o] = &Cell{val: Ite(b, v1, v2), escaped: c.escaped}
		return &SliceV{obj: o, typ: a.typ}, true
	}
	return Ite(b, v1, v2), true
}

func isEmptySeq(t *Term) bool {
	return t.op == "fn" && strings.HasPrefix(t.name, "empty.")
}

func samePath(a, b []pathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// merge joins two states; keep lists the env values that must survive (nil: all).
func (x *Exec) merge(s1, s2 *State, r1, r2 []SVal) (*State, []SVal, bool) {
	n := 0
	for n < len(s1.facts) && n < len(s2.facts) && s1.facts[n] == s2.facts[n] {
		n++
	}
	if len(s1.defers) != len(s2.defers) || !sameSuper(s1, s2) || s1.panic != s2.panic || s1.recovered != s2.recovered {
		return nil, nil, false
	}
	f1, f2 := And(s1.facts[n:]...), And(s2.facts[n:]...)
	var b *Term
	if f1 == Not(f2) && len(s1.facts) == n+1 && !hasForall(f1) {
		b = f1
	} else {
		b = Fresh("br", "Bool")
	}
	out := &State{env: map[ssa.Value]SVal{}, heap: map[*Obj]*Cell{}, world: nil, defers: s1.defers, super: s1.super, panic: s1.panic, recovered: s1.recovered}
	out.facts = append([]*Term(nil), s1.facts[:n]...)
	if b != f1 {
		out.assume(Implies(b, f1))
		out.assume(Implies(Not(b), f2))
	}
	if s1.world == s2.world {
		out.world = s1.world
	} else if s1.world == nil || s2.world == nil {
		return nil, nil, false
	} else {
		out.world = Ite(b, s1.world, s2.world)
	}
	for o, c1 := range s1.heap {
		c2, ok := s2.heap[o]
		if !ok {
			out.heap[o] = c1
			continue
		}
		if c1 == c2 {
			out.heap[o] = c1
			continue
		}
		m, ok := x.mergeVal(b, s1, c1.val, s2, c2.val, out)
		if !ok {
			return nil, nil, false
		}
		out.heap[o] = &Cell{val: m, escaped: c1.escaped || c2.escaped, dead: c1.dead || c2.dead}
	}
	for o, c2 := range s2.heap {
		if _, ok := s1.heap[o]; !ok {
			out.heap[o] = c2
		}
	}
	for k, v1 := range s1.env {
		v2, ok := s2.env[k]
		if !ok {
			continue
		}
		m, ok := x.mergeVal(b, s1, v1, s2, v2, out)
		if !ok {
			continue // poisoned: unknown if used
		}
		out.env[k] = m
	}
	var res []SVal
	for i := range r1 {
		m, ok := x.mergeVal(b, s1, r1[i], s2, r2[i], out)
		if !ok {
			return nil, nil, false
		}
		res = append(res, m)
	}
	return out, res, true
}

func hasForall(t *Term) bool {
	if t.op == "forall" {
		return true
	}
	for _, a := range t.args {
		if hasForall(a) {
			return true
		}
	}
	return false
}

type inState struct {
	st   *State
	from *ssa.BasicBlock
}

// joinStates reduces the number of states waiting at a block. Phis must have
// been evaluated already.
func (x *Exec) joinStates(ss []*State, limit int) []*State {
	if len(ss) <= limit {
		return ss
	}
	var out []*State
	for _, s := range ss {
		merged := false
		for i := range out {
			if m, _, ok := x.merge(out[i], s, nil, nil); ok {
				out[i] = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	return out
}

func (x *Exec) joinOutcomes(os []Outcome, limit int) []Outcome {
	if len(os) <= limit {
		return os
	}
	var out []Outcome
	for _, o := range os {
		merged := false
		for i := range out {
			if m, r, ok := x.merge(out[i].st, o.st, out[i].res, o.res); ok {
				out[i] = Outcome{st: m, res: r}
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, o)
		}
	}
	return out
}

// ---- control flow --------------------------------------------------------------------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type funcInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loopInfo
	names map[ssa.Value]string
}

var funcInfos = map[*ssa.Function]*funcInfo{}

func infoOf(fn *ssa.Function) *funcInfo {
	if i, ok := funcInfos[fn]; ok {
		return i
	}
	fi := &funcInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, names: map[ssa.Value]string{}}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range order {
		fi.rpo[b] = len(order) - i
	}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var add func(c *ssa.BasicBlock)
				add = func(c *ssa.BasicBlock) {
					if l.blocks[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.DebugRef); ok && !d.IsAddr {
				if id, ok := d.Expr.(interface{ String() string }); ok {
					n := id.String()
					if d.Object() != nil {
						n = d.Object().Name()
						if _, isv := d.Object().(*types.Var); isv {
							if _, dup := fi.names[d.X]; !dup {
								fi.names[d.X] = n
							}
						}
					}
				}
			}
			if p, ok := ins.(*ssa.Phi); ok && p.Comment != "" {
				fi.names[p] = p.Comment
			}
			if a, ok := ins.(*ssa.Alloc); ok && a.Comment != "" {
				if _, dup := fi.names[a]; !dup {
					fi.names[a] = a.Comment
				}
			}
		}
	}
	for _, p := range fn.Params {
		fi.names[p] = p.Name()
	}
	funcInfos[fn] = fi
	return fi
}

type regionResult struct {
	backs   []*State
	exits   []exitState
	returns []Outcome
}

type exitState struct {
	in inState
	to *ssa.BasicBlock
}

// call executes a function body with the given arguments.
func (x *Exec) call(st *State, fn *ssa.Function, args, binds []SVal) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function %s has no body here", fn.RelString(nil)))
	}
	if len(x.stack) > 40 {
		panic(unsupported("calls nested too deeply at %s", fn.RelString(nil)))
	}
	x.stack = append(x.stack, fn)
	fr := &frame{fn: fn, caller: st.env}
	for _, a := range args {
		fr.args = append(fr.args, x.trySnapshot(st, a))
	}
	x.frames = append(x.frames, fr)
	defer func() {
		x.stack = x.stack[:len(x.stack)-1]
		x.frames = x.frames[:len(x.frames)-1]
	}()
	caller := st.env
	superseded := len(st.super)
	callerDefers := st.defers
	s := st
	s.env = map[ssa.Value]SVal{}
	s.defers = nil
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		s.env[f] = binds[i]
	}
	rr := x.region(fn, fn.Blocks[0], []inState{{s, nil}}, nil)
	outs := rr.returns
	outs = x.joinOutcomes(outs, maxStates)
	for i := range outs {
		ne := make(map[ssa.Value]SVal, len(caller))
		for k, v := range caller {
			ne[k] = v
		}
		for _, c := range outs[i].st.super[superseded:] {
			for k, v := range ne {
				ne[k] = x.replaced(v, c[0], c[1], fn.Pos())
			}
		}
		outs[i].st.env = ne
		outs[i].st.defers = callerDefers
	}
	return outs
}

// region executes the blocks of a function (or of one loop) from entry on.
func (x *Exec) region(fn *ssa.Function, entry *ssa.BasicBlock, in []inState, loop *loopInfo) *regionResult {
	fi := infoOf(fn)
	rr := &regionResult{}
	pending := map[*ssa.BasicBlock][]inState{}
	pending[entry] = in
	first := true
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fi.rpo[c] < fi.rpo[b] {
				b = c
			}
		}
		ins := pending[b]
		delete(pending, b)
		if loop != nil && !loop.blocks[b] {
			for _, i := range ins {
				rr.exits = append(rr.exits, exitState{i, b})
			}
			continue
		}
		if l, ok := fi.loops[b]; ok && !(loop != nil && b == loop.header) {
			sub := x.loop(fn, l, ins)
			rr.returns = append(rr.returns, sub.returns...)
			for _, e := range sub.exits {
				pending[e.to] = append(pending[e.to], e.in)
			}
			first = false
			continue
		}
		var sts []*State
		if loop != nil && b == loop.header {
			if !first {
				// back edge
				for _, i := range ins {
					x.evalPhis(i.st, b, i.from)
					rr.backs = append(rr.backs, i.st)
				}
				continue
			}
			for _, i := range ins {
				sts = append(sts, i.st) // phis were set by loop()
			}
		} else {
			for _, i := range ins {
				x.evalPhis(i.st, b, i.from)
				sts = append(sts, i.st)
			}
		}
		first = false
		sts = x.joinStates(sts, maxStates)
		for _, s := range sts {
			x.runBlock(fn, s, b, 0, func(s *State, to *ssa.BasicBlock) {
				pending[to] = append(pending[to], inState{s, b})
			}, func(o Outcome) { rr.returns = append(rr.returns, o) })
		}
	}
	return rr
}

func (x *Exec) evalPhis(st *State, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []SVal
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.valueOrNil(st, p.Edges[idx]))
	}
	for i, p := range phis {
		st.env[p] = vals[i]
	}
}

func (x *Exec) valueOrNil(st *State, v ssa.Value) SVal {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return x.value(st, v)
	}
	return st.env[v]
}

func (x *Exec) value(st *State, v ssa.Value) SVal {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return &Clo{fn: c}
	case *ssa.Global:
		return c
	}
	r, ok := st.env[v]
	if !ok || r == nil {
		panic(unsupported("value of %s (%s) is not known on all paths", v.Name(), v))
	}
	return r
}

func constVal(c *ssa.Const) SVal {
	if c.Value == nil {
		return expandTop(Zero(c.Type()), c.Type())
	}
	if c.Value.Kind() == constant.String {
		return StrT(constant.StringVal(c.Value))
	}
	return constTerm(c.Value, c.Type())
}

func expandTop(t *Term, typ types.Type) SVal { return t }

func (x *Exec) runBlock(fn *ssa.Function, st *State, b *ssa.BasicBlock, from int, next func(*State, *ssa.BasicBlock), ret func(Outcome)) {
	for i := from; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			panic(unsupported("too many steps"))
		}
		ins := b.Instrs[i]
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			next(st, b.Succs[0])
			return
		case *ssa.If:
			c := x.term(st, x.value(st, ins.Cond))
			st2 := st.clone()
			st.assume(c)
			st2.assume(Not(c))
			if c != False && !st.infeasible() {
				next(st, b.Succs[0])
			}
			if c != True && !st2.infeasible() {
				next(st2, b.Succs[1])
			}
			return
		case *ssa.Return:
			var rs []SVal
			for _, r := range ins.Results {
				rs = append(rs, x.value(st, r))
			}
			ret(Outcome{st: st, res: rs})
			return
		case *ssa.Panic:
			if x.unit.panics {
				x.atPanic(st, "explicit panic", False, ins.Pos())
				return
			}
			x.oblige(st, "safety", "panic is unreachable", False, ins.Pos())
			return
		case *ssa.RunDefers:
			outs := x.runDefers(fn, st)
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, o := range outs {
				x.runBlock(fn, o, b, i+1, next, ret)
			}
			return
		case *ssa.Call:
			outs := x.callInstr(st, ins, ins.Common())
			ps := x.panicking
			x.panicking = nil
			for _, p := range ps {
				x.runPanic(fn, p, next, ret, ins.Pos())
			}
			outs = x.joinOutcomes(outs, maxStates)
			if len(outs) == 0 {
				return
			}
			for j, o := range outs {
				if len(o.res) == 1 {
					o.st.env[ins] = o.res[0]
				} else {
					o.st.env[ins] = Tuple(o.res)
				}
				if j == len(outs)-1 {
					st = o.st
				} else {
					x.runBlock(fn, o.st, b, i+1, next, ret)
				}
			}
			continue
		}
		x.instr(fn, st, ins)
		if st.infeasible() {
			return
		}
	}
}

// runPanic goes on after a callee has panicked.
func (x *Exec) runPanic(fn *ssa.Function, st *State, next func(*State, *ssa.BasicBlock), ret func(Outcome), pos token.Pos) {
	if fn.Recover == nil {
		x.fail(st, "safety", "no panic of a callee escapes", pos)
		return
	}
	for _, s := range x.runDefers(fn, st) {
		if s.panic != nil {
			x.fail(s, "safety", "no panic of a callee escapes", pos)
			continue
		}
		x.runBlock(fn, s, fn.Recover, 0, next, ret)
	}
}

func (x *Exec) runDefers(fn *ssa.Function, st *State) []*State {
	cur := []*State{st}
	ds := st.defers
	for i := len(ds) - 1; i >= 0; i-- {
		var nxt []*State
		for _, s := range cur {
			s.defers = nil
			var outs []Outcome
			switch f := ds[i].fn.(type) {
			case *Clo:
				outs = x.call(s, f.fn, ds[i].args, f.binds)
			default:
				panic(unsupported("deferred call of %T", f))
			}
			for _, o := range outs {
				nxt = append(nxt, o.st)
			}
		}
		cur = nxt
	}
	return cur
}

func (x *Exec) instr(fn *ssa.Function, st *State, ins ssa.Instruction) {
	set := func(v ssa.Value, s SVal) { st.env[v] = s }
	val := func(v ssa.Value) SVal { return x.value(st, v) }
	tm := func(v ssa.Value) *Term { return x.term(st, x.value(st, v)) }
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		if isNamedIdent(t) {
			id := x.newIdent(st, t)
			x.keepsToItself(ins, Box(types.NewPointer(t), id))
			set(ins, id)
			return
		}
		o := x.newObj(t, ins.Comment)
		st.heap[o] = &Cell{val: zeroVal(t)}
		set(ins, &Ref{obj: o, elem: t})
	case *ssa.BinOp:
		set(ins, x.binop(st, ins))
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			if g, ok := ins.X.(*ssa.Global); ok {
				set(ins, x.loadGlobal(st, g))
				return
			}
			v := x.load(st, val(ins.X), ins.X.Type().Underlying().(*types.Pointer).Elem(), ins.Pos())
			if t, ok := v.(*Term); ok {
				if _, isMap := ins.Type().Underlying().(*types.Map); isMap {
					if r, ok := val(ins.X).(*Ref); ok && len(r.path) > 0 {
						// a map that an object holds: updates go there
						o := x.newObj(ins.Type(), "map")
						st.heap[o] = &Cell{val: t}
						v = &MapV{obj: o, typ: ins.Type(), home: r}
					}
				}
			}
			set(ins, v)
		case token.NOT:
			set(ins, Not(tm(ins.X)))
		case token.SUB:
			set(ins, Sub(IntT(0), tm(ins.X)))
		default:
			x.unsupported(ins.Pos(), "operator %s", ins.Op)
		}
	case *ssa.ChangeInterface:
		set(ins, val(ins.X))
	case *ssa.ChangeType:
		v := val(ins.X)
		if t, ok := v.(*Term); ok {
			v = convertTerm(t, ins.X.Type(), ins.Type())
		}
		if s, ok := v.(*SliceV); ok {
			v = &SliceV{obj: s.obj, typ: ins.Type()}
		}
		if r, ok := v.(*Ref); ok {
			// pointer conversion between named structs of the same layout
			v = convertTerm(x.term(st, r), ins.X.Type(), ins.Type())
		}
		set(ins, v)
	case *ssa.Convert:
		set(ins, x.convert(st, ins))
	case *ssa.Extract:
		t, ok := val(ins.Tuple).(Tuple)
		if !ok {
			x.unsupported(ins.Pos(), "extract from %T", val(ins.Tuple))
		}
		if t[ins.Index] == nil {
			x.unsupported(ins.Pos(), "unknown tuple element")
		}
		set(ins, t[ins.Index])
	case *ssa.Field:
		v := val(ins.X)
		if s, ok := v.(*StructV); ok {
			set(ins, s.fields[ins.Field])
		} else {
			set(ins, FieldOf(ins.X.Type(), ins.Field, x.term(st, v)))
		}
	case *ssa.FieldAddr:
		pt := ins.X.Type().Underlying().(*types.Pointer).Elem()
		ft := pt.Underlying().(*types.Struct).Field(ins.Field).Type()
		switch r := val(ins.X).(type) {
		case *Ref:
			set(ins, &Ref{obj: r.obj, path: append(r.path[:len(r.path):len(r.path)], pathElem{field: ins.Field}), elem: ft})
		case *TRef:
			set(ins, &TRef{val: FieldOf(pt, ins.Field, r.val), elem: ft, what: r.what + "." + pt.Underlying().(*types.Struct).Field(ins.Field).Name()})
		case *Term:
			x.safety(st, "nil dereference", Not(IsNilPtr(pt, r)), ins.Pos())
			if isNamedIdent(pt) {
				x.unsupported(ins.Pos(), "field of %s", pt)
			}
			n := "value"
			if nn, ok := types.Unalias(pt).(*types.Named); ok {
				n = nn.Obj().Name()
			}
			set(ins, &TRef{val: FieldOf(pt, ins.Field, Deref(pt, r)), elem: ft, what: "field " + pt.Underlying().(*types.Struct).Field(ins.Field).Name() + " of a " + n})
		default:
			x.unsupported(ins.Pos(), "field address of %T", r)
		}
	case *ssa.Index:
		q := tm(ins.X)
		i := tm(ins.Index)
		if q.sort == "String" {
			x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, StrLen(q))), ins.Pos())
			set(ins, Op("str.to_code", "Int", Op("str.at", "String", q, i)))
			return
		}
		x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, Len(q))), ins.Pos())
		set(ins, Nth(q, i))
	case *ssa.IndexAddr:
		x.indexAddr(st, ins)
	case *ssa.Lookup:
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			m := tm(ins.X)
			k := tm(ins.Index)
			ok2, v := mapGet(mt, m, k)
			if ins.CommaOk {
				set(ins, Tuple{v, ok2})
			} else {
				set(ins, v)
			}
			return
		}
		q := tm(ins.X)
		i := tm(ins.Index)
		x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, StrLen(q))), ins.Pos())
		set(ins, Op("str.to_code", "Int", Op("str.at", "String", q, i)))
	case *ssa.MakeClosure:
		c := &Clo{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.binds = append(c.binds, val(b))
		}
		set(ins, c)
	case *ssa.MakeInterface:
		v := val(ins.X)
		switch v := v.(type) {
		case *Term:
			set(ins, Box(ins.X.Type(), v))
		case *Clo:
			set(ins, &BoxV{typ: ins.X.Type(), val: v})
		default:
			if r, ok := v.(*Ref); ok && r.obj.known {
				set(ins, &BoxV{typ: ins.X.Type(), val: v})
				return
			}
			set(ins, Box(ins.X.Type(), x.term(st, v)))
		}
	case *ssa.MakeMap:
		o := x.newObj(ins.Type(), "map")
		st.heap[o] = &Cell{val: Zero(ins.Type())}
		set(ins, &MapV{obj: o, typ: ins.Type()})
	case *ssa.MapUpdate:
		mt := ins.Map.Type().Underlying().(*types.Map)
		k, v := tm(ins.Key), tm(ins.Value)
		switch m := val(ins.Map).(type) {
		case *MapV:
			c := st.heap[m.obj]
			if m.home != nil {
				now := x.term(st, x.load(st, m.home, ins.Map.Type(), ins.Pos()))
				if now != x.term(st, c.val) {
					x.unsupported(ins.Pos(), "update of a map that is no longer where it was")
				}
				x.store(st, m.home, mapSet(mt, now, k, v), ins.Pos())
			}
			st.heap[m.obj] = &Cell{val: mapSet(mt, x.term(st, c.val), k, v), escaped: c.escaped}
		default:
			x.fail(st, "frame", "update of a map that existed before", ins.Pos())
		}
	case *ssa.MakeSlice:
		n := tm(ins.Len)
		x.safety(st, "slice length is not negative", Le(IntT(0), n), ins.Pos())
		cp := tm(ins.Cap)
		if cp != n {
			x.safety(st, "slice capacity is at least its length", Le(n, cp), ins.Pos())
		}
		if isByteSlice(ins.Type()) {
			x.unsupported(ins.Pos(), "make of a byte slice")
		}
		s := SortOf(ins.Type())
		et := ins.Type().Underlying().(*types.Slice).Elem()
		o := x.newObj(ins.Type(), "slice")
		q := Repeat(s, Zero(et), n)
		if n.isInt() && n.intVal() == 0 {
			q = Empty(s)
		} else {
			st.assume(Eq(Len(q), n))
		}
		st.heap[o] = &Cell{val: q}
		set(ins, &SliceV{obj: o, typ: ins.Type()})
	case *ssa.Slice:
		x.slice(st, ins)
	case *ssa.Store:
		if g, ok := ins.Addr.(*ssa.Global); ok {
			x.fail(st, "frame", "store to package variable "+g.Name(), ins.Pos())
			return
		}
		x.store(st, val(ins.Addr), x.storable(st, val(ins.Val)), ins.Pos())
	case *ssa.TypeAssert:
		x.typeAssert(st, ins)
	case *ssa.Range:
		switch ins.X.Type().Underlying().(type) {
		case *types.Map:
			set(ins, Tuple{mapIter})
		default:
			o := x.newObj(types.Typ[types.Int], "pos")
			st.heap[o] = &Cell{val: IntT(0)}
			set(ins, Tuple{&IterV{obj: o}, tm(ins.X)})
		}
	case *ssa.Next:
		x.next(st, ins)
	case *ssa.Defer:
		d := &deferred{call: ins}
		if ins.Call.IsInvoke() {
			x.unsupported(ins.Pos(), "deferred method call")
		}
		d.fn = val(ins.Call.Value)
		for _, a := range ins.Call.Args {
			d.args = append(d.args, val(a))
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
	default:
		x.unsupported(ins.Pos(), "instruction %T", ins)
	}
}

// storable prepares a value for being stored in an object.
func (x *Exec) storable(st *State, v SVal) SVal { return v }

func (x *Exec) newIdent(st *State, t types.Type) *Term {
	id := Fresh("id."+typeKey(t), "Int")
	p := MkPtr(t, id)
	// it differs from every such pointer known so far
	for _, in := range x.inputs {
		if in == nil {
			continue
		}
		if in.sort == p.sort {
			st.assume(Not(Eq(in, p)))
		} else if in.sort == "Any" {
			st.assume(Not(Eq(in, Box(types.NewPointer(t), p))))
		}
	}
	if x.made == nil {
		x.made = map[*Term]bool{}
	}
	x.made[Box(types.NewPointer(t), p)] = true
	if st.world != nil {
		if h, ok := identInit[typeKey(t)]; ok {
			h(x, st, p)
		}
	}
	return p
}

// identInit initialises the ghost state of fresh identity objects.
var identInit = map[string]func(x *Exec, st *State, p *Term){}

func (x *Exec) binop(st *State, ins *ssa.BinOp) SVal {
	xv, yv := x.value(st, ins.X), x.value(st, ins.Y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		r := x.equal(st, xv, yv, ins.X, ins.Y, ins.Pos())
		if ins.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.term(st, xv), x.term(st, yv)
	switch ins.Op {
	case token.QUO, token.REM:
		x.safety(st, "division by zero", Not(Eq(b, IntT(0))), ins.Pos())
	}
	r := binTerm(ins.Op, a, b)
	if bt, ok := ins.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint64 && ins.Op == token.ADD {
		// arithmetic is taken not to overflow
		st.assume(Le(r, IntS("18446744073709551615")))
	}
	return r
}

func (x *Exec) equal(st *State, xv, yv SVal, xs, ys ssa.Value, pos token.Pos) *Term {
	isNil := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil
	}
	if isNil(xs) {
		xv, yv, xs, ys = yv, xv, ys, xs
	}
	if isNil(ys) {
		switch v := xv.(type) {
		case *Ref, *Clo, *BoxV, *MapV, *TRef:
			return False
		case *SliceV:
			return Eq(Len(x.term(st, v)), IntT(0))
		}
		return isNilTerm(xs.Type(), x.term(st, xv))
	}
	if r, ok := xv.(*Ref); ok {
		if s, ok := yv.(*Ref); ok {
			return BoolT(r.obj == s.obj && samePath(r.path, s.path))
		}
	}
	a, b := x.term(st, xv), x.term(st, yv)
	if _, ok := xs.Type().Underlying().(*types.Pointer); ok && !strings.HasPrefix(a.sort, "P.bytes") {
		x.unsupported(pos, "comparison of pointers")
	}
	if types.IsInterface(xs.Type()) != types.IsInterface(ys.Type()) {
		x.unsupported(pos, "mixed comparison")
	}
	return Eq(a, b)
}

func (x *Exec) convert(st *State, ins *ssa.Convert) SVal {
	v := x.value(st, ins.X)
	from, to := ins.X.Type(), ins.Type()
	if s, ok := v.(*SliceV); ok && SortOf(to) != SortOf(from) {
		_ = s
		x.unsupported(ins.Pos(), "conversion %s to %s", from, to)
	}
	t := x.term(st, v)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return t // mathematical integers
	}
	return convertTerm(t, from, to)
}

func (x *Exec) indexAddr(st *State, ins *ssa.IndexAddr) {
	base := x.value(st, ins.X)
	i := x.term(st, x.value(st, ins.Index))
	switch b := base.(type) {
	case *Ref: // pointer to array
		at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, IntT(at.Len()))), ins.Pos())
		st.env[ins] = &Ref{obj: b.obj, path: append(b.path[:len(b.path):len(b.path)], pathElem{index: i}), elem: at.Elem()}
	case *SliceV:
		q := x.term(st, b)
		x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, Len(q))), ins.Pos())
		if st.heap[b.obj].dead {
			st.env[ins] = &TRef{val: Nth(q, i), elem: elemType(ins.X.Type()), what: "an element of a superseded slice"}
			return
		}
		st.env[ins] = &Ref{obj: b.obj, path: []pathElem{{index: i}}, elem: elemType(ins.X.Type())}
	case *Term:
		if b.sort == "String" {
			x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, StrLen(b))), ins.Pos())
			st.env[ins] = &TRef{val: Op("str.to_code", "Int", Op("str.at", "String", b, i)), elem: types.Typ[types.Byte], what: "a byte of a slice"}
			return
		}
		x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, Len(b))), ins.Pos())
		st.env[ins] = &TRef{val: Nth(b, i), elem: elemType(ins.X.Type()), what: "an element of a slice"}
	case *TRef:
		if at, ok := b.elem.Underlying().(*types.Array); ok {
			x.safety(st, "index in range", And(Le(IntT(0), i), Lt(i, IntT(at.Len()))), ins.Pos())
			st.env[ins] = &TRef{val: Fn("arr."+typeKey(at), SortOf(at.Elem()), b.val, i), elem: at.Elem(), what: b.what}
			return
		}
		x.unsupported(ins.Pos(), "element of %s", b.elem)
	default:
		x.unsupported(ins.Pos(), "element of %T", base)
	}
}

func (x *Exec) slice(st *State, ins *ssa.Slice) {
	base := x.value(st, ins.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(st, x.value(st, v))
	}
	lo, hi := opt(ins.Low), opt(ins.High)
	if r, ok := base.(*Ref); ok {
		// array to slice
		if lo == nil && hi != nil && hi.isInt() && len(r.path) == 0 && !st.heap[r.obj].dead {
			if n := r.obj.typ.Underlying().(*types.Array).Len(); int64(hi.intVal()) <= n && hi.intVal() >= 0 {
				// the first elements of a new array, as in make([]T, n, c)
				o := x.newObj(ins.Type(), r.obj.name)
				old := st.heap[r.obj]
				st.heap[o] = &Cell{val: Take(old.val.(*Term), hi), escaped: old.escaped}
				st.heap[r.obj] = &Cell{val: old.val, escaped: old.escaped, dead: true}
				st.env[ins] = &SliceV{obj: o, typ: ins.Type()}
				return
			}
		}
		if lo != nil || hi != nil || len(r.path) != 0 {
			x.unsupported(ins.Pos(), "partial slice of an array")
		}
		st.env[ins] = &SliceV{obj: r.obj, typ: ins.Type()}
		return
	}
	q := x.term(st, base)
	if q.sort == "String" {
		if lo == nil {
			lo = IntT(0)
		}
		if hi == nil {
			hi = StrLen(q)
		}
		x.safety(st, "slice bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, StrLen(q))), ins.Pos())
		st.env[ins] = SubStr(q, lo, hi)
		return
	}
	if lo == nil {
		lo = IntT(0)
	}
	if hi == nil {
		hi = Len(q)
	}
	if sv, ok := base.(*SliceV); ok && x.caps[sv.obj] != nil && lo.isInt() && lo.intVal() == 0 && hi == Add(Len(q), IntT(1)) && !st.heap[sv.obj].dead {
		// one more, which may be anything that was there before
		x.safety(st, "slice bounds", Le(hi, x.caps[sv.obj]), ins.Pos())
		o := x.newObj(sv.obj.typ, sv.obj.name)
		old := st.heap[sv.obj]
		st.heap[o] = &Cell{val: Push(q, Fresh("hidden", SortOf(elemType(ins.X.Type())))), escaped: old.escaped}
		st.heap[sv.obj] = &Cell{val: old.val, escaped: old.escaped, dead: true}
		st.env[ins] = &SliceV{obj: o, typ: ins.Type()}
		return
	}
	// capacity is not modelled: require the bounds to be within the length
	x.safety(st, "slice bounds", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, Len(q))), ins.Pos())
	t := Drop(Take(q, hi), lo)
	if s, ok := base.(*SliceV); ok && lo.isInt() && lo.intVal() == 0 && !st.heap[s.obj].dead {
		// a prefix of an own slice stays an own slice; the longer one is superseded
		o := x.newObj(s.obj.typ, s.obj.name)
		old := st.heap[s.obj]
		st.heap[o] = &Cell{val: t, escaped: old.escaped}
		st.heap[s.obj] = &Cell{val: old.val, escaped: old.escaped, dead: true}
		st.env[ins] = &SliceV{obj: o, typ: ins.Type()}
		return
	}
	st.env[ins] = t
}

func (x *Exec) typeAssert(st *State, ins *ssa.TypeAssert) {
	v := x.value(st, ins.X)
	t := ins.AssertedType
	if b, ok := v.(*BoxV); ok {
		var match bool
		if types.IsInterface(t) {
			match = types.Implements(b.typ, t.Underlying().(*types.Interface))
		} else {
			match = types.Identical(b.typ, t)
		}
		var r SVal = b
		if !types.IsInterface(t) {
			r = b.val
		}
		if !match {
			r = Zero(t)
		}
		if ins.CommaOk {
			st.env[ins] = Tuple{r, BoolT(match)}
		} else {
			x.safety(st, "type assertion", BoolT(match), ins.Pos())
			st.env[ins] = r
		}
		return
	}
	a := x.term(st, v)
	var ok, r *Term
	if types.IsInterface(t) {
		ok, r = Implements(t, a), a
	} else {
		ok, r = IsBox(t, a), Unbox(t, a)
	}
	if ins.CommaOk {
		// the value is only meaningful if ok; the code may rely on the zero
		// value otherwise
		z := Zero(t)
		if types.IsInterface(t) {
			z = AnyNil
		}
		if ok == True {
			st.env[ins] = Tuple{r, True}
		} else if ok == False {
			st.env[ins] = Tuple{z, False}
		} else {
			st.env[ins] = Tuple{Ite(ok, r, z), ok}
		}
		return
	}
	x.safety(st, "type assertion to "+types.TypeString(t, qual), ok, ins.Pos())
	st.env[ins] = r
}

func (x *Exec) next(st *State, ins *ssa.Next) {
	it := x.value(st, ins.Iter).(Tuple)
	if len(it) == 1 {
		// a map: any keys in any order
		tt := ins.Type().(*types.Tuple)
		r := Tuple{Fresh("more", "Bool")}
		for i := 1; i < tt.Len(); i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				r = append(r, IntT(0))
				continue
			}
			r = append(r, Fresh("key", SortOf(tt.At(i).Type())))
		}
		st.env[ins] = r
		return
	}
	iv := it[0].(*IterV)
	s := x.term(st, it[1])
	c := st.heap[iv.obj]
	p := x.term(st, c.val)
	ok := Lt(p, StrLen(s))
	// rune and width at p
	r := Fn("utf8.rune", "Int", s, p)
	w := Fn("utf8.width", "Int", s, p)
	if rs, ws := specOf("parser.RuneOf"), specOf("parser.WidthOf"); rs != nil && ws != nil {
		rest := SubStr(s, p, StrLen(s))
		r, w = rs.Apply(fuelN(fuelDepth), rest), ws.Apply(fuelN(fuelDepth), rest)
	}
	st.assume(Implies(ok, And(Le(IntT(1), w), Le(Add(p, w), StrLen(s)))))
	st.heap[iv.obj] = &Cell{val: Ite(ok, Add(p, w), p)}
	st.env[ins] = Tuple{ok, p, r}
}

func debugf(format string, args ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

func sortedObjs(m map[*Obj]*Cell) []*Obj {
	var os []*Obj
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	return os
}

// keepsToItself notes a buffer that is used by its own methods only.
func (x *Exec) keepsToItself(v *ssa.Alloc, d *Term) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != v {
			return
		}
		if _, ok := externs[c.Call.StaticCallee().String()]; !ok {
			return
		}
		for _, a := range c.Call.Args[1:] {
			if a == ssa.Value(v) {
				return
			}
		}
	}
	if x.private == nil {
		x.private, x.inner = map[*Term]bool{}, map[*Term]*Term{}
	}
	x.private[d] = true
}

// outerWorld is the world without what was written to private buffers.
func (x *Exec) outerWorld(w *Term) *Term {
	if r, ok := x.inner[w]; ok {
		return x.outerWorld(r)
	}
	if w.op == "ite" {
		return Ite(w.args[0], x.outerWorld(w.args[1]), x.outerWorld(w.args[2]))
	}
	return w
}
