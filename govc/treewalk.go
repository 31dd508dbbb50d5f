package main

import (
	"go/token"
	"go/types"
	"sort"
)

// Trees of go/ast that the code changes in place through ast.Inspect.
//
// A tree fresh from go/parser belongs to the code under verification. A walk
// with ast.Inspect hands every node of it to a function, once, before the
// nodes below it, which it leaves out if the function returns false. The rule
// for such a walk is about an error variable that the function changes:
//
//   - the function never makes the variable nil;
//   - for a node of a kind that the specification GoodNode admits, while the
//     variable is nil, it leaves it nil, returns true and makes the node what
//     the specification ClearNode says, and changes nothing else;
//   - for any other node the variable is not nil afterwards.
//
// All that is obliged for one node of each kind with arbitrary contents. Then
// the variable is nil after the walk exactly if it was before and all nodes
// are good (PlainGo), and the tree is that with each node cleared (CleanGo).

func init() {
	externs["go/parser.ParseExpr"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		s := x.term(st, args[0])
		e, t := observe("GoErr", s), observe("GoTree", s)
		if e == nil || t == nil {
			x.unsupported(pos, "go/parser without a specification of it")
		}
		r := Fresh("tree", "Any")
		st.assume(Or(Eq(e, AnyNil), Implements(errorType, e)))
		st.assume(Implies(Eq(e, AnyNil), And(Eq(r, t), Not(Eq(r, AnyNil)))))
		if w := observe("WfGo", t); w != nil {
			st.assume(Implies(Eq(e, AnyNil), w))
		}
		if x.owned == nil {
			x.owned = map[*Term]bool{}
		}
		x.owned[r] = true
		return one(st, r, e)
	}
	externNote["go/parser.ParseExpr"] = "a function of the text: the tree of the expression, with no nil nodes where there must be one, or an error exactly if the text is no Go expression"
	externs["go/ast.Inspect"] = inspectTree
	externNote["go/ast.Inspect"] = "hands every node of the tree to the function, parents first, but for the nodes below one it returns false for, and nil after the nodes below; the nodes of a parsed tree are distinct"
}

func inspectTree(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
	root := x.term(st, args[0])
	clo, ok := args[1].(*Clo)
	if !ok || specByName("GoodNode") == nil || specByName("PlainGo") == nil {
		x.unsupported(pos, "a walk of a Go tree with an unknown function")
	}
	x.safety(st, "walk of a nil node", Not(Eq(root, AnyNil)), pos)
	if !x.owned[root] {
		x.fail(st, "frame", "change of a tree that may belong to others", pos)
	}
	var errRef *Ref
	for _, b := range clo.binds {
		r, ok := b.(*Ref)
		if !ok {
			continue
		}
		if len(r.path) == 0 && types.Identical(r.obj.typ, errorType) && errRef == nil {
			errRef = r
		}
	}
	if errRef == nil {
		x.unsupported(pos, "a walk of a Go tree with a function that keeps no error")
	}
	before := x.term(st, st.heap[errRef.obj].val)
	world := st.world
	run := func(name string, node SVal, assume *Term, after func(o Outcome, was, e0, e1, ret *Term)) {
		s := st.clone()
		e0 := Fresh("err", "Any")
		s.assume(Or(Eq(e0, AnyNil), Implements(errorType, e0)))
		if assume != nil {
			s.assume(assume)
		}
		s.heap[errRef.obj] = &Cell{val: e0}
		kept := map[*Obj]*Cell{}
		for o, c := range s.heap {
			kept[o] = c
		}
		var was *Term
		if r, ok := nodeRef(node); ok {
			t := r.obj.typ
			u := t.Underlying().(*types.Struct)
			v := Fresh("node", SortOf(t))
			was = v
			sv := &StructV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				sv.fields = append(sv.fields, FieldOf(t, i, v))
			}
			s.heap[r.obj] = &Cell{val: sv}
		}
		for _, o := range x.call(s, clo.fn, []SVal{node}, clo.binds) {
			for ob, c := range kept {
				if n := o.st.heap[ob]; ob != errRef.obj && n != c && (n == nil || n.val != c.val) {
					x.unsupported(pos, "a function that changes other variables during a walk")
				}
			}
			e1 := x.term(o.st, o.st.heap[errRef.obj].val)
			x.oblige(o.st, "walk", "an error is kept, at "+name, Implies(Not(Eq(e0, AnyNil)), Not(Eq(e1, AnyNil))), pos)
			after(o, was, e0, e1, x.term(o.st, o.res[0]))
			if o.st.world != world {
				world = nil
			}
		}
	}
	run("nil", AnyNil, nil, func(o Outcome, _, e0, e1, ret *Term) {
		x.oblige(o.st, "walk", "the end of a node is no error", Implies(Eq(e0, AnyNil), Eq(e1, AnyNil)), pos)
	})
	var kinds []types.Type
	for _, t := range universe {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go/ast" {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			kinds = append(kinds, t)
		}
	}
	sort.Slice(kinds, func(i, j int) bool { return typeKey(kinds[i]) < typeKey(kinds[j]) })
	var others []*Term
	other := Fresh("node", "Any")
	for _, t := range kinds {
		t := t
		elem := t.(*types.Pointer).Elem()
		others = append(others, Not(IsBox(t, other)))
		o := x.newObj(elem, "node")
		ref := &Ref{obj: o, elem: elem}
		run(types.TypeString(t, types.RelativeTo(nil)), &BoxV{typ: t, val: ref}, nil, func(out Outcome, was, e0, e1, ret *Term) {
			now := x.snapshot(out.st, out.st.heap[o].val)
			n0, n1 := Box(t, MkPtr(elem, was)), Box(t, MkPtr(elem, now))
			good := observe("GoodNode", n0)
			name := types.TypeString(t, nil)
			x.oblige(out.st, "walk", "only good nodes pass: "+name, Implies(Not(good), Not(Eq(e1, AnyNil))), pos)
			pass := And(good, Eq(e0, AnyNil))
			x.oblige(out.st, "walk", "good nodes pass: "+name, Implies(pass, And(Eq(e1, AnyNil), ret)), pos)
			x.oblige(out.st, "walk", "nodes are cleared: "+name, Implies(pass, Eq(n1, observe("ClearNode", n0))), pos)
		})
	}
	others = append(others, Not(Eq(other, AnyNil)))
	run("a node of another kind", other, And(others...), func(o Outcome, _, e0, e1, ret *Term) {
		x.oblige(o.st, "walk", "only good nodes pass: any other", And(Not(observe("GoodNode", other)), Not(Eq(e1, AnyNil))), pos)
	})
	if world == nil {
		st.world = Fresh("world", st.world.sort)
	}
	e := Fresh("err", "Any")
	st.assume(Or(Eq(e, AnyNil), Implements(errorType, e)))
	st.assume(Eq(Eq(e, AnyNil), And(Eq(before, AnyNil), observe("PlainGo", root))))
	c := st.heap[errRef.obj]
	st.heap[errRef.obj] = &Cell{val: e, escaped: c.escaped}
	now := Fresh("tree", "Any")
	st.assume(Implies(Eq(e, AnyNil), Eq(now, observe("CleanGo", root))))
	x.owned[now] = true
	x.supersede(st, root, now, pos)
	return one(st)
}

func nodeRef(n SVal) (*Ref, bool) {
	b, ok := n.(*BoxV)
	if !ok {
		return nil, false
	}
	r, ok := b.val.(*Ref)
	return r, ok
}

// supersede replaces a value that has been changed in place.
func (x *Exec) supersede(st *State, old, now *Term, pos token.Pos) {
	st.super = append(st.super[:len(st.super):len(st.super)], [2]*Term{old, now})
	for k, v := range st.env {
		st.env[k] = x.replaced(v, old, now, pos)
	}
	for k, c := range st.heap {
		st.heap[k] = &Cell{val: x.replaced(c.val, old, now, pos), escaped: c.escaped, dead: c.dead}
	}
}

func sameSuper(a, b *State) bool {
	if len(a.super) != len(b.super) {
		return false
	}
	for i := range a.super {
		if a.super[i] != b.super[i] {
			return false
		}
	}
	return true
}

func (x *Exec) replaced(v SVal, old, now *Term, pos token.Pos) SVal {
	sub := func(v SVal) SVal { return x.replaced(v, old, now, pos) }
	switch v := v.(type) {
	case *Term:
		if v == old {
			return now
		}
		if v.sort != "Bool" && occursIn(old, v) {
			x.unsupported(pos, "a part of a tree that is changed in place")
		}
	case *StructV:
		n := &StructV{typ: v.typ}
		for _, f := range v.fields {
			n.fields = append(n.fields, sub(f))
		}
		return n
	case Tuple:
		var n Tuple
		for _, f := range v {
			n = append(n, sub(f))
		}
		return n
	case *BoxV:
		return &BoxV{typ: v.typ, val: sub(v.val)}
	}
	return v
}

func occursIn(t, in *Term) bool {
	if t == in {
		return true
	}
	for _, a := range in.args {
		if occursIn(t, a) {
			return true
		}
	}
	return false
}
