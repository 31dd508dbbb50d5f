package zzcheck

import (
	"fmt"
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/rules"
)

func init() {
	checks["C04"] = walkSearch
	checks["C05"] = featureSearch
}

// children in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	switch n := n.(type) {
	case *ast.File:
		for _, r := range n.Rules {
			out = append(out, r)
		}
	case *ast.Rule:
		out = append(out, n.Match, n.Result)
	case *ast.SExpr:
		out = append(out, n.Op)
		for _, a := range n.Args {
			out = append(out, a)
		}
	case ast.OpcodeParts:
		for _, p := range n {
			out = append(out, p)
		}
	}
	return out
}

// sameNode: the same pointer, or an equal value of the same kind.
func sameNode(a, b ast.Node) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() != vb.IsValid() {
		return false
	}
	if !va.IsValid() {
		return true
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Ptr:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && (va.Len() == 0 || va.Pointer() == vb.Pointer())
	}
	return reflect.DeepEqual(a, b)
}

type visit struct {
	by   int
	node ast.Node
}

type recorder struct {
	log    []visit
	decide func(k int) int // for the k-th call: 0 nil, 1 the same visitor, 2 another one
	limit  int
}

type tracer struct {
	rec *recorder
	id  int
}

func (r *recorder) next(id int, n ast.Node) (int, bool) {
	if len(r.log) >= r.limit {
		panic("more visits than nodes")
	}
	r.log = append(r.log, visit{id, n})
	switch r.decide(len(r.log) - 1) {
	case 0:
		return 0, false
	case 1:
		return id, true
	}
	return len(r.log), true
}

func (t tracer) Visit(n ast.Node) ast.Visitor {
	id, ok := t.rec.next(t.id, n)
	if !ok {
		return nil
	}
	return tracer{t.rec, id}
}

// refWalk is the traversal of the property.
func refWalk(r *recorder, id int, n ast.Node) {
	id, ok := r.next(id, n)
	if !ok {
		return
	}
	for _, c := range children(n) {
		refWalk(r, id, c)
	}
}

func countNodes(n ast.Node) int {
	k := 1
	for _, c := range children(n) {
		k += countNodes(c)
	}
	return k
}

func showLog(l []visit) string {
	s := ""
	for i, v := range l {
		if i > 12 {
			return s + " ..."
		}
		s += fmt.Sprintf(" [%d %T %s]", v.by, v.node, short(show(v.node)))
	}
	return s
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func sameLog(a, b []visit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].by != b[i].by || !sameNode(a[i].node, b[i].node) {
			return false
		}
	}
	return true
}

// roots gives trees of every kind.
func genRoot(c *Ctx) ast.Node {
	o := treeOpts{n: 1 + c.rng.Intn(3), features: chance(c.rng, 0.7)}
	switch c.rng.Intn(8) {
	case 0, 1:
		f := &ast.File{}
		for k := c.rng.Intn(4); k > 0; k-- {
			f.Rules = append(f.Rules, genRule(c.rng, c.rng.Intn(4), o))
		}
		return f
	case 2, 3:
		return genRule(c.rng, 1+c.rng.Intn(4), o)
	case 4, 5:
		return genSExpr(c.rng, 1+c.rng.Intn(4), o)
	case 6:
		return genOp(c.rng, o)
	}
	if chance(c.rng, 0.2) {
		return altOf(c.rng, c.rng.Intn(3), o)
	}
	return genValue(c.rng, 1, o)
}

func walkSearch(c *Ctx) {
	c.rule = "random trees of every node kind with visitors that, call by call, return nil, themselves or another visitor; functions and predicates with answers by position; non-trivial: more than three nodes"
	for i := 0; i < c.rounds(40000) && !c.stop(); i++ {
		root := genRoot(c)
		n := countNodes(root)
		mode := c.rng.Intn(3)
		plan := make([]int, n+1)
		prune := []float64{0, 0.05, 0.3}[c.rng.Intn(3)]
		for k := range plan {
			switch {
			case chance(c.rng, prune):
				plan[k] = 0
			case mode == 0 && chance(c.rng, 0.5):
				plan[k] = 2
			default:
				plan[k] = 1
			}
		}
		in := func() string {
			return fmt.Sprintf("%s of %s with answers %v", []string{"Walk", "Inspect", "Contains"}[mode], show(root), plan)
		}
		saved := clone(root)
		c.run(in, n > 3, func(fail func(string, ...interface{})) {
			decide := func(k int) int { return plan[k] }
			want := &recorder{decide: decide, limit: n}
			got := &recorder{decide: decide, limit: n}
			switch mode {
			case 0:
				refWalk(want, 0, root)
				ast.Walk(tracer{got, 0}, root)
			case 1:
				refWalk(want, 0, root)
				ast.Inspect(root, func(m ast.Node) bool { _, ok := got.next(0, m); return ok })
			case 2:
				// true at the first position whose plan is 0
				found := false
				var all []visit
				var collect func(m ast.Node)
				collect = func(m ast.Node) {
					all = append(all, visit{0, m})
					for _, ch := range children(m) {
						collect(ch)
					}
				}
				collect(root)
				for k := range all {
					want.log = append(want.log, all[k])
					if plan[k] == 0 {
						found = true
						break
					}
				}
				res := ast.Contains(root, func(m ast.Node) bool { _, ok := got.next(0, m); return !ok })
				if res != found {
					fail("Contains is %v, want %v", res, found)
				}
			}
			if !sameLog(want.log, got.log) {
				fail("visits%s\nwant%s", showLog(got.log), showLog(want.log))
			}
			if !reflect.DeepEqual(root, saved) {
				fail("the traversal changed the tree to %s", show(root))
			}
		})
	}
}

// featureSearch compares the six queries with the definition.
func featureSearch(c *Ctx) {
	c.rule = "random rules with few features, and the shipped rules; non-trivial: some feature present, and some absent"
	queries := []struct {
		name string
		call func(*ast.Rule) bool
		has  func(*ast.SExpr) bool
	}{
		{"HasBinding", rules.HasBinding, func(s *ast.SExpr) bool { return s.Binding != "" }},
		{"HasType", rules.HasType, func(s *ast.SExpr) bool { return s.Type != "" }},
		{"HasAux", rules.HasAux, func(s *ast.SExpr) bool { return s.Aux != nil }},
		{"HasAuxInt", rules.HasAuxInt, func(s *ast.SExpr) bool { return s.AuxInt != nil }},
		{"HasEllipsis", rules.HasEllipsis, func(s *ast.SExpr) bool { return s.Ellipsis }},
		{"HasTrailing", rules.HasTrailing, func(s *ast.SExpr) bool { return s.Trailing }},
	}
	var any func(n ast.Node, p func(*ast.SExpr) bool) bool
	any = func(n ast.Node, p func(*ast.SExpr) bool) bool {
		if s, ok := n.(*ast.SExpr); ok && p(s) {
			return true
		}
		for _, ch := range children(n) {
			if any(ch, p) {
				return true
			}
		}
		return false
	}
	one := func(r *ast.Rule) {
		count := 0
		for _, q := range queries {
			if any(r, q.has) {
				count++
			}
		}
		saved := clone(r)
		c.run(func() string { return show(saved) }, count > 0 && count < 6, func(fail func(string, ...interface{})) {
			for _, q := range queries {
				if got, want := q.call(r), any(r, q.has); got != want {
					fail("%s is %v, want %v", q.name, got, want)
				}
			}
			if !reflect.DeepEqual(r, saved) {
				fail("the query changed the rule to %s", show(r))
			}
		})
	}
	for _, text := range corpus() {
		if f, err := parse.String(text); err == nil {
			for _, r := range f.Rules {
				one(r)
			}
		}
	}
	var strip func(n ast.Node, keep float64)
	strip = func(n ast.Node, keep float64) {
		if s, ok := n.(*ast.SExpr); ok {
			if !chance(c.rng, keep) {
				s.Binding = ""
			}
			if !chance(c.rng, keep) {
				s.Type = ""
			}
			if !chance(c.rng, keep) {
				s.Aux = nil
			}
			if !chance(c.rng, keep) {
				s.AuxInt = nil
			}
			s.Ellipsis = s.Ellipsis && chance(c.rng, keep)
			s.Trailing = s.Trailing && chance(c.rng, keep)
		}
		for _, ch := range children(n) {
			strip(ch, keep)
		}
	}
	for i := 0; i < c.rounds(15000) && !c.stop(); i++ {
		r := genRule(c.rng, 1+c.rng.Intn(5), treeOpts{n: 1 + c.rng.Intn(3), features: true})
		strip(r, []float64{0, 0.1, 0.3, 1}[c.rng.Intn(4)])
		one(r)
	}
}
