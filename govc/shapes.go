package main

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// What the engine hands to the actions.
//
//	//verif:shapes g PROPS
//
// gives one obligation per action of the table g: in an action's construct the
// values of the labels have the shapes the grammar gives them (the texts of
// characters, the lists of sequences and repetitions, nothing for an option that
// is not taken, and for an action what its gives clause says), the text is at
// least as long as the shortest the construct matches, and from that the
// precondition of the action and its shape clauses follow. A second obligation
// per action says that what it gives follows from its postcondition.
//
// The rule used here is that of a type system: what matching one expression
// hands over, given what its parts hand over, is what the contracts of the
// engine's functions (C11) say. It holds as long as no action has failed; one
// that has makes the whole parse fail (C12).

type shapes struct {
	table map[string]*peg
	prop  string
	pkg   string
	short map[string]int
}

func (s *shapes) fn(name string, args ...*Term) *Term {
	for o, f := range specs.byObj {
		if o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == s.pkg {
			return f.Apply(fuelN(fuelDepth), args...)
		}
	}
	panic("no function " + name + " to speak of shapes")
}

// of says that a value is one of the expression's.
func (s *shapes) of(p *peg, v *Term, depth int) *Term {
	if depth > 40 {
		panic("a rule that goes through no action")
	}
	switch p.kind {
	case "lit", "set", "any":
		return s.fn("IsBytes", v)
	case "and", "not":
		return Eq(v, AnyNil)
	case "label":
		return s.of(p.kids[0], v, depth)
	case "ref":
		r := s.table[p.text]
		if r == nil {
			panic("no rule " + p.text)
		}
		return s.of(r, v, depth+1)
	case "opt":
		return Or(Eq(v, AnyNil), s.of(p.kids[0], v, depth))
	case "alt":
		var cs []*Term
		for _, k := range p.kids {
			cs = append(cs, s.of(k, v, depth))
		}
		return Or(cs...)
	case "seq":
		cs := []*Term{s.fn("IsSeq", v, IntT(int64(len(p.kids))))}
		for i, k := range p.kids {
			cs = append(cs, s.of(k, s.fn("At", v, IntT(int64(i))), depth))
		}
		return And(cs...)
	case "star", "plus":
		n := int64(0)
		if p.kind == "plus" {
			n = 1
		}
		i := BVar("i", "Int")
		at := s.fn("At", v, i)
		c := s.of(p.kids[0], at, depth)
		all := ForAll([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, s.fn("Count", v))), c), []*Term{at})
		return And(s.fn("IsSeq", v, IntT(n)), all)
	case "act":
		if c := s.contract(p); c != nil {
			if gs := c.get("gives", s.prop); len(gs) > 0 {
				var cs []*Term
				for _, g := range gs {
					cs = append(cs, g.spec.Apply(fuelN(fuelDepth), v))
				}
				return And(cs...)
			}
		}
		panic("nothing is known of what " + p.text + " gives")
	}
	panic("an expression of kind " + p.kind)
}

func (s *shapes) contract(p *peg) *Contract {
	if p.fn == nil {
		return nil
	}
	return contracts[p.fn]
}

// labels are the values the action of an expression is handed.
func labelsOf(p *peg, out map[string]*peg) {
	switch p.kind {
	case "label":
		out[p.text] = p.kids[0]
	case "seq":
		for _, k := range p.kids {
			labelsOf(k, out)
		}
	}
}

// shortest is a length no match of an expression falls below, in bytes.
func (s *shapes) shortest(p *peg) int {
	switch p.kind {
	case "lit":
		return len(p.text)
	case "set", "any":
		return 1
	case "seq":
		n := 0
		for _, k := range p.kids {
			n += s.shortest(k)
		}
		return n
	case "alt":
		n := -1
		for _, k := range p.kids {
			if m := s.shortest(k); n < 0 || m < n {
				n = m
			}
		}
		return n
	case "plus", "label", "act":
		return s.shortest(p.kids[0])
	case "ref":
		if n, ok := s.short[p.text]; ok {
			return n
		}
		s.short[p.text] = 0 // of a rule that needs itself: nothing is claimed
		n := s.shortest(s.table[p.text])
		delete(s.short, p.text)
		return n
	}
	return 0
}

func checkShapes(prog *ssa.Program, gc grammarClause, th *theory, rep *report) (u *unitReport) {
	start := time.Now()
	u = &unitReport{Name: "shapes " + gc.name, Kind: "table"}
	defer func() {
		if e := recover(); e != nil {
			u.Error = fmt.Sprint("unsupported: ", e)
		}
		u.Seconds = time.Since(start).Seconds()
	}()
	s := &shapes{table: map[string]*peg{}, prop: curProp, pkg: gc.pkg, short: map[string]int{}}
	rules := tableOf(prog, gc, u)
	var names []string
	for _, r := range rules.field("rules").list_() {
		n := r.field("name").str()
		names = append(names, n)
		s.table[n] = tablePeg(r.field("expr"))
	}
	ask := func(kind, label string, facts []*Term, goals []*Term) {
		// what is known outright needs no cases
		known := map[*Term]*Term{}
		for _, f := range facts {
			for _, c := range conjuncts(f) {
				if !hasForall(c) {
					known[c] = True
				}
			}
		}
		all := facts[:len(facts):len(facts)]
		for _, f := range facts {
			for _, c := range conjuncts(f) {
				if hasForall(c) {
					all = append(all, Subst(c, known))
				}
			}
		}
		facts = all
		for _, g := range goals {
			g = Subst(g, known)
			u.Obligations++
			r := prove(&Query{facts: facts, goal: g, th: th}, false)
			if r.status == "unsat" {
				u.Discharged++
				rep.BySolver[r.solver]++
				continue
			}
			gs := g.String()
			if len(gs) > 600 {
				gs = gs[:600]
			}
			u.Failed = append(u.Failed, failed{kind, label, u.Pos, r.status, r.solver, r.output, gs})
		}
		u.Clauses = append(u.Clauses, label)
	}
	seen := map[*ssa.Function]bool{}
	var visit func(p *peg)
	visit = func(p *peg) {
		for _, k := range p.kids {
			visit(k)
		}
		if p.kind != "act" {
			return
		}
		c := s.contract(p)
		if c == nil {
			panic("the action " + p.text + " is not under contract")
		}
		in := Var("in.p", SortOf(p.fn.Params[0].Type()))
		facts := []*Term{s.fn("HasLabels", in), s.fn("Matched", in, IntT(int64(s.shortest(p.kids[0]))))}
		labels := map[string]*peg{}
		labelsOf(p.kids[0], labels)
		var ls []string
		for l := range labels {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			facts = append(facts, s.of(labels[l], s.fn("Labelled", in, StrT(l)), 0))
		}
		for _, kind := range []string{"pre", "shape"} {
			for _, cl := range c.get(kind, s.prop) {
				ask("shape", cl.label, facts, conjuncts(cl.spec.Apply(fuelN(fuelDepth), in)))
			}
		}
		if seen[p.fn] {
			return
		}
		seen[p.fn] = true
		v, err := Fresh("v", "Any"), Fresh("err", "Any")
		facts = nil
		for _, cl := range c.get("pre", s.prop) {
			facts = append(facts, cl.spec.Apply(fuelN(fuelDepth), in))
		}
		for _, cl := range c.get("post", s.prop) {
			facts = append(facts, cl.spec.Apply(fuelN(fuelDepth), in, v, err))
		}
		facts = append(facts, Eq(err, AnyNil))
		for _, cl := range c.get("gives", s.prop) {
			ask("gives", cl.label, facts, conjuncts(cl.spec.Apply(fuelN(fuelDepth), v)))
		}
	}
	for _, n := range names {
		visit(s.table[n])
	}
	return u
}
