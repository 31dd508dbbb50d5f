package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A frame is one activation: the unit itself or a function inlined into it.
type frame struct {
	fn     *ssa.Function
	args   []*Term            // values of the parameters at entry (nil: not a term)
	caller map[ssa.Value]SVal // the values the caller had then
}

// A loopVar is a variable of a loop under analysis.
type loopVar struct {
	name  string
	typ   types.Type
	cur   *Term // value at the head of the current iteration
	entry *Term // value when the loop was entered
	phi   bool
	idx   bool // integer phi
}

// loopShape records what a loop changes.
type loopShape struct {
	chg     map[string]bool
	slice   map[string]bool
	noslice map[string]bool
	esc     map[*Obj]bool
	world   bool
}

type candidate struct {
	label string
	term  func(vals map[string]*Term) *Term
	at    func(r *loopRun, st *State) (*Term, bool)
}

// loopRun is the analysis of one loop from one entry state.
type loopRun struct {
	x     *Exec
	fn    *ssa.Function
	l     *loopInfo
	phis  []*ssa.Phi
	entry *State
	shape *loopShape
	wIn   *Term
}

func (x *Exec) loop(fn *ssa.Function, l *loopInfo, ins []inState) *regionResult {
	x.noteLoop(fn, l)
	var sts []*State
	for _, i := range ins {
		x.evalPhis(i.st, l.header, i.from)
		sts = append(sts, i.st)
	}
	sts = x.joinStates(sts, 1)
	rr := &regionResult{}
	for _, st := range sts {
		if sub := x.unroll(fn, l, st); sub != nil {
			rr.exits = append(rr.exits, sub.exits...)
			rr.returns = append(rr.returns, sub.returns...)
			continue
		}
		r := &loopRun{x: x, fn: fn, l: l, entry: st, shape: &loopShape{chg: map[string]bool{}, slice: map[string]bool{}, noslice: map[string]bool{}, esc: map[*Obj]bool{}}, wIn: st.world}
		for _, ins := range l.header.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			r.phis = append(r.phis, p)
		}
		sub := r.run()
		rr.exits = append(rr.exits, sub.exits...)
		rr.returns = append(rr.returns, sub.returns...)
	}
	return rr
}

func phiKey(p *ssa.Phi) string { return "phi " + p.Name() }
func objKey(o *Obj) string     { return fmt.Sprintf("obj %d", o.id) }

// head builds the state at the head of an arbitrary iteration.
func (r *loopRun) head() *State {
	x := r.x
	st := r.entry.clone()
	for _, p := range r.phis {
		v := r.entry.env[p]
		if v == nil {
			delete(st.env, p)
			continue
		}
		n := infoOf(r.fn).names[p]
		if n == "" {
			n = "i"
		}
		st.env[p] = r.havoc(st, phiKey(p), v, p.Type(), n, true)
	}
	for _, o := range sortedObjs(r.entry.heap) {
		c := r.entry.heap[o]
		nv := r.havoc(st, objKey(o), c.val, o.typ, o.name, false)
		if nv != c.val || r.shape.esc[o] {
			cur := st.heap[o]
			st.heap[o] = &Cell{val: nv, escaped: c.escaped || r.shape.esc[o], dead: cur.dead}
		}
	}
	if r.shape.world {
		st.world = Fresh("world", st.world.sort)
	}
	_ = x
	return st
}

func (r *loopRun) havoc(st *State, key string, v SVal, t types.Type, name string, force bool) SVal {
	x := r.x
	if s, ok := v.(*StructV); ok {
		n := &StructV{typ: s.typ}
		same := true
		for i, f := range s.fields {
			fl := s.typ.Underlying().(*types.Struct).Field(i)
			nf := r.havoc(st, fmt.Sprintf("%s.%d", key, i), f, fl.Type(), name+"."+fl.Name(), false)
			if nf != f {
				same = false
			}
			n.fields = append(n.fields, nf)
		}
		if same {
			return v
		}
		return n
	}
	if !force && !r.shape.chg[key] {
		return v
	}
	if name == "" {
		name = "h"
	}
	switch s := v.(type) {
	case *Term:
		first := force && !r.shape.chg[key] && !x.discovered(r)
		if (first || r.shape.slice[key]) && !r.shape.noslice[key] && isEmptySeq(s) && !isByteSlice(t) {
			o := x.newObj(t, name)
			st.heap[o] = &Cell{val: Fresh(name, s.sort)}
			return &SliceV{obj: o, typ: t}
		}
		if force && !r.shape.chg[key] && !r.x.discovered(r) {
			return Fresh(name, s.sort)
		}
		if !r.shape.chg[key] {
			return v
		}
		return Fresh(name, s.sort)
	case *SliceV:
		if !r.shape.chg[key] {
			return v
		}
		c := st.heap[s.obj]
		sort := x.snapshot(st, s).sort
		if r.shape.noslice[key] {
			return Fresh(name, sort)
		}
		o := x.newObj(s.obj.typ, name)
		o.root = rootOf(s.obj)
		st.heap[o] = &Cell{val: Fresh(name, sort), escaped: c.escaped}
		st.heap[s.obj] = &Cell{val: c.val, escaped: c.escaped, dead: true}
		return &SliceV{obj: o, typ: s.typ}
	case *BoxV:
		if r.shape.chg[key] {
			return Fresh(name, "Any")
		}
		return v
	}
	if r.shape.chg[key] {
		panic(unsupported("loop changes %s (%T)", name, v))
	}
	return v
}

func (x *Exec) discovered(r *loopRun) bool { return r.shape.chg["done"] }

func rootOf(o *Obj) *Obj {
	if o.root != nil {
		return o.root
	}
	return o
}

// compare finds what an iteration changed.
func (r *loopRun) compare(head, back *State) bool {
	grew := false
	add := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			grew = true
		}
	}
	var walk func(key string, a, b SVal)
	walk = func(key string, a, b SVal) {
		if a == b {
			return
		}
		switch av := a.(type) {
		case *StructV:
			bv, ok := b.(*StructV)
			if !ok {
				if t, isT := b.(*Term); isT {
					bv, ok = expand(t, av.typ).(*StructV)
				}
			}
			if ok && len(bv.fields) == len(av.fields) {
				for i := range av.fields {
					walk(fmt.Sprintf("%s.%d", key, i), av.fields[i], bv.fields[i])
				}
				return
			}
		case *SliceV:
			if bv, ok := b.(*SliceV); ok {
				if av.obj == bv.obj {
					return
				}
				add(r.shape.chg, key)
				add(r.shape.slice, key)
				return
			}
			if t, ok := b.(*Term); ok && isEmptySeq(t) {
				add(r.shape.chg, key)
				return
			}
			add(r.shape.chg, key)
			add(r.shape.noslice, key)
			return
		case *Ref:
			if bv, ok := b.(*Ref); ok && av.obj == bv.obj && samePath(av.path, bv.path) {
				return
			}
		case *MapV:
			if bv, ok := b.(*MapV); ok && av.obj == bv.obj {
				return
			}
		case *Term:
			if _, ok := b.(*SliceV); ok {
				add(r.shape.chg, key)
				add(r.shape.slice, key)
				return
			}
			if bt, ok := b.(*Term); ok && r.shape.slice[key] && !isEmptySeq(bt) {
				add(r.shape.noslice, key)
			}
		}
		add(r.shape.chg, key)
	}
	for _, p := range r.phis {
		a, b := head.env[p], back.env[p]
		if a == nil {
			continue
		}
		if b == nil {
			add(r.shape.chg, phiKey(p))
			continue
		}
		walk(phiKey(p), a, b)
	}
	for _, o := range sortedObjs(r.entry.heap) {
		hc, bc := head.heap[o], back.heap[o]
		if hc == nil || bc == nil || hc == bc {
			continue
		}
		walk(objKey(o), hc.val, bc.val)
		if bc.escaped && !hc.escaped && !r.shape.esc[o] {
			r.shape.esc[o] = true
			grew = true
		}
	}
	if head.world != back.world && !r.shape.world {
		r.shape.world = true
		grew = true
	}
	return grew
}

// body runs one iteration.
func (r *loopRun) body(st *State) *regionResult {
	return r.x.region(r.fn, r.l.header, []inState{{st, nil}}, r.l)
}

func (r *loopRun) run() *regionResult {
	x := r.x
	// what does the loop change?
	func() {
		x.quiet++
		x.discover++
		defer func() { x.quiet--; x.discover-- }()
		for n := 0; ; n++ {
			if n > 12 {
				panic(unsupported("loop at %s: shape of changes not found", x.pos(r.l.header.Instrs[0].Pos())))
			}
			h := r.head()
			rr := r.body(h.clone())
			grew := false
			for _, b := range rr.backs {
				if r.compare(h, b) {
					grew = true
				}
			}
			if !grew {
				break
			}
		}
		r.shape.chg["done"] = true
	}()
	h := r.head()
	if x.discover > 0 {
		return r.body(h)
	}
	cands := r.candidates(h)
	debugf("%s: loop in %s: %d candidates", x.unit.name, r.fn.Name(), len(cands))
	// initially true
	cands = r.filter(cands, []*State{r.entry}, "init")
	// preserved
	outer := len(x.outerVars)
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("invariants do not stabilise"))
		}
		hs := h.clone()
		for _, c := range cands {
			if t, ok := c.at(r, h); ok {
				hs.assume(t)
			}
		}
		x.quiet++
		x.outerVars = append(x.outerVars[:outer:outer], r.vars(hs)...)
		rr := r.body(hs)
		x.outerVars = x.outerVars[:outer]
		x.quiet--
		n := len(cands)
		cands = r.filter(cands, rr.backs, "step")
		if len(cands) == n {
			break
		}
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		for _, c := range cands {
			debugf("  inv %s", c.label)
		}
	}
	// final run with the obligations of the body recorded
	hs := h.clone()
	for _, c := range cands {
		t, ok := c.at(r, r.entry)
		if ok {
			x.oblige(r.entry, "inv-init", c.label, t, r.pos())
		}
		if t, ok := c.at(r, h); ok {
			hs.assume(t)
		}
	}
	x.outerVars = append(x.outerVars[:outer:outer], r.vars(hs)...)
	rr := r.body(hs)
	x.outerVars = x.outerVars[:outer]
	for _, b := range rr.backs {
		for _, c := range cands {
			if t, ok := c.at(r, b); ok {
				x.oblige(b, "inv-step", c.label, t, r.pos())
			}
		}
	}
	return &regionResult{exits: rr.exits, returns: rr.returns}
}

func (r *loopRun) pos() token.Pos {
	for b := range r.l.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// filter keeps the candidates that hold in all the states.
func (r *loopRun) filter(cands []*candidate, sts []*State, what string) []*candidate {
	type job struct {
		c int
		q *Query
	}
	var jobs []job
	drop := map[int]bool{}
	for i, c := range cands {
		for _, st := range sts {
			t, ok := c.at(r, st)
			if !ok {
				drop[i] = true
				break
			}
			if t == False {
				drop[i] = true
				break
			}
			jobs = append(jobs, job{i, &Query{facts: st.facts, goal: t, th: r.x.th}})
		}
	}
	var qs []*Query
	var idx []int
	for _, j := range jobs {
		if !drop[j.c] {
			qs = append(qs, j.q)
			idx = append(idx, j.c)
		}
	}
	res := proveAll(qs, true)
	for i, q := range res {
		if q.status != "unsat" {
			if !drop[idx[i]] {
				debugf("  drop (%s) %s: %s", what, cands[idx[i]].label, q.status)
			}
			drop[idx[i]] = true
		}
	}
	var out []*candidate
	for i, c := range cands {
		if !drop[i] {
			out = append(out, c)
		}
	}
	return out
}

// vars lists the variables of the loop in a state at its head.
func (r *loopRun) vars(st *State) []*loopVar {
	x := r.x
	names := infoOf(r.fn).names
	var out []*loopVar
	snap := func(st *State, v SVal) (t *Term) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupportedError); ok {
					t = nil
					return
				}
				panic(e)
			}
		}()
		if v == nil {
			return nil
		}
		return x.snapshot(st, v)
	}
	for _, p := range r.phis {
		v := snap(st, st.env[p])
		if v == nil {
			continue
		}
		out = append(out, &loopVar{name: names[p], typ: p.Type(), cur: v, entry: snap(r.entry, r.entry.env[p]), phi: true, idx: v.sort == "Int"})
	}
	for _, o := range sortedObjs(r.entry.heap) {
		key := objKey(o)
		changed := false
		for k := range r.shape.chg {
			if k == key || strings.HasPrefix(k, key+".") {
				changed = true
			}
		}
		if !changed {
			continue
		}
		c := st.heap[o]
		if c == nil {
			continue
		}
		v := snap(st, c.val)
		if v == nil {
			continue
		}
		out = append(out, &loopVar{name: o.name, typ: o.typ, cur: v, entry: snap(r.entry, r.entry.heap[o].val)})
	}
	return out
}

// candidates instantiates the invariant clauses for this loop.
func (r *loopRun) candidates(h *State) []*candidate {
	x := r.x
	var out []*candidate
	seen := map[string]bool{}
	add := func(c *candidate) {
		if !seen[c.label] {
			seen[c.label] = true
			out = append(out, c)
		}
	}
	// bounds of counters
	vars := r.vars(h)
	var bounds []*Term
	var outs func(b *ssa.BasicBlock)
	outs = func(b *ssa.BasicBlock) {
		if len(b.Instrs) == 0 {
			return
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				var s SVal
				switch c := v.(type) {
				case *ssa.Const:
					if c.Value != nil && c.Value.Kind() == 3 {
						s = constVal(c)
					}
				default:
					s = h.env[v]
				}
				if t, ok := s.(*Term); ok && t.sort == "Int" {
					bounds = append(bounds, t)
				}
			}
		}
		// a length computed in the header
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if v := h.env[c.Call.Args[0]]; v != nil {
						if t, ok := v.(*Term); ok {
							if t.sort == "String" {
								bounds = append(bounds, StrLen(t))
							} else {
								bounds = append(bounds, Len(t))
							}
						}
					}
				}
			}
		}
	}
	for b := range r.l.blocks {
		outs(b)
	}
	for _, t := range r.headerBounds(h) {
		if !contains(bounds, t) {
			bounds = append(bounds, t)
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	for _, p := range r.phis {
		p := p
		t, ok := h.env[p].(*Term)
		if !ok || t.sort != "Int" {
			continue
		}
		e, ok := r.entry.env[p].(*Term)
		if !ok {
			continue
		}
		get := func(st *State) *Term { return x.term(st, st.env[p]) }
		name := infoOf(r.fn).names[p]
		if name == "" {
			name = p.Name()
		}
		add(&candidate{label: name + " >= its first value", at: func(r *loopRun, st *State) (*Term, bool) { return Le(e, get(st)), true }})
		for _, b := range bounds {
			b := b
			if b == t {
				continue
			}
			add(&candidate{label: fmt.Sprintf("%s <= bound %d", name, b.id), at: func(r *loopRun, st *State) (*Term, bool) { return Le(get(st), b), true }})
			add(&candidate{label: fmt.Sprintf("%s+1 <= bound %d", name, b.id), at: func(r *loopRun, st *State) (*Term, bool) { return Le(Add(get(st), IntT(1)), b), true }})
		}
	}
	// a value that is one constant in the first round and another in all later ones
	for _, p := range r.phis {
		p := p
		v0, ok := r.entry.env[p].(*Term)
		if !ok || len(v0.args) != 0 || v0.op == "var" {
			continue
		}
		var v1 *Term
		same := true
		for i, e := range p.Edges {
			if !r.l.blocks[p.Block().Preds[i]] {
				continue
			}
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil {
				same = false
				break
			}
			t, ok := constVal(c).(*Term)
			if !ok || v1 != nil && v1 != t {
				same = false
				break
			}
			v1 = t
		}
		if !same || v1 == nil || v1.sort != v0.sort {
			continue
		}
		for _, c := range r.phis {
			c := c
			c0, ok := r.entry.env[c].(*Term)
			if !ok || c0.sort != "Int" || c == p {
				continue
			}
			add(&candidate{label: fmt.Sprintf("%s is its first value when %s is", p.Name(), c.Name()), at: func(r *loopRun, st *State) (*Term, bool) {
				return Eq(x.term(st, st.env[p]), Ite(Eq(x.term(st, st.env[c]), c0), v0, v1)), true
			}})
		}
	}
	// fields of changing objects that keep their contents
	for _, o := range sortedObjs(r.entry.heap) {
		o := o
		if !r.changed(o) {
			continue
		}
		sv, ok := r.entry.heap[o].val.(*StructV)
		if !ok {
			continue
		}
		for i, f := range sv.fields {
			i := i
			e, ok := f.(*Term)
			if !ok {
				continue
			}
			add(&candidate{label: fmt.Sprintf("field %d of %s is unchanged", i, o.name), at: func(r *loopRun, st *State) (*Term, bool) {
				c := st.heap[o]
				if c == nil {
					return nil, false
				}
				n, ok := c.val.(*StructV)
				if !ok {
					return nil, false
				}
				t, ok := n.fields[i].(*Term)
				if !ok {
					return nil, false
				}
				return Eq(t, e), true
			}})
		}
	}
	// clauses of the functions on the stack
	type ctx struct {
		c    *Contract
		args []*Term
	}
	var ctxs []ctx
	for i, f := range x.frames {
		c := contracts[f.fn]
		if i == 0 {
			c = x.unit
		}
		if c != nil {
			if c.variant != "" {
				ctxs = append(ctxs, ctx{c, nil})
				continue
			}
			ctxs = append(ctxs, ctx{c, f.args})
		}
	}
	for _, cx := range ctxs {
		for _, cl := range cx.c.get("inv", x.prop) {
			for _, c := range r.instances(cl, cx.args, h, vars) {
				add(c)
			}
		}
	}
	return out
}

// headerBounds are the numbers the loop's condition compares with, where they
// are computed in the header (for i := 0; i < len(s.args); i++).
func (r *loopRun) headerBounds(h *State) (ts []*Term) {
	b := r.l.header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.BinOp, *ssa.If:
		case *ssa.Call:
			if bi, ok := ins.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	x := r.x
	x.quiet++
	defer func() {
		x.quiet--
		if e := recover(); e != nil {
			if _, ok := e.(unsupportedError); ok {
				ts = nil
				return
			}
			panic(e)
		}
	}()
	x.runBlock(r.fn, h.clone(), b, 0, func(st *State, _ *ssa.BasicBlock) {
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			if _, phi := v.(*ssa.Phi); phi {
				continue
			}
			if t, ok := st.env[v].(*Term); ok && t.sort == "Int" && !contains(ts, t) {
				ts = append(ts, t)
			}
		}
	}, func(Outcome) {})
	return ts
}

// binding of one parameter of an invariant.
type binding struct {
	desc string
	at   func(st *State) *Term
}

func (r *loopRun) instances(cl *Clause, args []*Term, h *State, vars []*loopVar) []*candidate {
	x := r.x
	names := infoOf(r.fn).names
	get := func(f func(st *State) SVal) func(st *State) *Term {
		return func(st *State) (t *Term) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsupportedError); ok {
						t = nil
						return
					}
					panic(e)
				}
			}()
			v := f(st)
			if v == nil {
				return nil
			}
			return x.snapshot(st, v)
		}
	}
	var opts [][]binding
	pos := 0
	for i, p := range cl.spec.params {
		p := p
		if isWorld(p.Type()) {
			switch p.Name() {
			case "w0":
				opts = append(opts, []binding{{"w0", func(*State) *Term { return x.entryWorld }}})
			case "w_in":
				opts = append(opts, []binding{{"w_in", func(*State) *Term { return r.wIn }}})
			default:
				opts = append(opts, []binding{{"w", func(st *State) *Term { return st.world }}})
			}
			continue
		}
		srt := SortOf(p.Type())
		if pos < len(args) && i == pos {
			a := args[i]
			pos++
			if a == nil || a.sort != srt {
				return nil
			}
			opts = append(opts, []binding{{p.Name(), func(*State) *Term { return a }}})
			continue
		}
		pos = len(args) + 1
		name := p.Name()
		atEntry := strings.HasSuffix(name, "_in")
		name = strings.TrimSuffix(strings.TrimSuffix(name, "_in"), "_now")
		var bs []binding
		addv := func(desc string, f func(st *State) SVal) {
			g := get(f)
			if atEntry {
				e := g(r.entry)
				g = func(*State) *Term { return e }
			}
			if t := g(h); t != nil && t.sort == srt {
				bs = append(bs, binding{desc, g})
			}
		}
		if name == "k" {
			for _, ph := range r.phis {
				ph := ph
				t, ok := h.env[ph].(*Term)
				if !ok || t.sort != "Int" {
					continue
				}
				addv(ph.Name(), func(st *State) SVal { return st.env[ph] })
				addv(ph.Name()+"+1", func(st *State) SVal { return Add(x.term(st, st.env[ph]), IntT(1)) })
			}
			for _, o := range sortedObjs(r.entry.heap) {
				o := o
				if o.name == "pos" && types.Identical(o.typ, types.Typ[types.Int]) && r.changed(o) {
					addv("pos", func(st *State) SVal { return st.heap[o].val })
				}
			}
		} else {
			type src struct {
				name string
				typ  types.Type
				f    func(st *State) SVal
				loop bool
			}
			var srcs []src
			for _, ph := range r.phis {
				ph := ph
				srcs = append(srcs, src{names[ph], ph.Type(), func(st *State) SVal { return st.env[ph] }, true})
			}
			for _, o := range sortedObjs(r.entry.heap) {
				o := o
				srcs = append(srcs, src{o.name, o.typ, func(st *State) SVal {
					if c := st.heap[o]; c != nil {
						return c.val
					}
					return nil
				}, r.changed(o)})
			}
			for _, v := range x.outerVars {
				v := v
				srcs = append(srcs, src{v.name, v.typ, func(*State) SVal { return v.cur }, v.phi || true})
			}
			var envs []ssa.Value
			for v := range r.entry.env {
				envs = append(envs, v)
			}
			sort.Slice(envs, func(i, j int) bool { return envs[i].Name() < envs[j].Name() })
			for _, v := range envs {
				v := v
				if _, isPhi := v.(*ssa.Phi); isPhi && r.isPhi(v) {
					continue
				}
				srcs = append(srcs, src{names[v], v.Type(), func(st *State) SVal { return st.env[v] }, false})
			}
			// what the callers of a function run in place call by that name
			for i := len(x.frames) - 1; i > 0; i-- {
				f, up := x.frames[i], infoOf(x.frames[i-1].fn).names
				var vs []ssa.Value
				for v := range f.caller {
					if up[v] == name || isParam(v, name) {
						vs = append(vs, v)
					}
				}
				sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
				for _, v := range vs {
					c := f.caller[v]
					srcs = append(srcs, src{name, v.Type(), func(*State) SVal { return c }, false})
				}
			}
			for pass := 0; pass < 3 && len(bs) == 0; pass++ {
				for _, s := range srcs {
					if s.name == "" && pass == 0 {
						continue
					}
					switch pass {
					case 0:
						if s.name != name {
							continue
						}
					case 1:
						if !s.loop || SortOfSafe(s.typ) != srt {
							continue
						}
					case 2:
						if SortOfSafe(s.typ) != srt {
							continue
						}
					}
					addv(s.name, s.f)
				}
			}
			if len(bs) > 6 {
				bs = bs[:6]
			}
		}
		if len(bs) == 0 {
			return nil
		}
		opts = append(opts, bs)
	}
	var out []*candidate
	var rec func(i int, chosen []binding)
	rec = func(i int, chosen []binding) {
		if len(out) >= 40 {
			return
		}
		if i == len(opts) {
			ch := append([]binding(nil), chosen...)
			var ds []string
			for j, b := range ch {
				if j >= len(args) || true {
					ds = append(ds, b.desc)
				}
			}
			out = append(out, &candidate{label: cl.label + "(" + strings.Join(ds, ",") + ")", at: func(r *loopRun, st *State) (*Term, bool) {
				var as []*Term
				for _, b := range ch {
					t := b.at(st)
					if t == nil {
						return nil, false
					}
					as = append(as, t)
				}
				return cl.spec.Apply(fuelN(fuelDepth), as...), true
			}})
			return
		}
		for _, b := range opts[i] {
			rec(i+1, append(chosen, b))
		}
	}
	rec(0, nil)
	return out
}

func isParam(v ssa.Value, name string) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Name() == name
}

func (r *loopRun) isPhi(v ssa.Value) bool {
	for _, p := range r.phis {
		if p == v {
			return true
		}
	}
	return false
}

func (r *loopRun) changed(o *Obj) bool {
	key := objKey(o)
	for k := range r.shape.chg {
		if k == key || strings.HasPrefix(k, key+".") {
			return true
		}
	}
	return false
}

// SortOfSafe is SortOf, or "" for types that have none.
func SortOfSafe(t types.Type) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = ""
		}
	}()
	if _, ok := t.(*types.Tuple); ok {
		return ""
	}
	return SortOf(t)
}
