package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// A SpecFn is a pure Go function of the specification, translated to terms.
type SpecFn struct {
	obj       *types.Func
	decl      *ast.FuncDecl
	info      *types.Info
	name      string
	params    []*types.Var
	recursive bool
	opaque    bool // its definition is known only where it is revealed
	ghost     bool // no definition: an arbitrary function
	axiom     *Term // definition (recursive functions)
	axioms    []*Term
	busy      bool
}

// Specs is the table of spec functions by object.
type Specs struct {
	byObj map[types.Object]*SpecFn
	byName map[string]*SpecFn // SMT name of recursive functions
}

var specs = &Specs{byObj: map[types.Object]*SpecFn{}, byName: map[string]*SpecFn{}}

var (
	fuelZ  = func() *Term { unintSorts["Fuel"] = true; return mk("fn", "fuel.z", "Fuel") }()
)

func fuelS(f *Term) *Term { return mk("fn", "fuel.s", "Fuel", f) }

var fuelDepth = 2

func fuelN(n int) *Term {
	t := fuelZ
	for i := 0; i < n; i++ {
		t = fuelS(t)
	}
	return t
}

// addSpecFile registers the functions of a spec or contract file.
func (s *Specs) addFile(pkg *types.Package, f *ast.File, info *types.Info) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Recv != nil {
			continue
		}
		obj := info.Defs[fd.Name].(*types.Func)
		sig := obj.Type().(*types.Signature)
		fn := &SpecFn{obj: obj, decl: fd, info: info, name: pkg.Name() + "." + fd.Name.Name}
		if len(fd.Body.List) == 1 {
			es, _ := fd.Body.List[0].(*ast.ExprStmt)
			if es == nil {
				es = &ast.ExprStmt{}
			}
			if ce, ok := es.X.(*ast.CallExpr); ok {
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "panic" {
					fn.ghost = true
				}
			}
		}
		for i := 0; i < sig.Params().Len(); i++ {
			fn.params = append(fn.params, sig.Params().At(i))
		}
		if fd.Doc != nil && strings.Contains(fd.Doc.Text()+docDirectives(fd.Doc), "verif:opaque") {
			fn.opaque = true
		}
		s.byObj[obj] = fn
	}
}

func docDirectives(g *ast.CommentGroup) string {
	out := ""
	for _, c := range g.List {
		out += c.Text + "\n"
	}
	return out
}

// findRecursion marks the functions that are part of a call cycle.
func (s *Specs) findRecursion() {
	calls := map[*SpecFn][]*SpecFn{}
	for _, f := range s.byObj {
		f := f
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := f.info.Uses[id]; ok {
					if g, ok := s.byObj[o]; ok {
						calls[f] = append(calls[f], g)
					}
				}
			}
			return true
		})
	}
	for _, f := range s.byObj {
		seen := map[*SpecFn]bool{}
		var reach func(g *SpecFn) bool
		reach = func(g *SpecFn) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if reach(h) {
						return true
					}
				}
			}
			return false
		}
		f.recursive = reach(f)
		if f.recursive {
			s.byName["spec."+f.name] = f
		}
	}
}

// A scope is a translation context.
type scope struct {
	fn   *SpecFn
	vars map[types.Object]*Term
	fuel *Term
	hyps *[]*Term // lemma uses, under path condition
	path []*Term
}

func (sc *scope) child() *scope {
	n := *sc
	n.vars = map[types.Object]*Term{}
	for k, v := range sc.vars {
		n.vars[k] = v
	}
	n.path = append([]*Term(nil), sc.path...)
	return &n
}

func (sc *scope) assume(c *Term) *scope {
	n := sc.child()
	n.path = append(n.path, c)
	return n
}

func (sc *scope) bad(n ast.Node, format string, args ...interface{}) {
	panic(unsupported("spec %s: %s", sc.fn.name, fmt.Sprintf(format, args...)))
}

// Apply translates an application of a spec function.
func (f *SpecFn) Apply(fuel *Term, args ...*Term) *Term {
	res := f.obj.Type().(*types.Signature).Results().At(0).Type()
	if _, ok := lemmaBySpec[f]; ok {
		return f.statement(fuel, args)
	}
	if f.ghost {
		return Fn("ghost."+f.name, SortOf(res), args...)
	}
	if f.recursive {
		return Fn("spec."+f.name, SortOf(res), append([]*Term{fuel}, args...)...)
	}
	if f.opaque {
		return Fn("opaque."+f.name, SortOf(res), args...)
	}
	return f.body(fuel, args, nil)
}

// Reveal is the definition of an opaque function.
func (f *SpecFn) Reveal() *Term {
	var vars []*Term
	for _, p := range f.params {
		vars = append(vars, BVar(p.Name(), SortOf(p.Type())))
	}
	lhs := f.Apply(nil, vars...)
	return ForAll(vars, Eq(lhs, f.body(fuelN(fuelDepth), vars, nil)), []*Term{lhs})
}

func (f *SpecFn) body(fuel *Term, args []*Term, hyps *[]*Term) *Term {
	if f.busy {
		panic(unsupported("spec %s: unexpected recursion", f.name))
	}
	f.busy = true
	defer func() { f.busy = false }()
	sc := &scope{fn: f, vars: map[types.Object]*Term{}, fuel: fuel, hyps: hyps}
	for i, p := range f.params {
		if i < len(args) {
			if args[i].sort != SortOf(p.Type()) {
				panic(unsupported("spec %s: argument %d has sort %s, want %s", f.name, i, args[i].sort, SortOf(p.Type())))
			}
			sc.vars[p] = args[i]
		}
	}
	return sc.block(f.decl.Body.List)
}

// Definition returns the axioms of a recursive spec function.
func (f *SpecFn) Definition() []*Term {
	if f.axioms != nil {
		return f.axioms
	}
	fu := BVar("fu", "Fuel")
	var vars, args []*Term
	for _, p := range f.params {
		v := BVar(p.Name(), SortOf(p.Type()))
		vars = append(vars, v)
		args = append(args, v)
	}
	sortn := SortOf(f.obj.Type().(*types.Signature).Results().At(0).Type())
	lhs := mk("fn", "spec."+f.name, sortn, append([]*Term{fuelS(fu)}, args...)...)
	low := mk("fn", "spec."+f.name, sortn, append([]*Term{fu}, args...)...)
	body := f.body(fu, args, nil)
	vs := append([]*Term{fu}, vars...)
	f.axioms = []*Term{
		ForAll(vs, Eq(lhs, body), []*Term{lhs}),
		ForAll(vs, Eq(lhs, low), []*Term{lhs}),
	}
	return f.axioms
}

// ---- statements ----------------------------------------------------------------

func (sc *scope) block(stmts []ast.Stmt) *Term {
	if len(stmts) == 0 {
		sc.bad(nil, "missing return")
	}
	st, rest := stmts[0], stmts[1:]
	switch st := st.(type) {
	case *ast.ReturnStmt:
		if len(st.Results) != 1 {
			sc.bad(st, "return of %d results", len(st.Results))
		}
		res := sc.fn.obj.Type().(*types.Signature).Results().At(0).Type()
		return sc.conv(st.Results[0], res)
	case *ast.BlockStmt:
		return sc.block(append(append([]ast.Stmt(nil), st.List...), rest...))
	case *ast.IfStmt:
		s := sc.child()
		if st.Init != nil {
			return s.block(append([]ast.Stmt{st.Init, &ast.IfStmt{Cond: st.Cond, Body: st.Body, Else: st.Else}}, rest...))
		}
		c := s.expr(st.Cond)
		th := s.assume(c).block(append(append([]ast.Stmt(nil), st.Body.List...), rest...))
		var el *Term
		se := s.assume(Not(c))
		switch e := st.Else.(type) {
		case nil:
			el = se.block(rest)
		case *ast.BlockStmt:
			el = se.block(append(append([]ast.Stmt(nil), e.List...), rest...))
		default:
			el = se.block(append([]ast.Stmt{e}, rest...))
		}
		return Ite(c, th, el)
	case *ast.AssignStmt:
		s := sc.child()
		s.assign(st)
		return s.block(rest)
	case *ast.DeclStmt:
		s := sc.child()
		for _, spec := range st.Decl.(*ast.GenDecl).Specs {
			vs := spec.(*ast.ValueSpec)
			for i, n := range vs.Names {
				o := sc.fn.info.Defs[n]
				if i < len(vs.Values) {
					s.vars[o] = s.conv(vs.Values[i], o.Type())
				} else {
					s.vars[o] = Zero(o.Type())
				}
			}
		}
		return s.block(rest)
	case *ast.ExprStmt:
		call, ok := st.X.(*ast.CallExpr)
		if ok && sc.calleeName(call) == "Use" {
			if sc.hyps != nil {
				used, _ := ast.Unparen(call.Args[0]).(*ast.CallExpr)
				if used == nil || !usable[sc.callee(used)] {
					sc.bad(st, "Use of something else than a lemma proved before")
				}
				aa := allAssumed
				allAssumed = false
				h := sc.expr(call.Args[0])
				allAssumed = aa
				*sc.hyps = append(*sc.hyps, Implies(And(sc.path...), h))
			}
			return sc.block(rest)
		}
		sc.bad(st, "expression statement")
	case *ast.SwitchStmt:
		s := sc.child()
		if st.Init != nil {
			s.assign(st.Init.(*ast.AssignStmt))
		}
		return s.switchStmt(st, rest)
	case *ast.TypeSwitchStmt:
		return sc.typeSwitch(st, rest)
	}
	sc.bad(st, "statement %T", st)
	return nil
}

func (sc *scope) switchStmt(st *ast.SwitchStmt, rest []ast.Stmt) *Term {
	type arm struct {
		c    *Term
		body []ast.Stmt
	}
	var arms []arm
	var def []ast.Stmt
	hasDef := false
	for _, c := range st.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def, hasDef = cc.Body, true
			continue
		}
		var cs []*Term
		for _, e := range cc.List {
			if st.Tag == nil {
				cs = append(cs, sc.expr(e))
			} else {
				cs = append(cs, sc.compare(token.EQL, st.Tag, e))
			}
		}
		arms = append(arms, arm{Or(cs...), cc.Body})
	}
	_ = hasDef
	var build func(i int, s *scope) *Term
	build = func(i int, s *scope) *Term {
		if i == len(arms) {
			return s.block(append(append([]ast.Stmt(nil), def...), rest...))
		}
		a := arms[i]
		th := s.assume(a.c).block(append(append([]ast.Stmt(nil), a.body...), rest...))
		return Ite(a.c, th, build(i+1, s.assume(Not(a.c))))
	}
	return build(0, sc)
}

func (sc *scope) typeSwitch(st *ast.TypeSwitchStmt, rest []ast.Stmt) *Term {
	var x ast.Expr
	bind := false
	switch a := st.Assign.(type) {
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
		bind = true
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	}
	v := sc.expr(x)
	xt := sc.typeOf(x)
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range st.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	bindTo := func(s *scope, cc *ast.CaseClause, t *Term) *scope {
		if !bind {
			return s
		}
		if o := s.fn.info.Implicits[cc]; o != nil {
			s = s.child()
			s.vars[o] = t
		}
		return s
	}
	var build func(i int, s *scope) *Term
	build = func(i int, s *scope) *Term {
		if i == len(clauses) {
			if def == nil {
				return s.block(rest)
			}
			return bindTo(s, def, v).block(append(append([]ast.Stmt(nil), def.Body...), rest...))
		}
		cc := clauses[i]
		var cs []*Term
		val := v
		for _, te := range cc.List {
			t := s.typeOf(te)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				cs = append(cs, Eq(v, AnyNil))
				continue
			}
			if types.IsInterface(t) {
				cs = append(cs, Implements(t, v))
			} else {
				cs = append(cs, IsBox(t, v))
				if len(cc.List) == 1 {
					val = Unbox(t, v)
				}
			}
		}
		c := Or(cs...)
		th := bindTo(s.assume(c), cc, val).block(append(append([]ast.Stmt(nil), cc.Body...), rest...))
		return Ite(c, th, build(i+1, s.assume(Not(c))))
	}
	_ = xt
	return build(0, sc)
}

func (sc *scope) assign(st *ast.AssignStmt) {
	obj := func(e ast.Expr) types.Object {
		id := e.(*ast.Ident)
		if id.Name == "_" {
			return nil
		}
		if o := sc.fn.info.Defs[id]; o != nil {
			return o
		}
		return sc.fn.info.Uses[id]
	}
	if len(st.Lhs) == 2 && len(st.Rhs) == 1 {
		switch r := ast.Unparen(st.Rhs[0]).(type) {
		case *ast.TypeAssertExpr:
			v := sc.expr(r.X)
			t := sc.typeOf(r.Type)
			var ok, val *Term
			if types.IsInterface(t) {
				ok, val = Implements(t, v), v
				val = Ite(ok, v, AnyNil)
			} else {
				ok = IsBox(t, v)
				val = Ite(ok, Unbox(t, v), Zero(t))
			}
			if o := obj(st.Lhs[0]); o != nil {
				sc.vars[o] = val
			}
			if o := obj(st.Lhs[1]); o != nil {
				sc.vars[o] = ok
			}
			return
		case *ast.IndexExpr:
			m := sc.expr(r.X)
			mt := sc.typeOf(r.X).Underlying().(*types.Map)
			k := sc.conv(r.Index, mt.Key())
			ok, val := mapGet(mt, m, k)
			if o := obj(st.Lhs[0]); o != nil {
				sc.vars[o] = val
			}
			if o := obj(st.Lhs[1]); o != nil {
				sc.vars[o] = ok
			}
			return
		}
	}
	if len(st.Lhs) != len(st.Rhs) || (st.Tok != token.DEFINE && st.Tok != token.ASSIGN) {
		sc.bad(st, "assignment")
	}
	var vals []*Term
	for i := range st.Lhs {
		o := obj(st.Lhs[i])
		if o == nil {
			vals = append(vals, nil)
			continue
		}
		vals = append(vals, sc.conv(st.Rhs[i], o.Type()))
	}
	for i := range st.Lhs {
		if o := obj(st.Lhs[i]); o != nil {
			sc.vars[o] = vals[i]
		}
	}
}

// mapGet looks up a key: presence and value (zero if absent).
func mapGet(mt *types.Map, m, k *Term) (ok, val *Term) {
	s := SortOf(mt)
	o := arrSorts[s][1]
	e := Select(m, k, o)
	ok = Is("some."+o, e)
	val = Ite(ok, Sel("some."+o, 0, optElem[o], e), Zero(mt.Elem()))
	return ok, val
}

func mapSet(mt *types.Map, m, k, v *Term) *Term {
	o := arrSorts[SortOf(mt)][1]
	return Store(m, k, Ctor("some."+o, o, v))
}

// ---- expressions ----------------------------------------------------------------

func (sc *scope) typeOf(e ast.Expr) types.Type {
	if tv, ok := sc.fn.info.Types[e]; ok {
		return types.Unalias(tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := sc.fn.info.ObjectOf(id); o != nil {
			return types.Unalias(o.Type())
		}
	}
	sc.bad(e, "no type for %T", e)
	return nil
}

// conv translates e and converts it (boxing) to type t.
func (sc *scope) conv(e ast.Expr, t types.Type) *Term {
	et := sc.typeOf(e)
	if b, ok := et.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Zero(t)
	}
	v := sc.expr(e)
	return convTerm(v, et, t)
}

func convTerm(v *Term, from, to types.Type) *Term {
	if types.IsInterface(to) && !types.IsInterface(from) {
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		return Box(from, v)
	}
	return v
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(v))
	case constant.String:
		return StrT(constant.StringVal(v))
	case constant.Int:
		return IntS(v.ExactString())
	case constant.Float:
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return IntS(i.ExactString())
		}
	}
	panic(unsupported("constant %s", v))
}

func (sc *scope) calleeName(call *ast.CallExpr) string {
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		return f.Name
	case *ast.SelectorExpr:
		return f.Sel.Name
	}
	return ""
}

func (sc *scope) expr(e ast.Expr) *Term {
	info := sc.fn.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value, tv.Type)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return sc.expr(e.X)
	case *ast.Ident:
		o := info.ObjectOf(e)
		if v, ok := sc.vars[o]; ok {
			return v
		}
		if gv, ok := o.(*types.Var); ok && gv.Pkg() != nil && gv.Parent() == gv.Pkg().Scope() {
			return globalTerm(gv)
		}
		if _, ok := o.(*types.Nil); ok {
			return AnyNil
		}
		if fo, ok := o.(*types.Func); ok {
			return Fn("func."+fo.FullName(), "Func")
		}
		sc.bad(e, "unknown identifier %s", e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return Not(sc.expr(e.X))
		case token.SUB:
			return Sub(IntT(0), sc.expr(e.X))
		case token.AND:
			if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				return MkPtr(sc.typeOf(cl), sc.expr(cl))
			}
			// a pointer is what it points to
			return MkPtr(sc.typeOf(e.X), sc.expr(e.X))
		}
	case *ast.StarExpr:
		pt := sc.typeOf(e.X).Underlying().(*types.Pointer)
		return Deref(pt.Elem(), sc.expr(e.X))
	case *ast.BinaryExpr:
		return sc.binary(e)
	case *ast.SelectorExpr:
		if s, ok := info.Selections[e]; ok {
			if s.Kind() != types.FieldVal {
				sc.bad(e, "method value")
			}
			v := sc.expr(e.X)
			t := sc.typeOf(e.X)
			for _, i := range s.Index() {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					v = Deref(p.Elem(), v)
					t = p.Elem()
				}
				st := t.Underlying().(*types.Struct)
				v = FieldOf(t, i, v)
				t = st.Field(i).Type()
			}
			return v
		}
		o := info.Uses[e.Sel]
		if gv, ok := o.(*types.Var); ok {
			return globalTerm(gv)
		}
		if fo, ok := o.(*types.Func); ok {
			return Fn("func."+fo.FullName(), "Func")
		}
		sc.bad(e, "selector %s", e.Sel.Name)
	case *ast.IndexExpr:
		x := sc.expr(e.X)
		switch u := sc.typeOf(e.X).Underlying().(type) {
		case *types.Slice:
			i := sc.expr(e.Index)
			if x.sort == "String" {
				return Op("str.to_code", "Int", Op("str.at", "String", x, i))
			}
			return Nth(x, i)
		case *types.Basic:
			return Op("str.to_code", "Int", Op("str.at", "String", x, sc.expr(e.Index)))
		case *types.Map:
			_, v := mapGet(u, x, sc.conv(e.Index, u.Key()))
			return v
		}
	case *ast.SliceExpr:
		x := sc.expr(e.X)
		lo := IntT(0)
		if e.Low != nil {
			lo = sc.expr(e.Low)
		}
		if x.sort == "String" {
			hi := StrLen(x)
			if e.High != nil {
				hi = sc.expr(e.High)
			}
			return SubStr(x, lo, hi)
		}
		hi := Len(x)
		if e.High != nil {
			hi = sc.expr(e.High)
		}
		return Drop(Take(x, hi), lo)
	case *ast.TypeAssertExpr:
		t := sc.typeOf(e.Type)
		v := sc.expr(e.X)
		if types.IsInterface(t) {
			return v
		}
		return Unbox(t, v)
	case *ast.CompositeLit:
		return sc.composite(e)
	case *ast.CallExpr:
		return sc.call(e)
	}
	sc.bad(e, "expression %T", e)
	return nil
}

// SubStr is s[lo:hi] of a string.
func SubStr(x, lo, hi *Term) *Term {
	if lo.isInt() && lo.intVal() == 0 && hi == StrLen(x) {
		return x
	}
	if x.op == "str" && lo.isInt() && hi.isInt() {
		l, h := lo.intVal(), hi.intVal()
		if 0 <= l && l <= h && h <= int64(len(x.name)) {
			return StrT(x.name[l:h])
		}
	}
	return Op("str.substr", "String", x, lo, Sub(hi, lo))
}

func (sc *scope) composite(e *ast.CompositeLit) *Term {
	t := sc.typeOf(e)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = Zero(u.Field(i).Type())
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fs[j] = sc.conv(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				fs[i] = sc.conv(el, u.Field(i).Type())
			}
		}
		return MkStruct(t, fs)
	case *types.Slice:
		q := Empty(SortOf(t))
		for _, el := range e.Elts {
			if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
				sc.bad(e, "elided literal type")
			}
			q = Push(q, sc.conv(el, u.Elem()))
		}
		return q
	case *types.Map:
		if len(e.Elts) == 0 {
			return Zero(t)
		}
	}
	sc.bad(e, "composite literal of %s", t)
	return nil
}

func isNilLit(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[ast.Unparen(e)]
	return ok && tv.IsNil()
}

func (sc *scope) compare(op token.Token, x, y ast.Expr) *Term {
	info := sc.fn.info
	if isNilLit(info, x) {
		x, y = y, x
	}
	var r *Term
	if isNilLit(info, y) {
		r = isNilTerm(sc.typeOf(x), sc.expr(x))
	} else {
		xt, yt := sc.typeOf(x), sc.typeOf(y)
		a, b := sc.expr(x), sc.expr(y)
		if types.IsInterface(xt) != types.IsInterface(yt) {
			if types.IsInterface(xt) {
				b = convTerm(b, yt, xt)
			} else {
				a = convTerm(a, xt, yt)
			}
		}
		r = Eq(a, b)
	}
	if op == token.NEQ {
		return Not(r)
	}
	return r
}

func isNilTerm(t types.Type, v *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return IsNilPtr(u.Elem(), v)
	case *types.Interface:
		return Eq(v, AnyNil)
	case *types.Slice:
		if v.sort == "String" {
			return Eq(v, StrT(""))
		}
		return Eq(Len(v), IntT(0))
	case *types.Signature:
		return Eq(v, Fn("nilfunc", "Func"))
	case *types.Map:
		return Eq(v, Zero(t))
	}
	panic(unsupported("nil comparison of %s", t))
}

func (sc *scope) binary(e *ast.BinaryExpr) *Term {
	switch e.Op {
	case token.EQL, token.NEQ:
		return sc.compare(e.Op, e.X, e.Y)
	case token.LAND:
		a := sc.expr(e.X)
		return And(a, sc.assume(a).expr(e.Y))
	case token.LOR:
		a := sc.expr(e.X)
		return Or(a, sc.assume(Not(a)).expr(e.Y))
	}
	a, b := sc.expr(e.X), sc.expr(e.Y)
	return binTerm(e.Op, a, b)
}

func binTerm(op token.Token, a, b *Term) *Term {
	switch op {
	case token.ADD:
		if a.sort == "String" {
			return Concat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.LSS:
		if a.sort == "String" {
			return Op("str.<", "Bool", a, b)
		}
		return Lt(a, b)
	case token.LEQ:
		if a.sort == "String" {
			return Op("str.<=", "Bool", a, b)
		}
		return Le(a, b)
	case token.GTR:
		return binTerm(token.LSS, b, a)
	case token.GEQ:
		return binTerm(token.LEQ, b, a)
	case token.QUO:
		if b.isInt() && b.intVal() > 0 {
			// truncated division; exact for non-negative dividends
			return Op("div", "Int", a, b)
		}
	case token.REM:
		if b.isInt() && b.intVal() > 0 {
			return Op("mod", "Int", a, b)
		}
	}
	panic(unsupported("operator %s on %s", op, a.sort))
}

func (sc *scope) call(e *ast.CallExpr) *Term {
	info := sc.fn.info
	// conversion
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		return convertTerm(sc.expr(e.Args[0]), sc.typeOf(e.Args[0]), tv.Type)
	}
	var obj types.Object
	switch f := ast.Unparen(e.Fun).(type) {
	case *ast.Ident:
		obj = info.Uses[f]
	case *ast.SelectorExpr:
		obj = info.Uses[f.Sel]
	}
	if b, ok := obj.(*types.Builtin); ok {
		switch b.Name() {
		case "len":
			x := sc.expr(e.Args[0])
			if x.sort == "String" {
				return StrLen(x)
			}
			return Len(x)
		case "append":
			st := sc.typeOf(e).Underlying().(*types.Slice)
			q := sc.conv(e.Args[0], sc.typeOf(e))
			if e.Ellipsis.IsValid() {
				return Cat(q, sc.conv(e.Args[1], sc.typeOf(e)))
			}
			for _, a := range e.Args[1:] {
				q = Push(q, sc.conv(a, st.Elem()))
			}
			return q
		}
		sc.bad(e, "builtin %s", b.Name())
	}
	fn, ok := obj.(*types.Func)
	if !ok {
		// call of a function value
		f := sc.expr(e.Fun)
		sig := sc.typeOf(e.Fun).Underlying().(*types.Signature)
		var args []*Term
		for i, a := range e.Args {
			args = append(args, sc.conv(a, sig.Params().At(i).Type()))
		}
		return ApplyFunc(sig, f, args)
	}
	sig := fn.Type().(*types.Signature)
	if mt, ok := mapParam(sig); ok && strings.HasPrefix(fn.Name(), "put") && specs.byObj[fn] != nil {
		// the map with one entry set
		return mapSet(mt, sc.conv(e.Args[0], mt), sc.conv(e.Args[1], mt.Key()), sc.conv(e.Args[2], mt.Elem()))
	}
	if fn.FullName() == "(error).Error" {
		return errMsg(sc.expr(ast.Unparen(e.Fun).(*ast.SelectorExpr).X))
	}
	if strings.HasSuffix(fn.Pkg().Path(), "/zzspec") {
		if t, ok := sc.intrinsic(fn.Name(), e, sig); ok {
			return t
		}
	}
	var args []*Term
	if sig.Recv() != nil {
		se := ast.Unparen(e.Fun).(*ast.SelectorExpr)
		r := sc.expr(se.X)
		rt := sc.typeOf(se.X)
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			if _, isp := sig.Recv().Type().Underlying().(*types.Pointer); !isp {
				r = Deref(p.Elem(), r)
			}
		}
		args = append(args, r)
	}
	for i, a := range e.Args {
		if sig.Variadic() && i >= sig.Params().Len()-1 && !e.Ellipsis.IsValid() {
			break
		}
		args = append(args, sc.conv(a, sig.Params().At(i).Type()))
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		vt := sig.Params().At(sig.Params().Len() - 1).Type()
		q := Empty(SortOf(vt))
		for _, a := range e.Args[sig.Params().Len()-1:] {
			q = Push(q, sc.conv(a, vt.(*types.Slice).Elem()))
		}
		args = append(args, q)
	}
	if f, ok := specs.byObj[fn]; ok {
		return f.Apply(sc.fuel, args...)
	}
	if h, ok := pureFns[fn.FullName()]; ok {
		return h(args)
	}
	if pureContract(fn) {
		return pureApp(fn, args)
	}
	sc.bad(e, "call of %s", fn.FullName())
	return nil
}

func mapParam(sig *types.Signature) (*types.Map, bool) {
	if sig.Params().Len() != 3 {
		return nil, false
	}
	m, ok := sig.Params().At(0).Type().Underlying().(*types.Map)
	return m, ok
}

// pureApp is the value of a deterministic function known by contract only.
func pureApp(fn *types.Func, args []*Term) *Term {
	return Fn("pure."+fn.FullName(), SortOf(fn.Type().(*types.Signature).Results().At(0).Type()), args...)
}

// ApplyFunc applies a pure function value.
func ApplyFunc(sig *types.Signature, f *Term, args []*Term) *Term {
	return Fn("apply."+typeKey(sig), SortOf(sig.Results().At(0).Type()), append([]*Term{f}, args...)...)
}

func convertTerm(v *Term, from, to types.Type) *Term {
	fs, ts := SortOf(from), SortOf(to)
	if types.IsInterface(to) {
		return convTerm(v, from, to)
	}
	if fs == ts {
		return v
	}
	if fs == "Int" && ts == "String" {
		return fromCode(v)
	}
	if strings.HasPrefix(fs, "P.") && strings.HasPrefix(ts, "P.") {
		// conversion between pointers to structs of identical layout
		fe := from.Underlying().(*types.Pointer).Elem()
		te := to.Underlying().(*types.Pointer).Elem()
		return Ite(IsNilPtr(fe, v), NilPtr(te), MkPtr(te, convertTerm(Deref(fe, v), fe, te)))
	}
	if strings.HasPrefix(fs, "S.") && strings.HasPrefix(ts, "S.") {
		st := from.Underlying().(*types.Struct)
		var fields []*Term
		for i := 0; i < st.NumFields(); i++ {
			fields = append(fields, FieldOf(from, i, v))
		}
		return MkStruct(to, fields)
	}
	panic(unsupported("conversion from %s to %s", from, to))
}

func (sc *scope) intrinsic(name string, e *ast.CallExpr, sig *types.Signature) (*Term, bool) {
	arg := func(i int) *Term { return sc.conv(e.Args[i], sig.Params().At(i).Type()) }
	switch name {
	case "Implies":
		a := sc.expr(e.Args[0])
		return Implies(a, sc.assume(a).expr(e.Args[1])), true
	case "Iff":
		return Eq(sc.expr(e.Args[0]), sc.expr(e.Args[1])), true
	case "Eq":
		xt, yt := sc.typeOf(e.Args[0]), sc.typeOf(e.Args[1])
		a, b := sc.expr(e.Args[0]), sc.expr(e.Args[1])
		if isNilLit(sc.fn.info, e.Args[1]) {
			return isNilTerm(xt, a), true
		}
		if types.IsInterface(xt) != types.IsInterface(yt) {
			a, b = convTerm(a, xt, types.NewInterfaceType(nil, nil)), convTerm(b, yt, types.NewInterfaceType(nil, nil))
		}
		return Eq(a, b), true
	case "Forall":
		fl := ast.Unparen(e.Args[2]).(*ast.FuncLit)
		lo, hi := arg(0), arg(1)
		p := sc.fn.info.Defs[fl.Type.Params.List[0].Names[0]]
		s := sc.child()
		i := BVar(p.Name(), "Int")
		s.vars[p] = i
		s.hyps = nil
		ret := fl.Body.List[len(fl.Body.List)-1].(*ast.ReturnStmt)
		for _, st := range fl.Body.List[:len(fl.Body.List)-1] {
			s.assign(st.(*ast.AssignStmt))
		}
		body := s.expr(ret.Results[0])
		return ForAll([]*Term{i}, Implies(And(Le(lo, i), Lt(i, hi)), body), choosePatterns(i, body)...), true
	case "All":
		fl := ast.Unparen(e.Args[0]).(*ast.FuncLit)
		s := sc.child()
		s.hyps = nil
		var bvs []*Term
		for _, f := range fl.Type.Params.List {
			for _, n := range f.Names {
				p := sc.fn.info.Defs[n]
				b := BVar(n.Name, SortOf(p.Type()))
				s.vars[p] = b
				bvs = append(bvs, b)
			}
		}
		ret := fl.Body.List[len(fl.Body.List)-1].(*ast.ReturnStmt)
		for _, st := range fl.Body.List[:len(fl.Body.List)-1] {
			s.assign(st.(*ast.AssignStmt))
		}
		fu := BVar("fu", "Fuel")
		if allAssumed {
			s.fuel = fu
		}
		body := s.expr(ret.Results[0])
		if freeBound(body)[fu] {
			bvs = append([]*Term{fu}, bvs...)
		}
		return ForAll(bvs, body, ghostPatterns(bvs, body)...), true
	case "Rank":
		return Fn("rank", "Int", arg(0)), true
	case "TypeName":
		return Fn("typename", "String", arg(0)), true
	}
	if h, ok := intrinsics[name]; ok {
		var args []*Term
		for i := range e.Args {
			args = append(args, arg(i))
		}
		return h(args), true
	}
	return nil, false
}

// intrinsics of zzspec that translate to terms directly.
var intrinsics = map[string]func(args []*Term) *Term{}

// choosePatterns picks triggers for a quantifier over i.
func choosePatterns(i *Term, body *Term) [][]*Term {
	var nths, fns []*Term
	seen := map[*Term]bool{}
	contains := func(t *Term) bool { return t.hasBound && freeBound(t)[i] }
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		if t.op == "fn" {
			if strings.HasPrefix(t.name, "nth.") && t.args[1] == i && !contains(t.args[0]) {
				nths = append(nths, t)
			} else if !strings.HasPrefix(t.name, "nth.") {
				direct := false
				for _, a := range t.args {
					if a == i {
						direct = true
					}
				}
				if direct {
					fns = append(fns, t)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	ok := func(t *Term) bool {
		fb := freeBound(t)
		return fb[i]
	}
	var out [][]*Term
	for _, t := range nths {
		if ok(t) {
			out = append(out, []*Term{t})
		}
	}
	if len(out) == 0 {
		for _, t := range fns {
			if ok(t) {
				out = append(out, []*Term{t})
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a][0].id < out[b][0].id })
	return out
}

// allAssumed: the quantifier All stands where it is assumed (in the hypotheses
// of the lemma being proved), not where it has to be shown.
var allAssumed bool

// ghostPatterns are the applications of ghost functions that cover vars.
func ghostPatterns(vars []*Term, body *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		if t.op == "fn" && (strings.HasPrefix(t.name, "ghost.") || strings.HasPrefix(t.name, "spec.")) || t.op == "select" {
			fb := freeBound(t)
			all := true
			for _, v := range vars {
				all = all && fb[v]
			}
			if all {
				out = append(out, []*Term{t})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

// usable are the lemmas proved before the one being proved.
var usable map[*SpecFn]bool

// callee is the spec function a call names.
func (sc *scope) callee(call *ast.CallExpr) *SpecFn {
	var id *ast.Ident
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return nil
	}
	return specs.byObj[sc.fn.info.Uses[id]]
}
