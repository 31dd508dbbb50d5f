package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- datatypes ---------------------------------------------------------------

type dtField struct{ sort string }

type dtCtor struct {
	name   string
	fields []string // sorts
}

type datatype struct {
	name  string
	ctors []*dtCtor
}

var (
	datatypes  = map[string]*datatype{}
	ctorOwner  = map[string]*datatype{}
	ctorByName = map[string]*dtCtor{}
	seqElem    = map[string]string{} // sequence sort -> element sort
	optElem    = map[string]string{} // option sort -> value sort
	arrSorts   = map[string][2]string{}
	unintSorts = map[string]bool{"Func": true}
)

func addDT(name string, ctors ...*dtCtor) *datatype {
	d := &datatype{name: name, ctors: ctors}
	datatypes[name] = d
	for _, c := range ctors {
		ctorOwner[c.name] = d
		ctorByName[c.name] = c
	}
	return d
}

// ---- Go types ----------------------------------------------------------------

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if s, ok := t.(*types.Signature); ok {
		t = bareSignature(s)
	}
	return sanitize(types.TypeString(t, qual))
}

// bareSignature drops the names of parameters and results.
func bareSignature(s *types.Signature) *types.Signature {
	bare := func(tu *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < tu.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", tu.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, bare(s.Params()), bare(s.Results()), s.Variadic())
}

// structs of other modules that are trees of values for us.
var valueStructs = map[string]bool{
	"go/ast.Ident": true, "go/ast.BasicLit": true, "go/ast.ParenExpr": true,
	"go/ast.UnaryExpr": true, "go/ast.BinaryExpr": true, "go/ast.CallExpr": true,
	"go/ast.StarExpr": true, "go/ast.SelectorExpr": true,
}

const repoPath = "github.com/mmcloughlin/ssarules"

// isIdent reports whether pointers to the named type are identities (mutable
// things we do not look into) and not trees of values.
func isIdent(n *types.Named) bool {
	o := n.Obj()
	if o.Pkg() == nil {
		return true
	}
	if strings.HasPrefix(o.Pkg().Path(), repoPath) {
		return false
	}
	return !valueStructs[o.Pkg().Path()+"."+o.Name()]
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var sortMemo = map[string]string{}

// SortOf maps a Go type to an SMT sort, declaring datatypes as needed.
func SortOf(t types.Type) string {
	t = types.Unalias(t)
	if isWorld(t) {
		unintSorts["World"] = true
		return "World"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return "Bool"
		case info&types.IsInteger != 0:
			return "Int"
		case info&types.IsString != 0:
			return "String"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
		return opaque(t)
	case *types.Interface:
		ensureAny()
		return "Any"
	case *types.Slice:
		if isByteSlice(t) {
			return "String"
		}
		return seqSort(SortOf(u.Elem()))
	case *types.Pointer:
		return ptrSort(u.Elem())
	case *types.Struct:
		return structSort(t)
	case *types.Map:
		return mapSort(SortOf(u.Key()), SortOf(u.Elem()))
	case *types.Signature:
		return "Func"
	}
	return opaque(t)
}

func opaque(t types.Type) string {
	n := "U." + typeKey(t)
	unintSorts[n] = true
	return n
}

func sortTag(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}

func seqSort(elem string) string {
	n := "Q." + sortTag(elem)
	if _, ok := seqElem[n]; !ok {
		seqElem[n] = elem
	}
	return n
}

func optSort(v string) string {
	n := "O." + sortTag(v)
	if _, ok := datatypes[n]; !ok {
		addDT(n, &dtCtor{name: "none." + n}, &dtCtor{name: "some." + n, fields: []string{v}})
		optElem[n] = v
	}
	return n
}

func mapSort(k, v string) string {
	o := optSort(v)
	n := "(Array " + k + " " + o + ")"
	arrSorts[n] = [2]string{k, o}
	return n
}

func structName(t types.Type) string { return typeKey(t) }

func structSort(t types.Type) string {
	name := "S." + structName(t)
	if _, ok := datatypes[name]; ok {
		return name
	}
	if n, ok := t.(*types.Named); ok && isIdent(n) {
		return opaque(t)
	}
	st := t.Underlying().(*types.Struct)
	c := &dtCtor{name: "mk." + structName(t)}
	addDT(name, c)
	for i := 0; i < st.NumFields(); i++ {
		c.fields = append(c.fields, SortOf(st.Field(i).Type()))
	}
	return name
}

func ptrSort(elem types.Type) string {
	elem = types.Unalias(elem)
	key := typeKey(elem)
	name := "P." + key
	if _, ok := datatypes[name]; ok {
		return name
	}
	if n, ok := elem.(*types.Named); ok && isIdent(n) {
		addDT(name, &dtCtor{name: "nil." + key}, &dtCtor{name: "ptr." + key, fields: []string{"Int"}})
		return name
	}
	c := &dtCtor{name: "ptr." + key}
	addDT(name, &dtCtor{name: "nil." + key}, c)
	c.fields = []string{SortOf(elem)}
	return name
}

// ---- Any ----------------------------------------------------------------------

var (
	universe    []types.Type // boxed types, in order of registration
	universeKey = map[string]types.Type{}
)

func ensureAny() {
	if _, ok := datatypes["Any"]; ok {
		return
	}
	addDT("Any",
		&dtCtor{name: "anynil"},
		&dtCtor{name: "anyother", fields: []string{"Int"}},
		&dtCtor{name: "anyerr", fields: []string{"String", "Any"}},
	)
}

// registerBox adds a concrete type to the universe of dynamic types.
func registerBox(t types.Type) {
	t = types.Unalias(t)
	if types.IsInterface(t) {
		return
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	k := typeKey(t)
	if _, ok := universeKey[k]; ok {
		return
	}
	ensureAny()
	universeKey[k] = t
	universe = append(universe, t)
	c := &dtCtor{name: "box." + k}
	d := datatypes["Any"]
	d.ctors = append(d.ctors, c)
	ctorOwner[c.name] = d
	ctorByName[c.name] = c
	c.fields = []string{SortOf(t)}
}

var AnyNil = func() *Term { ensureAny(); return Ctor("anynil", "Any") }()

func Box(t types.Type, v *Term) *Term {
	t = types.Unalias(t)
	if types.IsInterface(t) {
		return v
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return AnyNil
	}
	registerBox(t)
	return Ctor("box."+typeKey(t), "Any", v)
}

func IsBox(t types.Type, a *Term) *Term {
	registerBox(t)
	return Is("box."+typeKey(t), a)
}

func Unbox(t types.Type, a *Term) *Term {
	registerBox(t)
	return Sel("box."+typeKey(t), 0, SortOf(t), a)
}

// MkErr is an error value with a message and what it wraps.
func MkErr(msg, wrapped *Term) *Term { ensureAny(); return Ctor("anyerr", "Any", msg, wrapped) }

// Implements: the dynamic type of a implements interface i (false for nil).
func Implements(i types.Type, a *Term) *Term {
	it := i.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Not(Eq(a, AnyNil))
	}
	if a.op == "ctor" {
		switch a.name {
		case "anynil":
			return False
		case "anyerr":
			return BoolT(types.Identical(it, types.Universe.Lookup("error").Type().Underlying()))
		}
		if t, ok := universeKey[strings.TrimPrefix(a.name, "box.")]; ok {
			return BoolT(types.Implements(t, it))
		}
	}
	var cs []*Term
	for _, t := range universe {
		if types.Implements(t, it) {
			cs = append(cs, IsBox(t, a))
		}
	}
	if types.Identical(it, types.Universe.Lookup("error").Type().Underlying()) {
		cs = append(cs, Is("anyerr", a))
	}
	cs = append(cs, And(Is("anyother", a), Fn("impl."+typeKey(i), "Bool", Sel("anyother", 0, "Int", a))))
	return Or(cs...)
}

// ---- values by type ------------------------------------------------------------

func NilPtr(elem types.Type) *Term {
	s := ptrSort(elem)
	return Ctor("nil."+typeKey(elem), s)
}

func MkPtr(elem types.Type, v *Term) *Term {
	s := ptrSort(elem)
	return Ctor("ptr."+typeKey(elem), s, v)
}

func IsNilPtr(elem types.Type, p *Term) *Term {
	ptrSort(elem)
	return Is("nil."+typeKey(elem), p)
}

func Deref(elem types.Type, p *Term) *Term {
	ptrSort(elem)
	return Sel("ptr."+typeKey(elem), 0, ctorByName["ptr."+typeKey(elem)].fields[0], p)
}

func MkStruct(t types.Type, fields []*Term) *Term {
	s := structSort(types.Unalias(t))
	return Ctor("mk."+structName(types.Unalias(t)), s, fields...)
}

func FieldOf(t types.Type, i int, v *Term) *Term {
	t = types.Unalias(t)
	structSort(t)
	st := t.Underlying().(*types.Struct)
	return Sel("mk."+structName(t), i, SortOf(st.Field(i).Type()), v)
}

func Zero(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch SortOf(t) {
		case "Bool":
			return False
		case "Int":
			return IntT(0)
		case "String":
			return StrT("")
		}
	case *types.Interface:
		return AnyNil
	case *types.Slice:
		if isByteSlice(t) {
			return StrT("")
		}
		return Empty(SortOf(t))
	case *types.Pointer:
		return NilPtr(u.Elem())
	case *types.Struct:
		if strings.HasPrefix(SortOf(t), "S.") {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, Zero(u.Field(i).Type()))
			}
			return MkStruct(t, fs)
		}
	case *types.Map:
		s := SortOf(t)
		o := arrSorts[s][1]
		return ConstArr(s, Ctor("none."+o, o))
	case *types.Signature:
		return Fn("nilfunc", "Func")
	}
	return Fn("zero."+sortTag(SortOf(t)), SortOf(t))
}

// ---- sequences ------------------------------------------------------------------

func Empty(s string) *Term        { return Fn("empty."+s, s) }
func Len(q *Term) *Term           { return Fn("len."+q.sort, "Int", q) }
func Nth(q, i *Term) *Term        { return Fn("nth."+q.sort, seqElem[q.sort], q, i) }
func Push(q, x *Term) *Term       { return Fn("push."+q.sort, q.sort, q, x) }
func Cat(q, r *Term) *Term        { return Fn("cat."+q.sort, q.sort, q, r) }
func Take(q, n *Term) *Term       { return Fn("take."+q.sort, q.sort, q, n) }
func Drop(q, n *Term) *Term       { return Fn("drop."+q.sort, q.sort, q, n) }
func Upd(q, i, x *Term) *Term     { return Fn("upd."+q.sort, q.sort, q, i, x) }
func Repeat(s string, x, n *Term) *Term { return Fn("rep."+s, s, x, n) }

func simplifyFn(name, srt string, args []*Term) *Term {
	dot := strings.IndexByte(name, '.')
	if dot < 0 || len(args) == 0 {
		return nil
	}
	s := name[dot+1:]
	if _, ok := seqElem[s]; !ok {
		return nil
	}
	q := args[0]
	is := func(t *Term, f string) bool { return t.op == "fn" && t.name == f+"."+s }
	switch name[:dot] {
	case "len":
		switch {
		case is(q, "empty"):
			return IntT(0)
		case is(q, "push"):
			return Add(Len(q.args[0]), IntT(1))
		case is(q, "upd"):
			return Len(q.args[0])
		case is(q, "cat"):
			return Add(Len(q.args[0]), Len(q.args[1]))
		}
	case "nth":
		i := args[1]
		if is(q, "push") {
			n := Len(q.args[0])
			if i == n {
				return q.args[1]
			}
			if i.isInt() && n.isInt() && i.intVal() < n.intVal() {
				return Nth(q.args[0], i)
			}
		}
		if is(q, "upd") {
			if q.args[1] == i {
				return q.args[2]
			}
			if q.args[1].isInt() && i.isInt() {
				return Nth(q.args[0], i)
			}
		}
	case "upd":
		if is(q, "push") {
			n := Len(q.args[0])
			if args[1] == n {
				return Push(q.args[0], args[2])
			}
			if args[1].isInt() && n.isInt() && args[1].intVal() < n.intVal() {
				return Push(Upd(q.args[0], args[1], args[2]), q.args[1])
			}
		}
	case "cat":
		r := args[1]
		switch {
		case is(q, "empty"):
			return r
		case is(r, "empty"):
			return q
		case is(r, "push"):
			return Push(Cat(q, r.args[0]), r.args[1])
		case is(r, "cat"):
			return Cat(Cat(q, r.args[0]), r.args[1])
		}
	case "take":
		n := args[1]
		if n.isInt() && n.intVal() == 0 {
			return Empty(s)
		}
		if n == Len(q) {
			return q
		}
	case "drop":
		n := args[1]
		if n.isInt() && n.intVal() == 0 {
			return q
		}
	}
	return nil
}

// seqAxioms are the axioms of one sequence sort.
func seqAxioms(s string) []*Term {
	e := seqElem[s]
	q := BVar("q", s)
	r := BVar("r", s)
	t := BVar("t", s)
	x := BVar("x", e)
	y := BVar("y", e)
	i := BVar("i", "Int")
	n := BVar("n", "Int")
	fn := func(f, srt string, args ...*Term) *Term { return mk("fn", f+"."+s, srt, args...) }
	ln := func(a *Term) *Term { return fn("len", "Int", a) }
	nth := func(a, b *Term) *Term { return fn("nth", e, a, b) }
	push := func(a, b *Term) *Term { return fn("push", s, a, b) }
	cat := func(a, b *Term) *Term { return fn("cat", s, a, b) }
	take := func(a, b *Term) *Term { return fn("take", s, a, b) }
	drop := func(a, b *Term) *Term { return fn("drop", s, a, b) }
	upd := func(a, b, c *Term) *Term { return fn("upd", s, a, b, c) }
	rep := func(a, b *Term) *Term { return fn("rep", s, a, b) }
	em := fn("empty", s)
	ge0 := func(a *Term) *Term { return Le(IntT(0), a) }
	p := func(ts ...*Term) []*Term { return ts }
	return []*Term{
		Eq(mk("fn", "len."+s, "Int", em), IntT(0)),
		ForAll([]*Term{q}, ge0(ln(q)), p(ln(q))),
		ForAll([]*Term{q}, Implies(Eq(ln(q), IntT(0)), Eq(q, em)), p(ln(q))),
		// push
		ForAll([]*Term{q, x}, Eq(ln(push(q, x)), Add(ln(q), IntT(1))), p(push(q, x))),
		ForAll([]*Term{q, x}, Eq(nth(push(q, x), ln(q)), x), p(push(q, x))),
		ForAll([]*Term{q, x, i}, Implies(And(ge0(i), Lt(i, ln(q))), Eq(nth(push(q, x), i), nth(q, i))), p(nth(push(q, x), i))),
		ForAll([]*Term{q, x, i}, Implies(And(ge0(i), Lt(i, ln(q))), Eq(nth(push(q, x), i), nth(q, i))), p(push(q, x), nth(q, i))),
		// cat
		ForAll([]*Term{q, r}, Eq(ln(cat(q, r)), Add(ln(q), ln(r))), p(cat(q, r))),
		ForAll([]*Term{q, r, i}, Implies(And(ge0(i), Lt(i, ln(q))), Eq(nth(cat(q, r), i), nth(q, i))), p(nth(cat(q, r), i))),
		ForAll([]*Term{q, r, i}, Implies(And(Le(ln(q), i), Lt(i, Add(ln(q), ln(r)))), Eq(nth(cat(q, r), i), nth(r, Sub(i, ln(q))))), p(nth(cat(q, r), i))),
		ForAll([]*Term{q}, Eq(cat(q, em), q), p(cat(q, em))),
		ForAll([]*Term{q}, Eq(cat(em, q), q), p(cat(em, q))),
		ForAll([]*Term{q, r, x}, Eq(cat(q, push(r, x)), push(cat(q, r), x)), p(cat(q, push(r, x)))),
		ForAll([]*Term{q, r, t}, Eq(cat(q, cat(r, t)), cat(cat(q, r), t)), p(cat(q, cat(r, t)))),
		// take
		ForAll([]*Term{q, n}, Implies(And(ge0(n), Le(n, ln(q))), Eq(ln(take(q, n)), n)), p(take(q, n))),
		ForAll([]*Term{q}, Eq(take(q, IntT(0)), em), p(take(q, IntT(0)))),
		ForAll([]*Term{q, n}, Implies(Eq(n, ln(q)), Eq(take(q, n), q)), p(take(q, n))),
		ForAll([]*Term{q, n, i}, Implies(And(ge0(i), Lt(i, n), Le(n, ln(q))), Eq(nth(take(q, n), i), nth(q, i))), p(nth(take(q, n), i))),
		ForAll([]*Term{q, n}, Implies(And(ge0(n), Lt(n, ln(q))), Eq(push(take(q, n), nth(q, n)), take(q, Add(n, IntT(1))))), p(take(q, n), nth(q, n))),
		// drop
		ForAll([]*Term{q, n}, Implies(And(ge0(n), Le(n, ln(q))), Eq(ln(drop(q, n)), Sub(ln(q), n))), p(drop(q, n))),
		ForAll([]*Term{q, n, i}, Implies(And(ge0(n), Le(n, ln(q)), ge0(i), Lt(i, Sub(ln(q), n))), Eq(nth(drop(q, n), i), nth(q, Add(n, i)))), p(nth(drop(q, n), i))),
		// upd
		ForAll([]*Term{q, i, x}, Eq(ln(upd(q, i, x)), ln(q)), p(upd(q, i, x))),
		ForAll([]*Term{q, i, x}, Implies(And(ge0(i), Lt(i, ln(q))), Eq(nth(upd(q, i, x), i), x)), p(upd(q, i, x))),
		ForAll([]*Term{q, i, x, n}, Implies(Not(Eq(n, i)), Eq(nth(upd(q, i, x), n), nth(q, n))), p(nth(upd(q, i, x), n))),
		ForAll([]*Term{q, i, x, n}, Implies(And(ge0(n), Le(n, i), Le(n, ln(q))), Eq(take(upd(q, i, x), n), take(q, n))), p(take(upd(q, i, x), n))),
		// rep
		ForAll([]*Term{x, n}, Implies(ge0(n), Eq(ln(rep(x, n)), n)), p(rep(x, n))),
		ForAll([]*Term{x, n, i}, Implies(And(ge0(i), Lt(i, n)), Eq(nth(rep(x, n), i), x)), p(nth(rep(x, n), i))),
		// extensionality, on request
		ForAll([]*Term{q, r}, Or(Eq(q, r), Not(Eq(ln(q), ln(r))),
			And(ge0(fn("extsk", "Int", q, r)), Lt(fn("extsk", "Int", q, r), ln(q)),
				Not(Eq(nth(q, fn("extsk", "Int", q, r)), nth(r, fn("extsk", "Int", q, r)))))),
			p(fn("ext", "Bool", q, r))),
		// push is injective
		ForAll([]*Term{q, x, r, y}, Implies(Eq(push(q, x), push(r, y)), And(Eq(q, r), Eq(x, y))), p(push(q, x), push(r, y))),
	}
}

// ---- declarations for a set of terms ----------------------------------------------

type dtUse struct {
	sorts map[string]bool
	ctors map[string]bool // Any constructors in use
	fns   map[string]*Term
	vars  map[string]*Term
	seen  map[*Term]bool
}

func newUse() *dtUse {
	return &dtUse{sorts: map[string]bool{}, ctors: map[string]bool{}, fns: map[string]*Term{}, vars: map[string]*Term{}, seen: map[*Term]bool{}}
}

func (u *dtUse) term(t *Term) {
	if u.seen[t] {
		return
	}
	u.seen[t] = true
	u.sortUse(t.sort)
	switch t.op {
	case "var":
		u.vars[t.name] = t
	case "fn":
		u.fns[t.name] = t
	case "ctor", "is":
		u.ctorUse(t.name)
	case "sel":
		u.ctorUse(t.name[:strings.LastIndexByte(t.name, '.')])
	case "forall":
		for _, v := range t.vars {
			u.sortUse(v.sort)
		}
		for _, p := range t.pats {
			for _, x := range p {
				u.term(x)
			}
		}
	}
	for _, a := range t.args {
		u.term(a)
	}
}

func (u *dtUse) ctorUse(name string) {
	d := ctorOwner[name]
	if d == nil {
		panic("unknown constructor " + name)
	}
	if d.name == "Any" {
		if u.ctors[name] {
			return
		}
		u.ctors[name] = true
		for _, f := range ctorByName[name].fields {
			u.sortUse(f)
		}
	}
	u.sortUse(d.name)
}

func (u *dtUse) sortUse(s string) {
	if u.sorts[s] {
		return
	}
	u.sorts[s] = true
	if e, ok := seqElem[s]; ok {
		u.sortUse(e)
	}
	if kv, ok := arrSorts[s]; ok {
		u.sortUse(kv[0])
		u.sortUse(kv[1])
	}
	if d, ok := datatypes[s]; ok && s != "Any" {
		for _, c := range d.ctors {
			for _, f := range c.fields {
				u.sortUse(f)
			}
		}
	}
	if s == "Any" {
		u.sortUse("Int")
		u.sortUse("String")
	}
}

func (u *dtUse) decls(p *tprinter) []string {
	var out []string
	var names []string
	for s := range u.sorts {
		names = append(names, s)
	}
	sort.Strings(names)
	var dts []string
	for _, s := range names {
		if _, ok := seqElem[s]; ok {
			out = append(out, fmt.Sprintf("(declare-sort %s 0)", s))
		} else if unintSorts[s] {
			out = append(out, fmt.Sprintf("(declare-sort %s 0)", s))
		} else if _, ok := datatypes[s]; ok {
			dts = append(dts, s)
		}
	}
	if len(dts) > 0 {
		var b strings.Builder
		b.WriteString("(declare-datatypes (")
		for _, s := range dts {
			fmt.Fprintf(&b, "(%s 0)", s)
		}
		b.WriteString(") (\n")
		for _, s := range dts {
			b.WriteString(" (")
			for _, c := range datatypes[s].ctors {
				if s == "Any" && !u.ctors[c.name] && c.name != "anynil" && c.name != "anyother" && c.name != "anyerr" {
					continue
				}
				fmt.Fprintf(&b, "(%s", quoteSym(c.name))
				for i, f := range c.fields {
					fmt.Fprintf(&b, " (%s.%d %s)", quoteSym(c.name), i, f)
				}
				b.WriteString(")")
			}
			b.WriteString(")\n")
		}
		b.WriteString("))")
		out = append(out, b.String())
	}
	var fns []string
	for f := range u.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		t := u.fns[f]
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		out = append(out, fmt.Sprintf("(declare-fun %s (%s) %s)", quoteSym(f), strings.Join(as, " "), t.sort))
	}
	var vs []string
	for v, t := range u.vars {
		vs = append(vs, fmt.Sprintf("(declare-const %s %s)", quoteSym(p.vname(v)), t.sort))
	}
	sort.Strings(vs)
	out = append(out, vs...)
	return out
}
