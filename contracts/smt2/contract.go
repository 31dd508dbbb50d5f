package smt2

//verif:file C14,C15,C16,C17

import (
	gotypes "go/types"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:mutable generator
//verif:shared ops
//verif:writesvia generator w C14,C15,C16
//verif:writesnone Generate C14,C15,C16

// put is the map with one more variable.
func put(m map[ast.Variable]*value, k ast.Variable, v *value) map[ast.Variable]*value { panic("put") }

// ---- types --------------------------------------------------------------------
//
// A type is described by its kind: 0 for an unknown type, else the kind of the
// basic type.

// kindOf is the kind of a type.
//
//verif:opaque
func kindOf(t gotypes.Type) int {
	b, ok := t.(*gotypes.Basic)
	if !ok {
		return 0
	}
	return int(b.Kind())
}

// typeOf is the type of a kind.
//
//verif:opaque
func typeOf(k int) gotypes.Type {
	if k == 0 {
		return nil
	}
	return gotypes.Typ[k]
}

// known: the type is unknown or one that an operator takes or gives.
func known(t gotypes.Type) bool { return t == nil || sorted(t) }

//verif:opaque
func sorted(t gotypes.Type) bool {
	k := kindOf(t)
	return z.IsSort(k) && z.Eq(t, typeOf(k))
}

// ---- operators -----------------------------------------------------------------

// row: the entry of the table for an opcode.
//
//verif:opaque
func row(op ast.Opcode, o operation) bool {
	s, ok := o.(*simple)
	return ok && s != nil && s.format == z.OpFormat(op) && len(s.signatures) == z.OpVariants(op) &&
		(z.OpVariants(op) != 1 || signed(s.signatures[0], z.OpKind(op), z.OpArity(op))) &&
		(z.OpVariants(op) != 2 || signed(s.signatures[0], z.OpKind(op), z.OpArity(op)) && signed(s.signatures[1], z.Unsigned(z.OpKind(op)), z.OpArity(op)) &&
			s.signatures[0].dflt)
}

// signed: n operands of kind k give a result of kind k.
func signed(s signature, k, n int) bool {
	return z.Eq(s.result, typeOf(k)) && len(s.params) == n &&
		z.Implies(n >= 1, z.Eq(s.params[0], typeOf(k))) && z.Implies(n >= 2, z.Eq(s.params[1], typeOf(k)))
}

// table: the operators are those of the specification.
//
//verif:opaque
func table(ops map[ast.Opcode]operation) bool {
	return z.All(func(op ast.Opcode) bool {
		o, ok := ops[op]
		return ok == z.Known(op) && z.Implies(ok, row(op, o))
	})
}

//verif:reveal buildoperations table row Known OpKind OpVariants OpArity OpFormat typeOf
//verif:reveal generator.variable good sorted
//verif:reveal typesort sorted kindOf typeOf IsSort
//verif:reveal simple.Params chosen
//verif:post buildoperations C14,C15,C16
func post_buildoperations(ops map[ast.Opcode]operation) bool { return table(ops) }

// matches: the first n parameters are those of the signature.
func matches(want, got []gotypes.Type, n int) bool {
	return n <= 0 || matches(want, got, n-1) && gotypes.Identical(want[n-1], got[n-1])
}

//verif:pure signature.match

//verif:pre signature.match C14,C15,C16
func pre_match(s *signature, params []gotypes.Type) bool { return s != nil }

//verif:post signature.match C14,C15,C16
func post_match(s *signature, params []gotypes.Type, ok bool) bool {
	return ok == (len(params) == len(s.params) && matches(s.params, params, len(s.params)))
}

//verif:inv signature.match C14,C15,C16
func inv_match(s *signature, params []gotypes.Type, k int) bool {
	return len(params) == len(s.params) && matches(s.params, params, k)
}

//verif:post unary C14,C15,C16
func post_unary(k gotypes.BasicKind, r []gotypes.Type) bool {
	return len(r) == 1 && z.Eq(r[0], gotypes.Typ[k])
}

//verif:pre unary C14,C15,C16
func pre_unary(k gotypes.BasicKind) bool { return 0 <= k && k < 26 }

//verif:post binary C14,C15,C16
func post_binary(k gotypes.BasicKind, r []gotypes.Type) bool {
	return len(r) == 2 && z.Eq(r[0], gotypes.Typ[k]) && z.Eq(r[1], gotypes.Typ[k])
}

//verif:pre binary C14,C15,C16
func pre_binary(k gotypes.BasicKind) bool { return 0 <= k && k < 26 }

// giving is the first of k signatures with the result, or -1.
func giving(ss []signature, t gotypes.Type, k int) int {
	if k <= 0 {
		return -1
	}
	if i := giving(ss, t, k-1); i >= 0 {
		return i
	}
	if gotypes.Identical(t, ss[k-1].result) {
		return k - 1
	}
	return -1
}

// standard is the first of k signatures that is the default, or -1.
func standard(ss []signature, k int) int {
	if k <= 0 {
		return -1
	}
	if i := standard(ss, k-1); i >= 0 {
		return i
	}
	if ss[k-1].dflt {
		return k - 1
	}
	return -1
}

// chosen is the signature for a result of type t, or -1.
//
//verif:opaque
func chosen(s *simple, t gotypes.Type) int {
	if t != nil {
		return giving(s.signatures, t, len(s.signatures))
	}
	if len(s.signatures) == 1 {
		return 0
	}
	return standard(s.signatures, len(s.signatures))
}

//verif:pre simple.Params C14,C15,C16
func pre_Params(s *simple, t gotypes.Type) bool {
	return s != nil && (t != nil || chosen(s, t) >= 0)
}

//verif:post simple.Params C14,C15,C16
func post_Params(s *simple, t gotypes.Type, ps []gotypes.Type, err error) bool {
	i := chosen(s, t)
	return z.Iff(err == nil, i >= 0) && z.Implies(i >= 0, z.Eq(ps, s.signatures[i].params))
}

//verif:inv simple.Params C14,C15,C16
func inv_Params(s *simple, t gotypes.Type, k int) bool {
	return z.Implies(t != nil, giving(s.signatures, t, k) < 0) && z.Implies(t == nil, standard(s.signatures, k) < 0)
}

// typed is the result type of the last of k signatures that takes the operands.
func typed(ss []signature, ts []gotypes.Type, k int) gotypes.Type {
	if k <= 0 {
		return nil
	}
	s := ss[k-1]
	if len(ts) == len(s.params) && matches(s.params, ts, len(s.params)) {
		return s.result
	}
	return typed(ss, ts, k-1)
}

// exprs are the texts of k values.
func exprs(vs []*value, k int) []interface{} {
	if k <= 0 {
		return nil
	}
	return append(exprs(vs, k-1), vs[k-1].Expr)
}

// types are the types of k values.
func types_(vs []*value, k int) []gotypes.Type {
	if k <= 0 {
		return nil
	}
	return append(types_(vs, k-1), vs[k-1].Type)
}

//verif:pre simple.Evaluate C14,C15,C16
func pre_Evaluate(s *simple, in *input) bool {
	return s != nil && in != nil && z.Forall(0, len(in.args), func(i int) bool { return in.args[i] != nil })
}

//verif:post simple.Evaluate C14,C15,C16
func post_Evaluate(s *simple, in *input, v *value, err error) bool {
	n := len(in.args)
	t := typed(s.signatures, types_(in.args, n), len(s.signatures))
	return z.Iff(err == nil, t != nil) &&
		z.Implies(err == nil, v != nil && z.Eq(v.Type, t) && v.Expr == z.Sprintf(s.format, exprs(in.args, n)))
}

//verif:inv simple.Evaluate C14,C15,C16
func inv_Evaluate_args(s *simple, in *input, args []interface{}, k int) bool {
	return z.Eq(args, exprs(in.args, k))
}

//verif:inv simple.Evaluate C14,C15,C16
func inv_Evaluate_params(s *simple, in *input, params []gotypes.Type, k int) bool {
	return z.Eq(params, types_(in.args, k))
}

//verif:inv simple.Evaluate C14,C15,C16
func inv_Evaluate_result(s *simple, in *input, result gotypes.Type, k int) bool {
	return z.Eq(result, typed(s.signatures, types_(in.args, len(in.args)), k))
}

// ---- evaluation ------------------------------------------------------------------

// An ev is the outcome of evaluating a value: whether it has one, its kind and
// text, the variables declared by then, the wildcards used by then, and the
// symbols and declarations it adds.
type ev struct {
	OK    bool
	Kind  int
	Text  string
	Vars  map[ast.Variable]*value
	Wild  int
	Decls string
	Syms  []symbol
}

// A symbol is that of a variable, or, with a number, of a wildcard.
type symbol struct {
	Name ast.Variable
	Num  int
	Kind int
}

// symText is the text of a symbol.
func symText(s symbol) string {
	if s.Num == 0 {
		return "$" + string(s.Name)
	}
	return z.Sprintf("$_%d", []interface{}{s.Num})
}

// evs is the outcome for the first arguments of an opcode.
type evs struct {
	OK    bool
	Vals  []*value
	Vars  map[ast.Variable]*value
	Wild  int
	Decls string
	Syms  []symbol
}

// Ev evaluates a value of a kind (0: unknown), given the variables and
// wildcards so far.
func Ev(v ast.Value, k int, vars map[ast.Variable]*value, n int) ev {
	switch x := v.(type) {
	case ast.Variable:
		return EvVar(x, k, vars, n)
	case *ast.SExpr:
		return EvSExpr(x, k, vars, n)
	default:
		return ev{}
	}
}

// EvVar is Ev for a variable or wildcard.
func EvVar(x ast.Variable, k int, vars map[ast.Variable]*value, n int) ev {
	if x == "_" {
		if k == 0 {
			return ev{}
		}
		s := z.Sprintf("$_%d", []interface{}{n + 1})
		return ev{OK: true, Kind: k, Text: s, Vars: vars, Wild: n + 1, Decls: z.Declare(s, k), Syms: []symbol{symbol{"_", n + 1, k}}}
	}
	old, ok := vars[x]
	if ok {
		if k != 0 && k != kindOf(old.Type) {
			return ev{}
		}
		return ev{OK: true, Kind: kindOf(old.Type), Text: "$" + string(x), Vars: vars, Wild: n, Decls: "", Syms: nil}
	}
	if k == 0 {
		return ev{}
	}
	return ev{OK: true, Kind: k, Text: "$" + string(x), Vars: put(vars, x, &value{Expr: "$" + string(x), Type: typeOf(k)}), Wild: n, Decls: z.Declare("$"+string(x), k), Syms: []symbol{symbol{x, 0, k}}}
}

// EvSExpr is Ev for an application of an opcode.
func EvSExpr(s *ast.SExpr, k int, vars map[ast.Variable]*value, n int) ev {
	op, ok := s.Op.(ast.Opcode)
	if !ok || !z.Known(op) {
		return ev{}
	}
	p := z.OpResult(op, k)
	if p == 0 || len(s.Args) != z.OpArity(op) {
		return ev{}
	}
	a := EvArgs(s.Args, len(s.Args), p, vars, n)
	if !a.OK {
		return ev{}
	}
	return ev{OK: true, Kind: p, Text: z.Sprintf(z.OpFormat(op), exprs(a.Vals, len(a.Vals))), Vars: a.Vars, Wild: a.Wild, Decls: a.Decls, Syms: a.Syms}
}

// EvArgs evaluates the first i arguments, each of kind p.
func EvArgs(args []ast.Value, i, p int, vars map[ast.Variable]*value, n int) evs {
	if i <= 0 {
		return evs{OK: true, Vals: nil, Vars: vars, Wild: n, Decls: "", Syms: nil}
	}
	a := EvArgs(args, i-1, p, vars, n)
	if !a.OK {
		return evs{}
	}
	e := Ev(args[i-1], p, a.Vars, a.Wild)
	if !e.OK {
		return evs{}
	}
	return evs{OK: true, Vals: append(a.Vals, &value{Expr: e.Text, Type: typeOf(e.Kind)}), Vars: e.Vars, Wild: e.Wild, Decls: a.Decls + e.Decls, Syms: append(a.Syms, e.Syms...)}
}

// good: the variables so far are declared with their symbols and types.
//
//verif:opaque
func good(vars map[ast.Variable]*value) bool {
	_, wild := vars["_"]
	return !wild && z.All(func(x ast.Variable) bool {
		v, ok := vars[x]
		return z.Implies(ok, v != nil && v.Expr == "$"+string(x) && sorted(v.Type))
	})
}

// ready: the generator can go on.
func ready(g generator, w0 z.World) bool {
	return g.err == nil && g.w != nil && z.IsBuffer(g.w) && table(g.ops) && good(g.vars)
}

// did: the generator has evaluated something and is ready to go on.
func did(a, b generator, e ev, w0, w1 z.World) bool {
	return z.Eq(b.vars, e.Vars) && b.placeholders == e.Wild &&
		z.Out(a.w, w1) == z.Out(a.w, w0)+e.Decls
}

func same(a, b generator) bool {
	return b.w == a.w && b.err == nil && z.Eq(b.ops, a.ops)
}

//verif:pre generator.printf C14,C15,C16
func pre_printf(g *generator, format string, args []interface{}) bool {
	return g.err == nil && g.w != nil && z.IsBuffer(g.w)
}

//verif:post generator.printf C14,C15,C16
func post_printf(g *generator, format string, args []interface{}, h *generator, w0, w1 z.World) bool {
	return same(*g, *h) && z.Eq(h.vars, g.vars) && h.placeholders == g.placeholders &&
		z.Out(g.w, w1) == z.Out(g.w, w0)+z.Sprintf(format, args)
}

//verif:post typesort C14,C15,C16
func post_typesort(t gotypes.Type, s string, err error) bool {
	return z.Implies(sorted(t), err == nil && s == z.Sort(kindOf(t)))
}

//verif:pre typesort C14,C15,C16
func pre_typesort(t gotypes.Type) bool { return sorted(t) }

// answered: a value that is given is the one of the specification.
func answered(e ev, a generator, v *value, err error, b generator, w0, w1 z.World) bool {
	return z.Implies(err == nil, e.OK && v != nil && v.Expr == e.Text && z.Eq(v.Type, typeOf(e.Kind)) && z.IsSort(e.Kind) &&
		did(a, b, e, w0, w1)) && same(a, b) && good(b.vars)
}

//verif:pre generator.variable C14,C15,C16
func pre_variable(g *generator, v ast.Variable, t gotypes.Type, w0 z.World) bool {
	return ready(*g, w0) && known(t)
}

//verif:post generator.variable C14,C15,C16
func post_variable(g *generator, v ast.Variable, t gotypes.Type, r *value, err error, h *generator, w0, w1 z.World) bool {
	return answered(EvVar(v, kindOf(t), g.vars, g.placeholders), *g, r, err, *h, w0, w1)
}

//verif:pre generator.eval C14,C15,C16
func pre_eval(g *generator, v ast.Value, t gotypes.Type, w0 z.World) bool {
	return ready(*g, w0) && known(t) && z.WfPrint(v)
}

//verif:post generator.eval C14,C15,C16
func post_eval(g *generator, v ast.Value, t gotypes.Type, r *value, err error, h *generator, w0, w1 z.World) bool {
	return answered(Ev(v, kindOf(t), g.vars, g.placeholders), *g, r, err, *h, w0, w1)
}

//verif:pre generator.sexpr C14,C15,C16
func pre_sexpr(g *generator, s *ast.SExpr, t gotypes.Type, w0 z.World) bool {
	return ready(*g, w0) && known(t) && s != nil && z.WfPrint(s)
}

//verif:post generator.sexpr C14,C15,C16
func post_sexpr(g *generator, s *ast.SExpr, t gotypes.Type, r *value, err error, h *generator, w0, w1 z.World) bool {
	return answered(EvSExpr(s, kindOf(t), g.vars, g.placeholders), *g, r, err, *h, w0, w1)
}

// asked is the kind of the arguments of an application.
func asked(s *ast.SExpr, t gotypes.Type) int {
	op, ok := s.Op.(ast.Opcode)
	if !ok {
		return 0
	}
	return z.OpResult(op, kindOf(t))
}

//verif:inv generator.sexpr C14,C15,C16
func inv_sexpr_good(g *generator, s *ast.SExpr, t gotypes.Type, g_in, g_now generator) bool {
	return same(g_in, g_now) && good(g_now.vars)
}

//verif:inv generator.sexpr C14,C15,C16
func inv_sexpr(g *generator, s *ast.SExpr, t gotypes.Type, g_in, g_now generator, in input, k int, w_in, w z.World) bool {
	e := EvArgs(s.Args, k, asked(s, t), g_in.vars, g_in.placeholders)
	return e.OK && z.Eq(in.args, e.Vals) && z.Eq(g_now.vars, e.Vars) && g_now.placeholders == e.Wild &&
		z.Out(g_in.w, w) == z.Out(g_in.w, w_in)+e.Decls
}

// The same of arguments gathered in a slice of their own.
//
//verif:inv generator.sexpr C14,C15,C16
func inv_sexpr_args(g *generator, s *ast.SExpr, t gotypes.Type, g_in, g_now generator, args []*value, k int, w_in, w z.World) bool {
	e := EvArgs(s.Args, k, asked(s, t), g_in.vars, g_in.placeholders)
	return e.OK && z.Eq(args, e.Vals) && z.Eq(g_now.vars, e.Vars) && g_now.placeholders == e.Wild &&
		z.Out(g_in.w, w) == z.Out(g_in.w, w_in)+e.Decls
}

// ---- scripts ---------------------------------------------------------------------------

// A script is what a rule becomes, after the header.
type script struct {
	OK   bool
	Text string
	Syms []symbol
}

// Body is the script of a rule, after the header.
//
//verif:opaque
func Body(r *ast.Rule) script {
	m := Ev(r.Match, 0, map[ast.Variable]*value{}, 0)
	if !m.OK {
		return script{}
	}
	e := Ev(r.Result, m.Kind, m.Vars, m.Wild)
	if !e.OK {
		return script{}
	}
	return script{OK: true, Text: m.Decls + e.Decls + "(assert (not (= " + m.Text + " " + e.Text + ")))\n(check-sat)\n(exit)\n",
		Syms: append(m.Syms, e.Syms...)}
}

// Header is the beginning of the script of a rule.
func Header(r *ast.Rule) string {
	return "(set-info :smt-lib-version 2.6)\n(set-logic QF_BV)\n; " + strings.ReplaceAll(z.TextRule(r), "\n", "\n; ") + "\n"
}

// start: nothing has been evaluated.
func start(g generator) bool {
	return z.Eq(g.vars, map[ast.Variable]*value{}) && g.placeholders == 0
}

//verif:reveal generator.generate Body

//verif:pre generator.generate C14,C15,C16
func pre_generate(g *generator, r *ast.Rule, w0 z.World) bool {
	return ready(*g, w0) && start(*g) && r != nil && z.WfPrint(r)
}

//verif:post generator.generate C14
func post_generate_text(g *generator, r *ast.Rule, err error, h *generator, w0, w1 z.World) bool {
	return z.Implies(err == nil, Body(r).OK && z.Out(g.w, w1) == z.Out(g.w, w0)+Header(r)+Body(r).Text)
}

//verif:post generator.generate C15
func post_generate_end(g *generator, r *ast.Rule, err error, h *generator, w0, w1 z.World) bool {
	return z.Implies(err == nil, Body(r).OK && strings.HasSuffix(z.Out(g.w, w1), Body(r).Text))
}

//verif:pre Generate C14,C15,C16
func pre_Generate(r *ast.Rule) bool { return r != nil && z.WfPrint(r) }

//verif:post Generate C14
func post_Generate_text(r *ast.Rule, b []byte, err error, w0, w1 z.World) bool {
	return z.Implies(err == nil, Body(r).OK && string(b) == Header(r)+Body(r).Text)
}

//verif:post Generate C15
func post_Generate_end(r *ast.Rule, b []byte, err error, w0, w1 z.World) bool {
	return z.Implies(err == nil, Body(r).OK && strings.HasSuffix(string(b), Body(r).Text))
}

//verif:lemma C14,C15,C16 good
func goodStart(m map[ast.Variable]*value) bool {
	return z.Implies(z.Eq(m, map[ast.Variable]*value{}), good(m))
}

func trig_goodStart(m map[ast.Variable]*value) []interface{} { return []interface{}{good(m)} }

// ---- facts about types --------------------------------------------------------------

//verif:lemma C14,C15,C16 kindOf typeOf sorted IsSort
func typeOfKind(k int) bool {
	t := typeOf(k)
	return z.Implies(z.IsSort(k), t != nil && sorted(t) && kindOf(t) == k && k != 0)
}

func trig_typeOfKind(k int) []interface{} { return []interface{}{typeOf(k)} }

//verif:lemma C14,C15,C16 kindOf typeOf sorted IsSort
func kindOfType(t gotypes.Type) bool {
	k := kindOf(t)
	return z.Implies(sorted(t), t != nil && z.IsSort(k) && z.Eq(t, typeOf(k)) && k != 0) && z.Implies(t == nil, k == 0)
}

func trig_kindOfType(t gotypes.Type) []interface{} { return []interface{}{kindOf(t)} }

//verif:lemma C14,C15,C16 kindOf typeOf sorted IsSort
func sameKind(t, u gotypes.Type) bool {
	return z.Implies(sorted(t) && sorted(u), gotypes.Identical(t, u) == (kindOf(t) == kindOf(u)))
}

func trig_sameKind(t, u gotypes.Type) []interface{} { return []interface{}{sorted(t), sorted(u)} }

//verif:lemma C14,C15,C16 typeOf kindOf
func noType(k int) bool { return z.Eq(typeOf(0), nil) && kindOf(nil) == 0 }

func trig_noType(k int) []interface{} { return []interface{}{typeOf(k)} }

// ---- facts about the table ---------------------------------------------------------

//verif:lemma C14,C15,C16 table
func tableAt(ops map[ast.Opcode]operation, op ast.Opcode) bool {
	o, ok := ops[op]
	return z.Implies(table(ops), ok == z.Known(op) && z.Implies(ok, row(op, o)))
}

func trig_tableAt(ops map[ast.Opcode]operation, op ast.Opcode) []interface{} {
	return []interface{}{table(ops), ops[op]}
}

//verif:lemma C14,C15,C16 row
func rowIs(op ast.Opcode, o operation) bool {
	s, ok := o.(*simple)
	return z.Implies(row(op, o), ok && s != nil && s.format == z.OpFormat(op))
}

func trig_rowIs(op ast.Opcode, o operation) []interface{} { return []interface{}{row(op, o)} }

//verif:lemma C14,C15,C16 Known OpKind OpVariants OpArity IsSort
func opFacts(op ast.Opcode) bool {
	k := z.OpKind(op)
	return z.Implies(z.Known(op), (z.OpArity(op) == 1 || z.OpArity(op) == 2) &&
		(z.OpVariants(op) == 1 && k == 1 || z.OpVariants(op) == 2 && 3 <= k && k <= 6))
}

func trig_opFacts(op ast.Opcode) []interface{} { return []interface{}{z.Known(op)} }

//verif:lemma C14,C15,C16 local
func givingOne(ss []signature, t gotypes.Type) bool {
	return giving(ss, t, 1) == pick(gotypes.Identical(t, ss[0].result), 0, -1)
}

//verif:lemma C14,C15,C16
func givingTwo(ss []signature, t gotypes.Type) bool {
	z.Use(givingOne(ss, t))
	return z.Implies(t != nil && sorted(t) && sorted(ss[0].result),
		z.Implies(len(ss) == 1, giving(ss, t, 1) == pick(kindOf(t) == kindOf(ss[0].result), 0, -1)) &&
			z.Implies(len(ss) == 2 && sorted(ss[1].result), giving(ss, t, 2) == pick(kindOf(t) == kindOf(ss[0].result), 0, pick(kindOf(t) == kindOf(ss[1].result), 1, -1))))
}

func pick(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func trig_givingTwo(ss []signature, t gotypes.Type) []interface{} {
	return []interface{}{giving(ss, t, len(ss))}
}

//verif:lemma C14,C15,C16 row chosen OpResult IsSort
func rowChosen(op ast.Opcode, o operation, t gotypes.Type) bool {
	s, ok := o.(*simple)
	p := z.OpResult(op, kindOf(t))
	i := chosen(s, t)
	z.Use(opFacts(op))
	z.Use(givingTwo(s.signatures, t))
	return z.Implies(row(op, o) && z.Known(op) && known(t) && ok && s != nil,
		z.Iff(i >= 0, p != 0) && z.Implies(i >= 0, i < len(s.signatures) && z.IsSort(p)) && z.Implies(t == nil, i >= 0))
}

func trig_rowChosen(op ast.Opcode, o operation, t gotypes.Type) []interface{} {
	s, _ := o.(*simple)
	return []interface{}{row(op, o), chosen(s, t)}
}

//verif:lemma C14,C15,C16 row chosen OpResult IsSort
func rowSigned(op ast.Opcode, o operation, t gotypes.Type) bool {
	s, ok := o.(*simple)
	p := z.OpResult(op, kindOf(t))
	i := chosen(s, t)
	z.Use(opFacts(op))
	z.Use(givingTwo(s.signatures, t))
	return z.Implies(row(op, o) && z.Known(op) && known(t) && ok && s != nil && i >= 0,
		signed(s.signatures[i], p, z.OpArity(op)) && 1 <= z.OpArity(op) && z.OpArity(op) <= 2)
}

func trig_rowSigned(op ast.Opcode, o operation, t gotypes.Type) []interface{} {
	s, _ := o.(*simple)
	return []interface{}{row(op, o), chosen(s, t)}
}

//verif:lemma C14,C15,C16
func rowParams(op ast.Opcode, o operation, t gotypes.Type, j int) bool {
	s, ok := o.(*simple)
	ps := s.signatures[chosen(s, t)].params
	return z.Implies(row(op, o) && z.Known(op) && known(t) && ok && s != nil && chosen(s, t) >= 0 && 0 <= j && j < len(ps),
		z.Eq(ps[j], typeOf(z.OpResult(op, kindOf(t)))))
}

func trig_rowParams(op ast.Opcode, o operation, t gotypes.Type, j int) []interface{} {
	s, _ := o.(*simple)
	return []interface{}{row(op, o), chosen(s, t), s.signatures[chosen(s, t)].params[j]}
}

//verif:lemma C14,C15,C16 local
func matchesStep(want, got []gotypes.Type, n int) bool {
	return z.Eq(matches(want, got, n), n <= 0 || matches(want, got, n-1) && gotypes.Identical(want[n-1], got[n-1]))
}

//verif:lemma C14,C15,C16 typeOf kindOf IsSort
func signedMatches(s signature, ts []gotypes.Type, k, p, n int) bool {
	z.Use(matchesStep(s.params, ts, 1))
	z.Use(matchesStep(s.params, ts, 2))
	return z.Implies(signed(s, k, n) && 1 <= n && n <= 2 && len(ts) == n && z.IsSort(k) && z.IsSort(p) &&
		z.Forall(0, n, func(j int) bool { return z.Eq(ts[j], typeOf(p)) }),
		matches(s.params, ts, n) == (k == p))
}

func trig_signedMatches(s signature, ts []gotypes.Type, k, p, n int) []interface{} {
	return []interface{}{matches(s.params, ts, n), typeOf(k), typeOf(p)}
}

//verif:lemma C14,C15,C16 row OpResult IsSort
func rowTyped(op ast.Opcode, o operation, ts []gotypes.Type, k int) bool {
	s, ok := o.(*simple)
	p := z.OpResult(op, k)
	n := z.OpArity(op)
	q := z.OpKind(op)
	z.Use(opFacts(op))
	z.Use(signedMatches(s.signatures[0], ts, q, p, n))
	z.Use(signedMatches(s.signatures[1], ts, z.Unsigned(q), p, n))
	return z.Implies(row(op, o) && z.Known(op) && p != 0 && ok && s != nil && len(ts) == n &&
		z.Forall(0, len(ts), func(j int) bool { return z.Eq(ts[j], typeOf(p)) }),
		z.Eq(typed(s.signatures, ts, len(s.signatures)), typeOf(p)))
}

func trig_rowTyped(op ast.Opcode, o operation, ts []gotypes.Type, k int) []interface{} {
	s, _ := o.(*simple)
	return []interface{}{row(op, o), typed(s.signatures, ts, len(s.signatures)), z.OpResult(op, k)}
}

//verif:lemma C14,C15,C16 OpKind OpVariants OpResult
func resultKind(op ast.Opcode, k int) bool {
	return z.Implies(k != 0 && z.OpResult(op, k) != 0, z.OpResult(op, k) == k)
}

func trig_resultKind(op ast.Opcode, k int) []interface{} { return []interface{}{z.OpResult(op, k)} }

// ---- facts about lists --------------------------------------------------------------

//verif:lemma C14,C15,C16
func matchesBefore(want, got []gotypes.Type, k, m int) bool {
	return z.Implies(0 <= k && k < m && matches(want, got, m), matches(want, got, k+1))
}

func dec_matchesBefore(want, got []gotypes.Type, k, m int) int { return m }

func trig_matchesBefore(want, got []gotypes.Type, k, m int) []interface{} {
	return []interface{}{matches(want, got, k), matches(want, got, m)}
}

//verif:lemma C14,C15,C16
func givingAfter(ss []signature, t gotypes.Type, k, m int) bool {
	return z.Implies(0 <= k && k < m && giving(ss, t, k+1) >= 0, giving(ss, t, m) == giving(ss, t, k+1))
}

func dec_givingAfter(ss []signature, t gotypes.Type, k, m int) int { return m }

func trig_givingAfter(ss []signature, t gotypes.Type, k, m int) []interface{} {
	return []interface{}{giving(ss, t, k), giving(ss, t, m)}
}

//verif:lemma C14,C15,C16
func standardAfter(ss []signature, k, m int) bool {
	return z.Implies(0 <= k && k < m && standard(ss, k+1) >= 0, standard(ss, m) == standard(ss, k+1))
}

func dec_standardAfter(ss []signature, k, m int) int { return m }

func trig_standardAfter(ss []signature, k, m int) []interface{} {
	return []interface{}{standard(ss, k), standard(ss, m)}
}

//verif:lemma C14,C15,C16
func typesAt(vs []*value, k int) bool {
	return z.Implies(0 <= k && k <= len(vs), len(types_(vs, k)) == k &&
		z.Forall(0, k, func(j int) bool { return z.Eq(types_(vs, k)[j], vs[j].Type) }))
}

func dec_typesAt(vs []*value, k int) int { return k }

func trig_typesAt(vs []*value, k int) []interface{} { return []interface{}{types_(vs, k)} }

//verif:lemma C14,C15,C16
func evKind(v ast.Value, k int, vars map[ast.Variable]*value, n int) bool {
	e := Ev(v, k, vars, n)
	return z.Implies(k != 0 && e.OK, e.Kind == k)
}

func trig_evKind(v ast.Value, k int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{Ev(v, k, vars, n)}
}

//verif:lemma C14,C15,C16
func evArgsVals(args []ast.Value, i, p int, vars map[ast.Variable]*value, n int) bool {
	a := EvArgs(args, i, p, vars, n)
	return z.Implies(0 <= i && p != 0 && a.OK, len(a.Vals) == i &&
		z.Forall(0, i, func(j int) bool { return a.Vals[j] != nil && z.Eq(a.Vals[j].Type, typeOf(p)) }))
}

func dec_evArgsVals(args []ast.Value, i, p int, vars map[ast.Variable]*value, n int) int { return i }

func trig_evArgsVals(args []ast.Value, i, p int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{EvArgs(args, i, p, vars, n)}
}
