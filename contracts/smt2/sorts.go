package smt2

//verif:file C14

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// ---- the operators ------------------------------------------------------------------

// takes: in QF_BV, the operator of the format takes n operands of the sort of
// kind k and gives a value of that sort.
func takes(format string, n, k int) bool {
	vec := z.Width(k) != 0
	switch format {
	case "(bvadd %s %s)", "(bvsub %s %s)", "(bvand %s %s)", "(bvor %s %s)", "(bvxor %s %s)":
		return vec && n == 2
	case "(bvneg %s)", "(bvnot %s)":
		return vec && n == 1
	case "(and %s %s)", "(or %s %s)":
		return k == 1 && n == 2
	case "(not %s)":
		return k == 1 && n == 1
	case "(= %s %s)", "(not (= %s %s))":
		return k == 1 && n == 2
	}
	return false
}

//verif:lemma C14 OpFormat OpKind OpArity Known local
func opTakes(op ast.Opcode) bool {
	return z.Implies(z.Known(op), takes(z.OpFormat(op), z.OpArity(op), z.OpKind(op)))
}

// An operator is applied to operands of the sorts it takes, whatever kind is
// asked of the application.
//
//verif:lemma C14 OpResult local
func wellSorted(op ast.Opcode, k int) bool {
	p := z.OpResult(op, k)
	z.Use(opTakes(op))
	z.Use(opFacts(op))
	return z.Implies(z.Known(op) && p != 0, takes(z.OpFormat(op), z.OpArity(op), p))
}

// ---- the declarations ----------------------------------------------------------------

// declText is the declaration of the first k symbols.
func declText(ss []symbol, k int) string {
	if k <= 0 {
		return ""
	}
	return declText(ss, k-1) + z.Declare(symText(ss[k-1]), ss[k-1].Kind)
}

//verif:lemma C14 local
func declTextLeft(a, b []symbol, k int) bool {
	return z.Implies(0 <= k && k <= len(a), declText(append(a, b...), k) == declText(a, k))
}

func dec_declTextLeft(a, b []symbol, k int) int { return k }

func trig_declTextLeft(a, b []symbol, k int) []interface{} {
	return []interface{}{declText(append(a, b...), k)}
}

//verif:lemma C14 local
func declTextCat(a, b []symbol, k int) bool {
	return z.Implies(len(a) <= k && k <= len(a)+len(b), declText(append(a, b...), k) == declText(a, len(a))+declText(b, k-len(a)))
}

func dec_declTextCat(a, b []symbol, k int) int { return k }

func trig_declTextCat(a, b []symbol, k int) []interface{} {
	return []interface{}{declText(append(a, b...), k)}
}

// declared: the variable is one of the first k symbols.
func declared(ss []symbol, x ast.Variable, k int) bool {
	return k > 0 && (declared(ss, x, k-1) || ss[k-1].Num == 0 && ss[k-1].Name == x)
}

//verif:lemma C14 local
func declaredLeft(a, b []symbol, x ast.Variable, k int) bool {
	return z.Implies(0 <= k && k <= len(a), declared(append(a, b...), x, k) == declared(a, x, k))
}

func dec_declaredLeft(a, b []symbol, x ast.Variable, k int) int { return k }

func trig_declaredLeft(a, b []symbol, x ast.Variable, k int) []interface{} {
	return []interface{}{declared(append(a, b...), x, k)}
}

//verif:lemma C14 local
func declaredCat(a, b []symbol, x ast.Variable, k int) bool {
	return z.Implies(len(a) <= k && k <= len(a)+len(b), declared(append(a, b...), x, k) == (declared(a, x, len(a)) || declared(b, x, k-len(a))))
}

func dec_declaredCat(a, b []symbol, x ast.Variable, k int) int { return k }

func trig_declaredCat(a, b []symbol, x ast.Variable, k int) []interface{} {
	return []interface{}{declared(append(a, b...), x, k)}
}

// has: the variable is declared.
func has(vars map[ast.Variable]*value, x ast.Variable) bool {
	_, ok := vars[x]
	return ok
}

// adds: the symbols take the variables from one state to the other: each is new
// and there once, and the variables declared before stay what they are.
//
//verif:opaque
func adds(ss []symbol, vars map[ast.Variable]*value, n int, vars1 map[ast.Variable]*value, n1 int) bool {
	return 0 <= n && n <= n1 &&
		z.All(func(x ast.Variable) bool {
			return z.Implies(has(vars, x), has(vars1, x) && vars1[x] == vars[x])
		}) &&
		z.Forall(0, len(ss), func(i int) bool {
			s := ss[i]
			return z.IsSort(s.Kind) && 0 <= s.Num &&
				z.Implies(s.Num == 0, s.Name != "_" && !has(vars, s.Name) && has(vars1, s.Name) && kindOf(vars1[s.Name].Type) == s.Kind) &&
				z.Implies(s.Num != 0, n < s.Num && s.Num <= n1)
		}) &&
		z.All(func(i, j int) bool {
			return z.Implies(0 <= i && i < j && j < len(ss), ss[i].Num != ss[j].Num || ss[i].Num == 0 && ss[i].Name != ss[j].Name)
		})
}

// covers: the variables the symbols take from one state to the other are
// declared by them.
//
//verif:opaque
func covers(ss []symbol, vars, vars1 map[ast.Variable]*value) bool {
	return z.All(func(x ast.Variable) bool {
		return z.Implies(has(vars1, x), has(vars, x) || declared(ss, x, len(ss)))
	})
}

//verif:lemma C14 adds local
func addsNone(ss []symbol, vars map[ast.Variable]*value, n int) bool {
	return z.Implies(n >= 0 && len(ss) == 0, adds(ss, vars, n, vars, n))
}

func trig_addsNone(ss []symbol, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{adds(ss, vars, n, vars, n)}
}

//verif:lemma C14 adds local
func addsThen(a, b []symbol, v0 map[ast.Variable]*value, n0 int, v1 map[ast.Variable]*value, n1 int, v2 map[ast.Variable]*value, n2 int) bool {
	return z.Implies(adds(a, v0, n0, v1, n1) && adds(b, v1, n1, v2, n2), adds(append(a, b...), v0, n0, v2, n2))
}

func trig_addsThen(a, b []symbol, v0 map[ast.Variable]*value, n0 int, v1 map[ast.Variable]*value, n1 int, v2 map[ast.Variable]*value, n2 int) []interface{} {
	return []interface{}{adds(a, v0, n0, v1, n1), adds(append(a, b...), v0, n0, v2, n2)}
}

//verif:lemma C14 covers local
func coversNone(ss []symbol, vars map[ast.Variable]*value) bool {
	return z.Implies(len(ss) == 0, covers(ss, vars, vars))
}

func trig_coversNone(ss []symbol, vars map[ast.Variable]*value) []interface{} {
	return []interface{}{covers(ss, vars, vars)}
}

//verif:lemma C14 covers local
func coversThen(a, b []symbol, v0, v1, v2 map[ast.Variable]*value) bool {
	return z.Implies(covers(a, v0, v1) && covers(b, v1, v2), covers(append(a, b...), v0, v2))
}

func trig_coversThen(a, b []symbol, v0, v1, v2 map[ast.Variable]*value) []interface{} {
	return []interface{}{covers(a, v0, v1), covers(append(a, b...), v0, v2)}
}

//verif:lemma C14 adds good sorted local
func addsVar(x ast.Variable, k int, vars map[ast.Variable]*value, n int) bool {
	e := EvVar(x, k, vars, n)
	return z.Implies(e.OK && n >= 0 && good(vars) && (k == 0 || z.IsSort(k)), adds(e.Syms, vars, n, e.Vars, e.Wild))
}

//verif:lemma C14 covers local
func coversVar(x ast.Variable, k int, vars map[ast.Variable]*value, n int) bool {
	e := EvVar(x, k, vars, n)
	return z.Implies(e.OK && n >= 0, covers(e.Syms, vars, e.Vars) && z.Implies(x != "_", has(e.Vars, x)) && e.Decls == declText(e.Syms, len(e.Syms)))
}

// once: the symbols are new, each is declared once, with the sort its value has.
func once(ss []symbol) bool {
	return z.All(func(i, j int) bool { return z.Implies(0 <= i && i < j && j < len(ss), symText(ss[i]) != symText(ss[j])) })
}

// named: the variables are named as in the grammar.
func named(ss []symbol) bool {
	return z.Forall(0, len(ss), func(i int) bool { return ss[i].Num != 0 || !strings.HasPrefix(string(ss[i].Name), "_") })
}

//verif:lemma C14 adds local
func addsOnce(ss []symbol, vars map[ast.Variable]*value, n int, vars1 map[ast.Variable]*value, n1 int) bool {
	return z.Implies(adds(ss, vars, n, vars1, n1) && named(ss), once(ss))
}

// occurs: the variable is used in the value.
func occurs(x ast.Variable, v ast.Value) bool {
	switch u := v.(type) {
	case ast.Variable:
		return u == x
	case *ast.SExpr:
		return occursArgs(x, u.Args, len(u.Args))
	default:
		return false
	}
}

func occursArgs(x ast.Variable, args []ast.Value, k int) bool {
	return k > 0 && (occursArgs(x, args, k-1) || occurs(x, args[k-1]))
}

// fits: the symbols of an outcome are those that are declared, and they are in
// order.
func fits(e ev, vars map[ast.Variable]*value, n int) bool {
	return good(e.Vars) && adds(e.Syms, vars, n, e.Vars, e.Wild) && covers(e.Syms, vars, e.Vars) && e.Decls == declText(e.Syms, len(e.Syms))
}

func fitsArgs(e evs, vars map[ast.Variable]*value, n int) bool {
	return good(e.Vars) && adds(e.Syms, vars, n, e.Vars, e.Wild) && covers(e.Syms, vars, e.Vars) && e.Decls == declText(e.Syms, len(e.Syms))
}

//verif:lemma C14 good sorted local
func goodVar(x ast.Variable, k int, vars map[ast.Variable]*value, n int) bool {
	e := EvVar(x, k, vars, n)
	return z.Implies(e.OK && good(vars) && (k == 0 || z.IsSort(k)), good(e.Vars))
}

//verif:lemma C14 adds local
func addsWild(ss []symbol, vars map[ast.Variable]*value, n int, vars1 map[ast.Variable]*value, n1 int) bool {
	return z.Implies(adds(ss, vars, n, vars1, n1), 0 <= n1)
}

func trig_addsWild(ss []symbol, vars map[ast.Variable]*value, n int, vars1 map[ast.Variable]*value, n1 int) []interface{} {
	return []interface{}{adds(ss, vars, n, vars1, n1)}
}

//verif:lemma C14 alone local
func fitsEvArgs(args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) bool {
	a := EvArgs(args, k, p, vars, n)
	b := EvArgs(args, k-1, p, vars, n)
	e := Ev(args[k-1], p, b.Vars, b.Wild)
	z.Use(addsThen(b.Syms, e.Syms, vars, n, b.Vars, b.Wild, e.Vars, e.Wild))
	z.Use(coversThen(b.Syms, e.Syms, vars, b.Vars, e.Vars))
	z.Use(declTextCat(b.Syms, e.Syms, len(b.Syms)+len(e.Syms)))
	z.Use(addsNone(a.Syms, vars, n))
	z.Use(coversNone(a.Syms, vars))
	z.Use(addsWild(b.Syms, vars, n, b.Vars, b.Wild))
	z.Use(z.Lemma_wfPrintArgsAt(args, len(args), k-1))
	return z.Implies(0 <= k && k <= len(args) && a.OK && n >= 0 && good(vars) && z.IsSort(p) && z.WfPrintArgs(args, len(args)) &&
		z.All(func(i int, vs map[ast.Variable]*value, m int) bool {
			return z.Implies(0 <= i && i < len(args) && z.WfPrint(args[i]) && m >= 0 && good(vs) && Ev(args[i], p, vs, m).OK, fits(Ev(args[i], p, vs, m), vs, m))
		}),
		fitsArgs(a, vars, n))
}

func dec_fitsEvArgs(args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) int { return k }

func trig_fitsEvArgs(args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{EvArgs(args, k, p, vars, n)}
}

//verif:lemma C14 OpResult IsSort local
func resultSort(op ast.Opcode, k int) bool {
	z.Use(opFacts(op))
	return z.Implies(z.Known(op) && z.OpResult(op, k) != 0, z.IsSort(z.OpResult(op, k)))
}

func trig_resultSort(op ast.Opcode, k int) []interface{} { return []interface{}{z.OpResult(op, k)} }

//verif:lemma C14 alone local
func fitsEv(v ast.Value, k int, vars map[ast.Variable]*value, n int) bool {
	s, _ := v.(*ast.SExpr)
	x, _ := v.(ast.Variable)
	op, _ := s.Op.(ast.Opcode)
	z.Use(fitsEvArgs(s.Args, len(s.Args), z.OpResult(op, k), vars, n))
	z.Use(addsVar(x, k, vars, n))
	z.Use(coversVar(x, k, vars, n))
	z.Use(goodVar(x, k, vars, n))
	z.Use(resultSort(op, k))
	return z.Implies(Ev(v, k, vars, n).OK && z.WfPrint(v) && n >= 0 && good(vars) && (k == 0 || z.IsSort(k)), fits(Ev(v, k, vars, n), vars, n))
}

func dec_fitsEv(v ast.Value, k int, vars map[ast.Variable]*value, n int) int { return z.Rank(v) }

func trig_fitsEv(v ast.Value, k int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{Ev(v, k, vars, n)}
}

//verif:lemma C14 local
func fitsAll(args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) bool {
	z.Use(fitsEvArgs(args, k, p, vars, n))
	return z.Implies(0 <= k && k <= len(args) && EvArgs(args, k, p, vars, n).OK && n >= 0 && good(vars) && z.IsSort(p) && z.WfPrintArgs(args, len(args)),
		fitsArgs(EvArgs(args, k, p, vars, n), vars, n))
}

func trig_fitsAll(args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{EvArgs(args, k, p, vars, n)}
}

// Every variable that occurs is declared.

//verif:lemma C14 adds local
func addsKeep(ss []symbol, vars map[ast.Variable]*value, n int, vars1 map[ast.Variable]*value, n1 int, x ast.Variable) bool {
	return z.Implies(adds(ss, vars, n, vars1, n1) && has(vars, x), has(vars1, x))
}

//verif:lemma C14 alone local
func occursEvArgs(x ast.Variable, args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) bool {
	a := EvArgs(args, k, p, vars, n)
	b := EvArgs(args, k-1, p, vars, n)
	e := Ev(args[k-1], p, b.Vars, b.Wild)
	z.Use(z.Lemma_wfPrintArgsAt(args, len(args), k-1))
	z.Use(fitsAll(args, k-1, p, vars, n))
	z.Use(fitsEv(args[k-1], p, b.Vars, b.Wild))
	z.Use(addsWild(b.Syms, vars, n, b.Vars, b.Wild))
	z.Use(addsKeep(e.Syms, b.Vars, b.Wild, e.Vars, e.Wild, x))
	return z.Implies(0 <= k && k <= len(args) && a.OK && n >= 0 && good(vars) && z.IsSort(p) && z.WfPrintArgs(args, len(args)) && occursArgs(x, args, k) && x != "_" &&
		z.All(func(i int, q int, vs map[ast.Variable]*value, m int) bool {
			return z.Implies(0 <= i && i < len(args) && z.WfPrint(args[i]) && m >= 0 && good(vs) && (q == 0 || z.IsSort(q)) && Ev(args[i], q, vs, m).OK && occurs(x, args[i]), has(Ev(args[i], q, vs, m).Vars, x))
		}),
		has(a.Vars, x))
}

func dec_occursEvArgs(x ast.Variable, args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) int {
	return k
}

func trig_occursEvArgs(x ast.Variable, args []ast.Value, k, p int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{EvArgs(args, k, p, vars, n), occursArgs(x, args, k)}
}

//verif:lemma C14 alone local
func occursEv(x ast.Variable, v ast.Value, k int, vars map[ast.Variable]*value, n int) bool {
	s, _ := v.(*ast.SExpr)
	u, _ := v.(ast.Variable)
	op, _ := s.Op.(ast.Opcode)
	z.Use(occursEvArgs(x, s.Args, len(s.Args), z.OpResult(op, k), vars, n))
	z.Use(coversVar(u, k, vars, n))
	z.Use(resultSort(op, k))
	return z.Implies(Ev(v, k, vars, n).OK && z.WfPrint(v) && n >= 0 && good(vars) && (k == 0 || z.IsSort(k)) && occurs(x, v) && x != "_", has(Ev(v, k, vars, n).Vars, x))
}

func dec_occursEv(x ast.Variable, v ast.Value, k int, vars map[ast.Variable]*value, n int) int {
	return z.Rank(v)
}

func trig_occursEv(x ast.Variable, v ast.Value, k int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{Ev(v, k, vars, n), occurs(x, v)}
}

//verif:lemma C14 good sorted local
func kindVar(x ast.Variable, k int, vars map[ast.Variable]*value, n int) bool {
	return z.Implies(EvVar(x, k, vars, n).OK && good(vars) && (k == 0 || z.IsSort(k)), z.IsSort(EvVar(x, k, vars, n).Kind))
}

//verif:lemma C14 alone local
func kindEv(v ast.Value, k int, vars map[ast.Variable]*value, n int) bool {
	s, _ := v.(*ast.SExpr)
	u, _ := v.(ast.Variable)
	op, _ := s.Op.(ast.Opcode)
	z.Use(kindVar(u, k, vars, n))
	z.Use(resultSort(op, k))
	return z.Implies(Ev(v, k, vars, n).OK && good(vars) && (k == 0 || z.IsSort(k)), z.IsSort(Ev(v, k, vars, n).Kind))
}

func trig_kindEv(v ast.Value, k int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{Ev(v, k, vars, n)}
}

//verif:lemma C14 covers local
func coversAll(ss []symbol, vars map[ast.Variable]*value, x ast.Variable) bool {
	return z.Implies(covers(ss, map[ast.Variable]*value{}, vars) && has(vars, x), declared(ss, x, len(ss)))
}

// The declarations of a script: each variable of the rule is declared, each
// symbol is declared once, all before the assertion.
//
//verif:lemma C14 alone Body local
func scriptDeclares(r *ast.Rule, x ast.Variable) bool {
	none := map[ast.Variable]*value{}
	m := Ev(r.Match, 0, none, 0)
	e := Ev(r.Result, m.Kind, m.Vars, m.Wild)
	b := Body(r)
	z.Use(goodStart(none))
	z.Use(fitsEv(r.Match, 0, none, 0))
	z.Use(kindEv(r.Match, 0, none, 0))
	z.Use(addsWild(m.Syms, none, 0, m.Vars, m.Wild))
	z.Use(fitsEv(r.Result, m.Kind, m.Vars, m.Wild))
	z.Use(addsThen(m.Syms, e.Syms, none, 0, m.Vars, m.Wild, e.Vars, e.Wild))
	z.Use(coversThen(m.Syms, e.Syms, none, m.Vars, e.Vars))
	z.Use(declTextCat(m.Syms, e.Syms, len(m.Syms)+len(e.Syms)))
	z.Use(addsOnce(b.Syms, none, 0, e.Vars, e.Wild))
	z.Use(occursEv(x, r.Match, 0, none, 0))
	z.Use(occursEv(x, r.Result, m.Kind, m.Vars, m.Wild))
	z.Use(addsKeep(e.Syms, m.Vars, m.Wild, e.Vars, e.Wild, x))
	z.Use(coversAll(b.Syms, e.Vars, x))
	return z.Implies(r != nil && z.WfPrint(r) && b.OK,
		b.Text == declText(b.Syms, len(b.Syms))+"(assert (not (= "+m.Text+" "+e.Text+")))\n(check-sat)\n(exit)\n" &&
			z.Implies(named(b.Syms), once(b.Syms)) &&
			z.Implies(x != "_" && (occurs(x, r.Match) || occurs(x, r.Result)), declared(b.Syms, x, len(b.Syms))))
}

func trig_scriptDeclares(r *ast.Rule, x ast.Variable) []interface{} {
	return []interface{}{Body(r), occurs(x, r.Match)}
}
