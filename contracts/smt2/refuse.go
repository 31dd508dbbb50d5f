package smt2

//verif:file C16

import (
	gotypes "go/types"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:writesnone simple.Params C16
//verif:writesnone simple.Evaluate C16

//verif:post simple.Params C16
func post_Params_err(s *simple, t gotypes.Type, ps []gotypes.Type, err error, w0, w1 z.World) bool {
	return true
}

//verif:post simple.Evaluate C16
func post_Evaluate_err(s *simple, in *input, v *value, err error, w0, w1 z.World) bool { return true }

//verif:post generator.variable C16
func post_variable_err(g *generator, v ast.Variable, t gotypes.Type, r *value, err error) bool {
	return z.Implies(EvVar(v, kindOf(t), g.vars, g.placeholders).OK, err == nil)
}

//verif:post generator.eval C16
func post_eval_err(g *generator, v ast.Value, t gotypes.Type, r *value, err error) bool {
	return z.Iff(err == nil, Ev(v, kindOf(t), g.vars, g.placeholders).OK && z.Plain(v))
}

//verif:post generator.sexpr C16
func post_sexpr_err(g *generator, s *ast.SExpr, t gotypes.Type, r *value, err error) bool {
	return z.Iff(err == nil, EvSExpr(s, kindOf(t), g.vars, g.placeholders).OK && z.PlainSExpr(s))
}

//verif:inv generator.sexpr C16
func inv_sexpr_plain(g *generator, s *ast.SExpr, t gotypes.Type, k int) bool { return z.PlainArgs(s.Args, k) }

//verif:pre generator.generate C16
func pre_generate_met(g *generator, r *ast.Rule, w0 z.World) bool { return !z.Met(w0) }

//verif:post generator.printf C16
func post_printf_met(g *generator, format string, args []interface{}, h *generator, w0, w1 z.World) bool {
	return z.Implies(!z.Met(w0), !z.Met(w1))
}

//verif:post generator.generate C16
func post_generate_err(g *generator, r *ast.Rule, err error) bool {
	return z.Iff(err == nil, Body(r).OK && z.Translatable(r))
}

//verif:pre Generate C16
func pre_Generate_met(r *ast.Rule, w0 z.World) bool { return !z.Met(w0) }

//verif:post Generate C16
func post_Generate_err(r *ast.Rule, b []byte, err error, w0, w1 z.World) bool {
	return z.Iff(err == nil, Body(r).OK && z.Translatable(r)) && z.Implies(err != nil, b == nil)
}

//verif:lemma C16
func evArgsBefore(args []ast.Value, k, m, p int, vars map[ast.Variable]*value, n int) bool {
	return z.Implies(0 <= k && k < m && EvArgs(args, m, p, vars, n).OK, EvArgs(args, k+1, p, vars, n).OK)
}

func dec_evArgsBefore(args []ast.Value, k, m, p int, vars map[ast.Variable]*value, n int) int { return m }

func trig_evArgsBefore(args []ast.Value, k, m, p int, vars map[ast.Variable]*value, n int) []interface{} {
	return []interface{}{EvArgs(args, k, p, vars, n), EvArgs(args, m, p, vars, n)}
}

//verif:lemma C16
func plainBefore(args []ast.Value, k, m int) bool {
	return z.Implies(0 <= k && k < m && z.PlainArgs(args, m), z.PlainArgs(args, k+1))
}

func dec_plainBefore(args []ast.Value, k, m int) int { return m }

func trig_plainBefore(args []ast.Value, k, m int) []interface{} {
	return []interface{}{z.PlainArgs(args, k), z.PlainArgs(args, m)}
}

// A rule that can be translated can be printed.
//
//verif:lemma C16
func plainArgsPrint(args []ast.Value, k int) bool {
	return z.Implies(0 <= k && k <= len(args) && z.PlainArgs(args, k) && z.WfPrintArgs(args, len(args)) &&
		z.Forall(0, len(args), func(j int) bool { return z.Implies(z.Plain(args[j]) && z.WfPrint(args[j]), !z.BadValue(args[j]).Is) }),
		!z.BadArgs(args, k).Is)
}

func dec_plainArgsPrint(args []ast.Value, k int) int { return k }

func trig_plainArgsPrint(args []ast.Value, k int) []interface{} {
	return []interface{}{z.PlainArgs(args, k), z.BadArgs(args, k)}
}

//verif:lemma C16
func plainPrint(v ast.Value) bool {
	s, _ := v.(*ast.SExpr)
	z.Use(plainArgsPrint(s.Args, len(s.Args)))
	return z.Implies(z.Plain(v) && z.WfPrint(v), !z.BadValue(v).Is)
}

func dec_plainPrint(v ast.Value) int { return z.Rank(v) }

func trig_plainPrint(v ast.Value) []interface{} { return []interface{}{z.Plain(v), z.BadValue(v)} }
