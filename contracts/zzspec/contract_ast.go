package zzspec

//verif:file C04,C05,C17

import "github.com/mmcloughlin/ssarules/ast"

// Contracts of package ast. They stand here because package ast cannot import
// this package.

//verif:lemma C04,C05,C17
func lemma_wfRulesAt(rs []*ast.Rule, k, i int) bool {
	return Implies(0 <= i && i < k && WfRuleNodes(rs, k), rs[i] != nil && WfNode(rs[i]))
}
func dec_lemma_wfRulesAt(rs []*ast.Rule, k, i int) int { return k }
func trig_lemma_wfRulesAt(rs []*ast.Rule, k, i int) []interface{} {
	return []interface{}{WfRuleNodes(rs, k), rs[i]}
}

//verif:lemma C04,C05,C17
func lemma_wfArgsAt(as []ast.Value, k, i int) bool {
	return Implies(0 <= i && i < k && WfArgNodes(as, k), WfNode(as[i]))
}
func dec_lemma_wfArgsAt(as []ast.Value, k, i int) int { return k }
func trig_lemma_wfArgsAt(as []ast.Value, k, i int) []interface{} {
	return []interface{}{WfArgNodes(as, k), as[i]}
}

//verif:lemma C04,C05,C17
func lemma_wfPartsAt(ps ast.OpcodeParts, k, i int) bool {
	return Implies(0 <= i && i < k && WfPartNodes(ps, k), WfPart(ps[i]))
}
func dec_lemma_wfPartsAt(ps ast.OpcodeParts, k, i int) int { return k }
func trig_lemma_wfPartsAt(ps ast.OpcodeParts, k, i int) []interface{} {
	return []interface{}{WfPartNodes(ps, k), ps[i]}
}

// ---- Walk

//verif:pre ast:Walk C04
func pre_Walk(v ast.Visitor, node ast.Node) bool { return v != nil && WfNode(node) }

//verif:post ast:Walk C04
func post_Walk(v ast.Visitor, node ast.Node, w0, w1 World) bool { return w1 == WalkW(v, node, w0) }

//verif:inv ast:Walk C04
func inv_Walk_rules(v ast.Visitor, node ast.Node, v_now ast.Visitor, k int, w_in, w World) bool {
	f, ok := node.(*ast.File)
	return Implies(ok, 0 <= k && k <= len(f.Rules) && w == WalkRulesW(v_now, f.Rules, k, w_in))
}

//verif:inv ast:Walk C04
func inv_Walk_args(v ast.Visitor, node ast.Node, v_now ast.Visitor, k int, w_in, w World) bool {
	s, ok := node.(*ast.SExpr)
	return Implies(ok, 0 <= k && k <= len(s.Args) && w == WalkArgsW(v_now, s.Args, k, w_in))
}

//verif:inv ast:Walk C04
func inv_Walk_parts(v ast.Visitor, node ast.Node, v_now ast.Visitor, k int, w_in, w World) bool {
	ps, ok := node.(ast.OpcodeParts)
	return Implies(ok, 0 <= k && k <= len(ps) && w == WalkPartsW(v_now, ps, k, w_in))
}

// ---- Inspect

//verif:pre ast:Inspect C04
func pre_Inspect(node ast.Node, f func(ast.Node) bool) bool { return f != nil && WfNode(node) }

//verif:post ast:Inspect C04
func post_Inspect(node ast.Node, f func(ast.Node) bool, w0, w1 World) bool {
	return w1 == InspW(f, node, w0)
}

// Adapts: the visitor calls the function and goes on exactly when it says so.
func Adapts(v ast.Visitor, f func(ast.Node) bool) bool {
	return All(func(n ast.Node, w World) bool {
		return VisitW(v, n, w) == CallPredW(f, n, w) &&
			Implies(CallPred(f, n, w), Eq(VisitRes(v, n, w), v)) &&
			Implies(!CallPred(f, n, w), VisitRes(v, n, w) == nil)
	})
}

//verif:lemma C04
func lemma_inspRules(v ast.Visitor, f func(ast.Node) bool, rs []*ast.Rule, k int, w World) bool {
	return Implies(v != nil && Adapts(v, f) && 0 <= k && k <= len(rs) &&
		All(func(i int, w World) bool {
			return Implies(0 <= i && i < k, WalkW(v, rs[i], w) == InspW(f, rs[i], w))
		}), WalkRulesW(v, rs, k, w) == InspRulesW(f, rs, k, w))
}
func dec_lemma_inspRules(v ast.Visitor, f func(ast.Node) bool, rs []*ast.Rule, k int, w World) int {
	return k
}
func trig_lemma_inspRules(v ast.Visitor, f func(ast.Node) bool, rs []*ast.Rule, k int, w World) []interface{} {
	return []interface{}{WalkRulesW(v, rs, k, w), InspRulesW(f, rs, k, w)}
}

//verif:lemma C04
func lemma_inspArgs(v ast.Visitor, f func(ast.Node) bool, as []ast.Value, k int, w World) bool {
	return Implies(v != nil && Adapts(v, f) && 0 <= k && k <= len(as) &&
		All(func(i int, w World) bool {
			return Implies(0 <= i && i < k, WalkW(v, as[i], w) == InspW(f, as[i], w))
		}), WalkArgsW(v, as, k, w) == InspArgsW(f, as, k, w))
}
func dec_lemma_inspArgs(v ast.Visitor, f func(ast.Node) bool, as []ast.Value, k int, w World) int {
	return k
}
func trig_lemma_inspArgs(v ast.Visitor, f func(ast.Node) bool, as []ast.Value, k int, w World) []interface{} {
	return []interface{}{WalkArgsW(v, as, k, w), InspArgsW(f, as, k, w)}
}

//verif:lemma C04
func lemma_inspParts(v ast.Visitor, f func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) bool {
	return Implies(v != nil && Adapts(v, f) && 0 <= k && k <= len(ps) &&
		All(func(i int, w World) bool {
			return Implies(0 <= i && i < k, WalkW(v, ps[i], w) == InspW(f, ps[i], w))
		}), WalkPartsW(v, ps, k, w) == InspPartsW(f, ps, k, w))
}
func dec_lemma_inspParts(v ast.Visitor, f func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) int {
	return k
}
func trig_lemma_inspParts(v ast.Visitor, f func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) []interface{} {
	return []interface{}{WalkPartsW(v, ps, k, w), InspPartsW(f, ps, k, w)}
}

//verif:lemma C04
func lemma_insp(v ast.Visitor, f func(ast.Node) bool, n ast.Node, w World) bool {
	return Implies(v != nil && Adapts(v, f) && WfNode(n), WalkW(v, n, w) == InspW(f, n, w))
}
func dec_lemma_insp(v ast.Visitor, f func(ast.Node) bool, n ast.Node, w World) int { return Rank(n) }
func trig_lemma_insp(v ast.Visitor, f func(ast.Node) bool, n ast.Node, w World) []interface{} {
	return []interface{}{WalkW(v, n, w), InspW(f, n, w)}
}

// ---- Contains: its search through Walk with its own closure

//verif:pre ast:Walk@Contains$1 C04,C05,C17
func pre_Search(node ast.Node, predicate func(ast.Node) bool) bool {
	return predicate != nil && WfNode(node)
}

//verif:post ast:Walk@Contains$1 C04,C05,C17
func post_Search(node ast.Node, predicate func(ast.Node) bool, found, found_out bool, w0, w1 World) bool {
	return found_out == (found || SF(predicate, node, w0)) &&
		Implies(found, w1 == w0) && Implies(!found, w1 == SW(predicate, node, w0))
}

//verif:inv ast:Walk@Contains$1 C04,C05,C17
func inv_Search_Rules(node ast.Node, predicate func(ast.Node) bool, k int, found_in, found bool, w_in, w World) bool {
	x, ok := node.(*ast.File)
	return Implies(ok, 0 <= k && k <= len(x.Rules) && found == SRulesF(predicate, x.Rules, k, found_in, w_in) && w == SRulesW(predicate, x.Rules, k, found_in, w_in))
}

//verif:inv ast:Walk@Contains$1 C04,C05,C17
func inv_Search_Args(node ast.Node, predicate func(ast.Node) bool, k int, found_in, found bool, w_in, w World) bool {
	x, ok := node.(*ast.SExpr)
	return Implies(ok, 0 <= k && k <= len(x.Args) && found == SArgsF(predicate, x.Args, k, found_in, w_in) && w == SArgsW(predicate, x.Args, k, found_in, w_in))
}

//verif:inv ast:Walk@Contains$1 C04,C05,C17
func inv_Search_Parts(node ast.Node, predicate func(ast.Node) bool, k int, found_in, found bool, w_in, w World) bool {
	x, ok := node.(ast.OpcodeParts)
	return Implies(ok, 0 <= k && k <= len(x) && found == SPartsF(predicate, x, k, found_in, w_in) && w == SPartsW(predicate, x, k, found_in, w_in))
}

//verif:pre ast:Contains C04,C05,C17
func pre_Contains(node ast.Node, predicate func(ast.Node) bool) bool {
	return predicate != nil && WfNode(node)
}

//verif:post ast:Contains C04,C05,C17
func post_Contains(node ast.Node, predicate func(ast.Node) bool, r bool, w0, w1 World) bool {
	return r == SF(predicate, node, w0) && w1 == SW(predicate, node, w0)
}

// ---- C05: features

// Tests: the function answers feature k of the node and does nothing else.
func Tests(p func(ast.Node) bool, k int) bool {
	return All(func(n ast.Node, w World) bool {
		return CallPred(p, n, w) == Has1(k, n) && CallPredW(p, n, w) == w
	})
}

//verif:lemma C05,C17
func lemma_hasRules(p func(ast.Node) bool, f int, rs []*ast.Rule, k int, b bool, w World) bool {
	return Implies(!b && Tests(p, f) && 0 <= k && k <= len(rs) &&
		All(func(i int) bool {
			return Implies(0 <= i && i < k, SF(p, rs[i], w) == HasK(f, rs[i]) && SW(p, rs[i], w) == w)
		}), SRulesF(p, rs, k, b, w) == HasRules(f, rs, k) && SRulesW(p, rs, k, b, w) == w)
}
func dec_lemma_hasRules(p func(ast.Node) bool, f int, rs []*ast.Rule, k int, b bool, w World) int {
	return k
}
func trig_lemma_hasRules(p func(ast.Node) bool, f int, rs []*ast.Rule, k int, b bool, w World) []interface{} {
	return []interface{}{SRulesF(p, rs, k, b, w), HasRules(f, rs, k)}
}

//verif:lemma C05,C17
func lemma_hasArgs(p func(ast.Node) bool, f int, as []ast.Value, k int, b bool, w World) bool {
	return Implies(!b && Tests(p, f) && 0 <= k && k <= len(as) &&
		All(func(i int) bool {
			return Implies(0 <= i && i < k, SF(p, as[i], w) == HasK(f, as[i]) && SW(p, as[i], w) == w)
		}), SArgsF(p, as, k, b, w) == HasArgs(f, as, k) && SArgsW(p, as, k, b, w) == w)
}
func dec_lemma_hasArgs(p func(ast.Node) bool, f int, as []ast.Value, k int, b bool, w World) int {
	return k
}
func trig_lemma_hasArgs(p func(ast.Node) bool, f int, as []ast.Value, k int, b bool, w World) []interface{} {
	return []interface{}{SArgsF(p, as, k, b, w), HasArgs(f, as, k)}
}

// Quiet: the function does nothing and is false of all but s-expressions.
func Quiet(p func(ast.Node) bool) bool {
	return All(func(n ast.Node, w World) bool {
		_, ok := n.(*ast.SExpr)
		return CallPredW(p, n, w) == w && Implies(!ok, !CallPred(p, n, w))
	})
}

//verif:lemma C05,C17
func lemma_hasPart(p func(ast.Node) bool, n ast.Node, w World) bool {
	_, a := n.(ast.Opcode)
	_, b := n.(ast.OpcodeAlt)
	return Implies(Quiet(p) && (a || b), !SF(p, n, w) && SW(p, n, w) == w)
}
func trig_lemma_hasPart(p func(ast.Node) bool, n ast.Node, w World) []interface{} {
	return []interface{}{SF(p, n, w)}
}

//verif:lemma C05,C17
func lemma_hasParts(p func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) bool {
	return Implies(Quiet(p) && 0 <= k && k <= len(ps) && WfPartNodes(ps, k),
		!SPartsF(p, ps, k, false, w) && SPartsW(p, ps, k, false, w) == w)
}
func dec_lemma_hasParts(p func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) int { return k }
func trig_lemma_hasParts(p func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) []interface{} {
	return []interface{}{SPartsF(p, ps, k, false, w)}
}

//verif:lemma C05,C17
func lemma_has(p func(ast.Node) bool, f int, n ast.Node, w World) bool {
	return Implies(Tests(p, f) && WfNode(n), SF(p, n, w) == HasK(f, n) && SW(p, n, w) == w)
}
func dec_lemma_has(p func(ast.Node) bool, f int, n ast.Node, w World) int { return Rank(n) }
func trig_lemma_has(p func(ast.Node) bool, f int, n ast.Node, w World) []interface{} {
	return []interface{}{SF(p, n, w), HasK(f, n)}
}
