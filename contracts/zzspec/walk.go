package zzspec

import "github.com/mmcloughlin/ssarules/ast"

// ---- C04, C05: traversal ----------------------------------------------------

// World is the state of everything the code under contract calls without
// knowing it: visitors, predicates, writers. It is abstract in the proofs.
type World struct{ Ghost int }

// All is universal quantification, in hypotheses of lemmas only.
func All(f interface{}) bool { panic("zzspec.All is a ghost function") }

// VisitRes and VisitW are what a visitor returns and does; CallPred and
// CallPredW are what a function of a node returns and does. All four are
// arbitrary: what is proved with them holds for all visitors and functions.

//verif:invoke Visit result
func VisitRes(v ast.Visitor, n ast.Node, w World) ast.Visitor { panic("ghost") }

//verif:invoke Visit world
func VisitW(v ast.Visitor, n ast.Node, w World) World { panic("ghost") }

//verif:dynamic result
func CallPred(f func(ast.Node) bool, n ast.Node, w World) bool { panic("ghost") }

//verif:dynamic world
func CallPredW(f func(ast.Node) bool, n ast.Node, w World) World { panic("ghost") }

// WfNode reports whether a tree consists of nodes of known kinds, no nil among
// them.
func WfNode(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.File:
		return x != nil && WfRuleNodes(x.Rules, len(x.Rules))
	case *ast.Rule:
		return x != nil && WfNode(x.Match) && WfNode(x.Result)
	case *ast.SExpr:
		return x != nil && WfOp(x.Op) && WfArgNodes(x.Args, len(x.Args))
	case ast.OpcodeParts:
		return WfPartNodes(x, len(x))
	case ast.Opcode:
		return true
	case ast.OpcodeAlt:
		return true
	case *ast.Expr:
		return x != nil
	case ast.Variable:
		return true
	default:
		return false
	}
}

// WfRuleNodes is WfNode of the first k rules.
func WfRuleNodes(rs []*ast.Rule, k int) bool {
	return k <= 0 || (WfRuleNodes(rs, k-1) && WfNode(rs[k-1]))
}

// WfArgNodes is WfNode of the first k arguments.
func WfArgNodes(as []ast.Value, k int) bool {
	return k <= 0 || (WfArgNodes(as, k-1) && WfNode(as[k-1]))
}

// WfPartNodes: the first k pieces are of known kinds.
func WfPartNodes(ps ast.OpcodeParts, k int) bool {
	return k <= 0 || (WfPartNodes(ps, k-1) && WfPart(ps[k-1]))
}

// WfPart: the piece of an opcode is of a known kind.
func WfPart(p ast.OpPart) bool {
	switch p.(type) {
	case ast.Opcode, ast.OpcodeAlt:
		return true
	default:
		return false
	}
}

// WfOp: the opcode is of a known kind.
func WfOp(o ast.Op) bool {
	switch x := o.(type) {
	case ast.Opcode:
		return true
	case ast.OpcodeParts:
		return WfPartNodes(x, len(x))
	default:
		return false
	}
}

// WalkW is the world after a walk: the visitor is called for the node and
// then, unless it returned nil, what it returned walks the children in order.
func WalkW(v ast.Visitor, n ast.Node, w World) World {
	r := VisitRes(v, n, w)
	w1 := VisitW(v, n, w)
	if r == nil {
		return w1
	}
	switch x := n.(type) {
	case *ast.File:
		return WalkRulesW(r, x.Rules, len(x.Rules), w1)
	case *ast.Rule:
		return WalkW(r, x.Result, WalkW(r, x.Match, w1))
	case *ast.SExpr:
		return WalkArgsW(r, x.Args, len(x.Args), WalkW(r, x.Op, w1))
	case ast.OpcodeParts:
		return WalkPartsW(r, x, len(x), w1)
	default:
		return w1
	}
}

// WalkRulesW walks the first k rules.
func WalkRulesW(v ast.Visitor, rs []*ast.Rule, k int, w World) World {
	if k <= 0 {
		return w
	}
	return WalkW(v, rs[k-1], WalkRulesW(v, rs, k-1, w))
}

// WalkArgsW walks the first k arguments.
func WalkArgsW(v ast.Visitor, as []ast.Value, k int, w World) World {
	if k <= 0 {
		return w
	}
	return WalkW(v, as[k-1], WalkArgsW(v, as, k-1, w))
}

// WalkPartsW walks the first k pieces.
func WalkPartsW(v ast.Visitor, ps ast.OpcodeParts, k int, w World) World {
	if k <= 0 {
		return w
	}
	return WalkW(v, ps[k-1], WalkPartsW(v, ps, k-1, w))
}

// InspW is the world after the function form of the walk.
func InspW(f func(ast.Node) bool, n ast.Node, w World) World {
	w1 := CallPredW(f, n, w)
	if !CallPred(f, n, w) {
		return w1
	}
	switch x := n.(type) {
	case *ast.File:
		return InspRulesW(f, x.Rules, len(x.Rules), w1)
	case *ast.Rule:
		return InspW(f, x.Result, InspW(f, x.Match, w1))
	case *ast.SExpr:
		return InspArgsW(f, x.Args, len(x.Args), InspW(f, x.Op, w1))
	case ast.OpcodeParts:
		return InspPartsW(f, x, len(x), w1)
	default:
		return w1
	}
}

// InspRulesW inspects the first k rules.
func InspRulesW(f func(ast.Node) bool, rs []*ast.Rule, k int, w World) World {
	if k <= 0 {
		return w
	}
	return InspW(f, rs[k-1], InspRulesW(f, rs, k-1, w))
}

// InspArgsW inspects the first k arguments.
func InspArgsW(f func(ast.Node) bool, as []ast.Value, k int, w World) World {
	if k <= 0 {
		return w
	}
	return InspW(f, as[k-1], InspArgsW(f, as, k-1, w))
}

// InspPartsW inspects the first k pieces.
func InspPartsW(f func(ast.Node) bool, ps ast.OpcodeParts, k int, w World) World {
	if k <= 0 {
		return w
	}
	return InspW(f, ps[k-1], InspPartsW(f, ps, k-1, w))
}

// SF tells whether a search finds a node in the tree of n: it asks in
// pre-order and asks nothing more once it has found one.
func SF(p func(ast.Node) bool, n ast.Node, w World) bool {
	if CallPred(p, n, w) {
		return true
	}
	w1 := CallPredW(p, n, w)
	switch x := n.(type) {
	case *ast.File:
		return SRulesF(p, x.Rules, len(x.Rules), false, w1)
	case *ast.Rule:
		return SF(p, x.Match, w1) || SF(p, x.Result, SW(p, x.Match, w1))
	case *ast.SExpr:
		return SArgsF(p, x.Args, len(x.Args), SF(p, x.Op, w1), SW(p, x.Op, w1))
	case ast.OpcodeParts:
		return SPartsF(p, x, len(x), false, w1)
	default:
		return false
	}
}

// SW is the world after that search.
func SW(p func(ast.Node) bool, n ast.Node, w World) World {
	w1 := CallPredW(p, n, w)
	if CallPred(p, n, w) {
		return w1
	}
	switch x := n.(type) {
	case *ast.File:
		return SRulesW(p, x.Rules, len(x.Rules), false, w1)
	case *ast.Rule:
		if SF(p, x.Match, w1) {
			return SW(p, x.Match, w1)
		}
		return SW(p, x.Result, SW(p, x.Match, w1))
	case *ast.SExpr:
		return SArgsW(p, x.Args, len(x.Args), SF(p, x.Op, w1), SW(p, x.Op, w1))
	case ast.OpcodeParts:
		return SPartsW(p, x, len(x), false, w1)
	default:
		return w1
	}
}

// SRulesF is the search through the first k rules; f: it has found a node before.
func SRulesF(p func(ast.Node) bool, rs []*ast.Rule, k int, f bool, w World) bool {
	if k <= 0 {
		return f
	}
	return SRulesF(p, rs, k-1, f, w) || SF(p, rs[k-1], SRulesW(p, rs, k-1, f, w))
}

// SRulesW is the world after it.
func SRulesW(p func(ast.Node) bool, rs []*ast.Rule, k int, f bool, w World) World {
	if k <= 0 {
		return w
	}
	if SRulesF(p, rs, k-1, f, w) {
		return SRulesW(p, rs, k-1, f, w)
	}
	return SW(p, rs[k-1], SRulesW(p, rs, k-1, f, w))
}

// SArgsF is the search through the first k arguments; f: it has found a node before.
func SArgsF(p func(ast.Node) bool, as []ast.Value, k int, f bool, w World) bool {
	if k <= 0 {
		return f
	}
	return SArgsF(p, as, k-1, f, w) || SF(p, as[k-1], SArgsW(p, as, k-1, f, w))
}

// SArgsW is the world after it.
func SArgsW(p func(ast.Node) bool, as []ast.Value, k int, f bool, w World) World {
	if k <= 0 {
		return w
	}
	if SArgsF(p, as, k-1, f, w) {
		return SArgsW(p, as, k-1, f, w)
	}
	return SW(p, as[k-1], SArgsW(p, as, k-1, f, w))
}

// SPartsF is the search through the first k pieces; f: it has found a node before.
func SPartsF(p func(ast.Node) bool, ps ast.OpcodeParts, k int, f bool, w World) bool {
	if k <= 0 {
		return f
	}
	return SPartsF(p, ps, k-1, f, w) || SF(p, ps[k-1], SPartsW(p, ps, k-1, f, w))
}

// SPartsW is the world after it.
func SPartsW(p func(ast.Node) bool, ps ast.OpcodeParts, k int, f bool, w World) World {
	if k <= 0 {
		return w
	}
	if SPartsF(p, ps, k-1, f, w) {
		return SPartsW(p, ps, k-1, f, w)
	}
	return SW(p, ps[k-1], SPartsW(p, ps, k-1, f, w))
}

// ---- C05: features ------------------------------------------------------------

// Features of an s-expression.
const (
	FBinding = iota
	FType
	FAux
	FAuxInt
	FEllipsis
	FTrailing
)

// Has1 tells whether the node itself is an s-expression with feature k.
func Has1(k int, n ast.Node) bool {
	s, ok := n.(*ast.SExpr)
	if !ok {
		return false
	}
	switch k {
	case FBinding:
		return s.Binding != ""
	case FType:
		return s.Type != ""
	case FAux:
		return s.Aux != nil
	case FAuxInt:
		return s.AuxInt != nil
	case FEllipsis:
		return s.Ellipsis
	case FTrailing:
		return s.Trailing
	}
	return false
}

// HasK tells whether some s-expression of the tree has feature k.
func HasK(k int, n ast.Node) bool {
	if Has1(k, n) {
		return true
	}
	switch x := n.(type) {
	case *ast.File:
		return HasRules(k, x.Rules, len(x.Rules))
	case *ast.Rule:
		return HasK(k, x.Match) || HasK(k, x.Result)
	case *ast.SExpr:
		return HasArgs(k, x.Args, len(x.Args))
	default:
		return false
	}
}

// HasRules is HasK of the first j rules.
func HasRules(k int, rs []*ast.Rule, j int) bool {
	return j > 0 && (HasRules(k, rs, j-1) || HasK(k, rs[j-1]))
}

// HasArgs is HasK of the first j arguments.
func HasArgs(k int, as []ast.Value, j int) bool {
	return j > 0 && (HasArgs(k, as, j-1) || HasK(k, as[j-1]))
}
