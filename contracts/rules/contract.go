package rules

//verif:file C05,C17

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:pre HasBinding C05,C17
func pre_HasBinding(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasBinding C05,C17
func post_HasBinding(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FBinding, r) && w1 == w0
}

//verif:pre HasType C05,C17
func pre_HasType(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasType C05,C17
func post_HasType(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FType, r) && w1 == w0
}

//verif:pre HasAux C05,C17
func pre_HasAux(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasAux C05,C17
func post_HasAux(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FAux, r) && w1 == w0
}

//verif:pre HasAuxInt C05,C17
func pre_HasAuxInt(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasAuxInt C05,C17
func post_HasAuxInt(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FAuxInt, r) && w1 == w0
}

//verif:pre HasEllipsis C05,C17
func pre_HasEllipsis(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasEllipsis C05,C17
func post_HasEllipsis(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FEllipsis, r) && w1 == w0
}

//verif:pre HasTrailing C05,C17
func pre_HasTrailing(r *ast.Rule) bool { return z.WfNode(r) }

//verif:post HasTrailing C05,C17
func post_HasTrailing(r *ast.Rule, ok bool, w0, w1 z.World) bool {
	return ok == z.HasK(z.FTrailing, r) && w1 == w0
}
