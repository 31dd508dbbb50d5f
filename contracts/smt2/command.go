package smt2

//verif:file C17

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:assume Generate C17 proved under C14 (the script), C15 (it writes to buffers of its own) and C16 (the error)

//verif:pre Generate C17
func pre_Generate_cmd(r *ast.Rule) bool { return r != nil && z.WfPrint(r) }

//verif:post Generate C17
func post_Generate_cmd(r *ast.Rule, b []byte, err error, w0, w1 z.World) bool {
	return z.Iff(err == nil, Body(r).OK && z.Translatable(r)) &&
		z.Implies(err == nil, string(b) == Header(r)+Body(r).Text)
}

//verif:post Generate C17
func post_Generate_quiet(r *ast.Rule, b []byte, err error, w0, w1 z.World) bool {
	return z.Same(w0, w1)
}
