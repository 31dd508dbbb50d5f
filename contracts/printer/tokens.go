package printer

//verif:file C08

import (
	goast "go/ast"

	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// The expression arrives as its own tokens, and they stay apart.
//
//verif:post printer.goexpr C08
func post_goexpr_tokens(p *printer, e goast.Expr, q *printer, w0, w1 z.World) bool {
	ps := z.Pieces(false, e)
	z.Use(z.Lemma_tokens(e))
	return z.Implies(z.Valid(e) && q.err == nil,
		z.Out(q.w, w1) == z.Out(q.w, w0)+z.Render(ps, len(ps)) && z.Apart(ps, len(ps)))
}

