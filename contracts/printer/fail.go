package printer

//verif:file C07,C16

import (
	goast "go/ast"
	gotoken "go/token"
	"io"
	"os"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:mutable printer
//verif:writesvia printer w C16
//verif:writesnone Bytes C16

// clean: an error is kept exactly if one was met, and nothing came after it.
func clean(p printer, wd z.World) bool {
	return p.w != nil && z.Iff(p.err == nil, z.WErr(p.w, wd) == nil && !z.Met(wd))
}

// kept: the first failure is kept, and nothing is written after it.
func kept(a, b printer, bad z.Bad, w0, w1 z.World) bool {
	return b.w == a.w && clean(b, w1) && z.Late(a.w, w1) == z.Late(a.w, w0) &&
		z.Implies(a.err != nil, b.err == a.err && z.WErr(a.w, w1) == z.WErr(a.w, w0)) &&
		z.Implies(a.err == nil, z.Answers(a.w, b.err, bad, w1))
}

//verif:pre printer.printf C07,C16
func pre_printf(p *printer, format string, args []interface{}, w0 z.World) bool { return clean(*p, w0) }

//verif:post printer.printf C07,C16
func post_printf(p *printer, format string, args []interface{}, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.Bad{}, w0, w1)
}

//verif:pre printer.node C07,C16
func pre_node(p *printer, n ast.Node, w0 z.World) bool { return clean(*p, w0) && z.WfPrint(n) }

//verif:post printer.node C07,C16
func post_node(p *printer, n ast.Node, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadNode(n), w0, w1)
}

//verif:inv printer.node C07,C16
func inv_node(p *printer, n ast.Node, p_in, p_now printer, k int, w_in, w z.World) bool {
	f, ok := n.(*ast.File)
	return z.Implies(ok, 0 <= k && k <= len(f.Rules) && kept(p_in, p_now, z.BadRules(f.Rules, k), w_in, w))
}

//verif:pre printer.rule C07,C16
func pre_rule(p *printer, r *ast.Rule, w0 z.World) bool { return clean(*p, w0) && r != nil && z.WfPrint(r) }

//verif:post printer.rule C07,C16
func post_rule(p *printer, r *ast.Rule, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadRule(r), w0, w1)
}

//verif:pre printer.value C07,C16
func pre_value(p *printer, v ast.Value, w0 z.World) bool { return clean(*p, w0) && z.WfPrint(v) }

//verif:post printer.value C07,C16
func post_value(p *printer, v ast.Value, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadValue(v), w0, w1)
}

//verif:pre printer.sexpr C07,C16
func pre_sexpr(p *printer, s *ast.SExpr, w0 z.World) bool { return clean(*p, w0) && s != nil && z.WfPrint(s) }

//verif:post printer.sexpr C07,C16
func post_sexpr(p *printer, s *ast.SExpr, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadSExpr(s), w0, w1)
}

//verif:inv printer.sexpr C07,C16
func inv_sexpr(p *printer, s *ast.SExpr, p_in, p_now printer, k int, w_in, w z.World) bool {
	return 0 <= k && k <= len(s.Args) && kept(p_in, p_now, z.BadArgs(s.Args, k), w_in, w)
}

//verif:pre printer.op C07,C16
func pre_op(p *printer, o ast.Op, w0 z.World) bool { return clean(*p, w0) }

//verif:post printer.op C07,C16
func post_op(p *printer, o ast.Op, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadOp(o), w0, w1)
}

//verif:inv printer.op C07,C16
func inv_op(p *printer, o ast.Op, p_in, p_now printer, k int, w_in, w z.World) bool {
	ps, ok := o.(ast.OpcodeParts)
	return z.Implies(ok, 0 <= k && k <= len(ps) && kept(p_in, p_now, z.BadParts(ps, k), w_in, w))
}

//verif:pre printer.oppart C07,C16
func pre_oppart(p *printer, o ast.OpPart, w0 z.World) bool { return clean(*p, w0) }

//verif:post printer.oppart C07,C16
func post_oppart(p *printer, o ast.OpPart, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadPart(o), w0, w1)
}

//verif:inv printer.oppart C07,C16
func inv_oppart(p *printer, o ast.OpPart, p_in, p_now printer, k int, w_in, w z.World) bool {
	cs, ok := o.(ast.OpcodeAlt)
	return z.Implies(ok, 0 <= k && k <= len(cs) && kept(p_in, p_now, z.Bad{}, w_in, w))
}

//verif:pre printer.goexpr C07,C16
func pre_goexpr(p *printer, e goast.Expr, w0 z.World) bool { return clean(*p, w0) && z.WfGo(e) }

//verif:post printer.goexpr C07,C16
func post_goexpr(p *printer, e goast.Expr, q *printer, w0, w1 z.World) bool {
	return kept(*p, *q, z.BadGo(e), w0, w1)
}

//verif:inv printer.goexpr C07,C16
func inv_goexpr(p *printer, e goast.Expr, p_in, p_now printer, k int, w_in, w z.World) bool {
	c, ok := e.(*goast.CallExpr)
	return z.Implies(ok, 0 <= k && k <= len(c.Args) && kept(p_in, p_now, z.BadGoArgs(c.Args, k), w_in, w))
}

//verif:pre fuses C07,C16
func pre_fuses(op gotoken.Token, e goast.Expr) bool { return z.WfGo(e) }

//verif:pre endsInInt C07,C16
func pre_endsInInt(e goast.Expr) bool { return z.WfGo(e) }

//verif:writes Fprint C16
func writes_Fprint(w io.Writer, n ast.Node) io.Writer { return w }

//verif:pre Fprint C07,C16
func pre_Fprint(w io.Writer, n ast.Node, w0 z.World) bool {
	return w != nil && z.WfPrint(n) && z.WErr(w, w0) == nil && !z.Met(w0)
}

//verif:post Fprint C07,C16
func post_Fprint(w io.Writer, n ast.Node, err error, w0, w1 z.World) bool {
	return z.Late(w, w1) == z.Late(w, w0) && z.Answers(w, err, z.BadNode(n), w1)
}

//verif:pre Bytes C07,C16
func pre_Bytes(n ast.Node, w0 z.World) bool { return z.WfPrint(n) && !z.Met(w0) }

//verif:post Bytes C07,C16
func post_Bytes(n ast.Node, b []byte, err error, w0, w1 z.World) bool {
	bad := z.BadNode(n)
	return z.Iff(err != nil, bad.Is) && z.Implies(bad.Is, z.Names(err, bad.Node))
}

//verif:pre Print C07,C16
func pre_Print(n ast.Node, w0 z.World) bool {
	return z.WfPrint(n) && z.WErr(os.Stdout, w0) == nil && !z.Met(w0)
}

//verif:post Print C07,C16
func post_Print(n ast.Node, err error, w0, w1 z.World) bool {
	return z.Late(os.Stdout, w1) == z.Late(os.Stdout, w0) && z.Answers(os.Stdout, err, z.BadNode(n), w1)
}
