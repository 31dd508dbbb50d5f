package printer

//verif:file C06,C08,C14

import (
	goast "go/ast"
	gotoken "go/token"
	"io"
	"os"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:mutable printer
//verif:writesvia printer w C14
//verif:writesnone Bytes C14

// wrote: if no error is left, the destination got the text.
func wrote(a, b printer, s string, w0, w1 z.World) bool {
	return b.w == a.w && z.Implies(a.err != nil, b.err != nil) &&
		z.Implies(b.err == nil, z.Out(a.w, w1) == z.Out(a.w, w0)+s)
}

//verif:pre printer.printf C06,C08,C14
func pre_printf(p *printer, format string, args []interface{}) bool { return p.w != nil }

//verif:post printer.printf C06,C08,C14
func post_printf(p *printer, format string, args []interface{}, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.Sprintf(format, args), w0, w1)
}

//verif:pre printer.node C06,C14
func pre_node(p *printer, n ast.Node) bool { return p.w != nil && z.WfPrint(n) }

//verif:post printer.node C06,C14
func post_node(p *printer, n ast.Node, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextNode(n), w0, w1)
}

//verif:inv printer.node C06,C14
func inv_node(p *printer, n ast.Node, p_in, p_now printer, k int, w_in, w z.World) bool {
	f, ok := n.(*ast.File)
	return z.Implies(ok, 0 <= k && k <= len(f.Rules) && wrote(p_in, p_now, z.TextRules(f.Rules, k), w_in, w))
}

//verif:pre printer.rule C06,C14
func pre_rule(p *printer, r *ast.Rule) bool { return p.w != nil && r != nil && z.WfPrint(r) }

//verif:post printer.rule C06,C14
func post_rule(p *printer, r *ast.Rule, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextRule(r), w0, w1)
}

//verif:pre printer.value C06,C14
func pre_value(p *printer, v ast.Value) bool { return p.w != nil && z.WfPrint(v) }

//verif:post printer.value C06,C14
func post_value(p *printer, v ast.Value, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextValue(v), w0, w1)
}

//verif:pre printer.sexpr C06,C14
func pre_sexpr(p *printer, s *ast.SExpr) bool { return p.w != nil && s != nil && z.WfPrint(s) }

//verif:post printer.sexpr C06,C14
func post_sexpr(p *printer, s *ast.SExpr, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextSExpr(s), w0, w1)
}

//verif:inv printer.sexpr C06,C14
func inv_sexpr(p *printer, s *ast.SExpr, p_in, p_now printer, k int, w_in, w z.World) bool {
	return 0 <= k && k <= len(s.Args) && wrote(p_in, p_now, z.TextArgs(s.Args, k), w_in, w)
}

//verif:pre printer.op C06,C14
func pre_op(p *printer, o ast.Op) bool { return p.w != nil }

//verif:post printer.op C06,C14
func post_op(p *printer, o ast.Op, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextOp(o), w0, w1)
}

//verif:inv printer.op C06,C14
func inv_op(p *printer, o ast.Op, p_in, p_now printer, k int, w_in, w z.World) bool {
	ps, ok := o.(ast.OpcodeParts)
	return z.Implies(ok, 0 <= k && k <= len(ps) && wrote(p_in, p_now, z.TextParts(ps, k), w_in, w))
}

//verif:pre printer.oppart C06,C14
func pre_oppart(p *printer, o ast.OpPart) bool { return p.w != nil }

//verif:post printer.oppart C06,C14
func post_oppart(p *printer, o ast.OpPart, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextPart(o), w0, w1)
}

//verif:inv printer.oppart C06,C14
func inv_oppart(p *printer, o ast.OpPart, p_in, p_now printer, k int, w_in, w z.World) bool {
	cs, ok := o.(ast.OpcodeAlt)
	return z.Implies(ok, 0 <= k && k <= len(cs) && wrote(p_in, p_now, z.TextAlt(cs, k), w_in, w))
}

//verif:inv printer.oppart C06,C14
func inv_oppart_sep(p *printer, o ast.OpPart, sep rune, k int) bool {
	return sep == z.AltSep(k)
}

//verif:pre printer.goexpr C06,C08,C14
func pre_goexpr(p *printer, e goast.Expr) bool { return p.w != nil && z.WfGo(e) }

//verif:post printer.goexpr C06,C08,C14
func post_goexpr(p *printer, e goast.Expr, q *printer, w0, w1 z.World) bool {
	return wrote(*p, *q, z.TextGo(e), w0, w1)
}

//verif:inv printer.goexpr C06,C08,C14
func inv_goexpr(p *printer, e goast.Expr, p_in, p_now printer, k int, w_in, w z.World) bool {
	c, ok := e.(*goast.CallExpr)
	return z.Implies(ok, 0 <= k && k <= len(c.Args) && wrote(p_in, p_now, z.TextList(c.Args, k), w_in, w))
}

//verif:pre fuses C06,C08,C14
func pre_fuses(op gotoken.Token, e goast.Expr) bool { return z.WfGo(e) }

//verif:post fuses C06,C08,C14
func post_fuses(op gotoken.Token, e goast.Expr, r bool) bool { return r == z.Fuses(op, e) }

//verif:pre endsInInt C06,C08,C14
func pre_endsInInt(e goast.Expr) bool { return z.WfGo(e) }

//verif:post endsInInt C06,C08,C14
func post_endsInInt(e goast.Expr, r bool) bool { return r == z.EndsInInt(e) }

//verif:writes Fprint C14
func writes_Fprint(w io.Writer, n ast.Node) io.Writer { return w }

//verif:pre Fprint C06,C14
func pre_Fprint(w io.Writer, n ast.Node) bool { return w != nil && z.WfPrint(n) }

//verif:post Fprint C06,C14
func post_Fprint(w io.Writer, n ast.Node, err error, w0, w1 z.World) bool {
	return z.Implies(err == nil, z.Out(w, w1) == z.Out(w, w0)+z.TextNode(n))
}

//verif:pre Bytes C06,C14
func pre_Bytes(n ast.Node) bool { return z.WfPrint(n) }

//verif:post Bytes C06,C14
func post_Bytes(n ast.Node, b []byte, err error, w0, w1 z.World) bool {
	return z.Implies(err == nil, string(b) == z.TextNode(n))
}

//verif:pre Print C06,C14
func pre_Print(n ast.Node) bool { return z.WfPrint(n) }

//verif:post Print C06,C14
func post_Print(n ast.Node, err error, w0, w1 z.World) bool {
	return z.Implies(err == nil, z.Out(os.Stdout, w1) == z.Out(os.Stdout, w0)+z.TextNode(n))
}
