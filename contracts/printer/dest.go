package printer

//verif:file C15

import (
	goast "go/ast"
	gotoken "go/token"
	"io"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// What the printer writes does not matter here, only where to.

//verif:mutable printer
//verif:writesvia printer w C15
//verif:writesnone Bytes C15

//verif:writes Fprint C15
func writes_Fprint(w io.Writer, n ast.Node) io.Writer { return w }

//verif:pre Fprint C15
func pre_Fprint(w io.Writer, n ast.Node) bool { return w != nil && z.WfPrint(n) }

//verif:post Fprint C15
func post_Fprint(w io.Writer, n ast.Node, err error, w0, w1 z.World) bool { return true }

//verif:pre Bytes C15
func pre_Bytes(n ast.Node) bool { return z.WfPrint(n) }

//verif:post Bytes C15
func post_Bytes(n ast.Node, b []byte, err error, w0, w1 z.World) bool { return true }

//verif:pre fuses C15
func pre_fuses(op gotoken.Token, e goast.Expr) bool { return z.WfGo(e) }

//verif:pre endsInInt C15
func pre_endsInInt(e goast.Expr) bool { return z.WfGo(e) }

//verif:pre printer.printf C15
func pre_printf(p *printer, format string, args []interface{}) bool { return p.w != nil }

//verif:post printer.printf C15
func post_printf(p *printer, format string, args []interface{}, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.node C15
func pre_node(p *printer, n ast.Node) bool { return p.w != nil && z.WfPrint(n) }

//verif:post printer.node C15
func post_node(p *printer, n ast.Node, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.rule C15
func pre_rule(p *printer, r *ast.Rule) bool { return p.w != nil && r != nil && z.WfPrint(r) }

//verif:post printer.rule C15
func post_rule(p *printer, r *ast.Rule, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.value C15
func pre_value(p *printer, v ast.Value) bool { return p.w != nil && z.WfPrint(v) }

//verif:post printer.value C15
func post_value(p *printer, v ast.Value, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.sexpr C15
func pre_sexpr(p *printer, s *ast.SExpr) bool { return p.w != nil && s != nil && z.WfPrint(s) }

//verif:post printer.sexpr C15
func post_sexpr(p *printer, s *ast.SExpr, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.op C15
func pre_op(p *printer, o ast.Op) bool { return p.w != nil }

//verif:post printer.op C15
func post_op(p *printer, o ast.Op, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.oppart C15
func pre_oppart(p *printer, o ast.OpPart) bool { return p.w != nil }

//verif:post printer.oppart C15
func post_oppart(p *printer, o ast.OpPart, q *printer, w0, w1 z.World) bool { return q.w == p.w }

//verif:pre printer.goexpr C15
func pre_goexpr(p *printer, e goast.Expr) bool { return p.w != nil && z.WfGo(e) }

//verif:post printer.goexpr C15
func post_goexpr(p *printer, e goast.Expr, q *printer, w0, w1 z.World) bool { return q.w == p.w }
