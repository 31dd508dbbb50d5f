package zzspec

//verif:file C06,C07,C08,C10,C11,C12,C13,C14,C15,C16,C17

import (
	goast "go/ast"
	gotoken "go/token"
	"io"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- C06, C07: printing -------------------------------------------------------

// The history of a destination: what it was handed so far, the first error it
// answered with, and whether it was written to after that.

// Out is the text handed to a destination so far.
func Out(w io.Writer, wd World) string { panic("ghost") }

// WErr is the first error a destination answered a write with.
func WErr(w io.Writer, wd World) error { panic("ghost") }

// TextFile is the canonical text of the first k rules of a file.
func TextRules(rs []*ast.Rule, k int) string {
	if k <= 0 {
		return ""
	}
	return TextRules(rs, k-1) + TextRule(rs[k-1]) + "\n"
}

// TextCond is the text of a condition.
func TextCond(c *ast.Expr) string {
	if c == nil {
		return ""
	}
	return " && " + TextGo(c.Expr)
}

// TextBlock is the text of the block.
func TextBlock(b string) string {
	if b == "" {
		return ""
	}
	return "@" + b + " "
}

// TextRule is the canonical text of a rule.
func TextRule(r *ast.Rule) string {
	return TextValue(r.Match) + TextCond(r.Condition) + " => " + TextBlock(r.Block) + TextValue(r.Result)
}

// TextNode is the canonical text of a node.
func TextNode(n ast.Node) string {
	switch x := n.(type) {
	case *ast.File:
		return TextRules(x.Rules, len(x.Rules))
	case *ast.Rule:
		return TextRule(x)
	case *ast.SExpr:
		return TextValue(x)
	case *ast.Expr:
		return TextValue(x)
	case ast.Variable:
		return string(x)
	case ast.Opcode:
		return string(x)
	case ast.OpcodeParts:
		return TextParts(x, len(x))
	default:
		return ""
	}
}

// TextValue is the canonical text of a value.
func TextValue(v ast.Value) string {
	switch x := v.(type) {
	case *ast.SExpr:
		return TextSExpr(x)
	case *ast.Expr:
		return TextGo(x.Expr)
	case ast.Variable:
		return string(x)
	default:
		return ""
	}
}

// TextBinding is the text of a binding.
func TextBinding(b ast.Variable) string {
	if b == "" {
		return ""
	}
	return string(b) + ":"
}

// TextType is the text of a type.
func TextType(t ast.Type) string {
	if t == "" {
		return ""
	}
	return " <" + string(t) + ">"
}

// TextAux is the text of an aux or auxint in its brackets.
func TextAux(l string, e *ast.Expr, r string) string {
	if e == nil {
		return ""
	}
	return l + TextGo(e.Expr) + r
}

// TextMark is a mark that is written or not.
func TextMark(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// TextSExpr is the canonical text of an s-expression.
func TextSExpr(s *ast.SExpr) string {
	return TextBinding(s.Binding) + "(" + TextOp(s.Op) + TextType(s.Type) + TextAux(" [", s.AuxInt, "]") +
		TextAux(" {", s.Aux, "}") + TextArgs(s.Args, len(s.Args)) + TextMark(s.Ellipsis, " ...") +
		TextMark(s.Trailing, " ___") + ")"
}

// TextArgs is the text of the first k arguments.
func TextArgs(as []ast.Value, k int) string {
	if k <= 0 {
		return ""
	}
	return TextArgs(as, k-1) + " " + TextValue(as[k-1])
}

// TextOp is the text of an opcode.
func TextOp(o ast.Op) string {
	switch x := o.(type) {
	case ast.Opcode:
		return string(x)
	case ast.OpcodeParts:
		return TextParts(x, len(x))
	default:
		return ""
	}
}

// TextParts is the text of the first k pieces of an opcode.
func TextParts(ps ast.OpcodeParts, k int) string {
	if k <= 0 {
		return ""
	}
	return TextParts(ps, k-1) + TextPart(ps[k-1])
}

// TextPart is the text of a piece.
func TextPart(p ast.OpPart) string {
	switch x := p.(type) {
	case ast.Opcode:
		return string(x)
	case ast.OpcodeAlt:
		return TextAlt(x, len(x)) + ")"
	default:
		return ""
	}
}

// TextAlt is the text of the first k choices.
func TextAlt(cs ast.OpcodeAlt, k int) string {
	if k <= 0 {
		return ""
	}
	return TextAlt(cs, k-1) + string(AltSep(k-1)) + string(cs[k-1])
}

// AltSep stands in front of choice k.
func AltSep(k int) rune {
	if k == 0 {
		return '('
	}
	return '|'
}

// TextGo is the canonical text of an embedded Go expression.
func TextGo(n goast.Expr) string {
	switch e := n.(type) {
	case *goast.Ident:
		return e.Name
	case *goast.BasicLit:
		return e.Value
	case *goast.ParenExpr:
		return "(" + TextGo(e.X) + ")"
	case *goast.UnaryExpr:
		return e.Op.String() + TextMark(Fuses(e.Op, e.X), " ") + TextGo(e.X)
	case *goast.BinaryExpr:
		return TextGo(e.X) + TextBin(e.Op, Fuses(e.Op, e.Y)) + TextGo(e.Y)
	case *goast.CallExpr:
		return TextGo(e.Fun) + "(" + TextList(e.Args, len(e.Args)) + TextDots(e) + ")"
	case *goast.StarExpr:
		return "*" + TextGo(e.X)
	case *goast.SelectorExpr:
		return TextGo(e.X) + TextMark(IntLit(e.X), " ") + "." + e.Sel.Name
	default:
		return ""
	}
}

// TextBin is the text of a binary operator.
func TextBin(op gotoken.Token, fuses bool) string {
	if op.Precedence() < 4 || fuses {
		return " " + op.String() + " "
	}
	return op.String()
}

// TextList is the text of the first k arguments of a call.
func TextList(as []goast.Expr, k int) string {
	if k <= 0 {
		return ""
	}
	return TextList(as, k-1) + TextMark(k > 1, ", ") + TextGo(as[k-1])
}

// TextDots are the dots of a variadic call.
func TextDots(e *goast.CallExpr) string {
	if !e.Ellipsis.IsValid() {
		return ""
	}
	return TextMark(len(e.Args) > 0 && EndsInInt(e.Args[len(e.Args)-1]), " ") + "..."
}

// IntLit: the expression is an integer literal.
func IntLit(n goast.Expr) bool {
	e, ok := n.(*goast.BasicLit)
	return ok && e.Kind == gotoken.INT
}

// Fuses: op directly before the text of the expression would be read as a
// different operator or as the start of a comment.
func Fuses(op gotoken.Token, n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.UnaryExpr:
		return op == gotoken.ADD && e.Op == op || op == gotoken.SUB && e.Op == op ||
			op == gotoken.AND && (e.Op == gotoken.AND || e.Op == gotoken.XOR)
	case *goast.StarExpr:
		return op == gotoken.QUO
	case *goast.BinaryExpr:
		return Fuses(op, e.X)
	case *goast.CallExpr:
		return Fuses(op, e.Fun)
	case *goast.SelectorExpr:
		return Fuses(op, e.X)
	default:
		return false
	}
}

// EndsInInt: the text of the expression ends with an integer literal.
func EndsInInt(n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.BasicLit:
		return e.Kind == gotoken.INT
	case *goast.UnaryExpr:
		return EndsInInt(e.X)
	case *goast.BinaryExpr:
		return EndsInInt(e.Y)
	case *goast.StarExpr:
		return EndsInInt(e.X)
	default:
		return false
	}
}

// ---- well-formedness: no nil pointers to structs

// WfPrint: no pointer in the tree is nil where a struct must be.
func WfPrint(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.File:
		return x != nil && WfPrintRules(x.Rules, len(x.Rules))
	case *ast.Rule:
		return x != nil && WfPrint(x.Match) && WfPrint(x.Result) && WfExprP(x.Condition)
	case *ast.SExpr:
		return x != nil && WfExprP(x.AuxInt) && WfExprP(x.Aux) && WfPrintArgs(x.Args, len(x.Args))
	case *ast.Expr:
		return x != nil && WfGo(x.Expr)
	default:
		return true
	}
}

// WfExprP is WfGo of what an optional expression holds.
func WfExprP(e *ast.Expr) bool { return e == nil || WfGo(e.Expr) }

// WfPrintRules is WfPrint of the first k rules.
func WfPrintRules(rs []*ast.Rule, k int) bool {
	return k <= 0 || (WfPrintRules(rs, k-1) && rs[k-1] != nil && WfPrint(rs[k-1]))
}

// WfPrintArgs is WfPrint of the first k arguments.
func WfPrintArgs(as []ast.Value, k int) bool {
	return k <= 0 || (WfPrintArgs(as, k-1) && WfPrint(as[k-1]))
}

// WfGo: no pointer in the expression is nil where a struct must be.
func WfGo(n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.Ident:
		return e != nil
	case *goast.BasicLit:
		return e != nil
	case *goast.ParenExpr:
		return e != nil && WfGo(e.X)
	case *goast.UnaryExpr:
		return e != nil && WfGo(e.X)
	case *goast.BinaryExpr:
		return e != nil && WfGo(e.X) && WfGo(e.Y)
	case *goast.CallExpr:
		return e != nil && WfGo(e.Fun) && WfGoArgs(e.Args, len(e.Args))
	case *goast.StarExpr:
		return e != nil && WfGo(e.X)
	case *goast.SelectorExpr:
		return e != nil && e.Sel != nil && WfGo(e.X)
	default:
		return true
	}
}

// WfGoArgs is WfGo of the first k arguments.
func WfGoArgs(as []goast.Expr, k int) bool {
	return k <= 0 || (WfGoArgs(as, k-1) && WfGo(as[k-1]))
}

//verif:lemma C06,C07,C08,C14,C15,C16,C17
func lemma_wfPrintRulesAt(rs []*ast.Rule, k, i int) bool {
	return Implies(0 <= i && i < k && WfPrintRules(rs, k), rs[i] != nil && WfPrint(rs[i]))
}
func dec_lemma_wfPrintRulesAt(rs []*ast.Rule, k, i int) int { return k }
func trig_lemma_wfPrintRulesAt(rs []*ast.Rule, k, i int) []interface{} {
	return []interface{}{WfPrintRules(rs, k), rs[i]}
}

//verif:lemma C06,C07,C08,C14,C15,C16,C17
func Lemma_wfPrintArgsAt(as []ast.Value, k, i int) bool {
	return Implies(0 <= i && i < k && WfPrintArgs(as, k), WfPrint(as[i]))
}
func dec_Lemma_wfPrintArgsAt(as []ast.Value, k, i int) int { return k }
func trig_Lemma_wfPrintArgsAt(as []ast.Value, k, i int) []interface{} {
	return []interface{}{WfPrintArgs(as, k), as[i]}
}

//verif:lemma C06,C07,C08,C13,C14,C15,C16,C17
func lemma_wfGoArgsAt(as []goast.Expr, k, i int) bool {
	return Implies(0 <= i && i < k && WfGoArgs(as, k), WfGo(as[i]))
}
func dec_lemma_wfGoArgsAt(as []goast.Expr, k, i int) int { return k }
func trig_lemma_wfGoArgsAt(as []goast.Expr, k, i int) []interface{} {
	return []interface{}{WfGoArgs(as, k), as[i]}
}

// Names: the error's text names the kind of the node.
func Names(e error, x interface{}) bool { return e != nil && strings.Contains(e.Error(), TypeName(x)) }
