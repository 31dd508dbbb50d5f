package parser

//verif:file C10

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// ---- what the engine hands to the actions ------------------------------------------

// Seq are the values of a sequence or a repetition.
func Seq(v interface{}) []interface{} {
	xs, _ := v.([]interface{})
	return xs
}

// At is the value of one component of a sequence.
func At(v interface{}, i int) interface{} { return Seq(v)[i] }

// IsSeq: a sequence of n components, or a repetition.
func IsSeq(v interface{}, n int) bool {
	xs, ok := v.([]interface{})
	return ok && len(xs) >= n
}

// ---- rules ---------------------------------------------------------------------

// AllRules: the first k values are rules between skips.
func AllRules(vs []interface{}, k int) bool {
	return k <= 0 || (AllRules(vs, k-1) && IsSeq(vs[k-1], 3) && isRule(At(vs[k-1], 1)))
}

func isRule(v interface{}) bool {
	_, ok := v.(*ast.Rule)
	return ok
}

// TheRules are the rules of the first k values, in order.
func TheRules(vs []interface{}, k int) []*ast.Rule {
	if k <= 0 {
		return nil
	}
	r, _ := At(vs[k-1], 1).(*ast.Rule)
	return append(TheRules(vs, k-1), r)
}

//verif:pre current.onFile1 C10
func pre_onFile1(c *current, rs interface{}) bool {
	return IsSeq(rs, 0) && AllRules(Seq(rs), len(Seq(rs)))
}

//verif:post current.onFile1 C10
func post_onFile1(c *current, rs interface{}, v interface{}, err error) bool {
	return err == nil && z.Eq(v, &ast.File{Rules: TheRules(Seq(rs), len(Seq(rs)))})
}

//verif:lemma C10
func lemma_allRulesAt(vs []interface{}, k, i int) bool {
	return z.Implies(0 <= i && i < k && AllRules(vs, k), IsSeq(vs[i], 3) && isRule(At(vs[i], 1)))
}
func dec_lemma_allRulesAt(vs []interface{}, k, i int) int { return k }
func trig_lemma_allRulesAt(vs []interface{}, k, i int) []interface{} {
	return []interface{}{AllRules(vs, k), vs[i]}
}

//verif:inv current.onFile1 C10
func inv_onFile1(c *current, rs interface{}, f *ast.File, k int) bool {
	return f != nil && z.Eq(f.Rules, TheRules(Seq(rs), k))
}

// (in a list of its own)
//
//verif:inv current.onFile1 C10
func inv_onFile1_list(c *current, rs interface{}, list []*ast.Rule, k int) bool {
	return z.Eq(list, TheRules(Seq(rs), k))
}

//verif:pre current.onRule1 C10
func pre_onRule1(c *current, m, cond, block, r interface{}) bool {
	return isValue(m) && isValue(r) && (cond == nil || (IsSeq(cond, 4) && isExpr(At(cond, 3)))) && (block == nil || isText(block))
}

//verif:post current.onRule1 C10
func post_onRule1(c *current, m, cond, block, r, v interface{}, err error) bool {
	match, _ := m.(ast.Value)
	result, _ := r.(ast.Value)
	condition, _ := At(cond, 3).(*ast.Expr)
	if cond == nil {
		condition = nil
	}
	text, _ := block.(string)
	return err == nil && z.Eq(v, &ast.Rule{Match: match, Condition: condition, Block: text, Result: result})
}

func isValue(v interface{}) bool {
	_, ok := v.(ast.Value)
	return ok
}

func isExpr(v interface{}) bool {
	_, ok := v.(*ast.Expr)
	return ok
}

func isText(v interface{}) bool {
	_, ok := v.(string)
	return ok
}

//verif:pre current.onRule50 C10
func pre_onRule50(c *current) bool { return c != nil && len(c.text) >= 1 }

//verif:post current.onRule50 C10
func post_onRule50(c *current, v interface{}, err error) bool {
	return err == nil && v == string(c.text[1:])
}

// ---- texts ------------------------------------------------------------------------

//verif:pre current.onSExpr6 C10
func pre_onSExpr6(c *current) bool { return c != nil }

//verif:post current.onSExpr6 C10
func post_onSExpr6(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Variable(string(c.text))
}

//verif:pre current.onExpr3 C10
func pre_onExpr3(c *current) bool { return c != nil }

//verif:post current.onExpr3 C10
func post_onExpr3(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Variable(string(c.text))
}

//verif:post current.onExpr8 C10
func post_onExpr8(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Variable("_")
}

//verif:pre current.onSExpr26 C10
func pre_onSExpr26(c *current) bool { return c != nil }

//verif:post current.onSExpr26 C10
func post_onSExpr26(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Opcode(string(c.text))
}

//verif:pre current.onSExpr33 C10
func pre_onSExpr33(c *current) bool { return c != nil }

//verif:post current.onSExpr33 C10
func post_onSExpr33(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Opcode(string(c.text))
}

//verif:pre current.onSExpr40 C10
func pre_onSExpr40(c *current) bool { return c != nil }

//verif:post current.onSExpr40 C10
func post_onSExpr40(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Opcode(string(c.text))
}

//verif:pre current.onOperand2 C10
func pre_onOperand2(c *current) bool { return c != nil && len(c.text) >= 2 }

//verif:post current.onOperand2 C10
func post_onOperand2(c *current, v interface{}, err error) bool {
	return err == nil && v == ast.Type(string(c.text[1:len(c.text)-1]))
}

// ---- opcodes -----------------------------------------------------------------------

func isOpcode(v interface{}) bool {
	_, ok := v.(ast.Opcode)
	return ok
}

// MoreChoices: the first k values are choices behind bars.
func MoreChoices(vs []interface{}, k int) bool {
	return k <= 0 || (MoreChoices(vs, k-1) && IsSeq(vs[k-1], 2) && isOpcode(At(vs[k-1], 1)))
}

// Choices are the first choice and those of the first k values, in order.
func Choices(first interface{}, vs []interface{}, k int) ast.OpcodeAlt {
	if k <= 0 {
		o, _ := first.(ast.Opcode)
		return ast.OpcodeAlt{o}
	}
	o, _ := At(vs[k-1], 1).(ast.Opcode)
	return append(Choices(first, vs, k-1), o)
}

//verif:pre current.onSExpr29 C10
func pre_onSExpr29(c *current, first, rest interface{}) bool {
	return isOpcode(first) && IsSeq(rest, 0) && MoreChoices(Seq(rest), len(Seq(rest)))
}

//verif:post current.onSExpr29 C10
func post_onSExpr29(c *current, first, rest, v interface{}, err error) bool {
	return err == nil && z.Eq(v, Choices(first, Seq(rest), len(Seq(rest))))
}

//verif:lemma C10
func lemma_moreChoicesAt(vs []interface{}, k, i int) bool {
	return z.Implies(0 <= i && i < k && MoreChoices(vs, k), IsSeq(vs[i], 2) && isOpcode(At(vs[i], 1)))
}
func dec_lemma_moreChoicesAt(vs []interface{}, k, i int) int { return k }
func trig_lemma_moreChoicesAt(vs []interface{}, k, i int) []interface{} {
	return []interface{}{MoreChoices(vs, k), vs[i]}
}

//verif:inv current.onSExpr29 C10
func inv_onSExpr29(c *current, first, rest interface{}, alts ast.OpcodeAlt, k int) bool {
	return z.Eq(alts, Choices(first, Seq(rest), k))
}

func isPart(v interface{}) bool {
	_, ok := v.(ast.OpPart)
	return ok
}

// Pieces: the first k values are pieces of an opcode.
func Pieces(vs []interface{}, k int) bool {
	return k <= 0 || (Pieces(vs, k-1) && isPart(vs[k-1]))
}

// ThePieces are the first k values.
func ThePieces(vs []interface{}, k int) ast.OpcodeParts {
	if k <= 0 {
		return nil
	}
	p, _ := vs[k-1].(ast.OpPart)
	return append(ThePieces(vs, k-1), p)
}

// TheOp: one plain opcode is just that.
func TheOp(ps ast.OpcodeParts) ast.Op {
	if len(ps) == 1 {
		if o, ok := ps[0].(ast.Opcode); ok {
			return o
		}
	}
	return ps
}

//verif:pre current.onSExpr22 C10
func pre_onSExpr22(c *current, parts interface{}) bool {
	return IsSeq(parts, 0) && Pieces(Seq(parts), len(Seq(parts)))
}

//verif:post current.onSExpr22 C10
func post_onSExpr22(c *current, parts, v interface{}, err error) bool {
	return err == nil && z.Eq(v, TheOp(ThePieces(Seq(parts), len(Seq(parts)))))
}

//verif:lemma C10
func lemma_piecesAt(vs []interface{}, k, i int) bool {
	return z.Implies(0 <= i && i < k && Pieces(vs, k), isPart(vs[i]))
}
func dec_lemma_piecesAt(vs []interface{}, k, i int) int { return k }
func trig_lemma_piecesAt(vs []interface{}, k, i int) []interface{} {
	return []interface{}{Pieces(vs, k), vs[i]}
}

//verif:inv current.onSExpr22 C10
func inv_onSExpr22(c *current, parts interface{}, op ast.OpcodeParts, k int) bool {
	return z.Eq(op, ThePieces(Seq(parts), k))
}

// ---- s-expressions -----------------------------------------------------------------

// Operands: the first k values are operands behind skips.
func Operands(vs []interface{}, k int) bool {
	return k <= 0 || (Operands(vs, k-1) && IsSeq(vs[k-1], 2))
}

// Known: the first k operands are of the four kinds.
func Known(vs []interface{}, k int) bool {
	return k <= 0 || (Known(vs, k-1) && known(At(vs[k-1], 1)))
}

func known(v interface{}) bool {
	switch v.(type) {
	case ast.Type, *valueauxint, *valueaux, ast.Value:
		return true
	default:
		return false
	}
}

// TypeOf is the last type among the first k operands.
func TypeOf(vs []interface{}, k int) ast.Type {
	if k <= 0 {
		return ""
	}
	if t, ok := At(vs[k-1], 1).(ast.Type); ok {
		return t
	}
	return TypeOf(vs, k-1)
}

// AuxIntOf is the last auxint among the first k operands.
func AuxIntOf(vs []interface{}, k int) *ast.Expr {
	if k <= 0 {
		return nil
	}
	if t, ok := At(vs[k-1], 1).(*valueauxint); ok {
		return (*ast.Expr)(t)
	}
	return AuxIntOf(vs, k-1)
}

// AuxOf is the last aux among the first k operands.
func AuxOf(vs []interface{}, k int) *ast.Expr {
	if k <= 0 {
		return nil
	}
	if t, ok := At(vs[k-1], 1).(*valueaux); ok {
		return (*ast.Expr)(t)
	}
	return AuxOf(vs, k-1)
}

// ArgsOf are the values among the first k operands, in order.
func ArgsOf(vs []interface{}, k int) []ast.Value {
	if k <= 0 {
		return nil
	}
	switch v := At(vs[k-1], 1).(type) {
	case ast.Type, *valueauxint, *valueaux:
		return ArgsOf(vs, k-1)
	case ast.Value:
		return append(ArgsOf(vs, k-1), v)
	default:
		return ArgsOf(vs, k-1)
	}
}

// BindingOf is the binding, if there is one.
func BindingOf(v interface{}) ast.Variable {
	if v == nil {
		return ""
	}
	b, _ := At(v, 0).(ast.Variable)
	return b
}

func isVariable(v interface{}) bool {
	_, ok := v.(ast.Variable)
	return ok
}

func isOp(v interface{}) bool {
	_, ok := v.(ast.Op)
	return ok
}

//verif:pre current.onSExpr1 C10
func pre_onSExpr1(c *current, binding, op, operands, ellipsis, trailing interface{}) bool {
	return isOp(op) && (binding == nil || (IsSeq(binding, 2) && isVariable(At(binding, 0)))) &&
		IsSeq(operands, 0) && Operands(Seq(operands), len(Seq(operands)))
}

//verif:post current.onSExpr1 C10
func post_onSExpr1_err(c *current, binding, op, operands, ellipsis, trailing, v interface{}, err error) bool {
	return z.Iff(err == nil, Known(Seq(operands), len(Seq(operands))))
}

//verif:post current.onSExpr1 C10
func post_onSExpr1(c *current, binding, op, operands, ellipsis, trailing, v interface{}, err error) bool {
	o, _ := op.(ast.Op)
	vs := Seq(operands)
	n := len(vs)
	return z.Implies(err == nil, z.Eq(v, &ast.SExpr{
		Binding:  BindingOf(binding),
		Op:       o,
		Type:     TypeOf(vs, n),
		AuxInt:   AuxIntOf(vs, n),
		Aux:      AuxOf(vs, n),
		Args:     ArgsOf(vs, n),
		Ellipsis: ellipsis != nil,
		Trailing: trailing != nil,
	}))
}

//verif:lemma C10
func lemma_operandsAt(vs []interface{}, k, i int) bool {
	return z.Implies(0 <= i && i < k && Operands(vs, k), IsSeq(vs[i], 2))
}
func dec_lemma_operandsAt(vs []interface{}, k, i int) int { return k }
func trig_lemma_operandsAt(vs []interface{}, k, i int) []interface{} {
	return []interface{}{Operands(vs, k), vs[i]}
}

//verif:lemma C10
func lemma_knownAt(vs []interface{}, k, i int) bool {
	return z.Implies(0 <= i && i < k && Known(vs, k), known(At(vs[i], 1)))
}
func dec_lemma_knownAt(vs []interface{}, k, i int) int { return k }
func trig_lemma_knownAt(vs []interface{}, k, i int) []interface{} {
	return []interface{}{Known(vs, k), vs[i]}
}

// Each part is the one the operands so far give; what the loop leaves alone is
// found without being said.
//
//verif:inv current.onSExpr1 C10
func inv_onSExpr1_type(c *current, binding, op, operands, ellipsis, trailing interface{}, s *ast.SExpr, k int) bool {
	return s != nil && z.Eq(s.Type, TypeOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_auxint(c *current, binding, op, operands, ellipsis, trailing interface{}, s *ast.SExpr, k int) bool {
	return s != nil && z.Eq(s.AuxInt, AuxIntOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_aux(c *current, binding, op, operands, ellipsis, trailing interface{}, s *ast.SExpr, k int) bool {
	return s != nil && z.Eq(s.Aux, AuxOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_args(c *current, binding, op, operands, ellipsis, trailing interface{}, s *ast.SExpr, k int) bool {
	return s != nil && z.Eq(s.Args, ArgsOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_known(c *current, binding, op, operands, ellipsis, trailing interface{}, k int) bool {
	return Known(Seq(operands), k)
}

// (collected in lists and values of their own)
//
//verif:inv current.onSExpr1 C10
func inv_onSExpr1_list(c *current, binding, op, operands, ellipsis, trailing interface{}, args []ast.Value, k int) bool {
	return z.Eq(args, ArgsOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_t(c *current, binding, op, operands, ellipsis, trailing interface{}, t ast.Type, k int) bool {
	return t == TypeOf(Seq(operands), k)
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_int(c *current, binding, op, operands, ellipsis, trailing interface{}, auxint *ast.Expr, k int) bool {
	return z.Eq(auxint, AuxIntOf(Seq(operands), k))
}

//verif:inv current.onSExpr1 C10
func inv_onSExpr1_x(c *current, binding, op, operands, ellipsis, trailing interface{}, aux *ast.Expr, k int) bool {
	return z.Eq(aux, AuxOf(Seq(operands), k))
}
