package parser

//verif:file C10
//verif:shapes g parser/grammar.peg C10

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// ---- what matching hands over --------------------------------------------------

// IsBytes: the text a matcher of characters hands over.
func IsBytes(v interface{}) bool {
	_, ok := v.([]byte)
	return ok
}

// Count is the number of values of a sequence or a repetition.
func Count(v interface{}) int { return len(Seq(v)) }

// Matched: the text of the construct has at least n bytes.
func Matched(p *parser, n int) bool { return len(p.cur.text) >= n }

// ---- what the actions give, unless they fail --------------------------------------

// The value of a whole text: parse.File, Reader and String rely on it (C12).
//
//verif:gives parser.callonFile1 C10
func gives_onFile1(v interface{}) bool {
	f, ok := v.(*ast.File)
	return ok && f != nil
}

//verif:gives parser.callonRule1 C10
func gives_onRule1(v interface{}) bool { return isRule(v) }

//verif:gives parser.callonRule25 C10
func gives_onRule25(v interface{}) bool { return isExpr(v) }

//verif:gives parser.callonRule50 C10
func gives_onRule50(v interface{}) bool { return isText(v) }

//verif:gives parser.callonSExpr1 C10
func gives_onSExpr1(v interface{}) bool {
	s, ok := v.(*ast.SExpr)
	return ok && s != nil
}

//verif:gives parser.callonSExpr6 C10
func gives_onSExpr6(v interface{}) bool { return isVariable(v) }

//verif:gives parser.callonSExpr22 C10
func gives_onSExpr22(v interface{}) bool { return isOp(v) }

//verif:gives parser.callonSExpr26 C10
func gives_onSExpr26(v interface{}) bool { return isOpcode(v) }

//verif:gives parser.callonSExpr33 C10
func gives_onSExpr33(v interface{}) bool { return isOpcode(v) }

//verif:gives parser.callonSExpr40 C10
func gives_onSExpr40(v interface{}) bool { return isOpcode(v) }

//verif:gives parser.callonSExpr29 C10
func gives_onSExpr29(v interface{}) bool {
	_, ok := v.(ast.OpcodeAlt)
	return ok
}

func isType(v interface{}) bool {
	_, ok := v.(ast.Type)
	return ok
}

//verif:gives parser.callonOperand2 C10
func gives_onOperand2(v interface{}) bool { return isType(v) }

//verif:gives parser.callonOperand8 C10
func gives_onOperand8(v interface{}) bool {
	a, ok := v.(*valueauxint)
	return ok && a != nil
}

//verif:gives parser.callonOperand14 C10
func gives_onOperand14(v interface{}) bool {
	a, ok := v.(*valueaux)
	return ok && a != nil
}

//verif:gives parser.callonExpr3 C10
func gives_onExpr3(v interface{}) bool { return isVariable(v) }

//verif:gives parser.callonExpr8 C10
func gives_onExpr8(v interface{}) bool { return isVariable(v) }

//verif:gives parser.callonCall1 C10
func gives_onCall1(v interface{}) bool {
	e, ok := v.(*ast.Expr)
	return ok && e != nil
}

// Every operand of an s-expression is of a known kind, so its action never fails.
//
//verif:shape parser.callonSExpr1 C10
func shape_onSExpr1(p *parser) bool {
	vs := Seq(Labelled(p, "operands"))
	return Known(vs, len(vs))
}

// ---- from each value of a list to all of them --------------------------------------

//verif:lemma C10
func lemma_allRules(vs []interface{}, k int) bool {
	return z.Implies(0 <= k && k <= len(vs) && z.Forall(0, len(vs), func(i int) bool {
		return IsSeq(vs[i], 3) && isRule(At(vs[i], 1))
	}), AllRules(vs, k))
}
func dec_lemma_allRules(vs []interface{}, k int) int { return k }
func trig_lemma_allRules(vs []interface{}, k int) []interface{} {
	return []interface{}{AllRules(vs, k)}
}

//verif:lemma C10
func lemma_moreChoices(vs []interface{}, k int) bool {
	return z.Implies(0 <= k && k <= len(vs) && z.Forall(0, len(vs), func(i int) bool {
		return IsSeq(vs[i], 2) && isOpcode(At(vs[i], 1))
	}), MoreChoices(vs, k))
}
func dec_lemma_moreChoices(vs []interface{}, k int) int { return k }
func trig_lemma_moreChoices(vs []interface{}, k int) []interface{} {
	return []interface{}{MoreChoices(vs, k)}
}

//verif:lemma C10
func lemma_pieces(vs []interface{}, k int) bool {
	return z.Implies(0 <= k && k <= len(vs) && z.Forall(0, len(vs), func(i int) bool {
		return isPart(vs[i])
	}), Pieces(vs, k))
}
func dec_lemma_pieces(vs []interface{}, k int) int { return k }
func trig_lemma_pieces(vs []interface{}, k int) []interface{} {
	return []interface{}{Pieces(vs, k)}
}

//verif:lemma C10
func lemma_operands(vs []interface{}, k int) bool {
	return z.Implies(0 <= k && k <= len(vs) && z.Forall(0, len(vs), func(i int) bool {
		return IsSeq(vs[i], 2)
	}), Operands(vs, k))
}
func dec_lemma_operands(vs []interface{}, k int) int { return k }
func trig_lemma_operands(vs []interface{}, k int) []interface{} {
	return []interface{}{Operands(vs, k)}
}

//verif:lemma C10
func lemma_known(vs []interface{}, k int) bool {
	return z.Implies(0 <= k && k <= len(vs) && z.Forall(0, len(vs), func(i int) bool {
		return known(At(vs[i], 1))
	}), Known(vs, k))
}
func dec_lemma_known(vs []interface{}, k int) int { return k }
func trig_lemma_known(vs []interface{}, k int) []interface{} {
	return []interface{}{Known(vs, k)}
}
