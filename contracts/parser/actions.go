package parser

//verif:file C10,C13

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// A bracketed text has its brackets.
//
//verif:pre current.onOperand8 C10,C13
func pre_onOperand8(c *current) bool { return c != nil && len(c.text) >= 2 }

//verif:post current.onOperand8 C10,C13
func post_onOperand8(c *current, v interface{}, err error) bool {
	x := string(c.text[1 : len(c.text)-1])
	return z.Iff(err == nil, z.Accepted(x)) &&
		z.Implies(err == nil, z.Eq(v, &valueauxint{Expr: z.Embedded(x)}))
}

//verif:pre current.onOperand14 C10,C13
func pre_onOperand14(c *current) bool { return c != nil && len(c.text) >= 2 }

//verif:post current.onOperand14 C10,C13
func post_onOperand14(c *current, v interface{}, err error) bool {
	x := string(c.text[1 : len(c.text)-1])
	return z.Iff(err == nil, z.Accepted(x)) &&
		z.Implies(err == nil, z.Eq(v, &valueaux{Expr: z.Embedded(x)}))
}

//verif:pre current.onCall1 C10,C13
func pre_onCall1(c *current) bool { return c != nil }

//verif:post current.onCall1 C10,C13
func post_onCall1(c *current, v interface{}, err error) bool {
	x := z.OneLine(string(c.text))
	return z.Iff(err == nil, z.Accepted(x)) &&
		z.Implies(err == nil, z.Eq(v, &ast.Expr{Expr: z.Embedded(x)}))
}

//verif:pre current.onRule25 C10,C13
func pre_onRule25(c *current) bool { return c != nil }

//verif:post current.onRule25 C10,C13
func post_onRule25(c *current, v interface{}, err error) bool {
	x := z.Joined(string(c.text))
	return z.Iff(err == nil, z.Accepted(x)) &&
		z.Implies(err == nil, z.Eq(v, &ast.Expr{Expr: z.Embedded(x)}))
}

// The lines up to the counter have been cut, the others have not.
//
//verif:inv current.onCall1 C10,C13
func inv_onCall1(c *current, lines, lines_in []string, k int) bool {
	return len(lines) == len(lines_in) && z.Eq(lines[:k], z.CutLines(lines_in, k)) &&
		z.Forall(k, len(lines), func(i int) bool { return lines[i] == lines_in[i] })
}

// (collected in a list of their own)
//
//verif:inv current.onCall1 C10,C13
func inv_onCall1_list(c *current, lines []string, k int) bool {
	return z.Eq(lines, z.CutLines(strings.Split(string(c.text), "\n"), k))
}
