package parser

//verif:file C11,C12

import (
	"io"
	"math"
	"unicode"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:mutable parser errList Stats
//verif:grammar g parser/grammar.peg C11
//verif:progress g parser/grammar.peg C12
//verif:ends every round of the engine goes down in the grammar or forward in the text (the progress obligations of C12)

// ---- what an expression of the grammar does -------------------------------------------
//
// The meaning of the expressions is the standard one of a parsing expression
// grammar. It is given as the least solution of the equations below: Undef is
// the result where they do not settle one (left recursion, endless
// repetition), and of the kinds of expression that the grammar does not use, of malformed
// expressions, and where an action panics.

// Text is the text and the rules an expression is matched with.
type Text struct {
	data  []byte
	rules map[string]*rule
	lax   bool
}

// Mark is where the engine is: the position, the values of the labels, and
// whether there have been errors.
type Mark struct {
	Off    int
	Labels map[string]interface{}
	Bad    bool
}

// Match is the outcome: whether there is a match, its value and where the
// engine is afterwards.
type Match struct {
	Undef bool
	OK    bool
	Val   interface{}
	At    Mark
}

// RuneOf and WidthOf are the first character of a text and its length.
func RuneOf(s string) rune { panic("ghost") }
func WidthOf(s string) int { panic("ghost") }

// RuneAt and WidthAt are those of the text at a position.
func RuneAt(t Text, off int) rune { return RuneOf(string(t.data[off:])) }
func WidthAt(t Text, off int) int { return WidthOf(string(t.data[off:])) }

// AtEnd: there is no character left.
func AtEnd(t Text, off int) bool { return RuneAt(t, off) == utf8.RuneError && WidthAt(t, off) == 0 }

// Garbled: the text is no UTF-8 there, and has to be.
func Garbled(t Text, off int) bool {
	return RuneAt(t, off) == utf8.RuneError && WidthAt(t, off) == 1 && !t.lax
}

// Step is the place after the character.
func Step(t Text, m Mark) Mark {
	o := m.Off + WidthAt(t, m.Off)
	return Mark{Off: o, Labels: m.Labels, Bad: m.Bad || Garbled(t, o)}
}

// Slice is the text between two positions.
func Slice(t Text, from, to int) []byte { return t.data[from:to] }

func fails(m Mark) Match { return Match{At: m} }

// None is no labels.
func None() map[string]interface{} { return map[string]interface{}{} }

func inside(m Mark) Mark { return Mark{Off: m.Off, Labels: None(), Bad: m.Bad} }

// ActVal and ActErr are what an action gives for the text and the labels.
func ActVal(run func(*parser) (interface{}, error), text []byte, labels map[string]interface{}) interface{} {
	panic("ghost")
}
func ActErr(run func(*parser) (interface{}, error), text []byte, labels map[string]interface{}) error {
	panic("ghost")
}

// ActPanics: the action panics.
func ActPanics(run func(*parser) (interface{}, error), text []byte, labels map[string]interface{}) bool {
	panic("ghost")
}

// Peg is the meaning of an expression.
func Peg(t Text, e interface{}, m Mark) Match {
	switch e := e.(type) {
	case *actionExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegAction(t, e, m)
	case *andExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegAnd(t, e, m)
	case *notExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegNot(t, e, m)
	case *anyMatcher:
		return PegAny(t, m)
	case *charClassMatcher:
		if e == nil {
			return Match{Undef: true}
		}
		return PegClass(t, e, m)
	case *litMatcher:
		if e == nil {
			return Match{Undef: true}
		}
		return PegLit(t, e, m)
	case *choiceExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegChoice(t, e.alternatives, 0, m)
	case *labeledExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegLabel(t, e, m)
	case *seqExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegSeq(t, e.exprs, 0, nil, m.Off, m)
	case *zeroOrMoreExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegStar(t, e.expr, nil, m)
	case *oneOrMoreExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegPlus(t, e.expr, nil, m)
	case *zeroOrOneExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegOpt(t, e, m)
	case *ruleRefExpr:
		if e == nil {
			return Match{Undef: true}
		}
		return PegRef(t, e, m)
	default:
		return Match{Undef: true}
	}
}

// PegAction: the value of a match is what the action makes of its text and
// its labels.
func PegAction(t Text, e *actionExpr, m Mark) Match {
	r := Peg(t, e.expr, m)
	if r.Undef || !r.OK {
		return r
	}
	text := Slice(t, m.Off, r.At.Off)
	if e.run == nil || ActPanics(e.run, text, r.At.Labels) {
		return Match{Undef: true}
	}
	return Match{OK: true, Val: ActVal(e.run, text, r.At.Labels),
		At: Mark{Off: r.At.Off, Labels: r.At.Labels, Bad: r.At.Bad || ActErr(e.run, text, r.At.Labels) != nil}}
}

// PegAnd: a look-ahead consumes nothing.
func PegAnd(t Text, e *andExpr, m Mark) Match {
	r := Peg(t, e.expr, inside(m))
	return Match{Undef: r.Undef, OK: r.OK, At: Mark{Off: m.Off, Labels: m.Labels, Bad: r.At.Bad}}
}

// PegNot is the negated look-ahead.
func PegNot(t Text, e *notExpr, m Mark) Match {
	r := Peg(t, e.expr, inside(m))
	return Match{Undef: r.Undef, OK: !r.OK, At: Mark{Off: m.Off, Labels: m.Labels, Bad: r.At.Bad}}
}

// PegAny: any character.
func PegAny(t Text, m Mark) Match {
	if AtEnd(t, m.Off) {
		return fails(m)
	}
	n := Step(t, m)
	return Match{OK: true, Val: Slice(t, m.Off, n.Off), At: n}
}

// InChars: the character is one of those from the i-th on.
func InChars(cs []rune, i int, c rune) bool {
	return i < len(cs) && (cs[i] == c || InChars(cs, i+1, c))
}

// InRanges: the character is in one of the ranges from the i-th bound on.
func InRanges(cs []rune, i int, c rune) bool {
	return i < len(cs) && ((cs[i] <= c && c <= cs[i+1]) || InRanges(cs, i+2, c))
}

// InTables: the character is in one of the tables from the i-th on.
func InTables(ts []*unicode.RangeTable, i int, c rune) bool {
	return i < len(ts) && (unicode.Is(ts[i], c) || InTables(ts, i+1, c))
}

// InClass: the class admits the character.
func InClass(e *charClassMatcher, c rune) bool {
	if e.ignoreCase {
		c = unicode.ToLower(c)
	}
	in := InChars(e.chars, 0, c) || InRanges(e.ranges, 0, c) || InTables(e.classes, 0, c)
	return in != e.inverted
}

// PegClass: a character of the class.
func PegClass(t Text, e *charClassMatcher, m Mark) Match {
	if len(e.ranges)%2 != 0 {
		return Match{Undef: true}
	}
	if AtEnd(t, m.Off) || !InClass(e, RuneAt(t, m.Off)) {
		return fails(m)
	}
	n := Step(t, m)
	return Match{OK: true, Val: Slice(t, m.Off, n.Off), At: n}
}

// PegChoice: the first of the alternatives from the i-th on that matches.
func PegChoice(t Text, es []interface{}, i int, m Mark) Match {
	if i >= len(es) {
		return fails(m)
	}
	r := Peg(t, es[i], inside(m))
	if r.Undef {
		return Match{Undef: true}
	}
	if r.OK {
		return Match{OK: true, Val: r.Val, At: Mark{Off: r.At.Off, Labels: m.Labels, Bad: r.At.Bad}}
	}
	return PegChoice(t, es, i+1, Mark{Off: m.Off, Labels: m.Labels, Bad: r.At.Bad})
}

func put(m map[string]interface{}, k string, v interface{}) map[string]interface{} {
	m[k] = v
	return m
}

// PegLabel: the value of the match gets a label.
func PegLabel(t Text, e *labeledExpr, m Mark) Match {
	r := Peg(t, e.expr, inside(m))
	if r.Undef {
		return Match{Undef: true}
	}
	if !r.OK || e.label == "" {
		return Match{OK: r.OK, Val: r.Val, At: Mark{Off: r.At.Off, Labels: m.Labels, Bad: r.At.Bad}}
	}
	return Match{OK: true, Val: r.Val, At: Mark{Off: r.At.Off, Labels: put(m.Labels, e.label, r.Val), Bad: r.At.Bad}}
}

// PegSeq: the expressions from the i-th on, one after the other; if one fails,
// all fails at the place where it began.
func PegSeq(t Text, es []interface{}, i int, vals []interface{}, from int, m Mark) Match {
	if i >= len(es) {
		return Match{OK: true, Val: vals, At: m}
	}
	r := Peg(t, es[i], m)
	if r.Undef {
		return Match{Undef: true}
	}
	if !r.OK {
		return fails(Mark{Off: from, Labels: r.At.Labels, Bad: r.At.Bad})
	}
	return PegSeq(t, es, i+1, append(vals, r.Val), from, r.At)
}

// PegStar: as often as it matches.
func PegStar(t Text, e interface{}, vals []interface{}, m Mark) Match {
	r := Peg(t, e, inside(m))
	if r.Undef {
		return Match{Undef: true}
	}
	n := Mark{Off: r.At.Off, Labels: m.Labels, Bad: r.At.Bad}
	if !r.OK {
		return Match{OK: true, Val: vals, At: n}
	}
	return PegStar(t, e, append(vals, r.Val), n)
}

// PegPlus: as often as it matches, but once at least.
func PegPlus(t Text, e interface{}, vals []interface{}, m Mark) Match {
	r := Peg(t, e, inside(m))
	if r.Undef {
		return Match{Undef: true}
	}
	n := Mark{Off: r.At.Off, Labels: m.Labels, Bad: r.At.Bad}
	if !r.OK {
		if len(vals) == 0 {
			return fails(n)
		}
		return Match{OK: true, Val: vals, At: n}
	}
	return PegPlus(t, e, append(vals, r.Val), n)
}

// PegOpt: once or not at all.
func PegOpt(t Text, e *zeroOrOneExpr, m Mark) Match {
	r := Peg(t, e.expr, inside(m))
	return Match{Undef: r.Undef, OK: true, Val: r.Val, At: Mark{Off: r.At.Off, Labels: m.Labels, Bad: r.At.Bad}}
}

// PegRef: the rule of that name.
func PegRef(t Text, e *ruleRefExpr, m Mark) Match {
	if e.name == "" {
		return Match{Undef: true}
	}
	r, ok := t.rules[e.name]
	if !ok || r == nil {
		return fails(Mark{Off: m.Off, Labels: m.Labels, Bad: true})
	}
	return PegRule(t, r, m)
}

// PegRule is the meaning of a rule.
func PegRule(t Text, r *rule, m Mark) Match {
	x := Peg(t, r.expr, inside(m))
	return Match{Undef: x.Undef, OK: x.OK, Val: x.Val, At: Mark{Off: x.At.Off, Labels: m.Labels, Bad: x.At.Bad}}
}

// PegLit: the characters of the literal, from its byte i on.
func PegLit(t Text, e *litMatcher, m Mark) Match { return PegLitAt(t, e, 0, m.Off, m) }

// PegLitAt is the rest of a literal from its byte i on.
func PegLitAt(t Text, e *litMatcher, i int, from int, m Mark) Match {
	if i >= len(e.val) {
		return Match{OK: true, Val: Slice(t, from, m.Off), At: m}
	}
	c := RuneAt(t, m.Off)
	if e.ignoreCase {
		c = unicode.ToLower(c)
	}
	if c != RuneOf(e.val[i:]) {
		return fails(Mark{Off: from, Labels: m.Labels, Bad: m.Bad})
	}
	return PegLitAt(t, e, i+WidthOf(e.val[i:]), from, Step(t, m))
}

// ---- the engine ---------------------------------------------------------------------

// Sound: the engine's character is the one at its position.
func Sound(p parser) bool {
	t := TextOf(p)
	return 0 <= p.pt.offset && 0 <= p.pt.w && p.pt.offset+p.pt.w <= len(p.data) &&
		p.pt.rn == RuneAt(t, p.pt.offset) && p.pt.w == WidthAt(t, p.pt.offset)
}

// TextOf is what the engine matches with.
func TextOf(p parser) Text { return Text{data: p.data, rules: p.rules, lax: p.allowInvalidUTF8} }

func top(vs []map[string]interface{}) map[string]interface{} {
	if len(vs) == 0 {
		return None()
	}
	return vs[len(vs)-1]
}

// MarkOf is where the engine is.
func MarkOf(p parser) Mark {
	return Mark{Off: p.pt.offset, Labels: top(p.vstack), Bad: len(*p.errs) > 0}
}

// Kept: what stays as it is.
func Kept(p, q parser) bool {
	return q.filename == p.filename && string(q.data) == string(p.data) && q.recover == p.recover && z.Eq(q.rules, p.rules) &&
		z.Eq(q.rstack, p.rstack) && q.maxExprCnt == p.maxExprCnt && q.entrypoint == p.entrypoint &&
		q.allowInvalidUTF8 == p.allowInvalidUTF8 && sane(q)
}

// Still: also the labels of the enclosing constructs.
func Still(p, q parser) bool {
	n := len(p.vstack)
	return Kept(p, q) && len(q.vstack) == n && (n == 0 || z.Eq(q.vstack[:n-1], p.vstack[:n-1])) && q.pt.offset >= p.pt.offset
}

// Does: the engine has done what the outcome says.
func Does(p parser, r Match, v interface{}, ok bool, q parser) bool {
	return Still(p, q) && Sound(q) && (r.Undef || (ok == r.OK && z.Eq(v, r.Val) && z.Eq(MarkOf(q), r.At) &&
		z.Implies(!ok, v == nil && q.pt.offset == p.pt.offset)))
}

// Filled: the first k errors are there.
func Filled(es errList, k int) bool {
	return z.Forall(0, k, func(i int) bool { return es[i] != nil })
}

// sane: what is needed to report an error.
func sane(p parser) bool {
	return p.errs != nil && p.Stats != nil && Filled(*p.errs, len(*p.errs)) &&
		(len(p.rstack) == 0 || p.rstack[len(p.rstack)-1] != nil) && p.maxExprCnt == math.MaxUint64
}

func ready0(p *parser) bool { return p != nil && sane(*p) }

func ready1(p *parser) bool { return ready0(p) && Sound(*p) }

func ready(p *parser) bool {
	return ready1(p) && len(p.vstack) > 0
}

//verif:panics parser.parseExpr parser.parseRule parser.parseActionExpr parser.parseAndExpr parser.parseNotExpr parser.parseChoiceExpr parser.parseLabeledExpr parser.parseSeqExpr parser.parseZeroOrMoreExpr parser.parseOneOrMoreExpr parser.parseZeroOrOneExpr parser.parseRuleRefExpr parser.parseAndCodeExpr parser.parseNotCodeExpr parser.parseThrowExpr parser.parseRecoveryExpr parser.parseLitMatcher parser.parseAnyMatcher parser.parseCharClassMatcher

//verif:pre parser.read C11,C12
func pre_read(p *parser) bool {
	return ready0(p) && 0 <= p.pt.offset && 0 <= p.pt.w && p.pt.offset+p.pt.w <= len(p.data)
}

//verif:post parser.read C11,C12
func post_read(p *parser, q *parser) bool {
	t := TextOf(*p)
	o := p.pt.offset + p.pt.w
	return Kept(*p, *q) && z.Eq(q.vstack, p.vstack) && q.pt.offset == o && Sound(*q) &&
		z.Iff(len(*q.errs) > 0, len(*p.errs) > 0 || Garbled(t, o))
}

//verif:post parser.failAt C11,C12
func post_failAt(p *parser, fail bool, pos position, want string, q *parser) bool {
	return Kept(*p, *q) && z.Eq(q.vstack, p.vstack) && z.Eq(q.pt, p.pt) && z.Eq(*q.errs, *p.errs)
}

//verif:post parser.addErrAt C11,C12
func post_addErrAt(p *parser, err error, pos position, expected []string, q *parser) bool {
	return Kept(*p, *q) && z.Eq(q.vstack, p.vstack) && z.Eq(q.pt, p.pt) && z.Eq(q.cur, p.cur) && len(*q.errs) == len(*p.errs)+1
}

//verif:pre parser.addErrAt C11,C12
func pre_addErrAt(p *parser, err error, pos position, expected []string) bool { return ready0(p) }

//verif:pre parser.failAt C11,C12
func pre_failAt(p *parser, fail bool, pos position, want string) bool { return ready0(p) }

//verif:pre parser.pushV C11,C12
func pre_pushV(p *parser) bool { return ready0(p) }

//verif:post parser.pushV C11,C12
func post_pushV(p *parser, q *parser) bool {
	return Kept(*p, *q) && z.Eq(q.vstack, append(p.vstack, None())) && z.Eq(q.pt, p.pt) && z.Eq(q.cur, p.cur) && z.Eq(*q.errs, *p.errs)
}

//verif:pre parser.popV C11,C12
func pre_popV(p *parser) bool { return ready0(p) && len(p.vstack) > 0 }

//verif:post parser.popV C11,C12
func post_popV(p *parser, q *parser) bool {
	return Kept(*p, *q) && z.Eq(q.vstack, p.vstack[:len(p.vstack)-1]) && z.Eq(q.pt, p.pt) && z.Eq(q.cur, p.cur) && z.Eq(*q.errs, *p.errs)
}

//verif:pre parser.parseExpr C11,C12
func pre_parseExpr(p *parser, expr interface{}) bool { return ready(p) }

//verif:onpanic parser.parseExpr C11,C12
func panic_parseExpr(p *parser, expr interface{}, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), expr, MarkOf(*p)).Undef
}

//verif:post parser.parseExpr C11,C12
func post_parseExpr(p *parser, expr interface{}, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, expr, m), v, ok, *q)
}

//verif:pre parser.parseRule C11,C12
func pre_parseRule(p *parser, rule *rule) bool { return ready1(p) && rule != nil }

//verif:onpanic parser.parseRule C11,C12
func panic_parseRule(p *parser, rule *rule, q *parser) bool {
	return ready0(q) && PegRule(TextOf(*p), rule, MarkOf(*p)).Undef
}

//verif:post parser.parseRule C11,C12
func post_parseRule(p *parser, rule *rule, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, PegRule(t, rule, m), v, ok, *q)
}

//verif:pre parser.parseActionExpr C11,C12
func pre_parseActionExpr(p *parser, e *actionExpr) bool { return ready(p) }

//verif:onpanic parser.parseActionExpr C11,C12
func panic_parseActionExpr(p *parser, e *actionExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseActionExpr C11,C12
func post_parseActionExpr(p *parser, e *actionExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseAndExpr C11,C12
func pre_parseAndExpr(p *parser, e *andExpr) bool { return ready(p) }

//verif:onpanic parser.parseAndExpr C11,C12
func panic_parseAndExpr(p *parser, e *andExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseAndExpr C11,C12
func post_parseAndExpr(p *parser, e *andExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseNotExpr C11,C12
func pre_parseNotExpr(p *parser, e *notExpr) bool { return ready(p) }

//verif:onpanic parser.parseNotExpr C11,C12
func panic_parseNotExpr(p *parser, e *notExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseNotExpr C11,C12
func post_parseNotExpr(p *parser, e *notExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseAnyMatcher C11,C12
func pre_parseAnyMatcher(p *parser, e *anyMatcher) bool { return ready(p) }

//verif:onpanic parser.parseAnyMatcher C11,C12
func panic_parseAnyMatcher(p *parser, e *anyMatcher, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseAnyMatcher C11,C12
func post_parseAnyMatcher(p *parser, e *anyMatcher, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseCharClassMatcher C11,C12
func pre_parseCharClassMatcher(p *parser, e *charClassMatcher) bool { return ready(p) }

//verif:onpanic parser.parseCharClassMatcher C11,C12
func panic_parseCharClassMatcher(p *parser, e *charClassMatcher, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseCharClassMatcher C11,C12
func post_parseCharClassMatcher(p *parser, e *charClassMatcher, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseLitMatcher C11,C12
func pre_parseLitMatcher(p *parser, e *litMatcher) bool { return ready(p) }

//verif:onpanic parser.parseLitMatcher C11,C12
func panic_parseLitMatcher(p *parser, e *litMatcher, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseLitMatcher C11,C12
func post_parseLitMatcher(p *parser, e *litMatcher, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseChoiceExpr C11,C12
func pre_parseChoiceExpr(p *parser, e *choiceExpr) bool { return ready(p) }

//verif:onpanic parser.parseChoiceExpr C11,C12
func panic_parseChoiceExpr(p *parser, e *choiceExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseChoiceExpr C11,C12
func post_parseChoiceExpr(p *parser, e *choiceExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseLabeledExpr C11,C12
func pre_parseLabeledExpr(p *parser, e *labeledExpr) bool { return ready(p) }

//verif:onpanic parser.parseLabeledExpr C11,C12
func panic_parseLabeledExpr(p *parser, e *labeledExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseLabeledExpr C11,C12
func post_parseLabeledExpr(p *parser, e *labeledExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseSeqExpr C11,C12
func pre_parseSeqExpr(p *parser, e *seqExpr) bool { return ready(p) }

//verif:onpanic parser.parseSeqExpr C11,C12
func panic_parseSeqExpr(p *parser, e *seqExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseSeqExpr C11,C12
func post_parseSeqExpr(p *parser, e *seqExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseZeroOrMoreExpr C11,C12
func pre_parseZeroOrMoreExpr(p *parser, e *zeroOrMoreExpr) bool { return ready(p) }

//verif:onpanic parser.parseZeroOrMoreExpr C11,C12
func panic_parseZeroOrMoreExpr(p *parser, e *zeroOrMoreExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseZeroOrMoreExpr C11,C12
func post_parseZeroOrMoreExpr(p *parser, e *zeroOrMoreExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseOneOrMoreExpr C11,C12
func pre_parseOneOrMoreExpr(p *parser, e *oneOrMoreExpr) bool { return ready(p) }

//verif:onpanic parser.parseOneOrMoreExpr C11,C12
func panic_parseOneOrMoreExpr(p *parser, e *oneOrMoreExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseOneOrMoreExpr C11,C12
func post_parseOneOrMoreExpr(p *parser, e *oneOrMoreExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseZeroOrOneExpr C11,C12
func pre_parseZeroOrOneExpr(p *parser, e *zeroOrOneExpr) bool { return ready(p) }

//verif:onpanic parser.parseZeroOrOneExpr C11,C12
func panic_parseZeroOrOneExpr(p *parser, e *zeroOrOneExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseZeroOrOneExpr C11,C12
func post_parseZeroOrOneExpr(p *parser, e *zeroOrOneExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:pre parser.parseRuleRefExpr C11,C12
func pre_parseRuleRefExpr(p *parser, e *ruleRefExpr) bool { return ready(p) }

//verif:onpanic parser.parseRuleRefExpr C11,C12
func panic_parseRuleRefExpr(p *parser, e *ruleRefExpr, q *parser) bool {
	return ready0(q) && Peg(TextOf(*p), e, MarkOf(*p)).Undef
}

//verif:post parser.parseRuleRefExpr C11,C12
func post_parseRuleRefExpr(p *parser, e *ruleRefExpr, v interface{}, ok bool, q *parser) bool {
	t, m := TextOf(*p), MarkOf(*p)
	return Does(*p, Peg(t, e, m), v, ok, *q)
}

//verif:assume parser.parseAndCodeExpr C11,C12 the grammar has no such expression: all that is said of one is that it puts the engine back
//verif:assume parser.parseNotCodeExpr C11,C12 the grammar has no such expression: all that is said of one is that it puts the engine back
//verif:pre parser.parseThrowExpr C11,C12
func pre_parseThrowExpr(p *parser, e *throwExpr) bool { return ready(p) }

//verif:assume parser.parseRecoveryExpr C11,C12 the grammar has no such expression: all that is said of one is that it puts the engine back

//verif:onpanic parser.parseAndCodeExpr C11,C12
func panic_parseAndCodeExpr(p *parser, e *andCodeExpr, q *parser) bool {
	return ready0(q)
}

//verif:post parser.parseAndCodeExpr C11,C12
func post_parseAndCodeExpr(p *parser, e *andCodeExpr, v interface{}, ok bool, q *parser) bool {
	return Still(*p, *q) && Sound(*q)
}

//verif:onpanic parser.parseNotCodeExpr C11,C12
func panic_parseNotCodeExpr(p *parser, e *notCodeExpr, q *parser) bool {
	return ready0(q)
}

//verif:post parser.parseNotCodeExpr C11,C12
func post_parseNotCodeExpr(p *parser, e *notCodeExpr, v interface{}, ok bool, q *parser) bool {
	return Still(*p, *q) && Sound(*q)
}

//verif:onpanic parser.parseThrowExpr C11,C12
func panic_parseThrowExpr(p *parser, e *throwExpr, q *parser) bool {
	return ready0(q)
}

//verif:post parser.parseThrowExpr C11,C12
func post_parseThrowExpr(p *parser, e *throwExpr, v interface{}, ok bool, q *parser) bool {
	return Still(*p, *q) && Sound(*q)
}

//verif:onpanic parser.parseRecoveryExpr C11,C12
func panic_parseRecoveryExpr(p *parser, e *recoveryExpr, q *parser) bool {
	return ready0(q)
}

//verif:post parser.parseRecoveryExpr C11,C12
func post_parseRecoveryExpr(p *parser, e *recoveryExpr, v interface{}, ok bool, q *parser) bool {
	return Still(*p, *q) && Sound(*q)
}

//verif:inv parser.parseThrowExpr C11,C12
func still_Throw(p *parser, e *throwExpr, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

// ---- the loops -----------------------------------------------------------------------

// rests: what is still to be done gives what all of it gives.
func rests(all, rest Match) bool { return all.Undef || z.Eq(all, rest) }

//verif:inv parser.parseChoiceExpr C11,C12
func still_Choice(p *parser, e *choiceExpr, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

//verif:inv parser.parseChoiceExpr C11,C12
func at_Choice(p *parser, e *choiceExpr, p_in, p_now parser) bool {
	return Peg(TextOf(p_in), e, MarkOf(p_in)).Undef || p_now.pt.offset == p_in.pt.offset
}

//verif:inv parser.parseChoiceExpr C11,C12
func inv_choice(p *parser, e *choiceExpr, p_in, p_now parser, k int) bool {
	t := TextOf(p_in)
	return rests(Peg(t, e, MarkOf(p_in)), PegChoice(t, e.alternatives, k, MarkOf(p_now)))
}

//verif:inv parser.parseSeqExpr C11,C12
func still_Seq(p *parser, e *seqExpr, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

//verif:inv parser.parseSeqExpr C11,C12
func inv_seq(p *parser, e *seqExpr, p_in, p_now parser, vals []interface{}, k int) bool {
	t, m := TextOf(p_in), MarkOf(p_in)
	return rests(Peg(t, e, m), PegSeq(t, e.exprs, k, vals, m.Off, MarkOf(p_now)))
}

//verif:inv parser.parseZeroOrMoreExpr C11,C12
func still_ZeroOrMore(p *parser, e *zeroOrMoreExpr, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

//verif:inv parser.parseZeroOrMoreExpr C11,C12
func inv_star(p *parser, e *zeroOrMoreExpr, p_in, p_now parser, vals []interface{}) bool {
	t, m := TextOf(p_in), MarkOf(p_in)
	return rests(Peg(t, e, m), PegStar(t, e.expr, vals, MarkOf(p_now)))
}

//verif:inv parser.parseOneOrMoreExpr C11,C12
func still_OneOrMore(p *parser, e *oneOrMoreExpr, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

//verif:inv parser.parseOneOrMoreExpr C11,C12
func at_OneOrMore(p *parser, e *oneOrMoreExpr, p_in, p_now parser, vals []interface{}) bool {
	return z.Implies(len(vals) == 0, p_now.pt.offset == p_in.pt.offset)
}

//verif:inv parser.parseOneOrMoreExpr C11,C12
func inv_plus(p *parser, e *oneOrMoreExpr, p_in, p_now parser, vals []interface{}) bool {
	t, m := TextOf(p_in), MarkOf(p_in)
	return rests(Peg(t, e, m), PegPlus(t, e.expr, vals, MarkOf(p_now)))
}

//verif:inv parser.parseLitMatcher C11,C12
func still_Lit(p *parser, e *litMatcher, p_in, p_now parser) bool {
	return Still(p_in, p_now) && Sound(p_now)
}

//verif:inv parser.parseLitMatcher C11,C12
func inv_lit(p *parser, e *litMatcher, p_in, p_now parser, k int) bool {
	t, m := TextOf(p_in), MarkOf(p_in)
	return rests(Peg(t, e, m), PegLitAt(t, e, k, m.Off, MarkOf(p_now)))
}

//verif:inv parser.parseCharClassMatcher C11,C12
func inv_chars(p *parser, e *charClassMatcher, cur rune, k int) bool {
	return z.Iff(InChars(e.chars, 0, cur), InChars(e.chars, k, cur))
}

//verif:inv parser.parseCharClassMatcher C11,C12
func inv_ranges(p *parser, e *charClassMatcher, cur rune, i int) bool {
	return z.Iff(InRanges(e.ranges, 0, cur), InRanges(e.ranges, i, cur))
}

//verif:inv parser.parseCharClassMatcher C11,C12
func even_ranges(p *parser, e *charClassMatcher, cur rune, i int) bool { return i%2 == 0 && 0 <= i }

//verif:inv parser.parseCharClassMatcher C11,C12
func inv_tables(p *parser, e *charClassMatcher, cur rune, k int) bool {
	return z.Iff(InTables(e.classes, 0, cur), InTables(e.classes, k, cur))
}

// ActionVal and ActionErr are what an action gives in a state of the engine.
func ActionVal(run func(*parser) (interface{}, error), p *parser) interface{} {
	return ActVal(run, p.cur.text, p.vstack[len(p.vstack)-1])
}
func ActionPanics(run func(*parser) (interface{}, error), p *parser) bool {
	return ActPanics(run, p.cur.text, p.vstack[len(p.vstack)-1])
}
func ActionErr(run func(*parser) (interface{}, error), p *parser) error {
	return ActErr(run, p.cur.text, p.vstack[len(p.vstack)-1])
}

// ---- a whole text ----------------------------------------------------------------------

func putRule(m map[string]*rule, k string, r *rule) map[string]*rule {
	m[k] = r
	return m
}

// Table is the rules by name, from the first k of them.
func Table(rs []*rule, k int) map[string]*rule {
	if k <= 0 {
		return map[string]*rule{}
	}
	return putRule(Table(rs, k-1), rs[k-1].name, rs[k-1])
}

// There: the first k rules are there.
func There(rs []*rule, k int) bool {
	return z.Forall(0, k, func(i int) bool { return rs[i] != nil })
}

//verif:lemma C11,C12
func table_there(rs []*rule, k int, name string) bool {
	r, ok := Table(rs, k)[name]
	return z.Implies(There(rs, k) && 0 <= k && k <= len(rs) && ok, r != nil)
}

func dec_table_there(rs []*rule, k int, name string) int { return k }

func trig_table_there(rs []*rule, k int, name string) []interface{} {
	return []interface{}{Table(rs, k)[name]}
}

// Start is the rule of that name.
func Start(t Text, name string) *rule {
	r, _ := t.rules[name]
	return r
}

// Outcome is what matching the whole of a text with the grammar gives.
func Outcome(data []byte, lax bool, rs []*rule, entry string, bad bool) Match {
	t := Text{data: data, rules: Table(rs, len(rs)), lax: lax}
	_, ok := t.rules[entry]
	if !ok {
		return fails(Mark{Bad: true})
	}
	return PegRule(t, t.rules[entry], Mark{Labels: None(), Bad: bad || Garbled(t, 0)})
}

//verif:pre parser.parse C11,C12
func pre_parse(p *parser, g *grammar) bool {
	return ready0(p) && p.recover && p.pt.offset == 0 && p.pt.w == 0 && len(p.vstack) == 0 && g != nil && There(g.rules, len(g.rules))
}

// Gives: the results are what the outcome says.
func Gives(r Match, v interface{}, err error) bool {
	return r.Undef || (z.Iff(err == nil, r.OK && !r.At.Bad) && z.Implies(err == nil, z.Eq(v, r.Val)))
}

//verif:post parser.parse C11,C12
func post_parse(p *parser, g *grammar, v interface{}, err error) bool {
	return Gives(Outcome(p.data, p.allowInvalidUTF8, g.rules, p.entrypoint, len(*p.errs) > 0), v, err)
}

//verif:inv parser.parse C11,C12
func inv_parse(p *parser, g *grammar, p_now parser, k int) bool {
	return z.Eq(p_now.rules, Table(g.rules, k))
}

// Whole is the outcome for a text.
func Whole(text string) Match { return Outcome([]byte(text), false, g.rules, g.rules[0].name, false) }

//verif:pre Parse C11,C12
func pre_Parse(filename string, b []byte, opts []Option) bool { return len(opts) == 0 }

//verif:post Parse C11,C12
func post_Parse(filename string, b []byte, opts []Option, v interface{}, err error) bool {
	return Gives(Whole(string(b)), v, err)
}

//verif:pre ParseReader C11,C12
func pre_ParseReader(filename string, r io.Reader, opts []Option) bool {
	return r != nil && len(opts) == 0
}

// Reads: the outcome for what a reader hands out.
func Reads(r interface{}, v interface{}, err error) bool {
	return z.Implies(z.InputErr(r) != nil, err != nil) && z.Implies(z.InputErr(r) == nil, Gives(Whole(z.InputText(r)), v, err))
}

//verif:post ParseReader C11,C12
func post_ParseReader(filename string, r io.Reader, opts []Option, v interface{}, err error) bool {
	return Reads(r, v, err)
}

//verif:pre ParseFile C11,C12
func pre_ParseFile(filename string, opts []Option) bool { return len(opts) == 0 }

// ReadsFile: the outcome for a file.
func ReadsFile(name string, v interface{}, err error) bool {
	f := z.Opened(name)
	return z.Implies(z.OpenErr(name) != nil || z.CloseErr(f) != nil, err != nil) &&
		z.Implies(z.OpenErr(name) == nil && z.CloseErr(f) == nil, Reads(f, v, err))
}

//verif:post ParseFile C11,C12
func post_ParseFile(filename string, opts []Option, v interface{}, err error) bool {
	return ReadsFile(filename, v, err)
}

// The value of a whole text is made by the action of the first rule, whose
// contract is part of C10.

//verif:postassumed Parse C11,C12
func value_Parse(filename string, b []byte, opts []Option, v interface{}, err error) bool {
	return isFile(v, err)
}

//verif:post ParseReader C11,C12
func value_ParseReader(filename string, r io.Reader, opts []Option, v interface{}, err error) bool {
	return isFile(v, err)
}

//verif:post ParseFile C11,C12
func value_ParseFile(filename string, opts []Option, v interface{}, err error) bool {
	return isFile(v, err)
}

func isFile(v interface{}, err error) bool {
	f, ok := v.(*ast.File)
	return err != nil || (ok && f != nil)
}
