package zzcheck

import (
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"strings"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- reference parser: the published grammar, read as a PEG ------------------

type refParser struct {
	s    string
	errs []string
	deep int
}

// refParse gives the tree a text stands for; false if it is to be refused.
// condComments tells whether a condition holds a comment (a known finding).
func refParse(s string) (f *ast.File, ok bool) {
	p := &refParser{s: s}
	i := 0
	f = &ast.File{}
	for {
		j := p.skip(i)
		r, k := p.ruleAt(j)
		if k < 0 {
			break
		}
		f.Rules = append(f.Rules, r)
		i = p.skip(k)
	}
	i = p.skip(i)
	if i != len(s) || len(p.errs) > 0 || !utf8.ValidString(s) {
		return nil, false
	}
	return f, true
}

func (p *refParser) has(i int, lit string) bool { return strings.HasPrefix(p.s[i:], lit) }

// skip1 matches one Skip at i, -1 if there is none.
func (p *refParser) skip1(i int) int {
	if i >= len(p.s) {
		return -1
	}
	switch p.s[i] {
	case ' ', '\t', '\r', '\n':
		return i + 1
	}
	if p.has(i, "//") {
		for i < len(p.s) && p.s[i] != '\n' {
			i++
		}
		return i
	}
	return -1
}

func (p *refParser) skip(i int) int {
	for {
		j := p.skip1(i)
		if j < 0 {
			return i
		}
		i = j
	}
}

// must is __: at least one skip; -1 if none.
func (p *refParser) must(i int) int {
	j := p.skip(i)
	if p.skip1(i) < 0 {
		return -1
	}
	return j
}

func (p *refParser) ruleAt(i int) (*ast.Rule, int) {
	m, i := p.value(i)
	if i < 0 {
		return nil, -1
	}
	r := &ast.Rule{Match: m}
	if j := p.must(i); j >= 0 && p.has(j, "&&") {
		if k := p.must(j + 2); k >= 0 {
			if e, l := p.condition(k); l >= 0 {
				r.Condition = e
				i = l
			}
		}
	}
	i = p.skip(i)
	if !p.has(i, "=>") {
		return nil, -1
	}
	i = p.skip(i + 2)
	if p.has(i, "@") {
		j := i + 1
		for j < len(p.s) && !strings.ContainsRune(" \t\r\n", rune(p.s[j])) && !p.has(j, "//") {
			j++
		}
		if j > i+1 {
			r.Block = p.s[i+1 : j]
			i = j
		}
	}
	i = p.skip(i)
	v, i := p.value(i)
	if i < 0 {
		return nil, -1
	}
	r.Result = v
	return r, i
}

func (p *refParser) condition(i int) (*ast.Expr, int) {
	j := i
	for j < len(p.s) {
		_, w := utf8.DecodeRuneInString(p.s[j:])
		if p.has(j+w, "=>") {
			break
		}
		j += w
	}
	if j == i {
		return nil, -1
	}
	x := strings.TrimSpace(strings.ReplaceAll(p.s[i:j], "\n", " "))
	return &ast.Expr{Expr: p.expr(x)}, j
}

func (p *refParser) expr(x string) goast.Expr {
	e, ok := refExpr(x)
	if !ok {
		p.errs = append(p.errs, x)
		return &goast.Ident{Name: "BAD"}
	}
	return e
}

func (p *refParser) value(i int) (ast.Value, int) {
	if s, j := p.sexpr(i); j >= 0 {
		return s, j
	}
	return p.exprValue(i)
}

func (p *refParser) ident(i int) int {
	if i >= len(p.s) || p.s[i] < 'a' || p.s[i] > 'z' {
		return -1
	}
	for i < len(p.s) && (p.s[i] == '_' || p.s[i] >= 'a' && p.s[i] <= 'z' || p.s[i] >= 'A' && p.s[i] <= 'Z' || p.s[i] >= '0' && p.s[i] <= '9') {
		i++
	}
	return i
}

func (p *refParser) exprValue(i int) (ast.Value, int) {
	if j := p.call(i, true); j >= 0 {
		x := p.s[i:j]
		// layout between the arguments reads as blanks
		var lines []string
		for _, l := range strings.Split(x, "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			lines = append(lines, l)
		}
		return &ast.Expr{Expr: p.expr(strings.Join(lines, " "))}, j
	}
	if j := p.ident(i); j >= 0 {
		return ast.Variable(p.s[i:j]), j
	}
	if i < len(p.s) && p.s[i] == '_' && !p.has(i+1, "_") {
		return ast.Placeholder, i + 1
	}
	return nil, -1
}

// call recognises a call. An inner call is built as well, like every
// component, so its errors count.
func (p *refParser) call(i int, top bool) int {
	j := p.ident(i)
	if j < 0 || !p.has(j, "(") {
		return -1
	}
	arg := func(i int) int {
		_, j := p.exprValue(i)
		return j
	}
	j = arg(p.skip(j + 1))
	if j < 0 {
		return -1
	}
	for {
		k := p.skip(j)
		if !p.has(k, ",") {
			break
		}
		k = arg(p.skip(k + 1))
		if k < 0 {
			break
		}
		j = p.skip(k)
	}
	j = p.skip(j)
	if !p.has(j, ")") {
		return -1
	}
	return j + 1
}

func (p *refParser) sexpr(i int) (ast.Value, int) {
	s := &ast.SExpr{}
	if j := p.ident(i); j >= 0 && p.has(j, ":") {
		s.Binding = ast.Variable(p.s[i:j])
		i = j + 1
	}
	if i >= len(p.s) || p.s[i] != '(' {
		return nil, -1
	}
	op, i := p.op(p.skip(i + 1))
	if i < 0 {
		return nil, -1
	}
	s.Op = op
	for {
		j := p.must(i)
		if j < 0 {
			break
		}
		k := p.operand(s, j)
		if k < 0 {
			break
		}
		i = k
	}
	if j := p.must(i); j >= 0 && p.has(j, "...") {
		s.Ellipsis = true
		i = j + 3
	}
	if j := p.must(i); j >= 0 && p.has(j, "___") {
		s.Trailing = true
		i = j + 3
	}
	i = p.skip(i)
	if !p.has(i, ")") {
		return nil, -1
	}
	return s, i + 1
}

func (p *refParser) delimited(i int, open, close byte) int {
	if i >= len(p.s) || p.s[i] != open {
		return -1
	}
	j := i + 1
	for j < len(p.s) && p.s[j] != close {
		j++
	}
	if j == i+1 || j == len(p.s) {
		return -1
	}
	return j + 1
}

func (p *refParser) operand(s *ast.SExpr, i int) int {
	if j := p.delimited(i, '<', '>'); j >= 0 {
		s.Type = ast.Type(p.s[i+1 : j-1])
		return j
	}
	if j := p.delimited(i, '[', ']'); j >= 0 {
		s.AuxInt = &ast.Expr{Expr: p.expr(p.s[i+1 : j-1])}
		return j
	}
	if j := p.delimited(i, '{', '}'); j >= 0 {
		s.Aux = &ast.Expr{Expr: p.expr(p.s[i+1 : j-1])}
		return j
	}
	v, j := p.value(i)
	if j >= 0 {
		s.Args = append(s.Args, v)
	}
	return j
}

func (p *refParser) oppart(i int) int {
	j := i
	for j < len(p.s) && (p.s[j] == '_' || p.s[j] >= 'a' && p.s[j] <= 'z' || p.s[j] >= 'A' && p.s[j] <= 'Z' || p.s[j] >= '0' && p.s[j] <= '9') {
		j++
	}
	if j == i {
		return -1
	}
	return j
}

func (p *refParser) opalt(i int) (ast.OpcodeAlt, int) {
	if !p.has(i, "(") {
		return nil, -1
	}
	j := p.oppart(i + 1)
	if j < 0 {
		return nil, -1
	}
	a := ast.OpcodeAlt{ast.Opcode(p.s[i+1 : j])}
	for p.has(j, "|") {
		k := p.oppart(j + 1)
		if k < 0 {
			break
		}
		a = append(a, ast.Opcode(p.s[j+1:k]))
		j = k
	}
	if len(a) < 2 || !p.has(j, ")") {
		return nil, -1
	}
	return a, j + 1
}

func (p *refParser) op(i int) (ast.Op, int) {
	var ps ast.OpcodeParts
	for {
		if j := p.oppart(i); j >= 0 {
			ps = append(ps, ast.Opcode(p.s[i:j]))
			i = j
			continue
		}
		a, j := p.opalt(i)
		if j < 0 {
			break
		}
		ps = append(ps, a)
		i = j
	}
	if len(ps) == 0 {
		return nil, -1
	}
	if len(ps) == 1 {
		if o, ok := ps[0].(ast.Opcode); ok {
			return o, i
		}
	}
	return ps, i
}

// commentInCondition tells whether a text has a comment inside a condition as
// a reader of rules would see it, which is a known finding (C18).
func commentInCondition(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '&' && s[i+1] == '&' {
			e := strings.Index(s[i:], "=>")
			if e < 0 {
				e = len(s) - i
			}
			if strings.Contains(s[i:i+e], "//") {
				return true
			}
		}
	}
	return false
}

// ---- reference printer -----------------------------------------------------

type refPrinter struct {
	b   strings.Builder
	bad bool
}

// refPrint is the canonical text of a node, false if it has none. With a bad
// part the text up to that part is given.
func refPrint(n ast.Node) (string, bool) {
	p := &refPrinter{}
	switch x := n.(type) {
	case *ast.File:
		for _, r := range x.Rules {
			p.rule(r)
			p.put("\n")
		}
	case *ast.Rule:
		p.rule(x)
	case ast.Value:
		p.value(x)
	case ast.Op:
		p.op(x)
	default:
		p.bad = true
	}
	return p.b.String(), !p.bad
}

func (p *refPrinter) put(s string) {
	if !p.bad {
		p.b.WriteString(s)
	}
}

func (p *refPrinter) rule(r *ast.Rule) {
	p.value(r.Match)
	if r.Condition != nil {
		p.put(" && ")
		p.expr(r.Condition.Expr)
	}
	p.put(" => ")
	if r.Block != "" {
		p.put("@" + r.Block + " ")
	}
	p.value(r.Result)
}

func (p *refPrinter) value(v ast.Value) {
	switch x := v.(type) {
	case *ast.SExpr:
		if x.Binding != "" {
			p.put(string(x.Binding) + ":")
		}
		p.put("(")
		p.op(x.Op)
		if x.Type != "" {
			p.put(" <" + string(x.Type) + ">")
		}
		if x.AuxInt != nil {
			p.put(" [")
			p.expr(x.AuxInt.Expr)
			p.put("]")
		}
		if x.Aux != nil {
			p.put(" {")
			p.expr(x.Aux.Expr)
			p.put("}")
		}
		for _, a := range x.Args {
			p.put(" ")
			p.value(a)
		}
		if x.Ellipsis {
			p.put(" ...")
		}
		if x.Trailing {
			p.put(" ___")
		}
		p.put(")")
	case *ast.Expr:
		p.expr(x.Expr)
	case ast.Variable:
		p.put(string(x))
	default:
		p.bad = true
	}
}

func (p *refPrinter) op(o ast.Op) {
	switch x := o.(type) {
	case ast.Opcode:
		p.put(string(x))
	case ast.OpcodeParts:
		for _, part := range x {
			switch y := part.(type) {
			case ast.Opcode:
				p.put(string(y))
			case ast.OpcodeAlt:
				// an empty group has no canonical text worth the name
				for i, c := range y {
					if i == 0 {
						p.put("(")
					} else {
						p.put("|")
					}
					p.put(string(c))
				}
				p.put(")")
			default:
				p.bad = true
			}
		}
	default:
		p.bad = true
	}
}

// expr writes the tokens of an expression, without blanks: what blanks there
// are is compared by dropping them on both sides (sameText).
func (p *refPrinter) expr(e goast.Expr) {
	switch x := e.(type) {
	case *goast.Ident:
		p.put(x.Name)
	case *goast.BasicLit:
		p.put(x.Value)
	case *goast.ParenExpr:
		p.put("(")
		p.expr(x.X)
		p.put(")")
	case *goast.UnaryExpr:
		p.put(x.Op.String())
		p.apart(x.Op.String(), x.X)
		p.expr(x.X)
	case *goast.StarExpr:
		p.put("*")
		p.apart("*", x.X)
		p.expr(x.X)
	case *goast.BinaryExpr:
		p.expr(x.X)
		if x.Op.Precedence() < gotoken.ADD.Precedence() || fused(x.Op.String(), x.Y) {
			p.put(" " + x.Op.String() + " ")
		} else {
			p.put(x.Op.String())
		}
		p.expr(x.Y)
	case *goast.SelectorExpr:
		p.expr(x.X)
		if l, ok := x.X.(*goast.BasicLit); ok && l.Kind == gotoken.INT {
			p.put(" ")
		}
		p.put("." + x.Sel.Name)
	case *goast.CallExpr:
		p.expr(x.Fun)
		p.put("(")
		for i, a := range x.Args {
			if i > 0 {
				p.put(", ")
			}
			p.expr(a)
		}
		if x.Ellipsis != 0 {
			if k := len(x.Args); k > 0 {
				if t := lastToken(x.Args[k-1]); t != "" && !apartTokens(t, "...") {
					p.put(" ")
				}
			}
			p.put("...")
		}
		p.put(")")
	default:
		p.bad = true
	}
}

func (p *refPrinter) apart(op string, e goast.Expr) {
	if fused(op, e) {
		p.put(" ")
	}
}

// fused tells whether an operator right before an expression's text would be
// read as part of another token.
func fused(op string, e goast.Expr) bool {
	t := firstToken(e)
	return t != "" && !apartTokens(op, t)
}

// firstToken is the token a printed expression starts with, "" if none.
func firstToken(e goast.Expr) string {
	switch x := e.(type) {
	case *goast.Ident:
		return x.Name
	case *goast.BasicLit:
		return x.Value
	case *goast.ParenExpr:
		return "("
	case *goast.UnaryExpr:
		return x.Op.String()
	case *goast.StarExpr:
		return "*"
	case *goast.BinaryExpr:
		return firstToken(x.X)
	case *goast.SelectorExpr:
		return firstToken(x.X)
	case *goast.CallExpr:
		return firstToken(x.Fun)
	}
	return ""
}

// lastToken is the token a printed expression ends with, "" if none.
func lastToken(e goast.Expr) string {
	switch x := e.(type) {
	case *goast.Ident:
		return x.Name
	case *goast.BasicLit:
		return x.Value
	case *goast.ParenExpr, *goast.CallExpr:
		return ")"
	case *goast.UnaryExpr:
		return lastToken(x.X)
	case *goast.StarExpr:
		return lastToken(x.X)
	case *goast.BinaryExpr:
		return lastToken(x.Y)
	case *goast.SelectorExpr:
		return x.Sel.Name
	}
	return ""
}

// apartTokens tells whether two neighbouring tokens stay two.
func apartTokens(a, b string) bool {
	got, ok := scan(a + b)
	return ok && sameStrings(got, []string{a, b})
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' {
			return -1
		}
		return r
	}, s)
}

var _ = fmt.Sprint
