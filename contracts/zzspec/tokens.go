package zzspec

//verif:file C08

import (
	goast "go/ast"
	gotoken "go/token"
)

// ---- C08: the tokens of an embedded Go expression --------------------------------

// A Piece is one token of a printed expression.
type Piece struct {
	Gap  bool // a blank before it
	Kind gotoken.Token
	Text string
}

// Pieces are the tokens of an expression, in order, the way they are printed;
// g tells whether there is a blank before the first.
func Pieces(g bool, n goast.Expr) []Piece {
	switch e := n.(type) {
	case *goast.Ident:
		return []Piece{Piece{g, gotoken.IDENT, e.Name}}
	case *goast.BasicLit:
		return []Piece{Piece{g, e.Kind, e.Value}}
	case *goast.ParenExpr:
		return append(append([]Piece{Piece{g, gotoken.LPAREN, "("}}, Pieces(false, e.X)...), Piece{false, gotoken.RPAREN, ")"})
	case *goast.UnaryExpr:
		return append([]Piece{Piece{g, e.Op, e.Op.String()}}, Pieces(Fuses(e.Op, e.X), e.X)...)
	case *goast.BinaryExpr:
		return append(append(Pieces(g, e.X), Piece{Spaced(e), e.Op, e.Op.String()}), Pieces(Spaced(e), e.Y)...)
	case *goast.CallExpr:
		return append(append(append(append(Pieces(g, e.Fun), Piece{false, gotoken.LPAREN, "("}), PiecesList(e.Args, len(e.Args))...), PiecesDots(e)...), Piece{false, gotoken.RPAREN, ")"})
	case *goast.StarExpr:
		return append([]Piece{Piece{g, gotoken.MUL, "*"}}, Pieces(false, e.X)...)
	case *goast.SelectorExpr:
		return append(append(Pieces(g, e.X), Piece{IntLit(e.X), gotoken.PERIOD, "."}), Piece{false, gotoken.IDENT, e.Sel.Name})
	default:
		return nil
	}
}

// Spaced: the operator stands between blanks.
func Spaced(e *goast.BinaryExpr) bool { return e.Op.Precedence() < 4 || Fuses(e.Op, e.Y) }

// PiecesList are the tokens of the first k arguments.
func PiecesList(as []goast.Expr, k int) []Piece {
	if k <= 0 {
		return nil
	}
	if k == 1 {
		return Pieces(false, as[0])
	}
	return append(append(PiecesList(as, k-1), Piece{false, gotoken.COMMA, ","}), Pieces(true, as[k-1])...)
}

// PiecesDots are the dots of a variadic call.
func PiecesDots(e *goast.CallExpr) []Piece {
	if !e.Ellipsis.IsValid() {
		return nil
	}
	return []Piece{Piece{len(e.Args) > 0 && EndsInInt(e.Args[len(e.Args)-1]), gotoken.ELLIPSIS, "..."}}
}

// Render is the text of the first k pieces.
func Render(ps []Piece, k int) string {
	if k <= 0 {
		return ""
	}
	return Render(ps, k-1) + TextMark(ps[k-1].Gap, " ") + ps[k-1].Text
}

// Apart: wherever two of the first k pieces meet without a blank, Go's scanner
// reads them as two.
func Apart(ps []Piece, k int) bool {
	return k <= 0 || (Apart(ps, k-1) && (k == 1 || ps[k-1].Gap || Separate(ps[k-2].Kind, ps[k-1].Kind)))
}

// Separate: the scanner reads a token of kind a directly followed by one of
// kind b as these two. The harness compares this table with go/scanner.
//
//verif:opaque
func Separate(a, b gotoken.Token) bool {
	switch a {
	case gotoken.LPAREN, gotoken.RPAREN, gotoken.COMMA, gotoken.ELLIPSIS, gotoken.STRING, gotoken.CHAR:
		return true
	case gotoken.IDENT, gotoken.IMAG:
		return IsMark(b)
	case gotoken.FLOAT:
		return IsMark(b)
	case gotoken.INT:
		return IsMark(b) && b != gotoken.PERIOD && b != gotoken.ELLIPSIS
	case gotoken.PERIOD:
		return b == gotoken.IDENT
	case gotoken.ADD:
		return IsStart(b) && b != gotoken.ADD
	case gotoken.SUB:
		return IsStart(b) && b != gotoken.SUB
	case gotoken.AND:
		return IsStart(b) && b != gotoken.AND && b != gotoken.XOR
	case gotoken.QUO:
		return IsStart(b) && b != gotoken.MUL
	case gotoken.MUL, gotoken.REM, gotoken.SHL, gotoken.SHR, gotoken.AND_NOT, gotoken.OR, gotoken.XOR, gotoken.NOT, gotoken.ARROW, gotoken.TILDE:
		return IsStart(b) && (a != gotoken.OR || b != gotoken.OR)
	default:
		return false
	}
}

// IsLit: a literal.
func IsLit(k gotoken.Token) bool {
	return k == gotoken.INT || k == gotoken.FLOAT || k == gotoken.IMAG || k == gotoken.CHAR || k == gotoken.STRING
}

// IsUnary: a unary operator.
func IsUnary(k gotoken.Token) bool {
	return k == gotoken.ADD || k == gotoken.SUB || k == gotoken.AND || k == gotoken.XOR || k == gotoken.NOT || k == gotoken.ARROW || k == gotoken.TILDE
}

// IsStart: a token an expression starts with.
func IsStart(k gotoken.Token) bool {
	return k == gotoken.IDENT || IsLit(k) || k == gotoken.LPAREN || k == gotoken.MUL || IsUnary(k)
}

// IsMark: a token that follows an operand.
func IsMark(k gotoken.Token) bool {
	return k == gotoken.LPAREN || k == gotoken.RPAREN || k == gotoken.COMMA || k == gotoken.PERIOD || k == gotoken.ELLIPSIS || k.Precedence() > 0
}

// Valid: an expression the parser makes: known operators and literals.
func Valid(n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.Ident:
		return e != nil
	case *goast.BasicLit:
		return e != nil && IsLit(e.Kind)
	case *goast.ParenExpr:
		return e != nil && Valid(e.X)
	case *goast.UnaryExpr:
		return e != nil && IsUnary(e.Op) && Valid(e.X)
	case *goast.BinaryExpr:
		return e != nil && e.Op.Precedence() > 0 && Valid(e.X) && Valid(e.Y)
	case *goast.CallExpr:
		return e != nil && Primary(e.Fun) && Valid(e.Fun) && ValidList(e.Args, len(e.Args))
	case *goast.StarExpr:
		return e != nil && Valid(e.X)
	case *goast.SelectorExpr:
		return e != nil && e.Sel != nil && Primary(e.X) && Valid(e.X)
	default:
		return false
	}
}

// Primary: an operand, a call or a selector.
func Primary(n goast.Expr) bool {
	switch n.(type) {
	case *goast.UnaryExpr, *goast.BinaryExpr, *goast.StarExpr:
		return false
	default:
		return true
	}
}

// ValidList is Valid of the first k arguments.
func ValidList(as []goast.Expr, k int) bool {
	return k <= 0 || (ValidList(as, k-1) && Valid(as[k-1]))
}

// FirstKind is the kind of the first token of an expression.
func FirstKind(n goast.Expr) gotoken.Token {
	switch e := n.(type) {
	case *goast.Ident:
		return gotoken.IDENT
	case *goast.BasicLit:
		return e.Kind
	case *goast.ParenExpr:
		return gotoken.LPAREN
	case *goast.UnaryExpr:
		return e.Op
	case *goast.BinaryExpr:
		return FirstKind(e.X)
	case *goast.CallExpr:
		return FirstKind(e.Fun)
	case *goast.StarExpr:
		return gotoken.MUL
	case *goast.SelectorExpr:
		return FirstKind(e.X)
	default:
		return gotoken.ILLEGAL
	}
}

// LastKind is the kind of the last token of an expression.
func LastKind(n goast.Expr) gotoken.Token {
	switch e := n.(type) {
	case *goast.Ident:
		return gotoken.IDENT
	case *goast.BasicLit:
		return e.Kind
	case *goast.ParenExpr:
		return gotoken.RPAREN
	case *goast.UnaryExpr:
		return LastKind(e.X)
	case *goast.BinaryExpr:
		return LastKind(e.Y)
	case *goast.CallExpr:
		return gotoken.RPAREN
	case *goast.StarExpr:
		return LastKind(e.X)
	case *goast.SelectorExpr:
		return gotoken.IDENT
	default:
		return gotoken.ILLEGAL
	}
}

//verif:lemma C08 local
func lemma_start(n goast.Expr) bool {
	return Implies(Valid(n), IsStart(FirstKind(n)))
}
func dec_lemma_start(n goast.Expr) int { return Rank(n) }
func trig_lemma_start(n goast.Expr) []interface{} {
	return []interface{}{FirstKind(n)}
}

//verif:lemma C08 local
func lemma_kinds(n goast.Expr) bool {
	return Implies(Valid(n), (IsLit(LastKind(n)) || LastKind(n) == gotoken.IDENT || LastKind(n) == gotoken.RPAREN) &&
		Iff(EndsInInt(n), LastKind(n) == gotoken.INT))
}
func dec_lemma_kinds(n goast.Expr) int { return Rank(n) }
func trig_lemma_kinds(n goast.Expr) []interface{} {
	return []interface{}{LastKind(n)}
}

// An operator that is not set apart from the operand after it does not fuse
// with its first token.
//
//verif:lemma C08 local Separate
func lemma_fuses(op gotoken.Token, n goast.Expr) bool {
	return Implies(Valid(n) && !Fuses(op, n) && (IsUnary(op) || op.Precedence() >= 4), Separate(op, FirstKind(n)))
}
func dec_lemma_fuses(op gotoken.Token, n goast.Expr) int { return Rank(n) }
func trig_lemma_fuses(op gotoken.Token, n goast.Expr) []interface{} {
	return []interface{}{Fuses(op, n), FirstKind(n)}
}

//verif:lemma C08 local
func lemma_validListAt(as []goast.Expr, k, i int) bool {
	return Implies(0 <= i && i < k && ValidList(as, k), Valid(as[i]))
}
func dec_lemma_validListAt(as []goast.Expr, k, i int) int { return k }
func trig_lemma_validListAt(as []goast.Expr, k, i int) []interface{} {
	return []interface{}{ValidList(as, k), as[i]}
}

// ---- pieces of a concatenation

//verif:lemma C08 local
func lemma_renderLeft(a, b []Piece, k int) bool {
	return Implies(0 <= k && k <= len(a), Render(append(a, b...), k) == Render(a, k))
}
func dec_lemma_renderLeft(a, b []Piece, k int) int { return k }
func trig_lemma_renderLeft(a, b []Piece, k int) []interface{} {
	return []interface{}{Render(append(a, b...), k)}
}

//verif:lemma C08 local
func lemma_renderCat(a, b []Piece, k int) bool {
	return Implies(len(a) <= k && k <= len(a)+len(b), Render(append(a, b...), k) == Render(a, len(a))+Render(b, k-len(a)))
}
func dec_lemma_renderCat(a, b []Piece, k int) int { return k }
func trig_lemma_renderCat(a, b []Piece, k int) []interface{} {
	return []interface{}{Render(append(a, b...), k)}
}

//verif:lemma C08 local
func lemma_renderAll(a, b []Piece) bool {
	Use(lemma_renderCat(a, b, len(a)+len(b)))
	return Render(append(a, b...), len(append(a, b...))) == Render(a, len(a))+Render(b, len(b))
}
func trig_lemma_renderAll(a, b []Piece) []interface{} {
	return []interface{}{Render(append(a, b...), len(append(a, b...)))}
}

//verif:lemma C08 local
func lemma_apartLeft(a, b []Piece, k int) bool {
	return Implies(0 <= k && k <= len(a), Apart(append(a, b...), k) == Apart(a, k))
}
func dec_lemma_apartLeft(a, b []Piece, k int) int { return k }
func trig_lemma_apartLeft(a, b []Piece, k int) []interface{} {
	return []interface{}{Apart(append(a, b...), k)}
}

// Meet: the last of a and the first of b are apart.
func Meet(a, b []Piece) bool {
	return len(a) == 0 || len(b) == 0 || b[0].Gap || Separate(a[len(a)-1].Kind, b[0].Kind)
}

//verif:lemma C08 local
func lemma_apartCat(a, b []Piece, k int) bool {
	return Implies(len(a) <= k && k <= len(a)+len(b) && Apart(a, len(a)) && Apart(b, k-len(a)) && Meet(a, b), Apart(append(a, b...), k))
}
func dec_lemma_apartCat(a, b []Piece, k int) int { return k }
func trig_lemma_apartCat(a, b []Piece, k int) []interface{} {
	return []interface{}{Apart(append(a, b...), k)}
}

// ---- the pieces of an expression are its text, and they are apart

// Are: the pieces start with a piece of kind f and gap g, end with one of kind
// l, have text t, and are apart.
//
//verif:opaque
func Are(ps []Piece, g bool, f, l gotoken.Token, t string) bool {
	return len(ps) > 0 && ps[0].Gap == g && ps[0].Kind == f && ps[len(ps)-1].Kind == l &&
		Render(ps, len(ps)) == TextMark(g, " ")+t && Apart(ps, len(ps))
}

//verif:lemma C08 local Are
func lemma_areOne(g bool, k gotoken.Token, t string) bool {
	return Are([]Piece{Piece{g, k, t}}, g, k, k, t)
}
func trig_lemma_areOne(g bool, k gotoken.Token, t string) []interface{} {
	return []interface{}{Render([]Piece{Piece{g, k, t}}, 1)}
}

//verif:lemma C08 local alone Are
func lemma_areCat(a, b []Piece, g, g2 bool, f, l, f2, l2 gotoken.Token, t, t2 string) bool {
	Use(lemma_renderAll(a, b))
	Use(lemma_apartCat(a, b, len(a)+len(b)))
	return Implies(Are(a, g, f, l, t) && Are(b, g2, f2, l2, t2) && (g2 || Separate(l, f2)),
		Are(append(a, b...), g, f, l2, t+TextMark(g2, " ")+t2))
}

//verif:lemma C08 local
func lemma_push(a []Piece, p Piece) bool {
	return Eq(append(a, []Piece{p}...), append(a, p))
}

// Next: a piece follows on the pieces.
//
//verif:lemma C08 local alone
func lemma_areNext(a []Piece, g, g2 bool, f, l, k gotoken.Token, t, t2 string) bool {
	Use(lemma_areOne(g2, k, t2))
	Use(lemma_push(a, Piece{g2, k, t2}))
	Use(lemma_areCat(a, []Piece{Piece{g2, k, t2}}, g, g2, f, l, k, k, t, t2))
	return Implies(Are(a, g, f, l, t) && (g2 || Separate(l, k)),
		Are(append(a, Piece{g2, k, t2}), g, f, k, t+TextMark(g2, " ")+t2))
}

//verif:lemma C08 local alone
func lemma_areBefore(b []Piece, g, g2 bool, k, f2, l2 gotoken.Token, t, t2 string) bool {
	Use(lemma_areOne(g, k, t))
	Use(lemma_areCat([]Piece{Piece{g, k, t}}, b, g, g2, k, k, f2, l2, t, t2))
	return Implies(Are(b, g2, f2, l2, t2) && (g2 || Separate(k, f2)),
		Are(append([]Piece{Piece{g, k, t}}, b...), g, k, l2, t+TextMark(g2, " ")+t2))
}

// AreArg: the pieces of an argument.
func AreArg(g bool, n goast.Expr) bool {
	return Are(Pieces(g, n), g, FirstKind(n), LastKind(n), TextGo(n))
}

// AreArgs: the pieces of the first k arguments.
func AreArgs(as []goast.Expr, k int) bool {
	return Implies(k > 0, Are(PiecesList(as, k), false, FirstKind(as[0]), LastKind(as[k-1]), TextList(as, k)))
}

//verif:lemma C08 local alone Separate
func lemma_areArgs(as []goast.Expr, k int) bool {
	a := PiecesList(as, k-1)
	Use(lemma_kinds(as[k-2]))
	Use(lemma_start(as[k-1]))
	Use(lemma_validListAt(as, len(as), k-2))
	Use(lemma_validListAt(as, len(as), k-1))
	Use(lemma_areNext(a, false, false, FirstKind(as[0]), LastKind(as[k-2]), gotoken.COMMA, TextList(as, k-1), ","))
	Use(lemma_areCat(append(a, Piece{false, gotoken.COMMA, ","}), Pieces(true, as[k-1]), false, true, FirstKind(as[0]), gotoken.COMMA,
		FirstKind(as[k-1]), LastKind(as[k-1]), TextList(as, k-1)+",", TextGo(as[k-1])))
	return Implies(0 <= k && k <= len(as) && ValidList(as, len(as)) && All(func(i int, g bool) bool {
		return Implies(0 <= i && i < k && Valid(as[i]), AreArg(g, as[i]))
	}), AreArgs(as, k))
}
func dec_lemma_areArgs(as []goast.Expr, k int) int { return k }
func trig_lemma_areArgs(as []goast.Expr, k int) []interface{} {
	return []interface{}{PiecesList(as, k)}
}

//verif:lemma C08 local alone Separate
func lemma_areParen(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.ParenExpr)
	Use(lemma_kinds(e.X))
	Use(lemma_start(e.X))
	Use(lemma_areBefore(Pieces(false, e.X), g, false, gotoken.LPAREN, FirstKind(e.X), LastKind(e.X), "(", TextGo(e.X)))
	Use(lemma_areNext(append([]Piece{Piece{g, gotoken.LPAREN, "("}}, Pieces(false, e.X)...), g, false, gotoken.LPAREN, LastKind(e.X), gotoken.RPAREN, "("+TextGo(e.X), ")"))
	return Implies(ok && Valid(n) && AreArg(false, e.X), AreArg(g, n))
}
func trig_lemma_areParen(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

//verif:lemma C08 local alone Separate
func lemma_areUnary(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.UnaryExpr)
	Use(lemma_fuses(e.Op, e.X))
	Use(lemma_areBefore(Pieces(Fuses(e.Op, e.X), e.X), g, Fuses(e.Op, e.X), e.Op, FirstKind(e.X), LastKind(e.X), e.Op.String(), TextGo(e.X)))
	return Implies(ok && Valid(n) && AreArg(Fuses(e.Op, e.X), e.X), AreArg(g, n))
}
func trig_lemma_areUnary(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

//verif:lemma C08 local alone Separate
func lemma_areStar(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.StarExpr)
	Use(lemma_start(e.X))
	Use(lemma_areBefore(Pieces(false, e.X), g, false, gotoken.MUL, FirstKind(e.X), LastKind(e.X), "*", TextGo(e.X)))
	return Implies(ok && Valid(n) && AreArg(false, e.X), AreArg(g, n))
}
func trig_lemma_areStar(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

//verif:lemma C08 local alone Separate
func lemma_areBinary(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.BinaryExpr)
	s := Spaced(e)
	Use(lemma_kinds(e.X))
	Use(lemma_fuses(e.Op, e.Y))
	Use(lemma_areNext(Pieces(g, e.X), g, s, FirstKind(e.X), LastKind(e.X), e.Op, TextGo(e.X), e.Op.String()))
	Use(lemma_areCat(append(Pieces(g, e.X), Piece{s, e.Op, e.Op.String()}), Pieces(s, e.Y), g, s, FirstKind(e.X), e.Op,
		FirstKind(e.Y), LastKind(e.Y), TextGo(e.X)+TextMark(s, " ")+e.Op.String(), TextGo(e.Y)))
	return Implies(ok && Valid(n) && AreArg(g, e.X) && AreArg(s, e.Y), AreArg(g, n))
}
func trig_lemma_areBinary(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

//verif:lemma C08 local alone Separate
func lemma_areSelector(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.SelectorExpr)
	s := IntLit(e.X)
	Use(lemma_kinds(e.X))
	Use(lemma_areNext(Pieces(g, e.X), g, s, FirstKind(e.X), LastKind(e.X), gotoken.PERIOD, TextGo(e.X), "."))
	Use(lemma_areNext(append(Pieces(g, e.X), Piece{s, gotoken.PERIOD, "."}), g, false, FirstKind(e.X), gotoken.PERIOD, gotoken.IDENT,
		TextGo(e.X)+TextMark(s, " ")+".", e.Sel.Name))
	return Implies(ok && Valid(n) && AreArg(g, e.X), AreArg(g, n))
}
func trig_lemma_areSelector(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

// What a call starts with: the function and the opening parenthesis.
func callHead(g bool, e *goast.CallExpr) []Piece {
	return append(Pieces(g, e.Fun), Piece{false, gotoken.LPAREN, "("})
}
func callArgs(g bool, e *goast.CallExpr) []Piece {
	return append(callHead(g, e), PiecesList(e.Args, len(e.Args))...)
}
func callDots(g bool, e *goast.CallExpr) []Piece {
	return append(callArgs(g, e), PiecesDots(e)...)
}

// lastArg is the kind before the dots.
func lastArg(e *goast.CallExpr) gotoken.Token {
	if len(e.Args) > 0 {
		return LastKind(e.Args[len(e.Args)-1])
	}
	return gotoken.LPAREN
}

// lastDots is the kind before the closing parenthesis.
func lastDots(e *goast.CallExpr) gotoken.Token {
	if e.Ellipsis.IsValid() {
		return gotoken.ELLIPSIS
	}
	return lastArg(e)
}

//verif:lemma C08 local alone Separate
func lemma_areCallArgs(g bool, e *goast.CallExpr) bool {
	n := len(e.Args)
	Use(lemma_kinds(e.Fun))
	Use(lemma_start(e.Args[0]))
	Use(lemma_validListAt(e.Args, n, 0))
	Use(lemma_areNext(Pieces(g, e.Fun), g, false, FirstKind(e.Fun), LastKind(e.Fun), gotoken.LPAREN, TextGo(e.Fun), "("))
	Use(lemma_areCat(callHead(g, e), PiecesList(e.Args, n), g, false, FirstKind(e.Fun), gotoken.LPAREN,
		FirstKind(e.Args[0]), LastKind(e.Args[n-1]), TextGo(e.Fun)+"(", TextList(e.Args, n)))
	return Implies(Valid(e) && AreArg(g, e.Fun) && AreArgs(e.Args, n),
		Are(callArgs(g, e), g, FirstKind(e.Fun), lastArg(e), TextGo(e.Fun)+"("+TextList(e.Args, n)))
}

//verif:lemma C08 local alone Separate
func lemma_areCallDots(g bool, e *goast.CallExpr) bool {
	n := len(e.Args)
	s := n > 0 && EndsInInt(e.Args[n-1])
	Use(lemma_kinds(e.Args[n-1]))
	Use(lemma_validListAt(e.Args, n, n-1))
	Use(lemma_areNext(callArgs(g, e), g, s, FirstKind(e.Fun), lastArg(e), gotoken.ELLIPSIS, TextGo(e.Fun)+"("+TextList(e.Args, n), "..."))
	return Implies(Valid(e) && Are(callArgs(g, e), g, FirstKind(e.Fun), lastArg(e), TextGo(e.Fun)+"("+TextList(e.Args, n)),
		Are(callDots(g, e), g, FirstKind(e.Fun), lastDots(e), TextGo(e.Fun)+"("+TextList(e.Args, n)+TextDots(e)))
}

//verif:lemma C08 local alone Separate
func lemma_areCall(g bool, n goast.Expr) bool {
	e, ok := n.(*goast.CallExpr)
	k := len(e.Args)
	Use(lemma_kinds(e.Args[k-1]))
	Use(lemma_validListAt(e.Args, k, k-1))
	Use(lemma_areCallArgs(g, e))
	Use(lemma_areCallDots(g, e))
	Use(lemma_areNext(callDots(g, e), g, false, FirstKind(e.Fun), lastDots(e), gotoken.RPAREN, TextGo(e.Fun)+"("+TextList(e.Args, k)+TextDots(e), ")"))
	return Implies(ok && Valid(n) && AreArg(g, e.Fun) && AreArgs(e.Args, k), AreArg(g, n))
}
func trig_lemma_areCall(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

//verif:lemma C08 local
func lemma_areLeaf(g bool, n goast.Expr) bool {
	i, isIdent := n.(*goast.Ident)
	l, isLit := n.(*goast.BasicLit)
	Use(lemma_areOne(g, gotoken.IDENT, i.Name))
	Use(lemma_areOne(g, l.Kind, l.Value))
	return Implies(Valid(n) && (isIdent || isLit), AreArg(g, n))
}
func trig_lemma_areLeaf(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

// The pieces of every expression the parser makes are its text, and they are
// apart.
//
//verif:lemma C08 local alone
func lemma_are(g bool, n goast.Expr) bool {
	c, _ := n.(*goast.CallExpr)
	Use(lemma_areLeaf(g, n))
	Use(lemma_areParen(g, n))
	Use(lemma_areUnary(g, n))
	Use(lemma_areStar(g, n))
	Use(lemma_areBinary(g, n))
	Use(lemma_areSelector(g, n))
	Use(lemma_areArgs(c.Args, len(c.Args)))
	Use(lemma_areCall(g, n))
	return Implies(Valid(n), AreArg(g, n))
}
func dec_lemma_are(g bool, n goast.Expr) int { return Rank(n) }
func trig_lemma_are(g bool, n goast.Expr) []interface{} {
	return []interface{}{Pieces(g, n)}
}

// Tokens: the text is that of the expression's tokens, and the scanner reads
// them as these.
func Tokens(n goast.Expr, t string) bool {
	ps := Pieces(false, n)
	return t == Render(ps, len(ps)) && Apart(ps, len(ps))
}

//verif:lemma C08 local alone Are
func Lemma_tokens(n goast.Expr) bool {
	Use(lemma_are(false, n))
	return Implies(Valid(n), Tokens(n, TextGo(n)))
}
func trig_Lemma_tokens(n goast.Expr) []interface{} {
	return []interface{}{Pieces(false, n)}
}
