package zzspec

//verif:file C10,C13

import (
	goast "go/ast"
	gotoken "go/token"
)

// ---- C13: embedded Go expressions ----------------------------------------------

// GoErr is the error of parsing a text as a Go expression.
func GoErr(x string) error { panic("ghost") }

// GoTree is the tree of a text that is a Go expression.
func GoTree(x string) goast.Expr { panic("ghost") }

// GoodNode: expressions may hold nodes of this kind.
func GoodNode(n goast.Node) bool {
	switch n.(type) {
	case *goast.Ident, *goast.BasicLit, *goast.ParenExpr, *goast.UnaryExpr, *goast.BinaryExpr,
		*goast.CallExpr, *goast.StarExpr, *goast.SelectorExpr:
		return true
	default:
		return false
	}
}

// Dots is where a cleared call has its dots, if it has any.
func Dots(p gotoken.Pos) gotoken.Pos {
	if p != 0 {
		return 1
	}
	return 0
}

// ClearNode is a node without its positions.
func ClearNode(n goast.Node) goast.Node {
	switch e := n.(type) {
	case *goast.Ident:
		return &goast.Ident{Name: e.Name, Obj: e.Obj}
	case *goast.BasicLit:
		return &goast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *goast.ParenExpr:
		return &goast.ParenExpr{X: e.X}
	case *goast.UnaryExpr:
		return &goast.UnaryExpr{Op: e.Op, X: e.X}
	case *goast.BinaryExpr:
		return &goast.BinaryExpr{X: e.X, Op: e.Op, Y: e.Y}
	case *goast.CallExpr:
		return &goast.CallExpr{Fun: e.Fun, Args: e.Args, Ellipsis: Dots(e.Ellipsis)}
	case *goast.StarExpr:
		return &goast.StarExpr{X: e.X}
	case *goast.SelectorExpr:
		return &goast.SelectorExpr{X: e.X, Sel: e.Sel}
	default:
		return n
	}
}

// CleanIdent is ClearNode of an identifier.
func CleanIdent(e *goast.Ident) *goast.Ident { return &goast.Ident{Name: e.Name, Obj: e.Obj} }

// CleanGo is an expression with ClearNode of all its nodes.
func CleanGo(n goast.Expr) goast.Expr {
	switch e := n.(type) {
	case *goast.Ident:
		return CleanIdent(e)
	case *goast.BasicLit:
		return &goast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *goast.ParenExpr:
		return &goast.ParenExpr{X: CleanGo(e.X)}
	case *goast.UnaryExpr:
		return &goast.UnaryExpr{Op: e.Op, X: CleanGo(e.X)}
	case *goast.BinaryExpr:
		return &goast.BinaryExpr{X: CleanGo(e.X), Op: e.Op, Y: CleanGo(e.Y)}
	case *goast.CallExpr:
		return &goast.CallExpr{Fun: CleanGo(e.Fun), Args: CleanArgs(e.Args, len(e.Args)), Ellipsis: Dots(e.Ellipsis)}
	case *goast.StarExpr:
		return &goast.StarExpr{X: CleanGo(e.X)}
	case *goast.SelectorExpr:
		return &goast.SelectorExpr{X: CleanGo(e.X), Sel: CleanIdent(e.Sel)}
	default:
		return n
	}
}

// CleanArgs is CleanGo of the first k arguments.
func CleanArgs(as []goast.Expr, k int) []goast.Expr {
	if k <= 0 {
		return nil
	}
	return append(CleanArgs(as, k-1), CleanGo(as[k-1]))
}

// PlainGo: all the nodes of the expression are of kinds that expressions may
// hold.
func PlainGo(n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.Ident, *goast.BasicLit:
		return true
	case *goast.ParenExpr:
		return PlainGo(e.X)
	case *goast.UnaryExpr:
		return PlainGo(e.X)
	case *goast.BinaryExpr:
		return PlainGo(e.X) && PlainGo(e.Y)
	case *goast.CallExpr:
		return PlainGo(e.Fun) && PlainGoArgs(e.Args, len(e.Args))
	case *goast.StarExpr:
		return PlainGo(e.X)
	case *goast.SelectorExpr:
		return PlainGo(e.X)
	default:
		return false
	}
}

// PlainGoArgs is PlainGo of the first k arguments.
func PlainGoArgs(as []goast.Expr, k int) bool {
	return k <= 0 || (PlainGoArgs(as, k-1) && PlainGo(as[k-1]))
}

// Accepted: the text is an expression that may be embedded.
func Accepted(x string) bool { return GoErr(x) == nil && PlainGo(GoTree(x)) }

// Embedded is the tree of an embedded expression.
func Embedded(x string) goast.Expr { return CleanGo(GoTree(x)) }

// NoPos: the expression carries no positions; of the dots of a call only their
// presence is left.
func NoPos(n goast.Expr) bool {
	switch e := n.(type) {
	case *goast.Ident:
		return e.NamePos == 0
	case *goast.BasicLit:
		return Eq(e, &goast.BasicLit{Kind: e.Kind, Value: e.Value})
	case *goast.ParenExpr:
		return e.Lparen == 0 && e.Rparen == 0 && NoPos(e.X)
	case *goast.UnaryExpr:
		return e.OpPos == 0 && NoPos(e.X)
	case *goast.BinaryExpr:
		return e.OpPos == 0 && NoPos(e.X) && NoPos(e.Y)
	case *goast.CallExpr:
		return e.Lparen == 0 && e.Rparen == 0 && (e.Ellipsis == 0 || e.Ellipsis == 1) && NoPos(e.Fun) && NoPosArgs(e.Args, len(e.Args))
	case *goast.StarExpr:
		return e.Star == 0 && NoPos(e.X)
	case *goast.SelectorExpr:
		return NoPos(e.X) && e.Sel.NamePos == 0
	default:
		return true
	}
}

// NoPosArgs is NoPos of the first k arguments.
func NoPosArgs(as []goast.Expr, k int) bool {
	return k <= 0 || (NoPosArgs(as, k-1) && NoPos(as[k-1]))
}

// SameTokens: the expressions differ in positions only.
func SameTokens(a, b goast.Expr) bool {
	switch e := a.(type) {
	case *goast.Ident:
		f, ok := b.(*goast.Ident)
		return ok && f != nil && e.Name == f.Name && Eq(e.Obj, f.Obj)
	case *goast.BasicLit:
		f, ok := b.(*goast.BasicLit)
		return ok && f != nil && e.Kind == f.Kind && e.Value == f.Value
	case *goast.ParenExpr:
		f, ok := b.(*goast.ParenExpr)
		return ok && f != nil && SameTokens(e.X, f.X)
	case *goast.UnaryExpr:
		f, ok := b.(*goast.UnaryExpr)
		return ok && f != nil && e.Op == f.Op && SameTokens(e.X, f.X)
	case *goast.BinaryExpr:
		f, ok := b.(*goast.BinaryExpr)
		return ok && f != nil && e.Op == f.Op && SameTokens(e.X, f.X) && SameTokens(e.Y, f.Y)
	case *goast.CallExpr:
		f, ok := b.(*goast.CallExpr)
		return ok && f != nil && Iff(e.Ellipsis != 0, f.Ellipsis != 0) && len(e.Args) == len(f.Args) &&
			SameTokens(e.Fun, f.Fun) && SameTokensArgs(e.Args, f.Args, len(e.Args))
	case *goast.StarExpr:
		f, ok := b.(*goast.StarExpr)
		return ok && f != nil && SameTokens(e.X, f.X)
	case *goast.SelectorExpr:
		f, ok := b.(*goast.SelectorExpr)
		return ok && f != nil && f.Sel != nil && e.Sel.Name == f.Sel.Name && Eq(e.Sel.Obj, f.Sel.Obj) && SameTokens(e.X, f.X)
	default:
		return false
	}
}

// SameTokensArgs is SameTokens of the first k arguments.
func SameTokensArgs(as, bs []goast.Expr, k int) bool {
	return k <= 0 || (SameTokensArgs(as, bs, k-1) && SameTokens(as[k-1], bs[k-1]))
}
