package zzspec

//verif:file C07,C16,C17

import (
	goast "go/ast"
	"io"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- C07: failures of printing -------------------------------------------------

// Late: the destination was written to after a failure was met.
func Late(w io.Writer, wd World) bool { panic("ghost") }

// Met: an error was made.
func Met(wd World) bool { panic("ghost") }

// A Bad is the first node of a tree that cannot be printed, if there is one.
type Bad struct {
	Is   bool
	Node interface{}
}

// Then is the first of two.
func Then(a, b Bad) Bad {
	if a.Is {
		return a
	}
	return b
}

// BadNode is the first unprintable node of a tree.
func BadNode(n ast.Node) Bad {
	switch x := n.(type) {
	case *ast.File:
		return BadRules(x.Rules, len(x.Rules))
	case *ast.Rule:
		return BadRule(x)
	case *ast.SExpr:
		return BadValue(x)
	case *ast.Expr:
		return BadValue(x)
	case ast.Variable:
		return Bad{}
	case ast.Opcode:
		return Bad{}
	case ast.OpcodeParts:
		return BadParts(x, len(x))
	default:
		return Bad{true, n}
	}
}

// BadRules is the first unprintable node of k rules.
func BadRules(rs []*ast.Rule, k int) Bad {
	if k <= 0 {
		return Bad{}
	}
	return Then(BadRules(rs, k-1), BadRule(rs[k-1]))
}

// BadRule is the first unprintable node of a rule.
func BadRule(r *ast.Rule) Bad {
	return Then(Then(BadValue(r.Match), BadExpr(r.Condition)), BadValue(r.Result))
}

// BadExpr is the first unprintable node of an optional expression.
func BadExpr(e *ast.Expr) Bad {
	if e == nil {
		return Bad{}
	}
	return BadGo(e.Expr)
}

// BadValue is the first unprintable node of a value.
func BadValue(v ast.Value) Bad {
	switch x := v.(type) {
	case *ast.SExpr:
		return BadSExpr(x)
	case *ast.Expr:
		return BadGo(x.Expr)
	case ast.Variable:
		return Bad{}
	default:
		return Bad{true, v}
	}
}

// BadSExpr is the first unprintable node of an s-expression.
func BadSExpr(s *ast.SExpr) Bad {
	return Then(Then(Then(BadOp(s.Op), BadExpr(s.AuxInt)), BadExpr(s.Aux)), BadArgs(s.Args, len(s.Args)))
}

// BadArgs is the first unprintable node of k arguments.
func BadArgs(as []ast.Value, k int) Bad {
	if k <= 0 {
		return Bad{}
	}
	return Then(BadArgs(as, k-1), BadValue(as[k-1]))
}

// BadOp is the first unprintable node of an opcode.
func BadOp(o ast.Op) Bad {
	switch x := o.(type) {
	case ast.Opcode:
		return Bad{}
	case ast.OpcodeParts:
		return BadParts(x, len(x))
	default:
		return Bad{true, o}
	}
}

// BadParts is the first unprintable piece of k.
func BadParts(ps ast.OpcodeParts, k int) Bad {
	if k <= 0 {
		return Bad{}
	}
	return Then(BadParts(ps, k-1), BadPart(ps[k-1]))
}

// BadPart tells whether a piece is unprintable.
func BadPart(p ast.OpPart) Bad {
	switch p.(type) {
	case ast.Opcode, ast.OpcodeAlt:
		return Bad{}
	default:
		return Bad{true, p}
	}
}

// BadGo is the first unprintable node of an embedded Go expression.
func BadGo(n goast.Expr) Bad {
	switch e := n.(type) {
	case *goast.Ident, *goast.BasicLit:
		return Bad{}
	case *goast.ParenExpr:
		return BadGo(e.X)
	case *goast.UnaryExpr:
		return BadGo(e.X)
	case *goast.BinaryExpr:
		return Then(BadGo(e.X), BadGo(e.Y))
	case *goast.CallExpr:
		return Then(BadGo(e.Fun), BadGoArgs(e.Args, len(e.Args)))
	case *goast.StarExpr:
		return BadGo(e.X)
	case *goast.SelectorExpr:
		return BadGo(e.X)
	default:
		return Bad{true, n}
	}
}

// BadGoArgs is the first unprintable node of k arguments of a call.
func BadGoArgs(as []goast.Expr, k int) Bad {
	if k <= 0 {
		return Bad{}
	}
	return Then(BadGoArgs(as, k-1), BadGo(as[k-1]))
}

// Answers: the error that is reported for a tree with that unprintable node by
// a destination in that state.
func Answers(w io.Writer, err error, bad Bad, wd World) bool {
	if WErr(w, wd) != nil {
		return err == WErr(w, wd)
	}
	if bad.Is {
		return Names(err, bad.Node)
	}
	return err == nil
}
