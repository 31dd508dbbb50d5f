package zzspec

//verif:file C14,C15,C16,C17

import (
	"bytes"
	"io"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- C14, C15, C16: translation to SMT-LIB ---------------------------------------

// IsBuffer: writes to the destination cannot fail.
func IsBuffer(w io.Writer) bool {
	_, a := w.(*bytes.Buffer)
	_, b := w.(*strings.Builder)
	return a || b
}

// Kinds of types, as in go/types.
const (
	kBool   = 1
	kInt8   = 3
	kInt16  = 4
	kInt32  = 5
	kInt64  = 6
	kUint8  = 8
	kUint16 = 9
	kUint32 = 10
	kUint64 = 11
)

// IsSort: the kind has a sort.
//
//verif:opaque
func IsSort(k int) bool {
	return k == kBool || k == kInt8 || k == kInt16 || k == kInt32 || k == kInt64 ||
		k == kUint8 || k == kUint16 || k == kUint32 || k == kUint64
}

// Width is the number of bits of an integer kind.
func Width(k int) int {
	if k == kInt8 || k == kUint8 {
		return 8
	}
	if k == kInt16 || k == kUint16 {
		return 16
	}
	if k == kInt32 || k == kUint32 {
		return 32
	}
	if k == kInt64 || k == kUint64 {
		return 64
	}
	return 0
}

// Sort is the sort of a kind.
func Sort(k int) string {
	if k == kBool {
		return "Bool"
	}
	if k == kInt8 || k == kUint8 {
		return "(_ BitVec 8)"
	}
	if k == kInt16 || k == kUint16 {
		return "(_ BitVec 16)"
	}
	if k == kInt32 || k == kUint32 {
		return "(_ BitVec 32)"
	}
	if k == kInt64 || k == kUint64 {
		return "(_ BitVec 64)"
	}
	return ""
}

// Declare is the declaration of a symbol.
func Declare(sym string, k int) string { return "(declare-const " + sym + " " + Sort(k) + ")\n" }

// OpFormat is the translation of an opcode.
//
//verif:opaque
func OpFormat(op ast.Opcode) string {
	switch op {
	case "Add8", "Add16", "Add32", "Add64":
		return "(bvadd %s %s)"
	case "Sub8", "Sub16", "Sub32", "Sub64":
		return "(bvsub %s %s)"
	case "And8", "And16", "And32", "And64":
		return "(bvand %s %s)"
	case "Or8", "Or16", "Or32", "Or64":
		return "(bvor %s %s)"
	case "Xor8", "Xor16", "Xor32", "Xor64":
		return "(bvxor %s %s)"
	case "Neg8", "Neg16", "Neg32", "Neg64":
		return "(bvneg %s)"
	case "Com8", "Com16", "Com32", "Com64":
		return "(bvnot %s)"
	case "AndB":
		return "(and %s %s)"
	case "OrB":
		return "(or %s %s)"
	case "EqB":
		return "(= %s %s)"
	case "NeqB":
		return "(not (= %s %s))"
	case "Not":
		return "(not %s)"
	}
	return ""
}

// OpKind is the kind of the operands and the result of an opcode (signed, for
// integers), 0 if the opcode is not known.
//
//verif:opaque
func OpKind(op ast.Opcode) int {
	switch op {
	case "Add8", "Sub8", "And8", "Or8", "Xor8", "Neg8", "Com8":
		return kInt8
	case "Add16", "Sub16", "And16", "Or16", "Xor16", "Neg16", "Com16":
		return kInt16
	case "Add32", "Sub32", "And32", "Or32", "Xor32", "Neg32", "Com32":
		return kInt32
	case "Add64", "Sub64", "And64", "Or64", "Xor64", "Neg64", "Com64":
		return kInt64
	case "AndB", "OrB", "EqB", "NeqB", "Not":
		return kBool
	}
	return 0
}

// Unsigned is the unsigned kind of the same width.
func Unsigned(k int) int { return k + 5 }

// Known: the opcode can be translated.
//
//verif:opaque
func Known(op ast.Opcode) bool { return OpKind(op) != 0 }

// OpVariants is the number of kinds the opcode works on.
//
//verif:opaque
func OpVariants(op ast.Opcode) int {
	if OpKind(op) == kBool {
		return 1
	}
	return 2
}

// OpArity is the number of operands.
//
//verif:opaque
func OpArity(op ast.Opcode) int {
	switch op {
	case "Neg8", "Neg16", "Neg32", "Neg64", "Com8", "Com16", "Com32", "Com64", "Not":
		return 1
	}
	return 2
}

// OpResult is the kind of operands and result where a kind is asked for (0: any),
// 0 if the opcode does not give it.
//
//verif:opaque
func OpResult(op ast.Opcode, k int) int {
	if k == 0 || k == OpKind(op) {
		return OpKind(op)
	}
	if OpVariants(op) == 2 && k == Unsigned(OpKind(op)) {
		return k
	}
	return 0
}

// Plain: the value has none of the features that cannot be translated.
func Plain(v ast.Value) bool {
	switch x := v.(type) {
	case ast.Variable:
		return true
	case *ast.SExpr:
		return PlainSExpr(x)
	default:
		return false
	}
}

// PlainSExpr is Plain of an application.
func PlainSExpr(s *ast.SExpr) bool {
	_, op := s.Op.(ast.Opcode)
	return op && s.Binding == "" && s.Type == "" && s.AuxInt == nil && s.Aux == nil && !s.Ellipsis && !s.Trailing &&
		PlainArgs(s.Args, len(s.Args))
}

// PlainArgs is Plain of the first k arguments.
func PlainArgs(as []ast.Value, k int) bool {
	return k <= 0 || PlainArgs(as, k-1) && Plain(as[k-1])
}

// Translatable: the rule has none of the features that cannot be translated.
func Translatable(r *ast.Rule) bool {
	return r.Condition == nil && r.Block == "" && Plain(r.Match) && Plain(r.Result)
}
