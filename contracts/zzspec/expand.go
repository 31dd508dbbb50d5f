package zzspec

import "github.com/mmcloughlin/ssarules/ast"

// ---- C01, C02: expansion of alternations ----------------------------------

// Combine reconciles two numbers of choices: 0 means impossible.
func Combine(m, n int) int {
	if m <= 0 || n <= 0 {
		return 0
	}
	if m > 1 && n > 1 && m != n {
		return 0
	}
	if m > n {
		return m
	}
	return n
}

// Clamp picks the i-th of n choices; a single choice serves every instance.
func Clamp(i, n int) int {
	if n == 1 {
		return 0
	}
	return i
}

// KnownParts reports whether the first k pieces of an opcode are of known kinds.
func KnownParts(parts ast.OpcodeParts, k int) bool {
	if k <= 0 {
		return true
	}
	switch parts[k-1].(type) {
	case ast.Opcode:
		return KnownParts(parts, k-1)
	case ast.OpcodeAlt:
		return KnownParts(parts, k-1)
	default:
		return false
	}
}

// CntParts is the number of instances of the first k pieces of an opcode, as
// far as they are of known kinds.
func CntParts(parts ast.OpcodeParts, k int) int {
	if k <= 0 {
		return 1
	}
	switch p := parts[k-1].(type) {
	case ast.OpcodeAlt:
		return Combine(CntParts(parts, k-1), len(p))
	default:
		return CntParts(parts, k-1)
	}
}

// CntOp is the number of instances of an opcode, 0 if it has none.
func CntOp(op ast.Op) int {
	switch o := op.(type) {
	case ast.Opcode:
		return 1
	case ast.OpcodeParts:
		if !KnownParts(o, len(o)) {
			return 0
		}
		n := CntParts(o, len(o))
		if n == 1 {
			return 0 // pieces that offer no choice
		}
		return n
	default:
		return 0
	}
}

// CntArgs combines n with the number of instances of the first k arguments.
func CntArgs(n int, args []ast.Value, k int) int {
	if k <= 0 {
		return n
	}
	return Combine(CntArgs(n, args, k-1), CntVal(args[k-1]))
}

// CntVal is the number of instances of a pattern, 0 if it has none.
func CntVal(v ast.Value) int {
	switch s := v.(type) {
	case *ast.SExpr:
		return CntArgs(CntOp(s.Op), s.Args, len(s.Args))
	case *ast.Expr:
		return 1
	case ast.Variable:
		return 1
	default:
		return 0
	}
}

// CntRule is the number of instances of a rule, 0 if it has none.
func CntRule(r *ast.Rule) int {
	return Combine(CntVal(r.Match), CntVal(r.Result))
}

// CntAll reports whether each of the first k rules has instances.
func CntAll(rs []*ast.Rule, k int) bool {
	if k <= 0 {
		return true
	}
	return CntAll(rs, k-1) && CntRule(rs[k-1]) > 0
}

// JoinParts is the i-th instance of the first k pieces of an opcode.
func JoinParts(parts ast.OpcodeParts, i int, k int) ast.Opcode {
	if k <= 0 {
		return ""
	}
	switch p := parts[k-1].(type) {
	case ast.Opcode:
		return JoinParts(parts, i, k-1) + p
	case ast.OpcodeAlt:
		return JoinParts(parts, i, k-1) + p[Clamp(i, len(p))]
	default:
		return JoinParts(parts, i, k-1)
	}
}

// InstOp is the i-th instance of an opcode.
func InstOp(op ast.Op, i int) ast.Opcode {
	switch o := op.(type) {
	case ast.Opcode:
		return o
	case ast.OpcodeParts:
		return JoinParts(o, i, len(o))
	default:
		return ""
	}
}

// InstArgs are the i-th instances of the first k arguments.
func InstArgs(args []ast.Value, i int, k int) []ast.Value {
	if k <= 0 {
		return nil
	}
	return append(InstArgs(args, i, k-1), InstVal(args[k-1], i))
}

// InstVal is the i-th instance of a pattern.
func InstVal(v ast.Value, i int) ast.Value {
	switch s := v.(type) {
	case *ast.SExpr:
		return &ast.SExpr{
			Binding:  s.Binding,
			Op:       InstOp(s.Op, i),
			Type:     s.Type,
			AuxInt:   s.AuxInt,
			Aux:      s.Aux,
			Args:     InstArgs(s.Args, i, len(s.Args)),
			Ellipsis: s.Ellipsis,
			Trailing: s.Trailing,
		}
	default:
		return v
	}
}

// InstRule is the i-th instance of a rule.
func InstRule(r *ast.Rule, i int) *ast.Rule {
	return &ast.Rule{
		Match:     InstVal(r.Match, i),
		Condition: r.Condition,
		Block:     r.Block,
		Result:    InstVal(r.Result, i),
	}
}

// Insts are the first n instances of a rule, in order.
func Insts(r *ast.Rule, n int) []*ast.Rule {
	if n <= 0 {
		return nil
	}
	return append(Insts(r, n-1), InstRule(r, n-1))
}

// ExpandAll is the expansion of the first k rules, in order.
func ExpandAll(rs []*ast.Rule, k int) []*ast.Rule {
	if k <= 0 {
		return nil
	}
	return append(ExpandAll(rs, k-1), Insts(rs[k-1], CntRule(rs[k-1]))...)
}

// ---- trees without nil pointers --------------------------------------------

// WfVals: the first k patterns are free of nil pointers.
func WfVals(vs []ast.Value, k int) bool {
	if k <= 0 {
		return true
	}
	return WfVals(vs, k-1) && WfVal(vs[k-1])
}

// WfVal: the pattern is free of nil pointers.
func WfVal(v ast.Value) bool {
	switch s := v.(type) {
	case *ast.SExpr:
		return s != nil && WfVals(s.Args, len(s.Args))
	case *ast.Expr:
		return s != nil
	default:
		return true
	}
}

// WfRule: the rule is free of nil pointers.
func WfRule(r *ast.Rule) bool {
	return r != nil && WfVal(r.Match) && WfVal(r.Result)
}

// WfRules: the first k rules are free of nil pointers.
func WfRules(rs []*ast.Rule, k int) bool {
	if k <= 0 {
		return true
	}
	return WfRules(rs, k-1) && WfRule(rs[k-1])
}
