package pass

import (
	"github.com/mmcloughlin/ssarules/ast"
	. "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:inline idx

// ---- counts

//verif:post resolvecounts C01,C02,C03
func post_resolvecounts(m, n int, c int, err error) bool {
	return Iff(err == nil, Combine(m, n) > 0) && Implies(err == nil, c == Combine(m, n))
}

// ---- opcodes

//verif:post expandopcodeparts C01,C02,C03
func post_expandopcodeparts_error(parts ast.OpcodeParts, os []ast.Opcode, err error) bool {
	return Iff(err == nil, CntOp(parts) > 0)
}

//verif:post expandopcodeparts C01,C02,C03
func post_expandopcodeparts_count(parts ast.OpcodeParts, os []ast.Opcode, err error) bool {
	return Implies(err == nil, len(os) == CntOp(parts))
}

//verif:post expandopcodeparts C01
func post_expandopcodeparts_exact(parts ast.OpcodeParts, os []ast.Opcode, err error) bool {
	return Implies(err == nil, Forall(0, len(os), func(i int) bool { return os[i] == JoinParts(parts, i, len(parts)) }))
}

//verif:inv expandopcodeparts C01,C02,C03
func inv_expandopcodeparts_n(parts ast.OpcodeParts, k int, n int) bool {
	return 0 <= k && k <= len(parts) && n == CntParts(parts, k) && n > 0
}

//verif:inv expandopcodeparts C01,C02,C03
func inv_expandopcodeparts_fit(parts ast.OpcodeParts, k int, n int) bool {
	return Forall(0, k, func(j int) bool {
		a, ok := parts[j].(ast.OpcodeAlt)
		return Implies(ok, len(a) == 1 || len(a) == n)
	})
}

//verif:inv expandopcodeparts C01,C02,C03
func inv_expandopcodeparts_known(parts ast.OpcodeParts, k int) bool {
	return KnownParts(parts, k)
}

//verif:inv expandopcodeparts C01,C02,C03
func inv_expandopcodeparts_knownall(parts ast.OpcodeParts, k int) bool {
	return Implies(k > 0, KnownParts(parts, len(parts)))
}

//verif:inv expandopcodeparts C01,C02,C03
func inv_expandopcodeparts_len(parts ast.OpcodeParts, alts []ast.Opcode, n int) bool {
	return len(alts) == n
}

//verif:inv expandopcodeparts C01
func inv_expandopcodeparts_done(parts ast.OpcodeParts, alts []ast.Opcode, i int) bool {
	return Forall(0, i, func(j int) bool { return alts[j] == JoinParts(parts, j, len(parts)) })
}

//verif:inv expandopcodeparts C01
func inv_expandopcodeparts_todo(parts ast.OpcodeParts, alts []ast.Opcode, i int) bool {
	return Forall(i+1, len(alts), func(j int) bool { return alts[j] == "" })
}

//verif:inv expandopcodeparts C01
func inv_expandopcodeparts_todo0(parts ast.OpcodeParts, alts []ast.Opcode, i int) bool {
	return Forall(i, len(alts), func(j int) bool { return alts[j] == "" })
}

//verif:inv expandopcodeparts C01
func inv_expandopcodeparts_now(parts ast.OpcodeParts, alts []ast.Opcode, i int, k int) bool {
	return alts[i] == JoinParts(parts, i, k)
}

//verif:post expandop C01,C02,C03
func post_expandop_error(op ast.Op, os []ast.Opcode, err error) bool {
	return Iff(err == nil, CntOp(op) > 0)
}

//verif:post expandop C01,C02,C03
func post_expandop_count(op ast.Op, os []ast.Opcode, err error) bool {
	return Implies(err == nil, len(os) == CntOp(op))
}

//verif:post expandop C01
func post_expandop_exact(op ast.Op, os []ast.Opcode, err error) bool {
	return Implies(err == nil, Forall(0, len(os), func(i int) bool { return os[i] == InstOp(op, i) }))
}

// ---- patterns

//verif:pre expandvalue C01,C02,C03
func pre_expandvalue(v ast.Value) bool { return WfVal(v) }

//verif:post expandvalue C01,C02,C03
func post_expandvalue_error(v ast.Value, vs []ast.Value, err error) bool {
	return Iff(err == nil, CntVal(v) > 0)
}

//verif:post expandvalue C01,C02,C03
func post_expandvalue_count(v ast.Value, vs []ast.Value, err error) bool {
	return Implies(err == nil, len(vs) == CntVal(v))
}

//verif:post expandvalue C01
func post_expandvalue_exact(v ast.Value, vs []ast.Value, err error) bool {
	return Implies(err == nil, Forall(0, len(vs), func(i int) bool { return Eq(vs[i], InstVal(v, i)) }))
}

//verif:pre expandsexpr C01,C02,C03
func pre_expandsexpr(s *ast.SExpr) bool { return s != nil && WfVal(s) }

//verif:post expandsexpr C01,C02,C03
func post_expandsexpr_error(s *ast.SExpr, vs []ast.Value, err error) bool {
	return Iff(err == nil, CntVal(s) > 0)
}

//verif:post expandsexpr C01,C02,C03
func post_expandsexpr_count(s *ast.SExpr, vs []ast.Value, err error) bool {
	return Implies(err == nil, len(vs) == CntVal(s))
}

//verif:post expandsexpr C01
func post_expandsexpr_exact(s *ast.SExpr, vs []ast.Value, err error) bool {
	return Implies(err == nil, Forall(0, len(vs), func(i int) bool { return Eq(vs[i], InstVal(s, i)) }))
}

//verif:inv expandsexpr C01,C02,C03
func inv_expandsexpr_n(s *ast.SExpr, k int, n int) bool {
	return n == CntArgs(CntOp(s.Op), s.Args, k) && n > 0
}

//verif:inv expandsexpr C01,C02,C03
func inv_expandsexpr_len(s *ast.SExpr, k int, expargs [][]ast.Value) bool {
	return len(expargs) == k
}

//verif:inv expandsexpr C01,C02,C03
func inv_expandsexpr_fit(s *ast.SExpr, k int, n int, expargs [][]ast.Value) bool {
	return Forall(0, k, func(j int) bool {
		return len(expargs[j]) == CntVal(s.Args[j]) && (len(expargs[j]) == 1 || len(expargs[j]) == n)
	})
}

//verif:inv expandsexpr C01,C02,C03
func inv_expandsexpr_fitop(s *ast.SExpr, n int) bool {
	return CntOp(s.Op) == 1 || CntOp(s.Op) == n
}

//verif:inv expandsexpr C01
func inv_expandsexpr_args(s *ast.SExpr, k int, expargs [][]ast.Value) bool {
	return Forall(0, k, func(j int) bool {
		return Forall(0, len(expargs[j]), func(i int) bool { return Eq(expargs[j][i], InstVal(s.Args[j], i)) })
	})
}

//verif:inv expandsexpr C01,C02,C03
func inv_expandsexpr_made(s *ast.SExpr, k int, vs []ast.Value) bool {
	return len(vs) == k
}

//verif:inv expandsexpr C01
func inv_expandsexpr_vs(s *ast.SExpr, k int, vs []ast.Value) bool {
	return Forall(0, k, func(i int) bool { return Eq(vs[i], InstVal(s, i)) })
}

//verif:inv expandsexpr C01
func inv_expandsexpr_instargs(s *ast.SExpr, k int, i int, args []ast.Value) bool {
	return Eq(args, InstArgs(s.Args, i, k))
}

// ---- rules

//verif:pre expandrule C01,C02,C03
func pre_expandrule(r *ast.Rule) bool { return WfRule(r) }

//verif:post expandrule C01,C02,C03
func post_expandrule_error(r *ast.Rule, rs []*ast.Rule, err error) bool {
	return Iff(err == nil, CntRule(r) > 0)
}

//verif:post expandrule C01
func post_expandrule_exact(r *ast.Rule, rs []*ast.Rule, err error) bool {
	return Implies(err == nil, Eq(rs, Insts(r, CntRule(r))))
}

//verif:inv expandrule C01
func inv_expandrule(r *ast.Rule, k int, rules []*ast.Rule) bool {
	return Eq(rules, Insts(r, k))
}

//verif:pre expandrules C01,C02,C03
func pre_expandrules(rs []*ast.Rule) bool { return WfRules(rs, len(rs)) }

//verif:post expandrules C01,C02,C03
func post_expandrules_error(rs []*ast.Rule, es []*ast.Rule, err error) bool {
	return Iff(err == nil, CntAll(rs, len(rs)))
}

//verif:post expandrules C01
func post_expandrules_exact(rs []*ast.Rule, es []*ast.Rule, err error) bool {
	return Implies(err == nil, Eq(es, ExpandAll(rs, len(rs))))
}

//verif:inv expandrules C01,C02,C03
func inv_expandrules_ok(rs []*ast.Rule, k int) bool {
	return CntAll(rs, k)
}

//verif:inv expandrules C01
func inv_expandrules_done(rs []*ast.Rule, k int, exps []*ast.Rule) bool {
	return Eq(exps, ExpandAll(rs, k))
}

// ---- files

//verif:mutates ExpandAlternates 0

//verif:assume ExpandAlternates C17 proved under C01, C02 and C03

//verif:pre ExpandAlternates C01,C02,C03,C17
func pre_ExpandAlternates(f *ast.File) bool { return f != nil && WfRules(f.Rules, len(f.Rules)) }

//verif:post ExpandAlternates C01,C02,C03,C17
func post_ExpandAlternates_error(f *ast.File, err error, f1 *ast.File) bool {
	return Iff(err == nil, CntAll(f.Rules, len(f.Rules)))
}

//verif:post ExpandAlternates C02,C03
func post_ExpandAlternates_atomic(f *ast.File, err error, f1 *ast.File) bool {
	return Implies(err != nil, Eq(f1, f))
}

//verif:post ExpandAlternates C01,C17
func post_ExpandAlternates_exact(f *ast.File, err error, f1 *ast.File) bool {
	return Implies(err == nil, Eq(f1.Rules, ExpandAll(f.Rules, len(f.Rules))))
}

// ---- lemmas

// Parts of trees without nil pointers.
//
//verif:lemma C01,C02,C03
func wfValsAt(vs []ast.Value, k, j int) bool {
	return Implies(0 <= j && j < k && k <= len(vs) && WfVals(vs, k), WfVal(vs[j]))
}

func dec_wfValsAt(vs []ast.Value, k, j int) int { return k }

func trig_wfValsAt(vs []ast.Value, k, j int) []interface{} {
	return []interface{}{WfVals(vs, k), vs[j]}
}

//verif:lemma C01,C02,C03
func wfRulesAt(rs []*ast.Rule, k, j int) bool {
	return Implies(0 <= j && j < k && k <= len(rs) && WfRules(rs, k), WfRule(rs[j]))
}

func dec_wfRulesAt(rs []*ast.Rule, k, j int) int { return k }

func trig_wfRulesAt(rs []*ast.Rule, k, j int) []interface{} {
	return []interface{}{WfRules(rs, k), rs[j]}
}

// The number of instances is not below that of any part.
//
//verif:lemma C01,C02,C03
func cntArgsBase(n int, args []ast.Value, k int) bool {
	return Implies(0 <= k && k <= len(args) && CntArgs(n, args, k) > 0, n > 0 && n <= CntArgs(n, args, k))
}

func dec_cntArgsBase(n int, args []ast.Value, k int) int { return k }

func trig_cntArgsBase(n int, args []ast.Value, k int) []interface{} {
	return []interface{}{CntArgs(n, args, k)}
}

// The arguments of a pattern with one instance are their own instances,
// provided that holds for each.
//
//verif:lemma C01
func instArgsOne(n int, args []ast.Value, i, k int) bool {
	return Implies(0 <= k && k <= len(args) && CntArgs(n, args, k) == 1 &&
		Forall(0, len(args), func(j int) bool { return Implies(CntVal(args[j]) == 1, Eq(InstVal(args[j], i), args[j])) }),
		Eq(InstArgs(args, i, k), args[:k]))
}

func dec_instArgsOne(n int, args []ast.Value, i, k int) int { return k }

func trig_instArgsOne(n int, args []ast.Value, i, k int) []interface{} {
	return []interface{}{CntArgs(n, args, k), InstArgs(args, i, k)}
}

// A pattern with one instance is its own instance.
//
//verif:lemma C01
func instValOne(v ast.Value, i int) bool {
	return Implies(CntVal(v) == 1 && WfVal(v), Eq(InstVal(v, i), v))
}

func dec_instValOne(v ast.Value, i int) int { return Rank(v) }

func trig_instValOne(v ast.Value, i int) []interface{} {
	return []interface{}{CntVal(v), InstVal(v, i)}
}

// No instances of the first pieces: no instances at all.
//
//verif:lemma C01,C02,C03
func cntPartsZero(parts ast.OpcodeParts, k, m int) bool {
	return Implies(0 <= k && k < m && m <= len(parts) && CntParts(parts, k+1) == 0, CntParts(parts, m) == 0)
}

func dec_cntPartsZero(parts ast.OpcodeParts, k, m int) int { return m }

func trig_cntPartsZero(parts ast.OpcodeParts, k, m int) []interface{} {
	return []interface{}{CntParts(parts, k), CntParts(parts, m)}
}

//verif:lemma C01,C02,C03
func cntArgsZero(n int, args []ast.Value, k, m int) bool {
	return Implies(0 <= k && k < m && m <= len(args) && CntArgs(n, args, k+1) <= 0, CntArgs(n, args, m) <= 0)
}

func dec_cntArgsZero(n int, args []ast.Value, k, m int) int { return m }

func trig_cntArgsZero(n int, args []ast.Value, k, m int) []interface{} {
	return []interface{}{CntArgs(n, args, k), CntArgs(n, args, m)}
}

//verif:lemma C01,C02,C03
func knownPartsAt(parts ast.OpcodeParts, k, m int) bool {
	return Implies(0 <= k && k < m && m <= len(parts) && KnownParts(parts, m), KnownParts(parts, k+1))
}

func dec_knownPartsAt(parts ast.OpcodeParts, k, m int) int { return m }

func trig_knownPartsAt(parts ast.OpcodeParts, k, m int) []interface{} {
	return []interface{}{KnownParts(parts, k), KnownParts(parts, m)}
}

//verif:lemma C01,C02,C03
func cntAllAt(rs []*ast.Rule, k, m int) bool {
	return Implies(0 <= k && k < m && m <= len(rs) && CntAll(rs, m), CntAll(rs, k+1))
}

func dec_cntAllAt(rs []*ast.Rule, k, m int) int { return m }

func trig_cntAllAt(rs []*ast.Rule, k, m int) []interface{} {
	return []interface{}{CntAll(rs, k), CntAll(rs, m)}
}
