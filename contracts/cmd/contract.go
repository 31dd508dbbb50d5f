package main

//verif:file C17

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
	"github.com/mmcloughlin/ssarules/smt2"
)

// ---- what is to be translated ------------------------------------------------------

// Simple: the rule has none of the features that are left out.
func Simple(r *ast.Rule) bool {
	return r.Condition == nil && r.Block == "" &&
		!z.HasK(z.FBinding, r) && !z.HasK(z.FType, r) && !z.HasK(z.FAux, r) &&
		!z.HasK(z.FAuxInt, r) && !z.HasK(z.FEllipsis, r) && !z.HasK(z.FTrailing, r)
}

// AllRules are the rules of the first k files, in order.
func AllRules(names []string, k int) []*ast.Rule {
	if k <= 0 {
		return nil
	}
	return append(AllRules(names, k-1), z.ParsedRules(names[k-1])...)
}

// Simples are the simple rules among the first k, in order.
func Simples(rs []*ast.Rule, k int) []*ast.Rule {
	if k <= 0 {
		return nil
	}
	if Simple(rs[k-1]) {
		return append(Simples(rs, k-1), rs[k-1])
	}
	return Simples(rs, k-1)
}

// FirstErr is the first error of parsing the first k files.
func FirstErr(names []string, k int) error {
	if k <= 0 {
		return nil
	}
	if e := FirstErr(names, k-1); e != nil {
		return e
	}
	return z.ParseErr(names[k-1])
}

// Kept are the rules the command keeps of its files.
func Kept(names []string) []*ast.Rule {
	rs := AllRules(names, len(names))
	return Simples(rs, len(rs))
}

// Loads: the files can be read and parsed and what is kept can be expanded.
func Loads(names []string) bool {
	return FirstErr(names, len(names)) == nil && z.CntAll(Kept(names), len(Kept(names)))
}

// Todo are the rules to translate.
func Todo(names []string) []*ast.Rule { return z.ExpandAll(Kept(names), len(Kept(names))) }

// Has: a script can be generated for the rule.
func Has(r *ast.Rule) bool { return smt2.Body(r).OK && z.Translatable(r) }

// Script is the script of a rule.
func Script(r *ast.Rule) string { return smt2.Header(r) + smt2.Body(r).Text }

// OutputOf is the file for the i-th rule.
func OutputOf(r *ast.Rule, i int) z.Output {
	return z.Output{
		Name: z.JoinPath(z.CmdFlag("outdir"), z.Sprintf("%04d.smt2", []interface{}{i})),
		Text: Script(r),
	}
}

// Outputs are the files for the first k rules, in order.
func Outputs(rs []*ast.Rule, k int) []z.Output {
	if k <= 0 {
		return nil
	}
	if Has(rs[k-1]) {
		return append(Outputs(rs, k-1), OutputOf(rs[k-1], k-1))
	}
	return Outputs(rs, k-1)
}

// Unprintable: one of the first k rules cannot be printed.
func Unprintable(rs []*ast.Rule, k int) bool {
	return k > 0 && (Unprintable(rs, k-1) || z.BadNode(rs[k-1]).Is)
}

// Begins: the first list begins the second.
func Begins(a, b []z.Output) bool {
	return len(a) <= len(b) && z.Forall(0, len(a), func(i int) bool { return z.Eq(a[i], b[i]) })
}

// ---- load ----------------------------------------------------------------------

//verif:post load C17
func post_load_parse(names []string, f *ast.File, err error) bool {
	e := FirstErr(names, len(names))
	return z.Implies(e != nil, err != nil && (err == e || z.Wrapped(err) == e))
}

//verif:post load C17
func post_load_error(names []string, f *ast.File, err error) bool {
	return z.Iff(err == nil, Loads(names))
}

//verif:post load C17
func post_load_rules(names []string, f *ast.File, err error) bool {
	return z.Implies(err == nil, f != nil && z.Eq(f.Rules, Todo(names)))
}

//verif:post load C17
func post_load_well(names []string, f *ast.File, err error) bool {
	return z.Implies(err == nil, z.Wells(f.Rules, len(f.Rules)))
}

//verif:post load C17
func post_load_quiet(names []string, f *ast.File, err error, w0, w1 z.World) bool {
	return z.Same(w0, w1)
}

//verif:inv load C17
func inv_load_rules(names []string, rs []*ast.Rule, k int) bool {
	return z.Eq(rs, AllRules(names, k))
}

//verif:inv load C17
func inv_load_err(names []string, rs []*ast.Rule, k int) bool {
	return FirstErr(names, k) == nil
}

//verif:inv load C17
func inv_load_next(names []string, rs []*ast.Rule, k int) bool {
	return z.Implies(0 <= k && k < len(names) && FirstErr(names, k+1) != nil,
		FirstErr(names, len(names)) == FirstErr(names, k+1))
}

//verif:inv load C17
func inv_load_well(names []string, rs []*ast.Rule, k int) bool {
	return z.Wells(rs, len(rs))
}

//verif:inv load C17
func inv_load_simple(names []string, rs []*ast.Rule, s ast.File, k int) bool {
	return z.Eq(s.Rules, Simples(rs, k))
}

//verif:inv load C17
func inv_load_simplewell(names []string, rs []*ast.Rule, s ast.File, k int) bool {
	return z.Wells(s.Rules, len(s.Rules))
}

// The same of rules gathered in a slice of their own.
//
//verif:inv load C17
func inv_load_kept(names []string, rs, simple []*ast.Rule, k int) bool {
	return z.Eq(simple, Simples(rs, k))
}

//verif:inv load C17
func inv_load_keptwell(names []string, simple []*ast.Rule, k int) bool {
	return z.Wells(simple, len(simple))
}

// Rules taken over one by one.
//
//verif:inv load C17
func inv_load_one(names []string, rs, rs_in []*ast.Rule, f *ast.File, k int) bool {
	return 0 <= k && k <= len(f.Rules) && z.Eq(rs, append(rs_in, f.Rules[:k]...))
}

//verif:inv load C17
func inv_load_same(names []string, k int, w_in, w z.World) bool { return z.Same(w_in, w) }

// ---- run -----------------------------------------------------------------------

//verif:pre run C17
func pre_run(w0 z.World) bool { return len(z.Files(w0)) == 0 && z.FileErr(w0) == nil }

//verif:post run C17
func post_run_all(err error, w0, w1 z.World) bool {
	names := z.CmdArgs()
	rs := Todo(names)
	return z.Implies(err == nil, Loads(names) && !Unprintable(rs, len(rs)) &&
		z.FileErr(w1) == nil && z.Eq(z.Files(w1), Outputs(rs, len(rs))))
}

//verif:post run C17
func post_run_load(err error, w0, w1 z.World) bool {
	names := z.CmdArgs()
	e := FirstErr(names, len(names))
	return z.Implies(!Loads(names), err != nil && len(z.Files(w1)) == 0) &&
		z.Implies(e != nil, err == e || z.Wrapped(err) == e)
}

//verif:post run C17
func post_run_error(err error, w0, w1 z.World) bool {
	names := z.CmdArgs()
	rs := Todo(names)
	e := z.FileErr(w1)
	return z.Implies(err != nil && Loads(names),
		Begins(z.Files(w1), Outputs(rs, len(rs))) &&
			z.Implies(e != nil, err == e || z.Wrapped(err) == e) &&
			(e != nil || Unprintable(rs, len(rs))))
}

//verif:post run C17
func post_run_died(err error, w0, w1 z.World) bool { return z.Iff(z.Died(w1), z.Died(w0)) }

//verif:inv run C17
func inv_run_files(f *ast.File, k int, w z.World) bool {
	return z.Eq(z.Files(w), Outputs(f.Rules, k))
}

//verif:inv run C17
func inv_run_err(f *ast.File, k int, w z.World) bool {
	return z.FileErr(w) == nil && !Unprintable(f.Rules, k) && z.FlagsSet(w)
}

//verif:inv run C17
func inv_run_died(k int, w_in, w z.World) bool { return z.Iff(z.Died(w), z.Died(w_in)) }

//verif:inv run C17
func inv_run_next(f *ast.File, k int) bool {
	return z.Implies(0 <= k && k < len(f.Rules),
		Begins(Outputs(f.Rules, k+1), Outputs(f.Rules, len(f.Rules))) &&
			z.Implies(Unprintable(f.Rules, k+1), Unprintable(f.Rules, len(f.Rules))))
}

//verif:inv run C17
func inv_run_range(f *ast.File, k int) bool { return 0 <= k && k <= len(f.Rules) }

//verif:inv run C17
func inv_run_wells(f *ast.File) bool { return z.Wells(f.Rules, len(f.Rules)) }

//verif:inv run C17
func inv_run_todo(f *ast.File) bool {
	return Loads(z.CmdArgs()) && z.Eq(f.Rules, Todo(z.CmdArgs()))
}

// ---- main ----------------------------------------------------------------------

//verif:pre main C17
func pre_main(w0 z.World) bool {
	return len(z.Files(w0)) == 0 && z.FileErr(w0) == nil && !z.Died(w0)
}

//verif:post main C17
func post_main_all(w0, w1 z.World) bool {
	names := z.CmdArgs()
	rs := Todo(names)
	return z.Implies(!z.Died(w1), Loads(names) && !Unprintable(rs, len(rs)) &&
		z.FileErr(w1) == nil && z.Eq(z.Files(w1), Outputs(rs, len(rs))))
}

//verif:post main C17
func post_main_died(w0, w1 z.World) bool {
	names := z.CmdArgs()
	rs := Todo(names)
	return z.Implies(z.Died(w1), !Loads(names) || Unprintable(rs, len(rs)) || z.FileErr(w1) != nil) &&
		z.Implies(!Loads(names), len(z.Files(w1)) == 0)
}

// ---- lemmas --------------------------------------------------------------------

//verif:lemma C17
func begins(rs []*ast.Rule, k, m int) bool {
	return z.Implies(0 <= k && k <= m && m <= len(rs), Begins(Outputs(rs, k), Outputs(rs, m)))
}

func dec_begins(rs []*ast.Rule, k, m int) int { return m }

func trig_begins(rs []*ast.Rule, k, m int) []interface{} {
	return []interface{}{Outputs(rs, k), Outputs(rs, m)}
}

//verif:lemma C17
func unprintableAt(rs []*ast.Rule, k, m int) bool {
	return z.Implies(0 <= k && k <= m && Unprintable(rs, k), Unprintable(rs, m))
}

func dec_unprintableAt(rs []*ast.Rule, k, m int) int { return m }

func trig_unprintableAt(rs []*ast.Rule, k, m int) []interface{} {
	return []interface{}{Unprintable(rs, k), Unprintable(rs, m)}
}

//verif:lemma C17
func firstErrAt(names []string, k, m int) bool {
	return z.Implies(0 <= k && k <= m && FirstErr(names, k) != nil, FirstErr(names, m) == FirstErr(names, k))
}

func dec_firstErrAt(names []string, k, m int) int { return m }

func trig_firstErrAt(names []string, k, m int) []interface{} {
	return []interface{}{FirstErr(names, k), FirstErr(names, m)}
}

// ---- well-formed rules -----------------------------------------------------------

//verif:lemma C17 Well
func wellIs(r *ast.Rule) bool {
	return z.Implies(z.Well(r), r != nil && z.WfNode(r) && z.WfRule(r) && z.WfPrint(r))
}

func trig_wellIs(r *ast.Rule) []interface{} { return []interface{}{z.Well(r)} }

//verif:lemma C17
func wellsAt(rs []*ast.Rule, k, j int) bool {
	return z.Implies(0 <= j && j < k && z.Wells(rs, k), z.Well(rs[j]))
}

func dec_wellsAt(rs []*ast.Rule, k, j int) int { return k }

func trig_wellsAt(rs []*ast.Rule, k, j int) []interface{} {
	return []interface{}{z.Wells(rs, k), rs[j]}
}

//verif:lemma C17
func wellsPush(rs []*ast.Rule, r *ast.Rule, k int) bool {
	return z.Implies(k <= len(rs), z.Iff(z.Wells(append(rs, r), k), z.Wells(rs, k)))
}

func dec_wellsPush(rs []*ast.Rule, r *ast.Rule, k int) int { return k }

func trig_wellsPush(rs []*ast.Rule, r *ast.Rule, k int) []interface{} {
	return []interface{}{z.Wells(append(rs, r), k)}
}

//verif:lemma C17
func wellsFirst(a, b []*ast.Rule, k int) bool {
	return z.Implies(k <= len(a), z.Iff(z.Wells(append(a, b...), k), z.Wells(a, k)))
}

func dec_wellsFirst(a, b []*ast.Rule, k int) int { return k }

func trig_wellsFirst(a, b []*ast.Rule, k int) []interface{} {
	return []interface{}{z.Wells(append(a, b...), k)}
}

//verif:lemma C17
func wellsBoth(a, b []*ast.Rule, k int) bool {
	return z.Implies(0 <= k && k <= len(b) && z.Wells(a, len(a)) && z.Wells(b, k), z.Wells(append(a, b...), len(a)+k))
}

func dec_wellsBoth(a, b []*ast.Rule, k int) int { return k }

func trig_wellsBoth(a, b []*ast.Rule, k int) []interface{} {
	return []interface{}{z.Wells(append(a, b...), len(a)+k)}
}

//verif:lemma C17
func wellsCat(a, b []*ast.Rule) bool {
	z.Use(wellsBoth(a, b, len(b)))
	return z.Implies(z.Wells(a, len(a)) && z.Wells(b, len(b)), z.Wells(append(a, b...), len(append(a, b...))))
}

func trig_wellsCat(a, b []*ast.Rule) []interface{} {
	return []interface{}{append(a, b...)}
}

//verif:lemma C17
func wellsWf(rs []*ast.Rule, k int) bool {
	return z.Implies(z.Wells(rs, k), z.WfRules(rs, k))
}

func dec_wellsWf(rs []*ast.Rule, k int) int { return k }

func trig_wellsWf(rs []*ast.Rule, k int) []interface{} {
	return []interface{}{z.WfRules(rs, k)}
}

// ---- the expansion of well-formed rules is well-formed ------------------------------

// Sound: the pattern holds no nil pointers.
func Sound(v ast.Value) bool { return z.WfNode(v) && z.WfVal(v) && z.WfPrint(v) }

// Sounds: the first k patterns hold no nil pointers.
func Sounds(as []ast.Value, k int) bool { return k <= 0 || (Sounds(as, k-1) && Sound(as[k-1])) }

//verif:lemma C17
func soundsIs(as []ast.Value, k int) bool {
	return z.Iff(Sounds(as, k), z.WfArgNodes(as, k) && z.WfPrintArgs(as, k) && z.WfVals(as, k))
}

func dec_soundsIs(as []ast.Value, k int) int { return k }

func trig_soundsIs(as []ast.Value, k int) []interface{} { return []interface{}{Sounds(as, k)} }

//verif:lemma C17
func soundsAt(as []ast.Value, k, j int) bool {
	return z.Implies(0 <= j && j < k && Sounds(as, k), Sound(as[j]))
}

func dec_soundsAt(as []ast.Value, k, j int) int { return k }

func trig_soundsAt(as []ast.Value, k, j int) []interface{} {
	return []interface{}{Sounds(as, k), as[j]}
}

//verif:lemma C17
func instLen(args []ast.Value, i, k int) bool {
	return z.Implies(0 <= k, len(z.InstArgs(args, i, k)) == k)
}

func dec_instLen(args []ast.Value, i, k int) int { return k }

func trig_instLen(args []ast.Value, i, k int) []interface{} {
	return []interface{}{z.InstArgs(args, i, k)}
}

//verif:lemma C17
func instAt(args []ast.Value, i, k, j int) bool {
	return z.Implies(0 <= j && j < k, z.Eq(z.InstArgs(args, i, k)[j], z.InstVal(args[j], i)))
}

func dec_instAt(args []ast.Value, i, k, j int) int { return k }

func trig_instAt(args []ast.Value, i, k, j int) []interface{} {
	return []interface{}{z.InstArgs(args, i, k)[j]}
}

// If the instances of the arguments hold no nil pointers, neither does the list.
//
//verif:lemma C17
func soundInsts(args []ast.Value, i, n, k int) bool {
	return z.Implies(0 <= k && k <= n && z.Forall(0, n, func(j int) bool { return Sound(z.InstVal(args[j], i)) }),
		Sounds(z.InstArgs(args, i, n), k))
}

func dec_soundInsts(args []ast.Value, i, n, k int) int { return k }

func trig_soundInsts(args []ast.Value, i, n, k int) []interface{} {
	return []interface{}{Sounds(z.InstArgs(args, i, n), k)}
}

//verif:lemma C17
func soundInst(v ast.Value, i int) bool {
	s, _ := v.(*ast.SExpr)
	z.Use(soundsIs(s.Args, len(s.Args)))
	z.Use(soundsIs(z.InstArgs(s.Args, i, len(s.Args)), len(s.Args)))
	return z.Implies(Sound(v), Sound(z.InstVal(v, i)))
}

func dec_soundInst(v ast.Value, i int) int { return z.Rank(v) }

func trig_soundInst(v ast.Value, i int) []interface{} { return []interface{}{z.InstVal(v, i)} }

//verif:lemma C17 Well
func wellInst(r *ast.Rule, i int) bool {
	z.Use(soundInst(r.Match, i))
	z.Use(soundInst(r.Result, i))
	return z.Implies(z.Well(r), z.Well(z.InstRule(r, i)))
}

//verif:lemma C17
func wellInsts(r *ast.Rule, n int) bool {
	z.Use(wellInst(r, n-1))
	return z.Implies(z.Well(r), z.Wells(z.Insts(r, n), len(z.Insts(r, n))))
}

func dec_wellInsts(r *ast.Rule, n int) int { return n }

func trig_wellInsts(r *ast.Rule, n int) []interface{} {
	return []interface{}{z.Insts(r, n)}
}

//verif:lemma C17
func wellAll(rs []*ast.Rule, k int) bool {
	return z.Implies(0 <= k && k <= len(rs) && z.Wells(rs, len(rs)), z.Wells(z.ExpandAll(rs, k), len(z.ExpandAll(rs, k))))
}

func dec_wellAll(rs []*ast.Rule, k int) int { return k }

func trig_wellAll(rs []*ast.Rule, k int) []interface{} {
	return []interface{}{z.ExpandAll(rs, k)}
}
