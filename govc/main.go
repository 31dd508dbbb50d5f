// Command govc is a deductive verifier for the subset of Go that this
// repository is written in. It reads contracts from overlay files, generates
// verification conditions from the SSA form of the real code and discharges
// them with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type unitReport struct {
	Name        string   `json:"name"`
	Pos         string   `json:"pos"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Failed      []failed `json:"failed,omitempty"`
	Error       string   `json:"error,omitempty"`
	Clauses     []string `json:"clauses,omitempty"`
	Calls       []string `json:"callee_contracts,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
	Externs     []string `json:"externs,omitempty"`
	Seconds     float64  `json:"seconds"`
	Kind        string   `json:"kind"`
	Reachable   bool     `json:"reachable,omitempty"` // returns are not refuted by the assumptions
}

type failed struct {
	Kind   string `json:"kind"`
	Label  string `json:"label"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Output string `json:"output,omitempty"`
	Goal   string `json:"goal,omitempty"`
}

type report struct {
	Property    string            `json:"property"`
	Units       []*unitReport     `json:"units"`
	Obligations int               `json:"obligations"`
	Discharged  int               `json:"discharged"`
	BySolver    map[string]int    `json:"by_solver"`
	SolverCalls int64             `json:"solver_calls"`
	SolverSecs  float64           `json:"solver_seconds"`
	WallSecs    float64           `json:"wall_seconds"`
	Externs     map[string]string `json:"externs"`
	Trusted     map[string]string `json:"trusted"`
	LoopsEnd    int               `json:"loops_shown_to_end"`
	LoopsOpen   []string          `json:"loops_not_shown_to_end,omitempty"`
	Missing     []string          `json:"missing,omitempty"`
	Errors      []string          `json:"errors,omitempty"`
	OK          bool              `json:"ok"`
}

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagSpec  = flag.String("contracts", "/verif/contracts", "contract overlay")
	flagProp  = flag.String("prop", "", "property")
	flagUnit  = flag.String("unit", "", "only units whose name contains this")
	flagOut   = flag.String("o", "", "report file")
	flagKeep  = flag.Bool("keep", false, "keep the queries")
	flagV     = flag.Bool("v", false, "verbose")
	flagSlow  = flag.Duration("slow", 15*time.Second, "solver time limit per query")
	flagWork  = flag.String("work", "", "work directory")
	flagTags  = flag.String("tags", "", "build tags")
	flagHints = flag.String("hints", "", "hints file to use")
	flagNew   = flag.String("newhints", "", "hints file to write")
	flagLimit = flag.Duration("budget", 0, "wall time after which no further obligation is tried")
	flagDecl  = flag.Bool("list", false, "list units only")
)

// overlayDirs maps contract directories to repository directories.
var overlayDirs = map[string]string{
	"zzspec":  "internal/zzspec",
	"errutil": "internal/errutil",
	"ast":     "ast",
	"pass":    "pass",
	"rules":   "rules",
	"printer": "printer",
	"smt2":    "smt2",
	"cmd":     "cmd/ssarules",
	"goexpr":  "parse/internal/goexpr",
	"parser":  "parse/internal/parser",
	"parse":   "parse",
}

// fileRE: a contract file that only some properties use.
var fileRE = regexp.MustCompile(`(?m)^//verif:file (\S+)`)

func makeOverlay() (map[string][]byte, error) {
	ov := map[string][]byte{}
	for d, r := range overlayDirs {
		fs, err := filepath.Glob(filepath.Join(*flagSpec, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if m := fileRE.FindSubmatch(b); m != nil && *flagProp != "" && !propSet(string(m[1]))[*flagProp] {
				continue
			}
			name := "zz_verif_" + filepath.Base(f)
			if d == "zzspec" {
				name = filepath.Base(f)
			}
			ov[filepath.Join(*flagRepo, r, name)] = b
		}
	}
	return ov, nil
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	rep := &report{Property: *flagProp, BySolver: map[string]int{}, Externs: map[string]string{}, Trusted: map[string]string{}}
	slowTimeout = *flagSlow
	if *flagLimit > 0 {
		budgetEnd = start.Add(*flagLimit)
	}
	keepQueries = *flagKeep
	verboseSolver = *flagV
	workDir = *flagWork
	if workDir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			fatal(err)
		}
		workDir = d
		if !keepQueries {
			defer os.RemoveAll(d)
		}
	}
	if *flagHints != "" {
		loadHints(*flagHints)
	}
	if err := run(rep); err != nil {
		rep.Errors = append(rep.Errors, err.Error())
	}
	if *flagNew != "" {
		if err := saveHints(*flagNew); err != nil {
			fatal(err)
		}
	}
	rep.OK = len(rep.Errors) == 0
	for _, u := range rep.Units {
		rep.Obligations += u.Obligations
		rep.Discharged += u.Discharged
		if u.Error != "" || u.Discharged != u.Obligations {
			rep.OK = false
		}
	}
	rep.SolverCalls = solverCalls
	rep.SolverSecs = float64(solverNanos) / 1e9
	rep.WallSecs = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(rep, "", "  ")
	if *flagOut != "" {
		os.WriteFile(*flagOut, append(b, '\n'), 0o644)
	}
	if *flagOut == "" || *flagV {
		for _, u := range rep.Units {
			st := "ok"
			if u.Error != "" {
				st = "ERROR " + u.Error
			} else if u.Discharged != u.Obligations {
				st = "FAILED"
			}
			fmt.Printf("%-50s %4d/%4d  %6.1fs  %s\n", u.Name, u.Discharged, u.Obligations, u.Seconds, st)
			for _, f := range u.Failed {
				fmt.Printf("    %s %s at %s: %s (%s)\n", f.Kind, f.Label, f.Pos, f.Status, f.Solver)
				if *flagV {
					fmt.Printf("      goal %s\n", f.Goal)
				}
			}
		}
		for _, e := range rep.Errors {
			fmt.Println("error:", e)
		}
		fmt.Printf("%s: %d/%d obligations, %d solver calls, %.1fs solver, %.1fs wall, ok=%v\n", rep.Property, rep.Discharged, rep.Obligations, rep.SolverCalls, rep.SolverSecs, rep.WallSecs, rep.OK)
	}
	if !rep.OK {
		if workDir != "" && *flagWork == "" && !keepQueries {
			os.RemoveAll(workDir)
		}
		os.Exit(1)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "govc:", err)
	os.Exit(2)
}

func run(rep *report) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedError); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	ov, err := makeOverlay()
	if err != nil {
		return err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     *flagRepo,
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	sort.Slice(pkgs, func(i, j int) bool {
		if a, b := pkgs[i].Name == "main", pkgs[j].Name == "main"; a != b {
			return b // commands last: their lemmas build on the others
		}
		return pkgs[i].PkgPath < pkgs[j].PkgPath
	})
	for _, p := range pkgs {
		for _, e := range p.Errors {
			rep.Errors = append(rep.Errors, e.Error())
		}
	}
	if len(rep.Errors) > 0 {
		return fmt.Errorf("the code and its contracts do not type-check")
	}
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	fns := ssautil.AllFunctions(prog)
	setup(pkgs, prog, fns)
	curProp = *flagProp
	var units []*Contract
	for _, c := range contractName {
		if c.fn == nil || c.inline || c.trusted != "" || c.assumed[curProp] != "" {
			continue
		}
		if len(c.get("post", curProp)) == 0 && !c.hasProp(curProp) {
			continue
		}
		if *flagUnit != "" && !strings.Contains(c.name, *flagUnit) {
			continue
		}
		units = append(units, c)
	}
	sort.Slice(units, func(i, j int) bool { return units[i].name < units[j].name })
	for _, n := range contractErrs {
		c := contractName[n]
		if c.hasProp(curProp) && !c.optional() {
			rep.Errors = append(rep.Errors, "no function for the contract of "+n)
		} else if c.hasProp(curProp) {
			rep.Missing = append(rep.Missing, n)
		}
	}
	var ls []*Lemma
	for _, l := range lemmaOrder {
		if l.activeFor(curProp) {
			ls = append(ls, l)
		}
	}
	if *flagDecl {
		for _, u := range units {
			fmt.Println(u.name)
		}
		for _, l := range ls {
			fmt.Println("lemma", l.name)
		}
		return nil
	}
	for _, l := range ls {
		if *flagUnit != "" && !strings.Contains(l.name, *flagUnit) {
			continue
		}
		rep.Units = append(rep.Units, proveLemma(l, ls, rep))
	}
	th := &theory{}
	usable = map[*SpecFn]bool{}
	for _, l := range ls {
		usable[l.spec] = true
		if l.trig != nil && !l.local {
			th.lemmas = append(th.lemmas, lemmaAxiom(l))
		}
	}
	for _, u := range units {
		rep.Units = append(rep.Units, verifyUnit(prog, u, th, rep))
	}
	for _, g := range grammarClauses {
		if (curProp == "" || g.props[curProp]) && (*flagUnit == "" || strings.Contains("table shapes "+g.name, *flagUnit)) {
			if g.kind == "shapes" {
				rep.Units = append(rep.Units, checkShapes(prog, g, th, rep))
				continue
			}
			rep.Units = append(rep.Units, checkGrammar(prog, g))
		}
	}
	loopReport(rep)
	if u := checkEnds(); u != nil {
		rep.Units = append(rep.Units, u)
	}
	for n, c := range contractName {
		if r := c.assumed[curProp]; r != "" && c.fn != nil {
			rep.Trusted[n] = r
		}
		if c.trusted != "" && c.fn != nil && (c.hasProp(curProp)) {
			rep.Trusted[n] = c.trusted
		}
	}
	return nil
}

func (c *Contract) hasProp(p string) bool {
	if p == "" {
		return true
	}
	return c.props[p]
}

// optional reports whether the contract is about an unexported function: one
// that is gone leaves its callers to be verified without it.
func (c *Contract) optional() bool {
	n := c.name[strings.LastIndex(c.name, ".")+1:]
	return !ast.IsExported(n)
}

func (l *Lemma) activeFor(p string) bool {
	return p == "" || len(l.props) == 0 || l.props[p]
}

// setup prepares the global tables.
func setup(pkgs []*packages.Package, prog *ssa.Program, fns map[*ssa.Function]bool) {
	ensureAny()
	// fmt.Stringer
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "fmt" {
			if o := p.Pkg.Scope().Lookup("Stringer"); o != nil {
				stringerIface = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	// the universe of dynamic types
	var boxed []types.Type
	add := func(t types.Type) {
		if t == nil {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		boxed = append(boxed, t)
	}
	for _, p := range pkgs {
		for _, tv := range p.TypesInfo.Types {
			if tv.IsType() || tv.Value != nil {
				add(tv.Type)
				continue
			}
		}
	}
	seen := map[string]types.Type{}
	for _, t := range boxed {
		t = types.Unalias(t)
		if hasTypeParam(t) {
			continue
		}
		switch t.(type) {
		case *types.Named, *types.Pointer, *types.Basic:
		default:
			continue
		}
		k := typeKey(t)
		if b, ok := t.(*types.Basic); ok {
			switch b.Kind() {
			case types.String, types.Int, types.Bool, types.Int32, types.Uint8:
			default:
				continue
			}
		}
		if types.IsInterface(t) {
			continue
		}
		seen[k] = t
	}
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		registerBox(seen[k])
	}
	for _, p := range pkgs {
		if sp := prog.Package(p.Types); sp != nil {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					allGlobals = append(allGlobals, g)
				}
			}
		}
	}
	sort.Slice(allGlobals, func(i, j int) bool { return allGlobals[i].String() < allGlobals[j].String() })
	progPackages = prog.AllPackages()
	scanGlobals(fns)
	mapsChanged(fns)
	typesWritten = writtenTypes(fns)
	collectFormats(fns)
	loadContracts(pkgs, prog)
	computeSCC(fns)
	scanFieldStores(fns)
	for _, h := range setupHooks {
		h(pkgs, prog)
	}
}

var setupHooks []func(pkgs []*packages.Package, prog *ssa.Program)

func hasTypeParam(t types.Type) bool {
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		return t.TypeParams().Len() > t.TypeArgs().Len()
	case *types.Pointer:
		return hasTypeParam(t.Elem())
	}
	return false
}

// computeSCC numbers the cycles of the static call graph.
func computeSCC(fns map[*ssa.Function]bool) {
	succ := map[*ssa.Function][]*ssa.Function{}
	for f := range fns {
		if !isRepoFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
	}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	var stack []*ssa.Function
	on := map[*ssa.Function]bool{}
	n, comp := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ[f] {
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			comp++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				sccOf[g] = comp
				if g == f {
					break
				}
			}
		}
	}
	var all []*ssa.Function
	for f := range succ {
		all = append(all, f)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		if index[f] == 0 {
			visit(f)
		}
	}
}

// ---- units -----------------------------------------------------------------------------

func verifyUnit(prog *ssa.Program, c *Contract, th *theory, rep *report) (u *unitReport) {
	start := time.Now()
	u = &unitReport{Name: c.name, Kind: "function"}
	x := &Exec{prog: prog, unit: c, unitFn: c.fn, prop: curProp, th: th,
		usedContracts: map[*Contract]bool{}, usedExterns: map[string]bool{}, inlined: map[string]bool{}, forceInline: map[*ssa.Function]bool{}, paramObjs: map[int]*Obj{}}
	u.Pos = x.pos(c.fn.Pos())
	for _, cl := range c.get("post", curProp) {
		u.Clauses = append(u.Clauses, cl.label)
	}
	defer func() {
		u.Seconds = time.Since(start).Seconds()
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedError); ok {
				u.Error = e.Error()
				return
			}
			panic(r)
		}
	}()
	if len(c.reveal) > 0 {
		th = &theory{lemmas: append([]*Term(nil), th.lemmas...)}
		for _, n := range c.reveal {
			for _, f := range specs.byObj {
				if f.opaque && f.decl.Name.Name == n {
					th.lemmas = append(th.lemmas, f.Reveal())
				}
			}
		}
		x.th = th
	}
	x.verify()
	// decide
	results := make([]*solverResult, len(x.obls))
	var wg sync.WaitGroup
	for i, o := range x.obls {
		i, o := i, o
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = prove(&Query{facts: o.Facts, goal: o.Goal, th: th}, false)
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		x.reachable(u, th)
	}()
	wg.Wait()
	for i, o := range x.obls {
		u.Obligations++
		r := results[i]
		if r.status == "unsat" {
			u.Discharged++
			rep.BySolver[r.solver]++
			continue
		}
		goal := o.Goal.String()
		if len(goal) > 600 {
			goal = goal[:600] + "..."
		}
		u.Failed = append(u.Failed, failed{o.Kind, o.Label, o.Pos, r.status, r.solver, r.output, goal})
	}
	for k := range x.usedContracts {
		u.Calls = append(u.Calls, k.name)
	}
	sort.Strings(u.Calls)
	u.Inlined = sortedKeys(x.inlined)
	u.Externs = sortedKeys(x.usedExterns)
	for _, e := range u.Externs {
		rep.Externs[e] = externNote[e]
	}
	return u
}

// reachable guards against proofs from contradictory assumptions: what is
// assumed where the function returns must not be refuted at every return.
func (x *Exec) reachable(u *unitReport, th *theory) {
	tried := map[string]bool{}
	for i := len(x.obls) - 1; i >= 0 && len(tried) < 200; i-- {
		o := x.obls[i]
		if o.Kind != "post" {
			continue
		}
		var key strings.Builder
		for _, f := range o.Facts {
			fmt.Fprintf(&key, "%d ", f.id)
		}
		if tried[key.String()] {
			continue
		}
		tried[key.String()] = true
		script := func() string {
			termMu.Lock()
			defer termMu.Unlock()
			return (&Query{facts: o.Facts, goal: False, th: th}).Script()
		}()
		if d := os.Getenv("GOVC_REACH"); d != "" {
			os.WriteFile(d, []byte(script), 0644)
		}
		if runSolver("z3", script, 500*time.Millisecond).status != "unsat" {
			u.Reachable = true
			return
		}
	}
	if len(tried) > 0 && len(tried) < 200 {
		u.Error = "what is assumed contradicts itself at every return: the proof says nothing"
	}
}

// verify generates the obligations of the unit.
func (x *Exec) verify() {
	c := x.unit
	fn := c.fn
	st := &State{env: map[ssa.Value]SVal{}, heap: map[*Obj]*Cell{}}
	if worldSort != "" {
		st.world = Var("w0", worldSort)
	}
	x.entryWorld = st.world
	var args []SVal
	for i, p := range fn.Params {
		if m, owned := c.mutable(i, p.Type()); m {
			pt := p.Type().Underlying().(*types.Pointer).Elem()
			v := Var("in."+p.Name(), SortOf(pt))
			o := x.newObj(pt, p.Name())
			o.known = true
			sv := &StructV{typ: pt}
			stt := pt.Underlying().(*types.Struct)
			for j := 0; j < stt.NumFields(); j++ {
				f := stt.Field(j)
				ft := FieldOf(pt, j, v)
				if owned {
					if pt, ok := f.Type().Underlying().(*types.Pointer); ok && isMutableType(f.Type()) {
						// what an owned pointer points to
						eo := x.newObj(pt.Elem(), p.Name()+"."+f.Name())
						eo.known = true
						st.heap[eo] = &Cell{val: expand(Deref(pt.Elem(), ft), pt.Elem())}
						if _, ok := pt.Elem().Underlying().(*types.Slice); ok && !isByteSlice(pt.Elem()) {
							so := x.newObj(pt.Elem(), p.Name()+"."+f.Name())
							st.heap[so] = &Cell{val: Deref(pt.Elem(), ft)}
							st.heap[eo].val = &SliceV{obj: so, typ: pt.Elem()}
						}
						x.ownedPtrs = append(x.ownedPtrs, Not(IsNilPtr(pt.Elem(), ft)))
						sv.fields = append(sv.fields, &Ref{obj: eo, elem: pt.Elem()})
						continue
					}
					switch f.Type().Underlying().(type) {
					case *types.Map:
						mo := x.newObj(f.Type(), p.Name()+"."+f.Name())
						if !isGlobalTable(f) {
							st.heap[mo] = &Cell{val: ft}
							sv.fields = append(sv.fields, &MapV{obj: mo, typ: f.Type()})
							continue
						}
					case *types.Slice:
						if !isByteSlice(f.Type()) {
							so := x.newObj(f.Type(), p.Name()+"."+f.Name())
							st.heap[so] = &Cell{val: ft}
							sv.fields = append(sv.fields, &SliceV{obj: so, typ: f.Type()})
							continue
						}
					}
				}
				sv.fields = append(sv.fields, ft)
			}
			st.heap[o] = &Cell{val: sv}
			x.paramObjs[i] = o
			args = append(args, &Ref{obj: o, elem: pt})
			x.inputs = append(x.inputs, MkPtr(pt, v))
			continue
		}
		v := Var("in."+p.Name(), SortOf(p.Type()))
		args = append(args, v)
		x.inputs = append(x.inputs, v)
	}
	if len(fn.FreeVars) > 0 {
		panic(unsupported("closure as a unit"))
	}
	bind := func(cl *Clause, vals []*Term, st *State) *Term {
		return bindClause(cl, vals, x.entryWorld, st.world)
	}
	if c.variant != "" {
		x.setupVariant(st, c, args)
		before := x.captured(st, x.variantClo)
		var ins []*Term
		for i, a := range args {
			if _, ok := a.(*Term); ok {
				ins = append(ins, x.inputs[i])
				x.ownInputs = append(x.ownInputs, x.inputs[i])
			} else {
				x.ownInputs = append(x.ownInputs, nil)
			}
		}
		x.inputs = ins
		bind = func(cl *Clause, vals []*Term, st *State) *Term {
			named := map[string]*Term{}
			for k, v := range before {
				named[k] = v
			}
			for k, v := range x.captured(st, x.variantClo) {
				named[k+"_out"] = v
			}
			return bindNamed(cl, named, vals, x.entryWorld, st.world)
		}
	}
	if c.variant == "" {
		// a list the contract says is empty
		for _, cl := range c.get("pre", x.prop) {
			for _, g := range conjuncts(bind(cl, x.inputs, st)) {
				for i, p := range fn.Params {
					if _, ok := p.Type().Underlying().(*types.Slice); ok && g == Eq(Len(x.inputs[i]), IntT(0)) {
						x.inputs[i] = Empty(x.inputs[i].sort)
						args[i] = x.inputs[i]
					}
				}
			}
		}
	}
	for _, cl := range c.get("pre", x.prop) {
		st.assume(bind(cl, x.inputs, st))
	}
	for _, h := range entryHooks {
		h(x, st)
	}
	for _, g := range x.ownedPtrs {
		x.oblige(st, "pre", "an owned pointer is not nil", g, fn.Pos())
	}
	// vacuity: the precondition must be satisfiable; checked by the harness
	outs := x.call(st, fn, args, nil)
	for _, o := range outs {
		vals := append([]*Term(nil), x.inputs...)
		for _, r := range o.res {
			vals = append(vals, x.term(o.st, r))
		}
		for i := range fn.Params {
			if ob := x.paramObjs[i]; ob != nil {
				vals = append(vals, MkPtr(ob.typ, x.snapshot(o.st, o.st.heap[ob].val)))
			}
		}
		if c.variant == "" {
			x.hints(o.st, "hint", vals)
		}
		for _, cl := range c.get("post", x.prop) {
			x.oblige(o.st, "post", cl.label, bind(cl, vals, o.st), fn.Pos())
		}
		if w := x.outerWorld(o.st.world); w != x.entryWorld && !c.changesWorld() {
			x.oblige(o.st, "frame", "nothing is written or called", Eq(w, x.entryWorld), fn.Pos())
		}
	}
}

// hints are facts stated on the way to the postcondition: proved, then used.
func (x *Exec) hints(st *State, kind string, vals []*Term) {
	for _, cl := range x.unit.get(kind, x.prop) {
		g := bindClause(cl, vals, x.entryWorld, st.world)
		x.oblige(st, kind, cl.label, g, x.unitFn.Pos())
		st.assume(g)
	}
}

var worldSort = "World"
var entryHooks []func(x *Exec, st *State)

// isGlobalTable: the map in this field is read only.
func isGlobalTable(f *types.Var) bool { return sharedFields[f.Pkg().Name()+"."+f.Name()] }

// sharedFields are fields (pkg.name) of mutable objects that hold maps of others.
var sharedFields = map[string]bool{}

// ---- lemmas ------------------------------------------------------------------------------

func proveLemma(l *Lemma, all []*Lemma, rep *report) (u *unitReport) {
	start := time.Now()
	u = &unitReport{Name: "lemma " + l.name, Kind: "lemma"}
	defer func() {
		u.Seconds = time.Since(start).Seconds()
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedError); ok {
				u.Error = e.Error()
				return
			}
			panic(r)
		}
	}()
	th := &theory{}
	for _, k := range all {
		if k == l {
			break
		}
		if k.trig != nil && !l.alone {
			th.lemmas = append(th.lemmas, lemmaAxiom(k))
		}
	}
	var args []*Term
	for _, p := range l.spec.params {
		args = append(args, Var("in."+p.Name(), SortOf(p.Type())))
	}
	fuel := fuelN(fuelDepth)
	if l.dec != nil {
		th.lemmas = append(th.lemmas, inductionHypothesis(l, args))
	}
	usable = map[*SpecFn]bool{}
	for _, k := range all {
		if k == l {
			break
		}
		usable[k.spec] = true
	}
	var facts []*Term
	allAssumed = true
	goal := l.spec.statementUsing(fuel, args, &facts)
	allAssumed = false
	for goal.op == "=>" {
		facts = append(facts, goal.args[0])
		goal = goal.args[1]
	}
	for _, n := range l.reveal {
		for _, f := range specs.byObj {
			if f.opaque && f.decl.Name.Name == n {
				th.lemmas = append(th.lemmas, f.Reveal())
				if goal.op == "fn" && goal.name == "opaque."+f.name {
					goal = f.body(fuel, goal.args, nil)
				}
			}
		}
	}
	goals := []*Term{goal}
	if goal.op == "and" {
		goals = goal.args
	}
	for i, g := range goals {
		r := prove(&Query{facts: facts, goal: g, th: th}, false)
		u.Obligations++
		if r.status == "unsat" {
			u.Discharged++
			rep.BySolver[r.solver]++
			facts = append(facts, g)
			continue
		}
		gs := g.String()
		if len(gs) > 600 {
			gs = gs[:600]
		}
		u.Failed = append(u.Failed, failed{"lemma", fmt.Sprintf("%s#%d", l.name, i+1), "", r.status, r.solver, r.output, gs})
	}
	return u
}

// inductionHypothesis is the lemma for all smaller arguments.
func inductionHypothesis(l *Lemma, args []*Term) *Term {
	ax := lemmaAxiom(l)
	vars := ax.vars
	params := vars
	if len(vars) == len(args)+1 {
		params = vars[1:]
	}
	f := fuelN(fuelDepth)
	d1 := l.dec.Apply(f, params...)
	d0 := l.dec.Apply(f, args...)
	return ForAll(vars, Implies(And(Le(IntT(0), d1), Lt(d1, d0)), ax.args[0]), ax.pats...)
}

// conjuncts are the facts a conjunction states.
func conjuncts(t *Term) []*Term {
	if t.op != "and" {
		return []*Term{t}
	}
	var all []*Term
	for _, a := range t.args {
		all = append(all, conjuncts(a)...)
	}
	return all
}
