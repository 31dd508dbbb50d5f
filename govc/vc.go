package main

import (
	"crypto/sha256"
	"encoding/hex"
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- background theory -----------------------------------------------------------

// lemma axioms made available to queries, set by the driver.
type theory struct {
	lemmas []*Term
}

func rankAxioms() []*Term {
	var out []*Term
	for _, t := range universe {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok || !strings.HasPrefix(SortOf(p.Elem()), "S.") {
			continue
		}
		x := BVar("x", "Any")
		top := Fn("rank", "Int", x)
		s := Deref(p.Elem(), Unbox(t, x))
		guard := And(IsBox(t, x), Not(IsNilPtr(p.Elem(), Unbox(t, x))))
		for i := 0; i < st.NumFields(); i++ {
			ft := types.Unalias(st.Field(i).Type())
			fv := FieldOf(p.Elem(), i, s)
			toAny := func(t types.Type, v *Term) *Term {
				if types.IsInterface(t) {
					return v
				}
				if _, ok := t.Underlying().(*types.Pointer); ok {
					if _, ok := universeKey[typeKey(t)]; ok {
						return Box(t, v)
					}
				}
				if _, ok := t.Underlying().(*types.Slice); ok {
					if _, ok := universeKey[typeKey(t)]; ok {
						return Box(t, v)
					}
				}
				return nil
			}
			if sl, ok := ft.Underlying().(*types.Slice); ok && !isByteSlice(ft) {
				j := BVar("j", "Int")
				el := toAny(sl.Elem(), Nth(fv, j))
				if el == nil {
					continue
				}
				out = append(out, ForAll([]*Term{x, j}, Implies(And(guard, Le(IntT(0), j), Lt(j, Len(fv))), Lt(Fn("rank", "Int", el), top)), []*Term{top, Nth(fv, j)}))
				continue
			}
			c := toAny(ft, fv)
			if c == nil {
				continue
			}
			out = append(out, ForAll([]*Term{x}, Implies(guard, Lt(Fn("rank", "Int", c), top)), []*Term{top, fv}))
		}
	}
	// boxed slices
	for _, t := range universe {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok || isByteSlice(t) {
			continue
		}
		if SortOf(sl.Elem()) != "Any" {
			continue
		}
		x := BVar("x", "Any")
		j := BVar("j", "Int")
		q := Unbox(t, x)
		out = append(out, ForAll([]*Term{x, j}, Implies(And(IsBox(t, x), Le(IntT(0), j), Lt(j, Len(q))), Lt(Fn("rank", "Int", Nth(q, j)), Fn("rank", "Int", x))), []*Term{Fn("rank", "Int", x), Nth(q, j)}))
	}
	x := BVar("x", "Any")
	out = append(out, ForAll([]*Term{x}, Le(IntT(0), Fn("rank", "Int", x)), []*Term{Fn("rank", "Int", x)}))
	return out
}

// ---- queries -----------------------------------------------------------------------

type Query struct {
	facts []*Term
	goal  *Term
	th    *theory
}

// Script renders the query as SMT-LIB: unsat means the goal follows.
func (q *Query) Script() string {
	u := newUse()
	var asserts []*Term
	addedSpec := map[string]bool{}
	addedSeq := map[string]bool{}
	rankAdded := false
	work := append([]*Term(nil), q.facts...)
	goal := Not(q.goal)
	goal = extGoal(q.goal, goal)
	work = append(work, goal)
	if q.th != nil {
		work = append(work, q.th.lemmas...)
	}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "fn" {
			if f, ok := specs.byName[t.name]; ok && !addedSpec[t.name] {
				addedSpec[t.name] = true
				work = append(work, f.Definition()...)
			}
			if i := strings.IndexByte(t.name, '.'); i > 0 {
				s := t.name[i+1:]
				if _, ok := seqElem[s]; ok && !addedSeq[s] && t.op == "fn" {
					switch t.name[:i] {
					case "len", "nth", "push", "cat", "take", "drop", "upd", "rep", "empty", "ext":
						addedSeq[s] = true
						work = append(work, seqAxioms(s)...)
					}
				}
			}
			if t.name == "rank" && !rankAdded {
				rankAdded = true
			}
			if ax, ok := fnAxioms[t.name]; ok && !addedSpec["ax:"+t.name] {
				addedSpec["ax:"+t.name] = true
				work = append(work, ax()...)
			}
			if strings.HasPrefix(t.name, "pure.") && !addedSpec[t.name] {
				addedSpec[t.name] = true
				work = append(work, pureAxioms(t)...)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		visit(t)
		if t != True {
			asserts = append(asserts, t)
		}
	}
	if rankAdded {
		// Only for the types the query is about.
		for _, a := range asserts {
			u.term(a)
		}
		for _, ax := range rankAxioms() {
			owner := ""
			var find func(t *Term)
			find = func(t *Term) {
				if owner == "" && t.op == "is" && strings.HasPrefix(t.name, "box.") {
					owner = t.name
				}
				for _, a := range t.args {
					find(a)
				}
			}
			find(ax)
			if owner == "" || u.ctors[owner] {
				asserts = append(asserts, ax)
				visit(ax)
			}
		}
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			visit(t)
			asserts = append(asserts, t)
		}
	}
	p := &tprinter{named: map[*Term]string{}, count: map[*Term]int{}, canon: map[string]string{}, cnum: map[string]int{}}
	for _, a := range asserts {
		u.term(a)
		p.countUses(a)
	}
	var b bytes.Buffer
	var body bytes.Buffer
	for _, a := range asserts {
		s := p.str(a)
		for _, d := range p.defs {
			body.WriteString(d + "\n")
		}
		p.defs = p.defs[:0:0]
		body.WriteString("(assert " + s + ")\n")
	}
	b.WriteString("(set-logic ALL)\n")
	for _, d := range u.decls(p) {
		b.WriteString(d + "\n")
	}
	b.Write(body.Bytes())
	b.WriteString("(check-sat)\n")
	return b.String()
}

// extGoal adds requests for extensionality of sequence equalities in a goal.
func extGoal(goal, neg *Term) *Term {
	var exts []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "=" && !t.hasBound {
			if _, ok := seqElem[t.args[0].sort]; ok {
				exts = append(exts, Fn("ext."+t.args[0].sort, "Bool", t.args[0], t.args[1]))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	// mention the ext terms without constraining them
	for _, e := range exts {
		neg = And(neg, mk("or", "", "Bool", e, Not(e)))
	}
	return neg
}

// fnAxioms are axioms that come with a function symbol.
var fnAxioms = map[string]func() []*Term{}

// ---- solvers -------------------------------------------------------------------------

type solverResult struct {
	status string // unsat, sat, unknown
	solver string
	secs   float64
	output string
}

var (
	solverSem   = make(chan struct{}, 8)
	solverCalls int64
	solverNanos int64
	queryMemo   = struct {
		sync.Mutex
		m map[string]*solverResult
	}{m: map[string]*solverResult{}}
	workDir string
	queryNo int64
)

func runSolver(name string, script string, timeout time.Duration) *solverResult {
	return runSolverCtx(context.Background(), name, script, timeout)
}

func runSolverCtx(parent context.Context, name string, script string, timeout time.Duration) *solverResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if parent.Err() != nil {
		return &solverResult{status: "cancelled", solver: name}
	}
	n := atomic.AddInt64(&queryNo, 1)
	f := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(f, []byte(script), 0o644); err != nil {
		return &solverResult{status: "error", output: err.Error()}
	}
	if !keepQueries {
		defer os.Remove(f)
	}
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	ms := int(timeout / time.Millisecond)
	switch name {
	case "z3":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-t:%d", ms), "-memory:3000", "auto_config=false", "smt.mbqi=false", "smt.auto_config=false", f)
	case "z3-auto":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), "-memory:3000", f)
	case "z3-case":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), "-memory:3000", "auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.random_seed=7", f)
	case "z3-seed":
		cmd = exec.CommandContext(ctx, "z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), "-memory:3000", "smt.mbqi=false", "smt.random_seed=11", "smt.qi.eager_threshold=100", f)
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "--no-stats", f)
	}
	start := time.Now()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, _ := cmd.Output()
	if len(bytes.TrimSpace(out)) == 0 {
		out = errb.Bytes()
	}
	d := time.Since(start)
	atomic.AddInt64(&solverCalls, 1)
	atomic.AddInt64(&solverNanos, int64(d))
	res := &solverResult{solver: name, secs: d.Seconds(), output: string(out), status: "unknown"}
	for _, line := range strings.Split(string(out), "\n") {
		line = strings.TrimSpace(line)
		if line == "unsat" || line == "sat" || line == "unknown" {
			res.status = line
			break
		}
		if strings.HasPrefix(line, "(error") || strings.Contains(line, "rror:") {
			res.status = "error"
			break
		}
	}
	if len(res.output) > 4000 {
		res.output = res.output[:4000]
	}
	return res
}

var keepQueries bool
var verboseSolver bool

// prove decides one query. quick limits the effort (used for candidate invariants).
func prove(q *Query, quick bool) *solverResult {
	if q.goal == True {
		return &solverResult{status: "unsat", solver: "simplifier"}
	}
	for _, f := range q.facts {
		if f == False {
			return &solverResult{status: "unsat", solver: "simplifier"}
		}
		if f == q.goal {
			return &solverResult{status: "unsat", solver: "simplifier"}
		}
	}
	script := func() string {
		termMu.Lock()
		defer termMu.Unlock()
		return q.Script()
	}()
	key := script
	if quick {
		key = "quick" + script
	}
	queryMemo.Lock()
	r, ok := queryMemo.m[key]
	if !ok && quick {
		r, ok = queryMemo.m[script]
	}
	queryMemo.Unlock()
	if ok {
		return r
	}
	if budgetSpent() {
		return &solverResult{status: "unknown", solver: "none", output: "the time budget of the run was spent before this obligation was tried"}
	}
	hk := hintKey(script)
	hint := hints[hk]
	if quick && hint == "drop" {
		r = &solverResult{status: "unknown", solver: "hint", output: "not kept when the hints were made"}
	}
	if r == nil && knownSolver[hint] {
		r = runSolver(hint, script, hintTimeout)
		if r.status != "unsat" {
			r = nil
		}
	}
	if r == nil && !quick && splitVar(q.goal) != nil {
		if hint != "split" {
			r = runSolver("z3", script, 700*time.Millisecond)
		}
		if r == nil || r.status != "unsat" {
			leaves := int32(splitLeaves)
			if s := split(q, &leaves); s != nil {
				r = s
			} else {
				r = nil
			}
		}
	}
	if r == nil {
		r = portfolio(script, quick)
	}
	if r.solver != "hint" {
		noteHint(hk, quick, r)
	}
	queryMemo.Lock()
	queryMemo.m[key] = r
	queryMemo.Unlock()
	return r
}

var termMu sync.Mutex

// Case splits: where two paths were joined, a Boolean tells them apart. An
// obligation that is not proved at once is proved for each of the paths.

const splitLeaves = 60

func splitVar(goal *Term) *Term {
	seen := map[*Term]bool{}
	level := []*Term{goal}
	for len(level) > 0 {
		var next []*Term
		for _, t := range level {
			if t == nil || seen[t] {
				continue
			}
			seen[t] = true
			if t.op == "var" && strings.HasPrefix(t.name, "br!") {
				return t
			}
			if t.op != "forall" {
				next = append(next, t.args...)
			}
		}
		level = next
	}
	return nil
}

// split proves both cases of the outermost join of the goal; nil: it cannot.
func split(q *Query, leaves *int32) *solverResult {
	if budgetSpent() || atomic.AddInt32(leaves, -1) < 0 {
		return nil
	}
	v := splitVar(q.goal)
	if v == nil {
		r := portfolioOf(q)
		if r.status == "unsat" {
			return r
		}
		return nil
	}
	res := make([]*solverResult, 2)
	var wg sync.WaitGroup
	for i, b := range []*Term{True, False} {
		i, b := i, b
		wg.Add(1)
		go func() {
			defer wg.Done()
			termMu.Lock()
			m := map[*Term]*Term{v: b}
			c := &Query{goal: Subst(q.goal, m), th: q.th}
			var add func(f *Term)
			add = func(f *Term) {
				if f.op == "and" {
					for _, a := range f.args {
						add(a)
					}
				} else if f != True {
					c.facts = append(c.facts, f)
				}
			}
			for _, f := range q.facts {
				add(Subst(f, m))
			}
			termMu.Unlock()
			if c.goal == True {
				res[i] = &solverResult{status: "unsat", solver: "simplifier"}
				return
			}
			for _, f := range c.facts {
				if f == False || f == c.goal {
					res[i] = &solverResult{status: "unsat", solver: "simplifier"}
					return
				}
			}
			if splitVar(c.goal) != nil {
				termMu.Lock()
				script := c.Script()
				termMu.Unlock()
				if r := runSolver("z3", script, 400*time.Millisecond); r.status == "unsat" {
					res[i] = r
					return
				}
			}
			res[i] = split(c, leaves)
		}()
	}
	wg.Wait()
	for _, r := range res {
		if r == nil {
			return nil
		}
	}
	for _, r := range res {
		if r.solver != "simplifier" {
			return &solverResult{status: "unsat", solver: r.solver, output: "by cases"}
		}
	}
	return res[0]
}

func portfolioOf(q *Query) *solverResult {
	termMu.Lock()
	script := q.Script()
	termMu.Unlock()
	return portfolio(script, false)
}

// ---- hints ---------------------------------------------------------------------
//
// A hint tells, for the digest of a query, which solver proved it last time,
// or that a candidate invariant could not be proved. Hints only save time:
// every obligation is proved on every run, and a candidate that is not tried
// is merely not assumed.

var (
	hints    = map[string]string{}
	newHints = struct {
		sync.Mutex
		m map[string]string
	}{m: map[string]string{}}
	hintTimeout = 20 * time.Second
)

func hintKey(script string) string {
	h := sha256.Sum256([]byte(script))
	return hex.EncodeToString(h[:8])
}

func noteHint(k string, quick bool, r *solverResult) {
	newHints.Lock()
	defer newHints.Unlock()
	switch {
	case r.status == "unsat" && r.output == "by cases":
		newHints.m[k] = "split"
	case r.status == "unsat":
		newHints.m[k] = r.solver
	case quick && newHints.m[k] == "":
		newHints.m[k] = "drop"
	}
}

func loadHints(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			hints[f[0]] = f[1]
		}
	}
}

func saveHints(file string) error {
	var ls []string
	for k, v := range newHints.m {
		if v != "z3" { // the default first try
			ls = append(ls, k+" "+v)
		}
	}
	sort.Strings(ls)
	return os.WriteFile(file, []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func portfolio(script string, quick bool) *solverResult {
	r := runSolver("z3", script, 700*time.Millisecond)
	if r.status == "unsat" {
		return r
	}
	if r.status == "error" && verboseSolver {
		fmt.Fprintln(os.Stderr, "solver error:", r.output)
	}
	type job struct {
		name string
		t    time.Duration
	}
	race := func(jobs []job) *solverResult {
		ch := make(chan *solverResult, len(jobs))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		for _, j := range jobs {
			j := j
			go func() { ch <- runSolverCtx(ctx, j.name, script, j.t) }()
		}
		best := r
		for range jobs {
			x := <-ch
			if x.status == "unsat" {
				return x
			}
			if x.status == "sat" || best.status == "error" {
				best = x
			}
		}
		return best
	}
	if budgetSpent() {
		return r
	}
	r = race([]job{{"z3-auto", quickTimeout}, {"cvc5", quickTimeout}, {"z3", quickTimeout}})
	if r.status == "unsat" || r.status == "sat" || quick || budgetSpent() {
		return r
	}
	return race([]job{{"cvc5", slowTimeout}, {"z3-auto", slowTimeout}, {"z3-case", slowTimeout}, {"z3-seed", slowTimeout}, {"z3", slowTimeout}})
}

// budgetEnd is when the run stops trying obligations, if set.
var budgetEnd time.Time

func budgetSpent() bool { return !budgetEnd.IsZero() && time.Now().After(budgetEnd) }

var quickTimeout = 3 * time.Second

var slowTimeout = 15 * time.Second

// proveAll decides several queries in parallel.
func proveAll(qs []*Query, quick bool) []*solverResult {
	out := make([]*solverResult, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			out[i] = prove(qs[i], quick)
		}()
	}
	wg.Wait()
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var knownSolver = map[string]bool{"z3": true, "z3-auto": true, "z3-case": true, "z3-seed": true, "cvc5": true}
