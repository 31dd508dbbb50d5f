package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Termination of recursion. The trees that functions are given are finite
// (values of datatypes), so a cycle of calls ends if each turn of it goes down:
// every recursive call hands some argument on that is the caller's argument
// or a part of it. The steps down are counted along the selectors of the
// argument's term; one round a value is put into an interface counts as a step up.
// A cycle whose steps sum to nothing or less is reported.

// recCall is a call of a function of the same cycle of the call graph.
type recCall struct {
	from, to *ssa.Function
	pos      string
	steps    map[[2]int]int // parameter of the caller, of the callee: steps down
}

var recCalls []recCall

// endsOtherwise: packages whose recursion ends for another reason.
var endsOtherwise = map[string]string{}

// stepsDown is how far t is below the value in.
func stepsDown(t, in *Term, known map[*Term]bool) (int, bool) {
	if t == in {
		return 0, true
	}
	switch t.op {
	case "sel":
		if n, ok := stepsDown(t.args[0], in, known); ok {
			return n + 1, true
		}
	case "ctor":
		if len(t.args) == 1 {
			if n, ok := stepsDown(t.args[0], in, known); ok {
				return n - 1, true
			}
		}
	case "fn":
		switch {
		case strings.HasPrefix(t.name, "nth."):
			if n, ok := stepsDown(t.args[0], in, known); ok {
				return n + 1, true
			}
		case strings.HasPrefix(t.name, "take."), strings.HasPrefix(t.name, "drop."):
			return stepsDown(t.args[0], in, known)
		}
	case "ite":
		if known[t.args[0]] {
			return stepsDown(t.args[1], in, known)
		}
		if known[Not(t.args[0])] {
			return stepsDown(t.args[2], in, known)
		}
		a, ok := stepsDown(t.args[1], in, known)
		b, ok2 := stepsDown(t.args[2], in, known)
		if ok && ok2 {
			if b < a {
				a = b
			}
			return a, true
		}
	}
	return 0, false
}

// recursion notes a call within a cycle.
func (x *Exec) recursion(st *State, fn *ssa.Function, args []*Term, pos token.Pos) {
	if !x.sameSCC(fn) {
		return
	}
	if os.Getenv("GOVC_REC") != "" {
		println(x.unit.name, fn.Name(), fmt.Sprint(args), fmt.Sprint(x.inputs))
	}
	known := map[*Term]bool{}
	for _, f := range st.facts {
		for _, g := range conjuncts(f) {
			known[g] = true
		}
	}
	c := recCall{from: x.unitFn, to: fn, pos: x.pos(pos), steps: map[[2]int]int{}}
	own := x.inputs
	if x.ownInputs != nil {
		own = x.ownInputs
	}
	for i, in := range own {
		for j, a := range args {
			if in == nil || a == nil {
				continue
			}
			if n, ok := stepsDown(a, in, known); ok {
				c.steps[[2]int{i, j}] = n
			}
		}
	}
	for i, d := range recCalls {
		if d.from == c.from && d.to == c.to && d.pos == c.pos {
			// reached in more than one way
			for k, n := range d.steps {
				if m, ok := c.steps[k]; !ok {
					delete(recCalls[i].steps, k)
				} else if m < n {
					recCalls[i].steps[k] = m
				}
			}
			return
		}
	}
	recCalls = append(recCalls, c)
}

// checkEnds decides the cycles of the calls noted.
func checkEnds() *unitReport {
	u := &unitReport{Name: "recursion", Kind: "termination"}
	groups := map[int][]recCall{}
	var ids []int
	for _, c := range recCalls {
		id := sccOf[c.from]
		if groups[id] == nil {
			ids = append(ids, id)
		}
		groups[id] = append(groups[id], c)
	}
	sort.Ints(ids)
	for _, id := range ids {
		calls := groups[id]
		if r := endsOtherwise[calls[0].from.Pkg.Pkg.Path()]; r != "" {
			u.Externs = append(u.Externs, "the recursion of "+calls[0].from.String()+" ends otherwise: "+r)
			continue
		}
		u.Obligations += len(calls)
		if why := cycleEnds(calls); why != "" {
			u.Failed = append(u.Failed, failed{Kind: "termination", Label: why, Pos: calls[0].pos, Status: "not shown", Solver: "govc",
				Output: "no choice of one parameter for each function makes every cycle of calls go down"})
			continue
		}
		u.Discharged += len(calls)
	}
	if u.Obligations+len(u.Externs) == 0 {
		return nil
	}
	return u
}

// cycleEnds is empty or says what does not go down.
func cycleEnds(calls []recCall) string {
	var fns []*ssa.Function
	idx := map[*ssa.Function]int{}
	add := func(f *ssa.Function) {
		if _, ok := idx[f]; !ok {
			idx[f] = len(fns)
			fns = append(fns, f)
		}
	}
	for _, c := range calls {
		add(c.from)
		add(c.to)
	}
	choice := make([]int, len(fns))
	why := ""
	for tries := 0; tries < 100000; tries++ {
		w := tryMeasure(calls, fns, idx, choice)
		if w == "" {
			return ""
		}
		if why == "" || strings.HasPrefix(why, "the argument") {
			why = w
		}
		i := 0
		for ; i < len(fns); i++ {
			choice[i]++
			if choice[i] < len(fns[i].Params) {
				break
			}
			choice[i] = 0
		}
		if i == len(fns) {
			break
		}
	}
	return why
}

func tryMeasure(calls []recCall, fns []*ssa.Function, idx map[*ssa.Function]int, choice []int) string {
	n := len(fns)
	const inf = 1 << 30
	d := make([][]int, n)
	at := make([][]string, n)
	for i := range d {
		d[i] = make([]int, n)
		at[i] = make([]string, n)
		for j := range d[i] {
			d[i][j] = inf
		}
	}
	for _, c := range calls {
		i, j := idx[c.from], idx[c.to]
		s, ok := c.steps[[2]int{choice[i], choice[j]}]
		if !ok {
			return fmt.Sprintf("the argument of %s in the call at %s is no part of the caller's", c.to.Name(), c.pos)
		}
		if s < d[i][j] {
			d[i][j], at[i][j] = s, c.pos
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if d[i][k] < inf && d[k][j] < inf && d[i][k]+d[k][j] < d[i][j] {
					d[i][j] = d[i][k] + d[k][j]
					at[i][j] = at[i][k]
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if d[i][i] <= 0 {
			return fmt.Sprintf("a cycle of calls through %s at %s comes back with the value it began with", fns[i].Name(), at[i][i])
		}
	}
	return ""
}

// ---- loops ---------------------------------------------------------------------------

// A loop over a range ends, and so does one that counts towards a bound that
// does not move. Other loops are named in the report.

var loopsSeen = map[*loopInfo]string{}
var loopsMu sync.Mutex

func (x *Exec) noteLoop(fn *ssa.Function, l *loopInfo) {
	loopsMu.Lock()
	defer loopsMu.Unlock()
	if _, ok := loopsSeen[l]; ok {
		return
	}
	why := ""
	if !loopEnds(l) {
		why = fmt.Sprintf("%s (%s)", fn.String(), x.pos(fn.Pos()))
		if fn.Pkg != nil && endsOtherwise[fn.Pkg.Pkg.Path()] != "" {
			why = "-"
		}
	}
	loopsSeen[l] = why
}

func loopEnds(l *loopInfo) bool {
	var latches []*ssa.BasicBlock
	for _, p := range l.header.Preds {
		if l.blocks[p] {
			latches = append(latches, p)
		}
	}
	for b := range l.blocks {
		every := true
		for _, p := range latches {
			every = every && b.Dominates(p)
		}
		if !every || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if n, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 0 && !l.blocks[n.Iter.(*ssa.Range).Block()] {
				return true
			}
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !l.blocks[b.Succs[0]] {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
		}
		up := func(v ssa.Value) int { return countsBy(l, latches, v) }
		switch op {
		case token.LSS, token.LEQ:
			if up(c.X) > 0 && fixed(l, c.Y) || up(c.Y) < 0 && fixed(l, c.X) {
				return true
			}
		case token.GTR, token.GEQ:
			if up(c.X) < 0 && fixed(l, c.Y) || up(c.Y) > 0 && fixed(l, c.X) {
				return true
			}
		}
	}
	return false
}

// countsBy is the sign of what is added to v in each round, or 0.
func countsBy(l *loopInfo, latches []*ssa.BasicBlock, v ssa.Value) int {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.header {
		return 0
	}
	sign := 0
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != p {
			return 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		s := constant.Sign(c.Value)
		if b.Op == token.SUB {
			s = -s
		} else if b.Op != token.ADD {
			return 0
		}
		if s == 0 || sign != 0 && s != sign {
			return 0
		}
		sign = s
	}
	return sign
}

// fixed: v is the same in each round.
func fixed(l *loopInfo, v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return fixed(l, v.Call.Args[0])
		}
	case *ssa.BinOp:
		if fixed(l, v.X) && fixed(l, v.Y) {
			return true
		}
	case *ssa.FieldAddr:
		return fixed(l, v.X)
	case *ssa.UnOp:
		if f, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && fixed(l, f.X) {
			if !fieldStored[fieldKey(f)] {
				return true
			}
		}
	}
	ins, ok := v.(ssa.Instruction)
	return ok && !l.blocks[ins.Block()]
}

func fieldKey(f *ssa.FieldAddr) string {
	return fmt.Sprintf("%s.%d", f.X.Type().Underlying().(*types.Pointer).Elem().String(), f.Field)
}

// fieldStored: some function of the repository writes the field of an object it
// has not made itself.
var fieldStored = map[string]bool{}

func scanFieldStores(fns map[*ssa.Function]bool) {
	for fn := range fns {
		if !isRepoFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if f, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, own := f.X.(*ssa.Alloc); !own {
							fieldStored[fieldKey(f)] = true
						}
					}
				}
			}
		}
	}
}

// loopReport says how many loops were seen and which are not known to end.
func loopReport(rep *report) {
	for _, why := range loopsSeen {
		switch why {
		case "":
			rep.LoopsEnd++
		case "-":
		default:
			rep.LoopsOpen = append(rep.LoopsOpen, why)
		}
	}
	sort.Strings(rep.LoopsOpen)
}
