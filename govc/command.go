package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The command: flags, files, logging and the end of the process. What the
// specification observes are the ghost functions Files, FileErr, FlagsSet and
// Died of the world.

var commandState = []string{"Files", "FileErr", "FlagsSet", "Died"}

// keepCommand assumes that the command's state is unchanged, but for some of
// its parts.
func (x *Exec) keepCommand(st *State, w0, w1 *Term, but ...string) {
	for _, n := range commandState {
		skip := false
		for _, b := range but {
			skip = skip || b == n
		}
		if skip {
			continue
		}
		if o := observe(n, w1); o != nil {
			st.assume(Eq(o, observe(n, w0)))
		}
	}
}

// keepWrites assumes that no destination was written to.
func (x *Exec) keepWrites(st *State, w0, w1 *Term) {
	b := BVar("w", "Any")
	for _, n := range []string{"Out", "WErr", "Late"} {
		if o := observe(n, b, w1); o != nil {
			st.assume(ForAll([]*Term{b}, Eq(o, observe(n, b, w0)), []*Term{o}))
		}
	}
	if m := observe("Met", w1); m != nil {
		st.assume(Eq(m, observe("Met", w0)))
	}
}

func (x *Exec) newWorld(st *State, but ...string) (w0, w1 *Term) {
	w0, w1 = st.world, Fresh("world", st.world.sort)
	st.world = w1
	x.keepCommand(st, w0, w1, but...)
	x.keepWrites(st, w0, w1)
	return
}

// flagOf is the name of the flag a package variable holds.
func flagOf(g *ssa.Global) string {
	ss := globalStores[g]
	if len(ss) != 1 || !neverWritten(g) {
		return ""
	}
	c, ok := ss[0].Val.(*ssa.Call)
	if !ok {
		return ""
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "flag" || len(c.Call.Args) == 0 {
		return ""
	}
	if k, ok := c.Call.Args[0].(*ssa.Const); ok {
		if t, ok := constVal(k).(*Term); ok && t.op == "str" {
			return t.name
		}
	}
	return ""
}

// flagVars are the pointers that hold flags.
var flagVars = map[*Term]string{}

// flagsSet: reading the command line before it has been parsed gives nothing.
func (x *Exec) flagsSet(st *State, pos token.Pos) {
	if st.world == nil {
		return
	}
	if s := observe("FlagsSet", st.world); s != nil {
		x.safety(st, "the command line is read after it was parsed", s, pos)
	}
}

func init() {
	quiet := func(st *State) []Outcome { return one(st) }
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetPrefix", "log.SetFlags", "log.SetOutput"} {
		externs[n] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			for _, a := range args {
				x.give(st, a)
			}
			return quiet(st)
		}
		externNote[n] = "writes to the log only, and does not modify the values it formats"
	}
	externs["flag.Parse"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		_, w1 := x.newWorld(st, "FlagsSet")
		if s := observe("FlagsSet", w1); s != nil {
			st.assume(s)
		}
		return one(st)
	}
	externNote["flag.Parse"] = "parses the command line, or ends the process with a usage message"
	externs["flag.Args"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		x.flagsSet(st, pos)
		a := observe("CmdArgs")
		if a == nil {
			x.unsupported(pos, "flag.Args")
		}
		return one(st, a)
	}
	externNote["flag.Args"] = "the arguments after the flags, in order"
	writeFile := func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		name, text := x.term(st, args[0]), x.term(st, args[1])
		if st.world == nil || specByName("Files") == nil {
			x.unsupported(pos, "a file, without a specification of files")
		}
		w0, w1 := x.newWorld(st, "Files", "FileErr")
		err := Fresh("ferr", "Any")
		st.assume(Or(Eq(err, AnyNil), Implements(errorType, err)))
		rt := specByName("Files").obj.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice).Elem()
		st.assume(Eq(observe("Files", w1), Push(observe("Files", w0), MkStruct(rt, []*Term{name, text}))))
		e0 := observe("FileErr", w0)
		st.assume(Eq(observe("FileErr", w1), Ite(Eq(e0, AnyNil), err, e0)))
		return one(st, err)
	}
	for _, n := range []string{"io/ioutil.WriteFile", "os.WriteFile"} {
		externs[n] = writeFile
		externNote[n] = "writes exactly the named file with exactly the given contents, or returns an error"
	}
	join := func(a []*Term) *Term {
		if f := specByName("JoinPath"); f != nil && len(a) == 2 {
			return Fn("path.join", "String", a...)
		}
		return Fn("path.joined", "String", a...)
	}
	externs["path/filepath.Join"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		q := x.term(st, args[0])
		if es, ok := seqElems(q); ok {
			return one(st, join(es))
		}
		return one(st, Fn("path.joined", "String", q))
	}
	externNote["path/filepath.Join"] = "a function of its operands"
	intrinsics["JoinPath"] = join
	intrinsics["Wrapped"] = func(a []*Term) *Term {
		return Ite(Is("anyerr", a[0]), Sel("anyerr", 1, "Any", a[0]), AnyNil)
	}
	die := func(code bool) func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		return func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			for _, a := range args {
				x.give(st, a)
			}
			_, w1 := x.newWorld(st, "Died")
			if d := observe("Died", w1); d != nil {
				if code {
					st.assume(Eq(d, Not(Eq(x.term(st, args[0]), IntT(0)))))
				} else {
					st.assume(d)
				}
			}
			x.exits(st, pos)
			return nil
		}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		externs[n] = die(false)
		externNote[n] = "logs and ends the process with a failure"
	}
	externs["os.Exit"] = die(true)
	externNote["os.Exit"] = "ends the process"
}

// exits checks the contract of a function without results at the end of the
// process.
func (x *Exec) exits(st *State, pos token.Pos) {
	if x.unit == nil || x.unitFn == nil || x.unitFn.Signature.Results().Len() > 0 {
		x.unsupported(pos, "the process ends inside a function with results")
	}
	vals := append([]*Term(nil), x.inputs...)
	for _, cl := range x.unit.get("post", x.prop) {
		x.oblige(st, "post", cl.label, bindClause(cl, vals, x.entryWorld, st.world), pos)
	}
}

// flagVar is the value of a package variable that holds a flag.
func (x *Exec) flagVar(st *State, g *ssa.Global) *Term {
	n := flagOf(g)
	if n == "" {
		return nil
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	v := Var("flag."+n, SortOf(t))
	flagVars[v] = n
	st.assume(Not(IsNilPtr(p.Elem(), v)))
	if d := Deref(p.Elem(), v); d.sort == "String" {
		if o := observe("CmdFlag", StrT(n)); o != nil {
			st.assume(Eq(d, o))
		}
	}
	return v
}
