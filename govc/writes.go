package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Destinations. A write to an io.Writer may answer with any error and may do
// anything else; what the specification observes of it are the ghost functions
// Out (the text handed to the writer), WErr (the first error it answered with)
// and Late (whether it was written to after an error was met). Met tells
// whether an error was made.

func specByName(name string) *SpecFn {
	for _, f := range specs.byObj {
		if f.name == "zzspec."+name {
			return f
		}
	}
	return nil
}

func observe(name string, args ...*Term) *Term {
	f := specByName(name)
	if f == nil {
		return nil
	}
	return f.Apply(fuelN(fuelDepth), args...)
}

var bufferTypes = map[string]bool{sanitize("*bytes.Buffer"): true, sanitize("*strings.Builder"): true}

// write hands text to a writer and gives the error.
func (x *Exec) write(st *State, w, text *Term, pos token.Pos) *Term {
	if st.world == nil || specByName("Out") == nil {
		panic(unsupported("a write, without a specification of destinations"))
	}
	x.safety(st, "write to a nil writer", Not(Eq(w, AnyNil)), pos)
	w0, w1 := st.world, Fresh("world", st.world.sort)
	err := Fresh("werr", "Any")
	st.world = w1
	if x.private[w] {
		x.inner[w1] = w0
	}
	x.mayWrite(st, w, pos)
	x.onlyWritten(st, w, w0, w1)
	x.keepCommand(st, w0, w1)
	st.assume(Eq(observe("Out", w, w1), Concat(observe("Out", w, w0), text)))
	st.assume(Or(Eq(err, AnyNil), Implements(errorType, err)))
	if t := boxedType(w); t != nil && bufferTypes[typeKey(t)] {
		st.assume(Eq(err, AnyNil))
	} else if t == nil {
		for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
			st.assume(Implies(IsBox(ptrTo(x, b), w), Eq(err, AnyNil)))
		}
	}
	if o := observe("WErr", w, w0); o != nil {
		st.assume(Eq(observe("WErr", w, w1), Ite(Eq(o, AnyNil), err, o)))
		if l := observe("Late", w, w0); l != nil {
			met := Not(Eq(o, AnyNil))
			if m := observe("Met", w0); m != nil {
				met = Or(met, m)
				st.assume(Eq(observe("Met", w1), m))
			}
			st.assume(Eq(observe("Late", w, w1), Or(l, met)))
		}
	}
	return err
}

var errorType = types.Universe.Lookup("error").Type()

// errorMade notes that an error was made.
func (x *Exec) errorMade(st *State) {
	if st.world == nil || specByName("Met") == nil {
		return
	}
	w0, w1 := st.world, Fresh("world", st.world.sort)
	st.world = w1
	x.keepCommand(st, w0, w1)
	st.assume(observe("Met", w1))
	b := BVar("w", "Any")
	for _, n := range []string{"Out", "WErr", "Late"} {
		if o := observe(n, b, w1); o != nil {
			st.assume(ForAll([]*Term{b}, Eq(o, observe(n, b, w0)), []*Term{o}))
		}
	}
}

func tokenPrec(t *Term) *Term {
	r := IntT(0)
	for i := int(token.ILLEGAL); i < int(token.VAR)+20; i++ {
		if p := token.Token(i).Precedence(); p != 0 {
			r = Ite(Eq(t, IntT(int64(i))), IntT(int64(p)), r)
		}
	}
	return r
}

func tokenString(t *Term) *Term {
	if t.isInt() {
		return StrT(token.Token(t.intVal()).String())
	}
	return Fn("token.string", "String", t)
}

func init() {
	seterr := func(h func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome) func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		return func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			x.errorMade(st)
			return h(x, st, args, pos)
		}
	}
	externs["fmt.Errorf"] = seterr(externs["fmt.Errorf"])
	externs["errors.New"] = seterr(externs["errors.New"])
	count := func() *Term { return Fresh("n", "Int") }
	externs["fmt.Fprintf"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		msg, _ := format(x.term(st, args[1]), x.term(st, args[2]))
		return one(st, count(), x.write(st, x.give(st, args[0]), msg, pos))
	}
	plain := func(ln bool) func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		return func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			return one(st, count(), x.write(st, x.give(st, args[0]), sprint(x.term(st, args[1]), ln), pos))
		}
	}
	for _, n := range []string{"NewBuffer", "NewBufferString"} {
		externs["bytes."+n] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			t := ptrTo(x, "bytes.Buffer")
			init := x.term(st, args[0])
			r := x.newIdent(st, t.(*types.Pointer).Elem())
			if !(init.op == "str" && init.name == "") {
				w0, w1 := st.world, Fresh("world", st.world.sort)
				st.world = w1
				w := Box(t, x.term(st, r))
				x.onlyWritten(st, w, w0, w1)
				x.keepCommand(st, w0, w1)
				if o := observe("Out", w, w1); o != nil {
					st.assume(Eq(o, init))
				}
				if m := observe("Met", w0); m != nil {
					st.assume(Eq(observe("Met", w1), m))
				}
			}
			return one(st, r)
		}
		externNote["bytes."+n] = "a buffer of its own with the initial text"
	}
	externs["fmt.Fprint"] = plain(false)
	externs["fmt.Fprintln"] = plain(true)
	wstr := func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		return one(st, count(), x.write(st, x.give(st, args[0]), x.term(st, args[1]), pos))
	}
	externs["io.WriteString"] = wstr
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"} {
		externNote[n] = "hands the formatted text to the writer, in one or more writes, and returns the error the writer answered with; a writer that returns no error has taken all of the text"
	}
	invokes["io.Writer.Write"] = func(x *Exec, st *State, recv *Term, args []SVal, pos token.Pos) []Outcome {
		return one(st, count(), x.write(st, recv, x.term(st, args[0]), pos))
	}
	for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
		b := b
		boxed := func(x *Exec, st *State, v SVal) *Term { return Box(ptrTo(x, b), x.term(st, v)) }
		get := func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			return one(st, observe("Out", boxed(x, st, args[0]), st.world))
		}
		externs["(*"+b+").Bytes"] = get
		externs["(*"+b+").String"] = get
		externNote["(*"+b+").Bytes"] = "the bytes written so far"
		externNote["(*"+b+").String"] = "the text written so far"
		externs["(*"+b+").Len"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			return one(st, StrLen(observe("Out", boxed(x, st, args[0]), st.world)))
		}
		w := func(code bool) func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			return func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
				t := x.term(st, args[1])
				if t.sort == "Int" {
					t = fromCode(t)
				}
				err := x.write(st, boxed(x, st, args[0]), t, pos)
				if !code {
					return one(st, err)
				}
				return one(st, count(), err)
			}
		}
		externs["(*"+b+").WriteString"] = w(true)
		externs["(*"+b+").Write"] = w(true)
		externs["(*"+b+").WriteRune"] = w(true)
		externs["(*"+b+").WriteByte"] = w(false)
		for _, m := range []string{"WriteString", "Write", "WriteRune", "WriteByte"} {
			externNote["(*"+b+")."+m] = "appends the text and returns no error"
		}
		identInit[b] = func(x *Exec, st *State, p *Term) {
			if o := observe("Out", Box(ptrTo(x, b), p), st.world); o != nil {
				st.assume(Eq(o, StrT("")))
				if e := observe("WErr", Box(ptrTo(x, b), p), st.world); e != nil {
					st.assume(Eq(e, AnyNil))
				}
			}
		}
	}
	pure := func(name, note string, f func(a []*Term) *Term) {
		externs[name] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(st, a))
			}
			return one(st, f(ts))
		}
		externNote[name] = note
		pureFns[name] = f
	}
	pure("(go/token.Token).Precedence", "the precedence table of go/token", func(a []*Term) *Term { return tokenPrec(a[0]) })
	pure("(go/token.Token).String", "a function of the token", func(a []*Term) *Term { return tokenString(a[0]) })
	pure("(go/token.Pos).IsValid", "the position is not zero", func(a []*Term) *Term { return Not(Eq(a[0], IntT(0))) })
	stringers["token.Token"] = tokenString
	intrinsics["Sprintf"] = func(a []*Term) *Term { t, _ := format(a[0], a[1]); return t }
	setupHooks = append(setupHooks, func(pkgs []*packages.Package, prog *ssa.Program) {
		// buffers never answer with an error
		entryHooks = append(entryHooks, func(x *Exec, st *State) {
			if specByName("WErr") == nil {
				return
			}
			for _, b := range []string{"bytes.Buffer", "strings.Builder"} {
				t := ptrTo(x, b)
				v, w := BVar("b", SortOf(t)), BVar("wd", worldSort)
				e := observe("WErr", Box(t, v), w)
				st.assume(ForAll([]*Term{v, w}, Eq(e, AnyNil), []*Term{e}))
			}
		})
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == "go/ast" {
				t := p.Pkg.Scope().Lookup("Ident").Type()
				st := t.Underlying().(*types.Struct)
				name := 0
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Name" {
						name = i
					}
				}
				stringers[typeKey(types.NewPointer(t))] = func(v *Term) *Term {
					return Ite(IsNilPtr(t, v), StrT("<nil>"), FieldOf(t, name, Deref(t, v)))
				}
			}
		}
	})
}

// sprint is the text of fmt.Sprint or Sprintln.
func sprint(argSeq *Term, ln bool) *Term {
	args, ok := seqElems(argSeq)
	if !ok || (!ln && len(args) > 1) {
		return Fn("fmt.sprint", "String", argSeq)
	}
	var parts []*Term
	for i, a := range args {
		if i > 0 {
			parts = append(parts, StrT(" "))
		}
		parts = append(parts, formatVerb("%v", a))
	}
	if ln {
		parts = append(parts, StrT("\n"))
	}
	return Concat(parts...)
}

// ptrTo is the pointer type of a named type of another module.
func ptrTo(x *Exec, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		for i := len(name) - 1; i > 0; i-- {
			if name[i] == '.' {
				if p.Pkg.Path() == name[:i] {
					return types.NewPointer(p.Pkg.Scope().Lookup(name[i+1:]).Type())
				}
				break
			}
		}
	}
	panic(unsupported("no type %s", name))
}
