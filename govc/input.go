package main

import (
	"go/token"
	"go/types"
)

// What reading files and readers gives: the text and the error are what the
// specifications InputText, InputErr, OpenErr and CloseErr say.

func init() {
	need := func(x *Exec, pos token.Pos, name string) *SpecFn {
		f := specOf("zzspec." + name)
		if f == nil {
			x.unsupported(pos, "input, without a specification of it")
		}
		return f
	}
	isErr := func(st *State, e *Term) { st.assume(Or(Eq(e, AnyNil), Implements(errorType, e))) }
	readAll := func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		r := x.term(st, args[0])
		x.safety(st, "reading from a nil reader", Not(Eq(r, AnyNil)), pos)
		err := need(x, pos, "InputErr").Apply(fuelN(fuelDepth), r)
		isErr(st, err)
		text := Fresh("read", "String")
		st.assume(Implies(Eq(err, AnyNil), Eq(text, need(x, pos, "InputText").Apply(fuelN(fuelDepth), r))))
		return one(st, text, err)
	}
	for _, n := range []string{"io/ioutil.ReadAll", "io.ReadAll"} {
		externs[n] = readAll
		externNote[n] = "the text of the reader, however it is handed out, or the error of the reader"
	}
	externs["strings.NewReader"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		t := ptrTo(x, "strings.Reader")
		s := x.term(st, args[0])
		r := Fresh("reader", SortOf(t))
		st.assume(Not(IsNilPtr(t.(*types.Pointer).Elem(), r)))
		b := Box(t, r)
		st.assume(Eq(need(x, pos, "InputText").Apply(fuelN(fuelDepth), b), s))
		st.assume(Eq(need(x, pos, "InputErr").Apply(fuelN(fuelDepth), b), AnyNil))
		return one(st, r)
	}
	externNote["strings.NewReader"] = "a reader of the text that does not fail"
	externs["os.Open"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		t := ptrTo(x, "os.File")
		name := x.term(st, args[0])
		err := need(x, pos, "OpenErr").Apply(fuelN(fuelDepth), name)
		isErr(st, err)
		f := Fresh("file", SortOf(t))
		st.assume(Implies(Eq(err, AnyNil), And(Not(IsNilPtr(t.(*types.Pointer).Elem(), f)),
			Eq(Box(t, f), need(x, pos, "Opened").Apply(fuelN(fuelDepth), name)))))
		return one(st, f, err)
	}
	externNote["os.Open"] = "a reader of the file, or an error"
	externs["(*os.File).Close"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		err := need(x, pos, "CloseErr").Apply(fuelN(fuelDepth), Box(ptrTo(x, "os.File"), x.term(st, args[0])))
		isErr(st, err)
		return one(st, err)
	}
	externNote["(*os.File).Close"] = "an error or none; the file is only read"
	externs["sort.Strings"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		v, ok := args[0].(*SliceV)
		if !ok {
			x.fail(st, "frame", "sorting of a slice that existed before", pos)
			return one(st)
		}
		c := st.heap[v.obj]
		q := x.term(st, v)
		n := Fresh("sorted", q.sort)
		st.assume(Eq(Len(n), Len(q)))
		st.heap[v.obj] = &Cell{val: n, escaped: c.escaped}
		return one(st)
	}
	externNote["sort.Strings"] = "changes the order of the elements"
}
