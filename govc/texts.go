package main

import (
	"go/token"
	"go/types"
)

// Functions on texts that the parser's actions use. Specifications use the
// same functions; little is assumed of them.

func init() {
	pure := func(name, note string, f func(a []*Term) *Term) {
		externs[name] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(st, a))
			}
			return one(st, f(ts))
		}
		externNote[name] = note
		pureFns[name] = f
	}
	pure("strings.TrimSpace", "a function of its argument", func(a []*Term) *Term { return Fn("strings.TrimSpace", "String", a...) })
	pure("strings.Join", "a function of the texts and the separator", func(a []*Term) *Term { return Fn("strings.Join", "String", a...) })
	texts := types.NewSlice(types.Typ[types.String])
	split := func(a []*Term) *Term { return Fn("strings.Split", SortOf(texts), a...) }
	pureFns["strings.Split"] = split
	externNote["strings.Split"] = "a function of its arguments, of at least one text; the caller owns them"
	fnAxioms["strings.Split"] = func() []*Term {
		s, sep := BVar("s", "String"), BVar("sep", "String")
		t := split([]*Term{s, sep})
		return []*Term{ForAll([]*Term{s, sep}, Implies(Not(Eq(sep, StrT(""))), Le(IntT(1), Len(t))), []*Term{t})}
	}
	externs["strings.Split"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		q := split([]*Term{x.term(st, args[0]), x.term(st, args[1])})
		o := x.newObj(texts, "texts")
		st.heap[o] = &Cell{val: q}
		return one(st, &SliceV{obj: o, typ: texts})
	}
}
