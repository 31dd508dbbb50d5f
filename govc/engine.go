package main

import (
	"go/token"
	"go/types"
)

// What the generated parser needs: its actions, characters and panics.

// specOf finds a specification function of any package.
func specOf(name string) *SpecFn {
	for _, f := range specs.byObj {
		if f.name == name {
			return f
		}
	}
	return nil
}

// callAction calls an action of the parser: a function of what the
// specifications ActionVal and ActionErr say, which changes nothing.
func (x *Exec) callAction(st *State, f *Term, sig *types.Signature, args []SVal) ([]Outcome, bool) {
	v, e := specOf("parser.ActionVal"), specOf("parser.ActionErr")
	if v == nil || e == nil || len(args) != 1 || sig.Results().Len() != 2 ||
		!types.Identical(sig, v.params[0].Type()) {
		return nil, false
	}
	x.usedExterns["actions"] = true
	p := x.snapshot(st, args[0])
	val := v.Apply(fuelN(fuelDepth), f, p)
	err := e.Apply(fuelN(fuelDepth), f, p)
	if q := specOf("parser.ActionPanics"); q != nil {
		may := q.Apply(fuelN(fuelDepth), f, p)
		if x.unit.panics {
			x.atPanic(st, "panic of an action", Not(may), token.NoPos)
			st.assume(Not(may))
		} else {
			x.safety(st, "panic of an action", Not(may), token.NoPos)
		}
	}
	st.assume(Or(Eq(err, AnyNil), Implements(errorType, err)))
	return one(st, val, err), true
}

func init() {
	externNote["actions"] = "an action of the grammar changes nothing but what it returns, and that depends on the matched text and the labels alone"
	pure := func(name, note, sort string) {
		f := func(a []*Term) *Term { return Fn(name, sort, a...) }
		externs[name] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(st, a))
			}
			return one(st, f(ts))
		}
		externNote[name] = note
		pureFns[name] = f
	}
	pure("unicode.ToLower", "a function of the character", "Int")
	pure("unicode.Is", "a function of the table and the character", "Bool")
	decode := func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		s := x.term(st, args[0])
		rn, w := specOf("parser.RuneOf"), specOf("parser.WidthOf")
		if rn == nil || w == nil {
			x.unsupported(pos, "characters without a specification")
		}
		r, n := rn.Apply(fuelN(fuelDepth), s), w.Apply(fuelN(fuelDepth), s)
		for _, t := range runeFacts(s, r, n) {
			st.assume(t)
		}
		return one(st, r, n)
	}
	externs["unicode/utf8.DecodeRune"] = decode
	externs["unicode/utf8.DecodeRuneInString"] = decode
	externNote["unicode/utf8.DecodeRune"] = "the first character of the text and its length, which is 0 for the empty text alone"
}

func runeFacts(s, r, n *Term) []*Term {
	return []*Term{
		Le(IntT(0), n), Le(n, StrLen(s)),
		Eq(Eq(n, IntT(0)), Eq(StrLen(s), IntT(0))),
		Implies(Eq(n, IntT(0)), Eq(r, IntT(0xFFFD))),
	}
}
