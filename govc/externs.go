package main

import (
	"go/token"
	"go/types"
	"strings"
)

// externs are the functions outside the repository that the code calls, with
// what is assumed about them.
var externs = map[string]func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome{}

// externNote describes the assumption made about an external function.
var externNote = map[string]string{}

// pureFns are external functions that specifications may use.
var pureFns = map[string]func(args []*Term) *Term{}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var stringerIface *types.Interface

// seqElems gives the elements of a sequence of known length.
func seqElems(q *Term) ([]*Term, bool) {
	var out []*Term
	for {
		if isEmptySeq(q) {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
			return out, true
		}
		if q.op == "fn" && strings.HasPrefix(q.name, "push.") {
			out = append(out, q.args[1])
			q = q.args[0]
			continue
		}
		return nil, false
	}
}

func fromCode(t *Term) *Term {
	if t.isInt() && t.intVal() < 0x80 && t.intVal() >= 0 {
		return StrT(string(rune(t.intVal())))
	}
	if t.op == "ite" {
		return Ite(t.args[0], fromCode(t.args[1]), fromCode(t.args[2]))
	}
	return Ite(And(Le(IntT(0), t), Lt(t, IntT(128))), Op("str.from_code", "String", t), Fn("utf8.string", "String", t))
}

// errMsg is the text of an error.
func errMsg(e *Term) *Term {
	switch {
	case e.op == "ctor" && e.name == "anyerr":
		return e.args[0]
	case e.op == "ite":
		return Ite(e.args[0], errMsg(e.args[1]), errMsg(e.args[2]))
	}
	return Ite(Is("anyerr", e), Sel("anyerr", 0, "String", e), Fn("err.msg", "String", e))
}

func boxedType(a *Term) types.Type {
	if a.op == "ctor" && strings.HasPrefix(a.name, "box.") {
		return universeKey[strings.TrimPrefix(a.name, "box.")]
	}
	return nil
}

// formatVerb renders one operand.
func formatVerb(verb string, a *Term) *Term {
	t := boxedType(a)
	if a.op == "ite" {
		return Ite(a.args[0], formatVerb(verb, a.args[1]), formatVerb(verb, a.args[2]))
	}
	switch verb {
	case "%s", "%v":
		if t != nil {
			if h, ok := stringers[typeKey(t)]; ok {
				return h(a.args[0])
			}
			implErr := types.Implements(t, errorIface)
			implStr := stringerIface != nil && types.Implements(t, stringerIface)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !implErr && !implStr {
				return a.args[0]
			}
			if verb == "%v" {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !implErr && !implStr {
					return Fn("itoa", "String", a.args[0])
				}
			}
		}
		if a.op == "ctor" && a.name == "anyerr" {
			return a.args[0]
		}
	case "%d":
		if t != nil && a.args[0].sort == "Int" {
			return Fn("itoa", "String", a.args[0])
		}
	case "%04d":
		if t != nil && a.args[0].sort == "Int" {
			return Fn("itoa4", "String", a.args[0])
		}
	case "%c":
		if t != nil && a.args[0].sort == "Int" {
			return fromCode(a.args[0])
		}
	case "%T":
		if a.op == "ctor" && a.name == "anynil" {
			return StrT("<nil>")
		}
		return Fn("typename", "String", a)
	}
	return Fn("fmt."+verb, "String", a)
}

// stringers render values of types with a String method.
var stringers = map[string]func(v *Term) *Term{}

// format evaluates a fmt format on its operands. The second result is the
// operand of %w.
func format(f, argSeq *Term) (*Term, *Term) {
	if f.op == "ite" {
		a, w1 := format(f.args[1], argSeq)
		b, w2 := format(f.args[2], argSeq)
		if w1 == w2 {
			return Ite(f.args[0], a, b), w1
		}
		return Fresh("formatted", "String"), nil
	}
	args, ok := seqElems(argSeq)
	if f.op != "str" || !ok {
		// unknown format: some text depending on both
		r := Fn("fmt.format", "String", f, argSeq)
		if ok && len(args) == 0 {
			return Ite(Op("str.contains", "Bool", f, StrT("%")), r, f), nil
		}
		return r, nil
	}
	var parts []*Term
	var wrapped *Term
	s := f.name
	n := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			parts = append(parts, StrT(s[i:]))
			break
		}
		parts = append(parts, StrT(s[i:i+j]))
		i += j
		k := i + 1
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			return Fn("fmt.format", "String", f, argSeq), wrapped
		}
		verb := s[i : k+1]
		i = k + 1
		if verb == "%%" {
			parts = append(parts, StrT("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, StrT("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		if verb == "%w" {
			wrapped = a
			parts = append(parts, Fn("fmt.%v", "String", a))
			continue
		}
		parts = append(parts, formatVerb(verb, a))
	}
	if n < len(args) {
		parts = append(parts, Fn("fmt.extra", "String", argSeq))
	}
	return Concat(parts...), wrapped
}

func init() {
	str := func(name string, f func(a []*Term) *Term) {
		externs[name] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(st, a))
			}
			return one(st, f(ts))
		}
		externNote[name] = "the function of that name on texts"
		pureFns[name] = f
	}
	str("strings.Contains", func(a []*Term) *Term { return Op("str.contains", "Bool", a...) })
	str("strings.HasPrefix", func(a []*Term) *Term { return Op("str.prefixof", "Bool", a[1], a[0]) })
	str("strings.HasSuffix", func(a []*Term) *Term { return Op("str.suffixof", "Bool", a[1], a[0]) })
	externs["fmt.Errorf"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		msg, w := format(x.term(st, args[0]), x.term(st, args[1]))
		if w == nil {
			w = AnyNil
		}
		return one(st, MkErr(msg, w))
	}
	externNote["fmt.Errorf"] = "returns a non-nil error with the formatted message, wrapping the operand of %w"
	externs["fmt.Sprintf"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		msg, _ := format(x.term(st, args[0]), x.term(st, args[1]))
		return one(st, msg)
	}
	externNote["fmt.Sprintf"] = "returns the formatted text"
	externs["errors.New"] = func(x *Exec, st *State, args []SVal, pos token.Pos) []Outcome {
		return one(st, MkErr(x.term(st, args[0]), AnyNil))
	}
	externNote["errors.New"] = "returns a non-nil error with the message"
}
