package zzcheck

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- reference meaning of generic opcodes ------------------------------------

// a sort: 0 unknown, 1 Bool, else the width of a bit vector.
type sort int

type opDef struct {
	params []sort
	result sort
	f      func(a []uint64) uint64
}

func (s sort) mask() uint64 {
	if s == 64 {
		return ^uint64(0)
	}
	return 1<<uint(s) - 1
}

func (s sort) String() string {
	if s == 1 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

var refOps = func() map[string]opDef {
	m := map[string]opDef{}
	for _, w := range []sort{8, 16, 32, 64} {
		k := w.mask()
		add := func(name string, n int, f func(a []uint64) uint64) {
			d := opDef{result: w, f: func(a []uint64) uint64 { return f(a) & k }}
			for i := 0; i < n; i++ {
				d.params = append(d.params, w)
			}
			m[fmt.Sprintf("%s%d", name, int(w))] = d
		}
		add("Add", 2, func(a []uint64) uint64 { return a[0] + a[1] })
		add("Sub", 2, func(a []uint64) uint64 { return a[0] - a[1] })
		add("And", 2, func(a []uint64) uint64 { return a[0] & a[1] })
		add("Or", 2, func(a []uint64) uint64 { return a[0] | a[1] })
		add("Xor", 2, func(a []uint64) uint64 { return a[0] ^ a[1] })
		add("Neg", 1, func(a []uint64) uint64 { return -a[0] })
		add("Com", 1, func(a []uint64) uint64 { return ^a[0] })
	}
	b := []sort{1, 1}
	bit := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	m["AndB"] = opDef{b, 1, func(a []uint64) uint64 { return a[0] & a[1] }}
	m["OrB"] = opDef{b, 1, func(a []uint64) uint64 { return a[0] | a[1] }}
	m["EqB"] = opDef{b, 1, func(a []uint64) uint64 { return bit(a[0] == a[1]) }}
	m["NeqB"] = opDef{b, 1, func(a []uint64) uint64 { return bit(a[0] != a[1]) }}
	m["Not"] = opDef{[]sort{1}, 1, func(a []uint64) uint64 { return 1 - a[0] }}
	return m
}()

// typing is the reference judgement of a rule.
type typing struct {
	vars  map[ast.Variable]sort
	order []string // variables, and wildcards as _1, _2, ..., by first use
	sorts map[string]sort
	wild  int
	why   string
}

func (g *typing) no(format string, args ...interface{}) (sort, bool) {
	if g.why == "" {
		g.why = fmt.Sprintf(format, args...)
	}
	return 0, false
}

func (g *typing) value(v ast.Value, t sort) (sort, bool) {
	switch x := v.(type) {
	case ast.Variable:
		if s, ok := g.vars[x]; ok {
			if t != 0 && s != t {
				return g.no("%s has two types", x)
			}
			return s, true
		}
		if t == 0 {
			return g.no("the type of %s is unknown", x)
		}
		name := string(x)
		if x == ast.Placeholder {
			g.wild++
			name = fmt.Sprintf("_%d", g.wild)
		} else {
			g.vars[x] = t
		}
		g.order = append(g.order, name)
		g.sorts[name] = t
		return t, true
	case *ast.SExpr:
		if x.Binding != "" || x.Type != "" || x.AuxInt != nil || x.Aux != nil || x.Ellipsis || x.Trailing {
			return g.no("a feature")
		}
		o, ok := x.Op.(ast.Opcode)
		if !ok {
			return g.no("unexpanded")
		}
		d, ok := refOps[string(o)]
		if !ok {
			return g.no("opcode %s", o)
		}
		if t != 0 && d.result != t {
			return g.no("%s does not give a %s", o, t)
		}
		if len(d.params) != len(x.Args) {
			return g.no("%s has %d arguments", o, len(x.Args))
		}
		for i, a := range x.Args {
			if _, ok := g.value(a, d.params[i]); !ok {
				return 0, false
			}
		}
		return d.result, true
	}
	return g.no("a value of type %T", v)
}

// refTyping tells whether a rule is translatable, and its variables.
func refTyping(r *ast.Rule) (*typing, bool) {
	g := &typing{vars: map[ast.Variable]sort{}, sorts: map[string]sort{}}
	if r.Condition != nil || r.Block != "" {
		g.no("a condition or a block")
		return g, false
	}
	t, ok := g.value(r.Match, 0)
	if !ok {
		return g, false
	}
	_, ok = g.value(r.Result, t)
	return g, ok
}

// meaning evaluates a side; wildcards are numbered through.
func meaning(v ast.Value, val map[string]uint64, wild *int) uint64 {
	switch x := v.(type) {
	case ast.Variable:
		if x == ast.Placeholder {
			*wild++
			return val[fmt.Sprintf("_%d", *wild)]
		}
		return val[string(x)]
	case *ast.SExpr:
		var as []uint64
		for _, a := range x.Args {
			as = append(as, meaning(a, val, wild))
		}
		return refOps[string(x.Op.(ast.Opcode))].f(as)
	}
	panic("meaning")
}

// ---- SMT-LIB, read by its own rules -------------------------------------------

type sx struct {
	atom string
	list []*sx
}

func (e *sx) String() string {
	if e.atom != "" {
		return e.atom
	}
	var ss []string
	for _, x := range e.list {
		ss = append(ss, x.String())
	}
	return "(" + strings.Join(ss, " ") + ")"
}

// readSMT splits a script into commands and comments, each of them one item.
func readSMT(s string) (items []*sx, comments []string, where []int, err error) {
	i := 0
	blank := func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }
	symbol := func(b byte) bool {
		return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/:", b) >= 0
	}
	var read func() *sx
	read = func() *sx {
		for i < len(s) {
			switch {
			case blank(s[i]):
				i++
			case s[i] == ';':
				j := strings.IndexByte(s[i:], '\n')
				if j < 0 {
					j = len(s) - i
				}
				comments = append(comments, s[i:i+j])
				where = append(where, len(items))
				i += j
			case s[i] == '(':
				i++
				e := &sx{}
				for {
					c := read()
					if err != nil {
						return nil
					}
					if c == nil {
						err = fmt.Errorf("a list is not closed")
						return nil
					}
					if c.atom == ")" {
						return e
					}
					e.list = append(e.list, c)
				}
			case s[i] == ')':
				i++
				return &sx{atom: ")"}
			case symbol(s[i]):
				j := i
				for j < len(s) && symbol(s[j]) {
					j++
				}
				e := &sx{atom: s[i:j]}
				i = j
				return e
			default:
				err = fmt.Errorf("byte %q at %d", s[i], i)
				return nil
			}
		}
		return nil
	}
	for {
		e := read()
		if err != nil || e == nil {
			return
		}
		if e.atom == ")" {
			err = fmt.Errorf("a parenthesis too many")
			return
		}
		items = append(items, e)
	}
}

var reserved = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields(`! _ as BINARY DECIMAL exists HEXADECIMAL forall let match NUMERAL par STRING
assert check-sat check-sat-assuming declare-const declare-datatype declare-datatypes declare-fun declare-sort define-fun define-fun-rec define-funs-rec define-sort echo exit get-assertions get-assignment get-info get-model get-option get-proof get-unsat-assumptions get-unsat-core get-value pop push reset reset-assertions set-info set-logic set-option
true false not => and or xor = distinct ite Bool BitVec concat extract bvnot bvand bvor bvneg bvadd bvmul bvudiv bvurem bvshl bvlshr bvult bvnand bvnor bvxor bvxnor bvcomp bvsub bvsdiv bvsrem bvsmod bvashr repeat zero_extend sign_extend rotate_left rotate_right bvule bvugt bvuge bvslt bvsle bvsgt bvsge`) {
		m[s] = true
	}
	return m
}()

type script struct {
	decls  []string
	sorts  map[string]sort
	assert *sx
}

// readScript judges a whole script: C14.
func readScript(text string, rule string) (*script, error) {
	items, comments, where, err := readSMT(text)
	if err != nil {
		return nil, err
	}
	is := func(i int, s string) bool { return i < len(items) && items[i].String() == s }
	if !is(0, "(set-info :smt-lib-version 2.6)") || !is(1, "(set-logic QF_BV)") {
		return nil, fmt.Errorf("the header is missing")
	}
	var want []string
	for _, l := range strings.Split(rule, "\n") {
		want = append(want, "; "+l)
	}
	if strings.Join(comments, "\n") != strings.Join(want, "\n") {
		return nil, fmt.Errorf("the comment is %q, want %q", comments, want)
	}
	for _, w := range where {
		if w != 2 {
			return nil, fmt.Errorf("the rule stands at %d", w)
		}
	}
	sc := &script{sorts: map[string]sort{}}
	i := 2
	for ; i < len(items) && len(items[i].list) == 3 && items[i].list[0].atom == "declare-const"; i++ {
		n := items[i].list[1].atom
		if n == "" || reserved[n] || n[0] >= '0' && n[0] <= '9' || n[0] == '@' || n[0] == '.' || n[0] == ':' {
			return nil, fmt.Errorf("%s declares no plain symbol", items[i])
		}
		if sc.sorts[n] != 0 {
			return nil, fmt.Errorf("%s is declared twice", n)
		}
		for _, s := range []sort{1, 8, 16, 32, 64} {
			if items[i].list[2].String() == s.String() {
				sc.sorts[n] = s
			}
		}
		if sc.sorts[n] == 0 {
			return nil, fmt.Errorf("%s: unknown sort", items[i])
		}
		sc.decls = append(sc.decls, n)
	}
	if len(items) != i+3 || !is(i+1, "(check-sat)") || !is(i+2, "(exit)") {
		return nil, fmt.Errorf("the script does not end with one assertion, check-sat and exit")
	}
	a := items[i]
	if len(a.list) != 2 || a.list[0].atom != "assert" {
		return nil, fmt.Errorf("%s is no assertion", a)
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("the last line is not ended")
	}
	sc.assert = a.list[1]
	t, err := sc.sortOf(sc.assert)
	if err != nil {
		return nil, err
	}
	if t != 1 {
		return nil, fmt.Errorf("the assertion is no Bool")
	}
	return sc, nil
}

// applications: name -> number of arguments (-1: two or more), kind
func (sc *script) sortOf(e *sx) (sort, error) {
	if e.atom != "" {
		if e.atom == "true" || e.atom == "false" {
			return 1, nil
		}
		if s := sc.sorts[e.atom]; s != 0 {
			return s, nil
		}
		return 0, fmt.Errorf("%s is not declared", e.atom)
	}
	if len(e.list) == 0 || e.list[0].atom == "" {
		return 0, fmt.Errorf("%s is no application", e)
	}
	var ss []sort
	for _, a := range e.list[1:] {
		s, err := sc.sortOf(a)
		if err != nil {
			return 0, err
		}
		ss = append(ss, s)
	}
	same := func() bool {
		for _, s := range ss {
			if s != ss[0] {
				return false
			}
		}
		return true
	}
	bad := fmt.Errorf("%s: wrong number or sorts of arguments", e)
	switch f := e.list[0].atom; f {
	case "not":
		if len(ss) != 1 || ss[0] != 1 {
			return 0, bad
		}
		return 1, nil
	case "and", "or", "xor", "=>":
		if len(ss) < 2 || !same() || ss[0] != 1 {
			return 0, bad
		}
		return 1, nil
	case "=", "distinct":
		if len(ss) < 2 || !same() {
			return 0, bad
		}
		return 1, nil
	case "bvnot", "bvneg":
		if len(ss) != 1 || ss[0] == 1 {
			return 0, bad
		}
		return ss[0], nil
	case "bvand", "bvor", "bvxor", "bvadd":
		if len(ss) < 2 || !same() || ss[0] == 1 {
			return 0, bad
		}
		return ss[0], nil
	case "bvsub", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvnand", "bvnor", "bvxnor":
		if len(ss) != 2 || !same() || ss[0] == 1 {
			return 0, bad
		}
		return ss[0], nil
	}
	return 0, fmt.Errorf("unknown function %s", e.list[0])
}

func (sc *script) eval(e *sx, val map[string]uint64) uint64 {
	if e.atom != "" {
		switch e.atom {
		case "true":
			return 1
		case "false":
			return 0
		}
		return val[e.atom]
	}
	s, _ := sc.sortOf(e.list[1])
	var a []uint64
	for _, x := range e.list[1:] {
		a = append(a, sc.eval(x, val))
	}
	r := a[0]
	fold := func(f func(x, y uint64) uint64) uint64 {
		for _, y := range a[1:] {
			r = f(r, y)
		}
		return r & s.mask()
	}
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch e.list[0].atom {
	case "not":
		return 1 - r
	case "and", "bvand":
		return fold(func(x, y uint64) uint64 { return x & y })
	case "or", "bvor":
		return fold(func(x, y uint64) uint64 { return x | y })
	case "xor", "bvxor":
		return fold(func(x, y uint64) uint64 { return x ^ y })
	case "bvnand":
		return ^(a[0] & a[1]) & s.mask()
	case "bvnor":
		return ^(a[0] | a[1]) & s.mask()
	case "bvxnor":
		return ^(a[0] ^ a[1]) & s.mask()
	case "=>":
		r = a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			r = b(a[i] == 0 || r == 1)
		}
		return r
	case "=":
		for i := 1; i < len(a); i++ {
			if a[i] != a[0] {
				return 0
			}
		}
		return 1
	case "distinct":
		for i := range a {
			for j := range a[:i] {
				if a[i] == a[j] {
					return 0
				}
			}
		}
		return 1
	case "bvnot":
		return ^r & s.mask()
	case "bvneg":
		return -r & s.mask()
	case "bvadd":
		return fold(func(x, y uint64) uint64 { return x + y })
	case "bvsub":
		return (a[0] - a[1]) & s.mask()
	case "bvmul":
		return (a[0] * a[1]) & s.mask()
	}
	panic("eval " + e.list[0].atom)
}

// pairings gives the ways to pair the variables with symbols of the script.
func pairings(g *typing, sc *script) []map[string]string {
	fit := func(m map[string]string) bool {
		used := map[string]bool{}
		for _, v := range g.order {
			s, ok := m[v]
			if !ok || used[s] || sc.sorts[s] != g.sorts[v] {
				return false
			}
			used[s] = true
		}
		return len(m) == len(sc.decls)
	}
	var out []map[string]string
	// in order
	if len(g.order) == len(sc.decls) {
		m := map[string]string{}
		for i, v := range g.order {
			m[v] = sc.decls[i]
		}
		if fit(m) {
			out = append(out, m)
		}
	}
	// by name, wildcards in any order
	m := map[string]string{}
	used := map[string]bool{}
	var wild []string
	for _, v := range g.order {
		if v[0] == '_' && len(v) > 1 && v[1] >= '0' && v[1] <= '9' {
			wild = append(wild, v)
			continue
		}
		for _, s := range sc.decls {
			if strings.TrimLeft(s, "$") == v {
				m[v] = s
				used[s] = true
			}
		}
	}
	var rest []string
	for _, s := range sc.decls {
		if !used[s] {
			rest = append(rest, s)
		}
	}
	if len(rest) == len(wild) && len(wild) <= 4 {
		var perm func(k int)
		perm = func(k int) {
			if k == len(wild) {
				n := map[string]string{}
				for a, b := range m {
					n[a] = b
				}
				if fit(n) {
					out = append(out, n)
				}
				return
			}
			for _, s := range rest {
				if !used[s] {
					used[s] = true
					m[wild[k]] = s
					perm(k + 1)
					used[s] = false
				}
			}
			delete(m, wild[k])
		}
		perm(0)
	}
	return out
}

// ---- typed rules ------------------------------------------------------------------

var opsOf = func() map[sort][]string {
	m := map[sort][]string{}
	for n, d := range refOps {
		m[d.result] = append(m[d.result], n)
	}
	for _, l := range m {
		sortStrings(l)
	}
	return m
}()

// typedValue is a random value of the sort.
func typedValue(r *rand.Rand, t sort, depth int, prefix string) ast.Value {
	if depth <= 0 || chance(r, 0.25) {
		if chance(r, 0.15) {
			return ast.Placeholder
		}
		n := pick(r, varNames...)
		if chance(r, 0.5) {
			n = pick(r, "x", "y")
		}
		if chance(r, 0.97) {
			// a name per sort, so that few rules clash
			n = map[sort]string{1: "", 8: "h", 16: "i", 32: "j", 64: "k"}[t] + n
		}
		return ast.Variable(n)
	}
	n := opsOf[t][r.Intn(len(opsOf[t]))]
	d := refOps[n]
	s := &ast.SExpr{Op: ast.Opcode(n)}
	for _, p := range d.params {
		s.Args = append(s.Args, typedValue(r, p, depth-1, prefix))
	}
	return s
}

func typedRule(r *rand.Rand) *ast.Rule {
	t := []sort{1, 8, 16, 32, 64}[r.Intn(5)]
	ru := &ast.Rule{Match: typedValue(r, t, 1+r.Intn(4), ""), Result: typedValue(r, t, r.Intn(4), "")}
	if _, ok := ru.Match.(*ast.SExpr); !ok && chance(r, 0.9) {
		n := opsOf[t][r.Intn(len(opsOf[t]))]
		s := &ast.SExpr{Op: ast.Opcode(n)}
		for _, p := range refOps[n].params {
			s.Args = append(s.Args, typedValue(r, p, 1, ""))
		}
		ru.Match = s
	}
	return ru
}

// spoil makes a rule untranslatable, most of the time.
func spoil(r *rand.Rand, ru *ast.Rule) {
	var ss []*ast.SExpr
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if s, ok := n.(*ast.SExpr); ok {
			ss = append(ss, s)
		}
		for _, c := range children(n) {
			walk(c)
		}
	}
	walk(ru)
	if len(ss) == 0 || chance(r, 0.15) {
		switch r.Intn(5) {
		case 0:
			ru.Condition = genExpr(r, 1, "")
		case 1:
			ru.Block = "b"
		case 2:
			ru.Match = ast.Variable("x")
		case 3:
			ru.Result = typedValue(r, []sort{1, 8, 16, 32, 64}[r.Intn(5)], 2, "")
		case 4:
			ru.Result = &ast.Expr{Expr: genCall(r, 1)}
		}
		return
	}
	s := ss[r.Intn(len(ss))]
	switch r.Intn(16) {
	case 0:
		s.Binding = "b"
	case 1:
		s.Type = "t"
	case 2:
		s.AuxInt = genExpr(r, 0, "")
	case 3:
		s.Aux = genExpr(r, 0, "")
	case 4:
		s.Ellipsis = true
	case 5:
		s.Trailing = true
	case 6:
		s.Op = ast.OpcodeParts{ast.Opcode("Add"), ast.OpcodeAlt{"8", "16"}}
	case 7:
		if o, ok := s.Op.(ast.Opcode); ok {
			s.Op = ast.OpcodeParts{o}
		}
	case 8:
		s.Op = ast.Opcode(pick(r, "Mul8", "Add", "AddB", "XorB", "Neg", "Not8", "NotB", "Eq8", "add8", "Add128", "", "Com", "Sub8 ", "AddPtr", "And", "Neq16"))
	case 9:
		if len(s.Args) > 0 {
			s.Args = s.Args[:len(s.Args)-1]
		} else {
			s.Args = append(s.Args, ast.Variable("x"))
		}
	case 10:
		s.Args = append(s.Args, ast.Variable("x"))
	case 11:
		if len(s.Args) > 0 {
			s.Args[r.Intn(len(s.Args))] = &ast.Expr{Expr: genCall(r, 1)}
		}
	case 12, 13:
		if len(s.Args) > 0 {
			s.Args[r.Intn(len(s.Args))] = typedValue(r, []sort{1, 8, 16, 32, 64}[r.Intn(5)], 2, "")
		}
	case 14:
		s.Args = nil
	case 15:
		if len(s.Args) > 0 {
			s.Args[r.Intn(len(s.Args))] = alienValue{ast.Variable("x")}
		}
	}
}

var _ = strings.Join
