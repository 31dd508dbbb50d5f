package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // operator, see below
	args []*Term
	sort string
	name string  // variable, literal text, function / constructor / selector name
	vars []*Term // quantifier: bound variables
	pats [][]*Term
	hasBound bool
}

// Operators:
//
//	var      free constant (name)
//	bvar     bound variable (name)
//	int      integer literal (name)
//	str      string literal (name holds the raw bytes)
//	true false
//	and or not => = ite distinct
//	+ - * < <=
//	str.++ str.len str.at str.substr str.contains str.prefixof ...
//	ctor     datatype constructor application (name)
//	sel      selector (name)
//	is       tester (name of constructor)
//	fn       uninterpreted function (name)
//	forall
//	constarr (sort) ; select ; store

var termTab = map[string]*Term{}
var termCount int

func mk(op, name, sort string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, name: name, sort: sort, args: args}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	if op == "bvar" {
		t.hasBound = true
	}
	termTab[key] = t
	return t
}

var freshCount = map[string]int{}

// Fresh makes a new free constant.
func Fresh(prefix, sort string) *Term {
	freshCount[prefix]++
	return mk("var", fmt.Sprintf("%s!%d", sanitize(prefix), freshCount[prefix]), sort)
}

func Var(name, sort string) *Term { return mk("var", name, sort) }

var bvarCount int

func BVar(prefix, sort string) *Term {
	bvarCount++
	return mk("bvar", fmt.Sprintf("%s?%d", sanitize(prefix), bvarCount), sort)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

var (
	True  = mk("true", "", "Bool")
	False = mk("false", "", "Bool")
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntT(n int64) *Term   { return mk("int", strconv.FormatInt(n, 10), "Int") }
func IntS(s string) *Term  { return mk("int", s, "Int") }
func StrT(s string) *Term  { return mk("str", s, "String") }
func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) intVal() int64 {
	n, _ := strconv.ParseInt(t.name, 10, 64)
	return n
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", "", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", "Bool", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		switch a.op {
		case "false":
			continue
		case "true":
			return True
		}
		if seen[a] {
			continue
		}
		if seen[Not(a)] {
			return True
		}
		seen[a] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", "Bool", a, b)
}

func isLit(t *Term) bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(unsupported("equality of sorts %s and %s", a.sort, b.sort))
	}
	if isLit(a) && isLit(b) {
		return BoolT(a.name == b.name && a.op == b.op)
	}
	if a.sort == "Bool" {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == "String" {
		// s ++ t = "" etc. are left to the solver except for trivial cases
		if a.op == "str.++" && b.op == "str.++" {
			aa, bb := a.args, b.args
			// strip common prefix and suffix
			for len(aa) > 0 && len(bb) > 0 && aa[0] == bb[0] {
				aa, bb = aa[1:], bb[1:]
			}
			for len(aa) > 0 && len(bb) > 0 && aa[len(aa)-1] == bb[len(bb)-1] {
				aa, bb = aa[:len(aa)-1], bb[:len(bb)-1]
			}
			if len(aa) != len(a.args) {
				return Eq(Concat(aa...), Concat(bb...))
			}
		}
	}
	if a.sort == "Int" {
		// cancel constants
		ba, ca := splitConst(a)
		bb, cb := splitConst(b)
		if ba == bb {
			return BoolT(ca == cb)
		}
		if ca != 0 && cb != 0 {
			return Eq(addConst(ba, ca-cb), orZero(bb))
		}
		for i, t := range []*Term{a, b} {
			o := []*Term{b, a}[i]
			if t.op == "str.len" && o.isInt() && o.intVal() == 0 {
				return Eq(t.args[0], StrT(""))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", "Bool", a, b)
}

func orZero(t *Term) *Term {
	if t == nil {
		return IntT(0)
	}
	return t
}

// splitConst splits t into base + constant (base nil means 0).
func splitConst(t *Term) (*Term, int64) {
	if t.isInt() {
		return nil, t.intVal()
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].intVal()
	}
	return t, 0
}

func addConst(b *Term, c int64) *Term {
	if b == nil {
		return IntT(c)
	}
	if c == 0 {
		return b
	}
	return mk("+", "", "Int", b, IntT(c))
}

func Add(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	switch {
	case ba == nil:
		return addConst(bb, ca+cb)
	case bb == nil:
		return addConst(ba, ca+cb)
	}
	return addConst(mk("+", "", "Int", ba, bb), ca+cb)
}

func Sub(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	switch {
	case bb == nil:
		return addConst(ba, ca-cb)
	case ba == bb:
		return IntT(ca - cb)
	}
	if ba == nil {
		ba = IntT(0)
	}
	return addConst(mk("-", "", "Int", ba, bb), ca-cb)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntT(a.intVal() * b.intVal())
	}
	return mk("*", "", "Int", a, b)
}

func Lt(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		return BoolT(ca < cb)
	}
	if ca != 0 && cb != 0 && ba != nil && bb != nil {
		return mk("<", "", "Bool", addConst(ba, ca-cb), bb)
	}
	if t := emptiness(a, b); t != nil {
		return t
	}
	return mk("<", "", "Bool", a, b)
}

func Le(a, b *Term) *Term {
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	if ba == bb {
		return BoolT(ca <= cb)
	}
	// a <= b  <=>  a < b+1, normalise x+1 <= y to x < y
	if ca == 1 && ba != nil {
		return Lt(ba, b)
	}
	if b.op == "str.len" && a.isInt() {
		return Lt(IntT(a.intVal()-1), b)
	}
	if a.op == "str.len" && b.isInt() {
		return Lt(a, IntT(b.intVal()+1))
	}
	return mk("<=", "", "Bool", a, b)
}

// emptiness gives a < b the form s = "" or s != "" where it says just that.
func emptiness(a, b *Term) *Term {
	switch {
	case b.op == "str.len" && a.isInt() && a.intVal() == 0:
		return Not(Eq(b.args[0], StrT("")))
	case b.op == "str.len" && a.isInt() && a.intVal() < 0:
		return True
	case a.op == "str.len" && b.isInt() && b.intVal() == 1:
		return Eq(a.args[0], StrT(""))
	case a.op == "str.len" && b.isInt() && b.intVal() <= 0:
		return False
	}
	return nil
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == "Bool" {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case b == False:
			return And(c, a)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		}
	}
	if a.sort != b.sort {
		panic(unsupported("ite of sorts %s and %s", a.sort, b.sort))
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if c.op == "not" {
		return mk("ite", "", a.sort, c.args[0], b, a)
	}
	return mk("ite", "", a.sort, c, a, b)
}

func Concat(as ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "str.++" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "str" {
			if t.name == "" {
				return
			}
			if len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = StrT(out[len(out)-1].name + t.name)
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	switch len(out) {
	case 0:
		return StrT("")
	case 1:
		return out[0]
	}
	return mk("str.++", "", "String", out...)
}

func StrLen(a *Term) *Term {
	if a.op == "str" {
		return IntT(int64(len(a.name)))
	}
	if a.op == "str.++" {
		s := IntT(0)
		for _, x := range a.args {
			s = Add(s, StrLen(x))
		}
		return s
	}
	return mk("str.len", "", "Int", a)
}

// Op builds a term of a built-in operator without simplification.
func Op(op, sort string, args ...*Term) *Term { return mk(op, "", sort, args...) }

// Fn applies an uninterpreted (declared or axiomatised) function.
func Fn(name, sort string, args ...*Term) *Term {
	if f := simplifyFn(name, sort, args); f != nil {
		return f
	}
	return mk("fn", name, sort, args...)
}

// Ctor applies a datatype constructor.
func Ctor(name, sort string, args ...*Term) *Term {
	return mk("ctor", name, sort, args...)
}

// Is tests the constructor of a datatype value.
func Is(ctor string, t *Term) *Term {
	if t.op == "ctor" {
		return BoolT(t.name == ctor)
	}
	if t.op == "ite" {
		a, b := Is(ctor, t.args[1]), Is(ctor, t.args[2])
		if (a == True || a == False) || (b == True || b == False) {
			return Ite(t.args[0], a, b)
		}
	}
	return mk("is", ctor, "Bool", t)
}

// Sel applies the i-th selector of a constructor.
func Sel(ctor string, i int, sort string, t *Term) *Term {
	if t.op == "ctor" && t.name == ctor {
		return t.args[i]
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if a.op == "ctor" || b.op == "ctor" || a.op == "ite" || b.op == "ite" {
			return Ite(t.args[0], Sel(ctor, i, sort, a), Sel(ctor, i, sort, b))
		}
	}
	return mk("sel", fmt.Sprintf("%s.%d", ctor, i), sort, t)
}

func Select(a, k *Term, vsort string) *Term {
	for a.op == "store" {
		e := Eq(a.args[1], k)
		if e == True {
			return a.args[2]
		}
		if e == False {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", "", vsort, a, k)
}

func Store(a, k, v *Term) *Term { return mk("store", "", a.sort, a, k, v) }

func ConstArr(sort string, v *Term) *Term { return mk("constarr", "", sort, v) }

// ForAll builds a universally quantified formula.
func ForAll(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var b strings.Builder
	for _, v := range vars {
		b.WriteString(v.name)
		b.WriteByte(',')
	}
	for _, p := range pats {
		b.WriteByte(';')
		for _, x := range p {
			fmt.Fprintf(&b, "%d,", x.id)
		}
	}
	t := mk("forall", b.String(), "Bool", body)
	t.vars = vars
	t.pats = pats
	t.hasBound = len(freeBound(t)) > 0
	return t
}

func freeBound(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.hasBound && t.op != "forall" {
			return
		}
		if t.op == "bvar" {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if t.op == "forall" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.vars {
				nb[v] = true
			}
			bound = nb
		}
		for _, a := range t.args {
			walk(a, bound)
		}
	}
	walk(t, map[*Term]bool{})
	return out
}

// Subst replaces terms (variables) by terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				same = false
			}
		}
		var r *Term
		if same {
			r = t
		} else if t.op == "forall" {
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, f(x))
				}
				pats = append(pats, q)
			}
			r = ForAll(t.vars, args[0], pats...)
		} else {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "is":
		return Is(t.name, args[0])
	case "sel":
		i := strings.LastIndexByte(t.name, '.')
		n, _ := strconv.Atoi(t.name[i+1:])
		return Sel(t.name[:i], n, t.sort, args[0])
	case "fn":
		return Fn(t.name, t.sort, args...)
	case "select":
		return Select(args[0], args[1], t.sort)
	}
	return mk(t.op, t.name, t.sort, args...)
}

// ---- printing ---------------------------------------------------------------

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 0x20 || c > 0x7e:
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!$?-+*/<>=&%@~^", c) >= 0) {
			return "|" + s + "|"
		}
	}
	return s
}

// printer of terms with sharing by let-free named definitions for large
// closed subterms.
type tprinter struct {
	defs  []string
	named map[*Term]string
	count map[*Term]int
	dts   *dtUse
	canon map[string]string // canonical variable names, by order of use
	cnum  map[string]int
	ndefs int
}

func (p *tprinter) vname(n string) string {
	if p.canon == nil {
		return n
	}
	if c, ok := p.canon[n]; ok {
		return c
	}
	i := strings.LastIndexAny(n, "!?")
	if i < 0 {
		p.canon[n] = n
		return n
	}
	base := n[:i+1]
	p.cnum[base]++
	c := base + strconv.Itoa(p.cnum[base])
	p.canon[n] = c
	return c
}

func (p *tprinter) countUses(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.countUses(a)
	}
	for _, pt := range t.pats {
		for _, x := range pt {
			p.countUses(x)
		}
	}
}

func (p *tprinter) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.args) > 0 && !t.hasBound && p.count[t] > 1 && len(s) > 24 && t.op != "forall" {
		p.ndefs++
		n := fmt.Sprintf("d!%d", p.ndefs)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort, s))
		p.named[t] = n
		return n
	}
	return s
}

func (p *tprinter) raw(t *Term) string {
	switch t.op {
	case "var", "bvar":
		return quoteSym(p.vname(t.name))
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "str":
		return smtString(t.name)
	case "true", "false":
		return t.op
	case "ctor":
		n := quoteSym(t.name)
		if len(t.args) == 0 {
			return n
		}
		return "(" + n + p.list(t.args) + ")"
	case "sel":
		return "(" + quoteSym(t.name) + p.list(t.args) + ")"
	case "is":
		return "((_ is " + quoteSym(t.name) + ")" + p.list(t.args) + ")"
	case "fn":
		if len(t.args) == 0 {
			return quoteSym(t.name)
		}
		return "(" + quoteSym(t.name) + p.list(t.args) + ")"
	case "constarr":
		return "((as const " + t.sort + ")" + p.list(t.args) + ")"
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for i, v := range t.vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "(%s %s)", quoteSym(p.vname(v.name)), v.sort)
		}
		b.WriteString(") ")
		body := p.str(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, pt := range t.pats {
				bad := false
				for _, x := range pt {
					if !p.patOK(x) {
						bad = true
					}
				}
				if bad {
					continue
				}
				b.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	return "(" + t.op + p.list(t.args) + ")"
}

// patOK makes a term fit for a pattern: closed subterms with interpreted
// symbols that solvers refuse there are given names.
func (p *tprinter) patOK(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "<", "<=", "=>", "is", "forall":
		if t.hasBound || t.op == "forall" {
			return false
		}
		if n, ok := p.named[t]; ok && strings.HasPrefix(n, "pat!") {
			return true
		}
		s := p.str(t)
		p.ndefs++
		n := fmt.Sprintf("pat!%d", p.ndefs)
		p.defs = append(p.defs, fmt.Sprintf("(declare-const %s %s)\n(assert (= %s %s))", n, t.sort, n, s))
		p.named[t] = n
		return true
	}
	if p.hasBad(t) {
		// printed inline, not by an already made definition
		delete(p.named, t)
		p.count[t] = 1
	}
	for _, a := range t.args {
		if !p.patOK(a) {
			return false
		}
	}
	return true
}

func (p *tprinter) hasBad(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "<", "<=", "=>", "is", "forall":
		return true
	}
	for _, a := range t.args {
		if p.hasBad(a) {
			return true
		}
	}
	return false
}

func (p *tprinter) list(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	return b.String()
}

func (t *Term) String() string {
	p := &tprinter{named: map[*Term]string{}, count: map[*Term]int{}}
	return p.str(t)
}

type unsupportedError struct{ msg string }

func (e unsupportedError) Error() string { return "unsupported: " + e.msg }

func unsupported(format string, args ...interface{}) unsupportedError {
	return unsupportedError{fmt.Sprintf(format, args...)}
}
