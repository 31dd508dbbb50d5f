package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The table of a generated parser against the documented grammar.
//
//	//verif:grammar g grammar.peg PROPS
//	//verif:progress g grammar.peg PROPS
//
// says that the package variable g holds the grammar in that file. Both are
// constants: the table is read from the initialiser in the SSA, the file is
// parsed, and the two are compared rule by rule. They may differ only in ways
// that leave the meaning of a PEG alone: a reference may stand for the rule,
// choices may be nested or not, alternatives that match one character of a set
// may be put together, and so may sequences whose values are not used. The
// second clause says that matching makes progress in every repetition and that
// no rule calls itself before it has matched something.

type grammarClause struct {
	pkg, name, file string
	props           map[string]bool
	kind            string
}

var grammarClauses []grammarClause

// A peg is an expression of a grammar.
type peg struct {
	kind string // seq alt star plus opt and not ref lit set any label act
	text string // what lit matches; the name of ref, label and act
	set  []rune // pairs, ordered and apart
	kids []*peg
	fn   *ssa.Function // of an action in the table
}

func (p *peg) String() string {
	var ks []string
	for _, k := range p.kids {
		ks = append(ks, k.String())
	}
	k := strings.Join(ks, " ")
	switch p.kind {
	case "lit":
		return strconv.Quote(p.text)
	case "set":
		s := ""
		for i := 0; i+1 < len(p.set); i += 2 {
			s += strconv.QuoteRune(p.set[i])
			if p.set[i+1] != p.set[i] {
				s += "-" + strconv.QuoteRune(p.set[i+1])
			}
		}
		return "[" + s + "]"
	case "ref":
		return p.text
	case "label", "act":
		return p.text + ":(" + k + ")"
	case "any":
		return "."
	}
	return p.kind + "(" + k + ")"
}

// setOf normalises a list of ranges.
func setOf(ranges []rune, inverted bool) []rune {
	type rg struct{ a, b rune }
	var rs []rg
	for i := 0; i+1 < len(ranges); i += 2 {
		if ranges[i] <= ranges[i+1] {
			rs = append(rs, rg{ranges[i], ranges[i+1]})
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].a < rs[j].a })
	var out []rune
	for _, r := range rs {
		if n := len(out); n > 0 && r.a <= out[n-1]+1 {
			if r.b > out[n-1] {
				out[n-1] = r.b
			}
			continue
		}
		out = append(out, r.a, r.b)
	}
	if !inverted {
		return out
	}
	var inv []rune
	next := rune(0)
	for i := 0; i < len(out); i += 2 {
		if next < out[i] {
			inv = append(inv, next, out[i]-1)
		}
		next = out[i+1] + 1
	}
	if next <= utf8.MaxRune {
		inv = append(inv, next, utf8.MaxRune)
	}
	return inv
}

// one is the set of characters of an expression that matches one of them.
func (p *peg) one() ([]rune, bool) {
	switch p.kind {
	case "set":
		return p.set, true
	case "lit":
		if r, n := utf8.DecodeRuneInString(p.text); n > 0 && n == len(p.text) {
			return []rune{r, r}, true
		}
	}
	return nil, false
}

// exposed: labels set by the expression are seen around it.
func (p *peg) exposed() bool {
	switch p.kind {
	case "label":
		return true
	case "seq", "act":
		for _, k := range p.kids {
			if k.exposed() {
				return true
			}
		}
	}
	return false
}

// ---- the documented grammar

type pegReader struct {
	s    string
	pos  int
	toks []string
}

func readGrammar(text string) (map[string]*peg, []string, error) {
	r := &pegReader{}
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(text[i:], "//"):
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case strings.HasPrefix(text[i:], "<-"):
			r.toks = append(r.toks, "<-")
			i += 2
		case c == '\'' || c == '"' || c == '[' || c == '{':
			end := map[byte]byte{'\'': '\'', '"': '"', '[': ']', '{': '}'}[c]
			j := i + 1
			for j < len(text) && text[j] != end {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(text) {
				return nil, nil, fmt.Errorf("unfinished %q", text[i:])
			}
			r.toks = append(r.toks, text[i:j+1])
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(text) && (text[j] == '_' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z' || text[j] >= '0' && text[j] <= '9') {
				j++
			}
			r.toks = append(r.toks, text[i:j])
			i = j
		default:
			r.toks = append(r.toks, string(c))
			i++
		}
	}
	rules := map[string]*peg{}
	var order []string
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("%v", e)
			}
		}()
		for r.pos < len(r.toks) {
			name := r.next()
			if r.next() != "<-" {
				panic("expected <- after " + name)
			}
			rules[name] = r.choice()
			order = append(order, name)
		}
	}()
	return rules, order, err
}

func (r *pegReader) peek() string {
	if r.pos < len(r.toks) {
		return r.toks[r.pos]
	}
	return ""
}

func (r *pegReader) next() string {
	t := r.peek()
	r.pos++
	return t
}

func (r *pegReader) choice() *peg {
	p := &peg{kind: "alt", kids: []*peg{r.action()}}
	for r.peek() == "/" {
		r.next()
		p.kids = append(p.kids, r.action())
	}
	if len(p.kids) == 1 {
		return p.kids[0]
	}
	return p
}

func (r *pegReader) action() *peg {
	p := &peg{kind: "seq"}
	for {
		t := r.peek()
		if t == "" || t == ")" || t == "/" || t[0] == '{' || r.pos+1 < len(r.toks) && r.toks[r.pos+1] == "<-" {
			break
		}
		p.kids = append(p.kids, r.item())
	}
	if len(p.kids) == 1 {
		p = p.kids[0]
	}
	if t := r.peek(); t != "" && t[0] == '{' {
		r.next()
		p = &peg{kind: "act", text: strings.TrimSpace(t[1 : len(t)-1]), kids: []*peg{p}}
	}
	return p
}

func (r *pegReader) item() *peg {
	if r.pos+1 < len(r.toks) && r.toks[r.pos+1] == ":" {
		name := r.next()
		r.next()
		return &peg{kind: "label", text: name, kids: []*peg{r.item()}}
	}
	switch r.peek() {
	case "!":
		r.next()
		return &peg{kind: "not", kids: []*peg{r.suffixed()}}
	case "&":
		r.next()
		return &peg{kind: "and", kids: []*peg{r.suffixed()}}
	}
	return r.suffixed()
}

func (r *pegReader) suffixed() *peg {
	p := r.primary()
	switch r.peek() {
	case "*":
		r.next()
		return &peg{kind: "star", kids: []*peg{p}}
	case "+":
		r.next()
		return &peg{kind: "plus", kids: []*peg{p}}
	case "?":
		r.next()
		return &peg{kind: "opt", kids: []*peg{p}}
	}
	return p
}

func (r *pegReader) primary() *peg {
	t := r.next()
	switch {
	case t == "":
		panic("unexpected end")
	case t == "(":
		p := r.choice()
		if r.next() != ")" {
			panic("expected )")
		}
		return p
	case t == ".":
		return &peg{kind: "any"}
	case t[0] == '"' || t[0] == '\'':
		s := t[1 : len(t)-1]
		u, err := strconv.Unquote(`"` + strings.ReplaceAll(strings.ReplaceAll(s, `\'`, `'`), `"`, `\"`) + `"`)
		if err != nil {
			panic(err)
		}
		return &peg{kind: "lit", text: u}
	case t[0] == '[':
		s := t[1 : len(t)-1]
		inv := strings.HasPrefix(s, "^")
		s = strings.TrimPrefix(s, "^")
		char := func() rune {
			if s[0] == '\\' {
				if strings.ContainsRune(`]-^\`, rune(s[1])) {
					c := rune(s[1])
					s = s[2:]
					return c
				}
				c, _, rest, err := strconv.UnquoteChar(s, ']')
				if err != nil {
					panic(err)
				}
				s = rest
				return c
			}
			c, n := utf8.DecodeRuneInString(s)
			s = s[n:]
			return c
		}
		var rs []rune
		for s != "" {
			a := char()
			b := a
			if strings.HasPrefix(s, "-") && len(s) > 1 {
				s = s[1:]
				b = char()
			}
			rs = append(rs, a, b)
		}
		return &peg{kind: "set", set: setOf(rs, inv)}
	}
	if t[0] != '_' && !(t[0] >= 'a' && t[0] <= 'z') && !(t[0] >= 'A' && t[0] <= 'Z') {
		panic("unexpected " + t)
	}
	return &peg{kind: "ref", text: t}
}

// ---- the table in the code

func (s *Static) field(name string) *Static {
	st := s.typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			if f := s.fields[i]; f != nil {
				return f
			}
			return &Static{typ: st.Field(i).Type(), zero: true}
		}
	}
	panic("no field " + name)
}

func (s *Static) str() string {
	if s.zero {
		return ""
	}
	if s.con == nil || s.con.op != "str" {
		panic("a text that is not constant")
	}
	return s.con.name
}

func (s *Static) truth() bool {
	if s.zero {
		return false
	}
	if s.con == nil || s.con.op != "true" && s.con.op != "false" {
		panic("a condition that is not constant")
	}
	return s.con.op == "true"
}

func (s *Static) list_() []*Static {
	if s.zero {
		return nil
	}
	if !s.list {
		panic("a list that is not constant")
	}
	return s.elems
}

func (s *Static) runes() []rune {
	var out []rune
	for _, e := range s.list_() {
		switch {
		case e.zero:
			out = append(out, 0)
		case e.con != nil && e.con.isInt():
			out = append(out, rune(e.con.intVal()))
		default:
			panic("a character that is not constant")
		}
	}
	return out
}

func tablePeg(s *Static) *peg {
	n, ok := types.Unalias(s.typ).(*types.Named)
	if !ok || !s.ptr || s.other {
		panic(fmt.Sprintf("an expression of type %s", s.typ))
	}
	sub := func(kind string) *peg {
		return &peg{kind: kind, kids: []*peg{tablePeg(s.field("expr"))}}
	}
	all := func(kind, f string) *peg {
		p := &peg{kind: kind}
		for _, e := range s.field(f).list_() {
			p.kids = append(p.kids, tablePeg(e))
		}
		return p
	}
	switch n.Obj().Name() {
	case "actionExpr":
		p := sub("act")
		f := s.field("run")
		if f.fn == nil {
			panic("an action that is not a function")
		}
		p.text = strings.TrimSuffix(f.fn.Name(), "$thunk")
		p.fn = methodOf(f.fn)
		return p
	case "choiceExpr":
		return all("alt", "alternatives")
	case "seqExpr":
		return all("seq", "exprs")
	case "labeledExpr":
		p := sub("label")
		p.text = s.field("label").str()
		return p
	case "andExpr":
		return sub("and")
	case "notExpr":
		return sub("not")
	case "zeroOrOneExpr":
		return sub("opt")
	case "zeroOrMoreExpr":
		return sub("star")
	case "oneOrMoreExpr":
		return sub("plus")
	case "ruleRefExpr":
		return &peg{kind: "ref", text: s.field("name").str()}
	case "anyMatcher":
		return &peg{kind: "any"}
	case "litMatcher":
		if s.field("ignoreCase").truth() {
			panic("a text in any case")
		}
		return &peg{kind: "lit", text: s.field("val").str()}
	case "charClassMatcher":
		if s.field("ignoreCase").truth() || len(s.field("classes").list_()) > 0 {
			panic("a class of characters")
		}
		var rs []rune
		for _, c := range s.field("chars").runes() {
			rs = append(rs, c, c)
		}
		rs = append(rs, s.field("ranges").runes()...)
		return &peg{kind: "set", set: setOf(rs, s.field("inverted").truth())}
	}
	panic("an expression of type " + n.Obj().Name())
}

// ---- the comparison

type pegCompare struct {
	doc   map[string]*peg
	table map[string]*peg
	depth int
}

// same compares two expressions. fresh: what labels the expression sets is not
// seen around it; unused: its value is not used.
func (c *pegCompare) same(d, t *peg, fresh, unused bool) error {
	if c.depth++; c.depth > 400 {
		return fmt.Errorf("too deep")
	}
	defer func() { c.depth-- }()
	differ := func() error { return fmt.Errorf("the table has %s for %s", t, d) }
	if d.kind == "ref" && t.kind == "ref" && d.text == t.text {
		if c.table[t.text] == nil {
			return fmt.Errorf("the table has no rule %s", t.text)
		}
		return nil
	}
	if d.kind == "alt" || t.kind == "alt" {
		if (d.kind == "alt") != (t.kind == "alt") && (d.exposed() || t.exposed()) {
			return differ()
		}
		if d.kind != "alt" {
			d = &peg{kind: "alt", kids: []*peg{d}}
		}
		if t.kind != "alt" {
			t = &peg{kind: "alt", kids: []*peg{t}}
		}
		return c.alts(d.kids, t.kids, unused)
	}
	if u := unfold(d, c.doc, fresh); u != nil {
		return c.same(u, t, fresh, unused)
	}
	if u := unfold(t, c.table, fresh); u != nil {
		return c.same(d, u, fresh, unused)
	}
	if d.kind == "seq" && t.kind == "seq" && unused {
		return c.seqs(d.kids, t.kids)
	}
	if a, ok := d.one(); ok {
		if b, ok := t.one(); ok && string(a) == string(b) {
			return nil
		}
		return differ()
	}
	text := d.text == t.text
	if d.kind == "act" {
		// one of the functions it may be
		text = t.text != "" && strings.Contains(" "+d.text+" ", " "+t.text+" ")
	}
	if d.kind != t.kind || !text || len(d.kids) != len(t.kids) || string(d.set) != string(t.set) {
		return differ()
	}
	for i := range d.kids {
		un := unused
		switch d.kind {
		case "act", "and", "not":
			un = true
		case "label":
			un = false
		}
		if err := c.same(d.kids[i], t.kids[i], d.kind != "seq" && d.kind != "act", un); err != nil {
			return err
		}
	}
	return nil
}

// unfold is what a reference stands for.
func unfold(r *peg, in map[string]*peg, fresh bool) *peg {
	if r.kind == "ref" && in[r.text] != nil && (fresh || !in[r.text].exposed()) {
		return in[r.text]
	}
	return nil
}

// seqs compares sequences whose values are not used.
func (c *pegCompare) seqs(d, t []*peg) error {
	if c.depth++; c.depth > 400 {
		return fmt.Errorf("too deep")
	}
	defer func() { c.depth-- }()
	if len(d) > 0 && d[0].kind == "seq" {
		return c.seqs(append(append([]*peg{}, d[0].kids...), d[1:]...), t)
	}
	if len(t) > 0 && t[0].kind == "seq" {
		return c.seqs(d, append(append([]*peg{}, t[0].kids...), t[1:]...))
	}
	if len(d) == 0 && len(t) == 0 {
		return nil
	}
	if len(d) == 0 {
		return fmt.Errorf("the table has %s more", t[0])
	}
	if len(t) == 0 {
		return fmt.Errorf("the table lacks %s", d[0])
	}
	if d[0].kind == "ref" && !(t[0].kind == "ref" && t[0].text == d[0].text) {
		if u := unfold(d[0], c.doc, false); u != nil && u.kind == "seq" {
			return c.seqs(append([]*peg{u}, d[1:]...), t)
		}
	}
	if err := c.same(d[0], t[0], false, true); err != nil {
		return err
	}
	return c.seqs(d[1:], t[1:])
}

// alts compares lists of alternatives.
func (c *pegCompare) alts(d, t []*peg, unused bool) error {
	if c.depth++; c.depth > 400 {
		return fmt.Errorf("too deep")
	}
	defer func() { c.depth-- }()
	if len(d) == 0 && len(t) == 0 {
		return nil
	}
	if len(d) > 0 && d[0].kind == "alt" {
		return c.alts(append(append([]*peg{}, d[0].kids...), d[1:]...), t, unused)
	}
	if len(t) > 0 && t[0].kind == "alt" {
		return c.alts(d, append(append([]*peg{}, t[0].kids...), t[1:]...), unused)
	}
	if len(d) == 0 || len(t) == 0 {
		if len(d) > 0 {
			return fmt.Errorf("the table lacks the alternative %s", d[0])
		}
		return fmt.Errorf("the table has the alternative %s more", t[0])
	}
	if d[0].kind == "ref" && t[0].kind == "ref" && d[0].text == t[0].text && c.table[t[0].text] != nil {
		return c.alts(d[1:], t[1:], unused)
	}
	a, nd := c.ones(d, c.doc)
	b, nt := c.ones(t, c.table)
	if nd > 0 && nt > 0 {
		if string(a) != string(b) {
			return fmt.Errorf("the table has one character of %s for %s", &peg{kind: "set", set: b}, &peg{kind: "set", set: a})
		}
		return c.alts(d[nd:], t[nt:], unused)
	}
	if u := unfold(d[0], c.doc, true); u != nil && (u.kind == "alt" || t[0].kind != "ref") {
		return c.alts(append([]*peg{u}, d[1:]...), t, unused)
	}
	if u := unfold(t[0], c.table, true); u != nil {
		return c.alts(d, append([]*peg{u}, t[1:]...), unused)
	}
	if err := c.same(d[0], t[0], true, unused); err != nil {
		return err
	}
	return c.alts(d[1:], t[1:], unused)
}

// ones is the set of characters matched by the first alternatives of a list,
// as many of them as match one character.
func (c *pegCompare) ones(l []*peg, in map[string]*peg) ([]rune, int) {
	var all []rune
	n := 0
	for _, p := range l {
		for i := 0; i < 20 && p.kind == "ref" && in[p.text] != nil && !in[p.text].exposed(); i++ {
			p = in[p.text]
		}
		if p.kind == "alt" {
			s, k := c.ones(p.kids, in)
			if k == 0 || k != len(p.kids) {
				break
			}
			p = &peg{kind: "set", set: s}
		}
		s, ok := p.one()
		if !ok {
			break
		}
		all = setOf(append(append([]rune{}, all...), s...), false)
		n++
	}
	return all, n
}

// ---- well-formed grammars: every repetition makes progress and no rule calls
// itself before anything is matched, so that matching comes to an end.

type pegForm struct {
	rules map[string]*peg
	null  map[string]bool
}

func (f *pegForm) nullable(p *peg) bool {
	switch p.kind {
	case "star", "opt", "and", "not":
		return true
	case "lit":
		return p.text == ""
	case "ref":
		return f.null[p.text]
	case "alt":
		for _, k := range p.kids {
			if f.nullable(k) {
				return true
			}
		}
		return false
	case "seq", "plus", "label", "act":
		for _, k := range p.kids {
			if !f.nullable(k) {
				return false
			}
		}
		return true
	}
	return false
}

// first are the rules called with nothing matched before.
func (f *pegForm) first(p *peg, out map[string]bool) {
	switch p.kind {
	case "ref":
		out[p.text] = true
	case "seq":
		for _, k := range p.kids {
			f.first(k, out)
			if !f.nullable(k) {
				return
			}
		}
	default:
		for _, k := range p.kids {
			f.first(k, out)
		}
	}
}

func (f *pegForm) check(p *peg) error {
	if (p.kind == "star" || p.kind == "plus") && f.nullable(p.kids[0]) {
		return fmt.Errorf("%s repeats what may match nothing", p)
	}
	if p.kind == "ref" && f.rules[p.text] == nil {
		return fmt.Errorf("there is no rule %s", p.text)
	}
	for _, k := range p.kids {
		if err := f.check(k); err != nil {
			return err
		}
	}
	return nil
}

func wellFormed(rules map[string]*peg) func(name string) error {
	f := &pegForm{rules: rules, null: map[string]bool{}}
	for changed := true; changed; {
		changed = false
		for n, p := range rules {
			if !f.null[n] && f.nullable(p) {
				f.null[n], changed = true, true
			}
		}
	}
	return func(name string) error {
		if err := f.check(rules[name]); err != nil {
			return err
		}
		seen := map[string]bool{}
		f.first(rules[name], seen)
		for changed := true; changed; {
			changed = false
			for n := range seen {
				was := len(seen)
				if rules[n] != nil {
					f.first(rules[n], seen)
				}
				changed = changed || len(seen) > was
			}
		}
		if seen[name] {
			return fmt.Errorf("the rule %s calls itself before anything is matched", name)
		}
		return nil
	}
}

// tableOf is the table a clause speaks of.
func tableOf(prog *ssa.Program, gc grammarClause, u *unitReport) *Static {
	var g *ssa.Global
	for _, v := range allGlobals {
		if v.Pkg.Pkg.Path() == gc.pkg && v.Name() == gc.name {
			g = v
		}
	}
	if g == nil {
		panic("no variable " + gc.name)
	}
	u.Pos = prog.Fset.Position(g.Pos()).String()
	s := staticOf(g)
	if s == nil || s.other || !s.ptr || s.changes(typesWritten) {
		panic("the table is not a constant")
	}
	return s
}

// methodOf is the method behind a method expression.
func methodOf(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if m := c.Call.StaticCallee(); m != nil {
					return m
				}
			}
		}
	}
	return f
}

// checkGrammar compares a table with its grammar.
func checkGrammar(prog *ssa.Program, gc grammarClause) (u *unitReport) {
	start := time.Now()
	u = &unitReport{Name: "table " + gc.name, Kind: "table"}
	defer func() {
		if e := recover(); e != nil {
			u.Error = fmt.Sprint("unsupported: ", e)
		}
		u.Seconds = time.Since(start).Seconds()
	}()
	text, err := os.ReadFile(filepath.Join(*flagSpec, gc.file))
	if err != nil {
		panic(err)
	}
	doc, order, err := readGrammar(string(text))
	if err != nil {
		panic(err)
	}
	s := tableOf(prog, gc, u)
	table := map[string]*peg{}
	var names []string
	oblige := func(label, goal string, err error) {
		u.Obligations++
		u.Clauses = append(u.Clauses, label)
		if err == nil {
			u.Discharged++
			return
		}
		u.Failed = append(u.Failed, failed{Kind: "table", Label: label, Pos: u.Pos, Status: err.Error(), Solver: "comparison", Goal: goal})
	}
	for _, r := range s.field("rules").list_() {
		n := r.field("name").str()
		if table[n] != nil {
			panic("two rules " + n)
		}
		names = append(names, n)
		table[n] = tablePeg(r.field("expr"))
	}
	if gc.kind == "progress" {
		form := wellFormed(table)
		for _, n := range names {
			oblige("progress in rule "+n, table[n].String(), form(n))
		}
		return u
	}
	c := &pegCompare{doc: doc, table: table}
	if len(names) == 0 || len(order) == 0 || names[0] != order[0] {
		oblige("the first rule", order[0], fmt.Errorf("the first rule of the table is not %s", order[0]))
	} else {
		oblige("the first rule", order[0], nil)
	}
	for _, n := range names {
		if doc[n] == nil {
			oblige("rule "+n, n, fmt.Errorf("the grammar has no rule %s", n))
			continue
		}
		oblige("rule "+n, doc[n].String(), c.same(doc[n], table[n], true, false))
	}
	return u
}

