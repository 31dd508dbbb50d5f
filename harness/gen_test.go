package zzcheck

import (
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/scanner"
	"go/token"
	"io/ioutil"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// alien is a node of unknown kind.
type alien struct{ ast.Node }

type alienValue struct{ ast.Value }

type alienOp struct{ ast.Op }

type alienPart struct{ ast.OpPart }

// ---- Go expressions -------------------------------------------------------

var (
	varNames  = []string{"x", "y", "z", "ptr", "mem", "c", "d", "a1", "not", "bvadd", "let", "v_2", "xY", "assert", "true", "false", "and"}
	opNames   = []string{"Add8", "Neg64", "Foo", "MOVQload", "ADDQ", "Xor16", "A", "x86", "_op", "9lives", "OrB"}
	goIdents  = []string{"x", "y", "off1", "sym", "config", "T", "nil", "_", "isPowerOfTwo", "auxIntToInt32", "é"}
	litTexts  = []string{"0", "1", "42", "0xff", "0b11", "0o17", "1_000", "1.5", ".5", "2.", "1e3", "0x1p-2", "3i", "'a'", `'\''`, `"s"`, `"a b"`, "`raw`", `"\""`, "077", "1.5i"}
	unaryOps  = []string{"-", "+", "!", "^", "&", "<-", "*"}
	binaryOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&^", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}
)

// someIdent is a Go identifier, often a made up one.
func someIdent(r *rand.Rand) string {
	if chance(r, 0.75) {
		return pick(r, goIdents...)
	}
	for {
		s := word(r, "abcxyzABCXYZ_\u00e9\u03b1", "abcxyzABCXYZ_0123456789\u00e9", 1+r.Intn(9))
		if !token.Lookup(s).IsKeyword() {
			return s
		}
	}
}

// someVar is the name of a variable, often a made up one.
func someVar(r *rand.Rand) string {
	if chance(r, 0.75) {
		return pick(r, varNames...)
	}
	for {
		s := word(r, "abcdefghijklmnopqrstuvwxyz", "abcdefghxyzABCDXYZ_0123456789", 1+r.Intn(9))
		if !token.Lookup(s).IsKeyword() {
			return s
		}
	}
}

// someOpcode is an opcode, often a made up one.
func someOpcode(r *rand.Rand) string {
	if chance(r, 0.75) {
		return pick(r, opNames...)
	}
	return word(r, "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcxyzABCDXYZ0123456789", 1+r.Intn(12))
}

func word(r *rand.Rand, first, rest string, n int) string {
	a, b := []rune(first), []rune(rest)
	s := string(a[r.Intn(len(a))])
	for i := 1; i < n; i++ {
		s += string(b[r.Intn(len(b))])
	}
	return s
}

// someLit is a Go literal, often a made up one.
func someLit(r *rand.Rand) string {
	if chance(r, 0.6) {
		return pick(r, litTexts...)
	}
	digits := func(set string, n int) string { return word(r, set, set, 1+r.Intn(n)) }
	exp := func(es string) string {
		return string(es[r.Intn(len(es))]) + pick(r, "", "+", "-") + digits("0123456789", 2)
	}
	frac := func() string {
		switch r.Intn(4) {
		case 0:
			return digits("0123456789", 6) + "." + digits("0123456789", 4)
		case 1:
			return "." + digits("0123456789", 4) + exp("eE")
		case 2:
			return digits("0123456789", 3) + "." + exp("eE")
		default:
			return digits("123456789", 3) + exp("eE")
		}
	}
	body := func(quote string) string {
		s := ""
		for n := r.Intn(5); n > 0; n-- {
			s += pick(r, "a", "Z", " ", "0", "%d", "\\n", "\\\\", "\\"+quote, "\\x41", "\\u00e9", "\\101", "\u00e9", "(", ")", "]", "}", ">", "|", ",", "=", "&", "_", "  ", ";", "'", "`")
		}
		return s
	}
	for {
		var s string
		switch r.Intn(9) {
		case 0:
			s = digits("123456789", 1) + digits("0123456789", 19)
		case 1:
			s = pick(r, "0x", "0X") + digits("0123456789abcdefABCDEF", 16)
		case 2:
			s = pick(r, "0b", "0B", "0b_") + digits("01", 20)
		case 3:
			s = pick(r, "0o", "0O", "0", "0_") + digits("01234567", 10)
		case 4:
			s = frac()
		case 5:
			s = pick(r, "0x", "0X") + digits("0123456789abcdefABCDEF", 4) + pick(r, "", ".", ".8", ".F") + exp("pP")
		case 6:
			s = frac() + "i"
		case 7:
			s = "'" + pick(r, "A", "0", " ", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\000", "\u00e9", "\"", "(", "_", "\\\\") + "'"
		default:
			if chance(r, 0.3) {
				s = "`" + word(r, "aZ\\\"' %n", "aZ\\\"' %n", 1+r.Intn(5)) + "`"
			} else {
				s = "\"" + body("\"") + "\""
			}
		}
		if ts, ok := scan(s); ok && len(ts) == 1 && ts[0] == s {
			return s
		}
	}
}

type exprOpts struct {
	avoid string // characters that must not occur in the text
	plain bool   // no literals other than decimal integers
}

// goTokens makes the tokens of a random Go expression of the accepted kinds.
func goTokens(r *rand.Rand, depth int, o exprOpts) []string {
	ok := func(s string) bool { return !strings.ContainsAny(s, o.avoid) }
	prim := func() []string {
		for {
			var s string
			if chance(r, 0.55) {
				s = someIdent(r)
			} else if o.plain {
				s = fmt.Sprint(r.Intn(100))
			} else {
				s = someLit(r)
			}
			if ok(s) {
				return []string{s}
			}
		}
	}
	if depth <= 0 {
		return prim()
	}
	sub := func() []string { return goTokens(r, depth-1, o) }
	switch r.Intn(9) {
	case 0, 1:
		return prim()
	case 2:
		op := pick(r, unaryOps...)
		if !ok(op) {
			return prim()
		}
		return append([]string{op}, sub()...)
	case 3, 4, 5:
		op := pick(r, binaryOps...)
		if !ok(op) {
			return prim()
		}
		ts := append([]string(nil), sub()...)
		ts = append(ts, op)
		return append(ts, sub()...)
	case 6:
		ts := append([]string{"("}, sub()...)
		return append(ts, ")")
	case 7:
		var ts []string
		if chance(r, 0.7) {
			ts = append(ts, pick(r, "f", "g", "config"))
		} else {
			ts = append(append([]string{"("}, sub()...), ")")
		}
		ts = append(ts, ".", pick(r, "Size", "x", "T", "f"))
		return ts
	default:
		var ts []string
		switch r.Intn(4) {
		case 0:
			ts = append(append([]string{"("}, sub()...), ")")
		case 1:
			ts = append(ts, "f", ".", "g")
		default:
			ts = append(ts, pick(r, "f", "g", "uint32"))
		}
		n := r.Intn(4)
		ts = append(ts, "(")
		for i := 0; i < n; i++ {
			if i > 0 {
				ts = append(ts, ",")
			}
			ts = append(ts, sub()...)
		}
		if n > 0 && ok(".") && chance(r, 0.15) {
			ts = append(ts, "...")
		}
		if n > 0 && chance(r, 0.05) {
			ts = append(ts, ",")
		}
		return append(ts, ")")
	}
}

// scan gives the tokens of a Go expression text.
func scan(text string) ([]string, bool) {
	var s scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(text))
	bad := false
	s.Init(f, []byte(text), func(token.Position, string) { bad = true }, scanner.ScanComments)
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		if t == token.COMMENT || t == token.ILLEGAL {
			bad = true
		}
		if lit != "" && (t.IsLiteral() || t.IsKeyword()) {
			out = append(out, lit)
		} else {
			out = append(out, t.String())
		}
	}
	return out, !bad
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// layTokens writes tokens with random blanks that keep them apart.
func layTokens(r *rand.Rand, ts []string, blanks ...string) string {
	if len(blanks) == 0 {
		blanks = []string{" "}
	}
	s := ""
	for i, t := range ts {
		if i > 0 {
			if chance(r, 0.5) {
				s += pick(r, blanks...)
			} else if i > 0 {
				two, ok := scan(ts[i-1] + t)
				if !ok || !sameStrings(two, []string{ts[i-1], t}) {
					s += pick(r, blanks...)
				}
			}
		}
		s += t
	}
	if got, ok := scan(s); !ok || !sameStrings(got, ts) {
		return strings.Join(ts, " ")
	}
	return s
}

// norm is the position-free tree of a Go expression, false if it has a kind
// of node that embedded expressions must not have.
func norm(e goast.Expr) (goast.Expr, bool) {
	switch x := e.(type) {
	case *goast.Ident:
		return &goast.Ident{Name: x.Name}, true
	case *goast.BasicLit:
		return &goast.BasicLit{Kind: x.Kind, Value: x.Value}, true
	case *goast.ParenExpr:
		y, ok := norm(x.X)
		return &goast.ParenExpr{X: y}, ok
	case *goast.UnaryExpr:
		y, ok := norm(x.X)
		return &goast.UnaryExpr{Op: x.Op, X: y}, ok
	case *goast.StarExpr:
		y, ok := norm(x.X)
		return &goast.StarExpr{X: y}, ok
	case *goast.BinaryExpr:
		a, ok1 := norm(x.X)
		b, ok2 := norm(x.Y)
		return &goast.BinaryExpr{X: a, Op: x.Op, Y: b}, ok1 && ok2
	case *goast.SelectorExpr:
		y, ok := norm(x.X)
		return &goast.SelectorExpr{X: y, Sel: &goast.Ident{Name: x.Sel.Name}}, ok
	case *goast.CallExpr:
		f, ok := norm(x.Fun)
		c := &goast.CallExpr{Fun: f}
		for _, a := range x.Args {
			y, ok1 := norm(a)
			ok = ok && ok1
			c.Args = append(c.Args, y)
		}
		if x.Ellipsis.IsValid() {
			c.Ellipsis = 1
		}
		return c, ok
	}
	return nil, false
}

// refExpr is what an embedded expression text stands for.
func refExpr(text string) (goast.Expr, bool) {
	e, err := goparser.ParseExpr(text)
	if err != nil {
		return nil, false
	}
	return norm(e)
}

// flatten gives the tokens of a Go expression tree.
func flatten(e goast.Expr) []string {
	switch x := e.(type) {
	case *goast.Ident:
		return []string{x.Name}
	case *goast.BasicLit:
		return []string{x.Value}
	case *goast.ParenExpr:
		return append(append([]string{"("}, flatten(x.X)...), ")")
	case *goast.UnaryExpr:
		return append([]string{x.Op.String()}, flatten(x.X)...)
	case *goast.StarExpr:
		return append([]string{"*"}, flatten(x.X)...)
	case *goast.BinaryExpr:
		return append(append(flatten(x.X), x.Op.String()), flatten(x.Y)...)
	case *goast.SelectorExpr:
		return append(flatten(x.X), ".", x.Sel.Name)
	case *goast.CallExpr:
		ts := append(flatten(x.Fun), "(")
		for i, a := range x.Args {
			if i > 0 {
				ts = append(ts, ",")
			}
			ts = append(ts, flatten(a)...)
		}
		if x.Ellipsis != 0 {
			ts = append(ts, "...")
		}
		return append(ts, ")")
	}
	panic(fmt.Sprintf("flatten %T", e))
}

func genGoExpr(r *rand.Rand, depth int, o exprOpts) goast.Expr {
	for {
		e, ok := refExpr(strings.Join(goTokens(r, depth, o), " "))
		if ok {
			return e
		}
	}
}

func genExpr(r *rand.Rand, depth int, avoid string) *ast.Expr {
	return &ast.Expr{Expr: genGoExpr(r, depth, exprOpts{avoid: avoid})}
}

// genCall is an expression of the kind that may stand as a value.
func genCall(r *rand.Rand, depth int) *goast.CallExpr {
	c := &goast.CallExpr{Fun: &goast.Ident{Name: pick(r, "f", "makeX", "b_2")}}
	for i, m := 0, r.Intn(4); i <= m; i++ {
		switch {
		case depth > 0 && chance(r, 0.3):
			c.Args = append(c.Args, genCall(r, depth-1))
		case chance(r, 0.15):
			c.Args = append(c.Args, &goast.Ident{Name: "_"})
		default:
			n := someVar(r)
			for token.Lookup(n).IsKeyword() {
				n = someVar(r)
			}
			c.Args = append(c.Args, &goast.Ident{Name: n})
		}
	}
	return c
}

// ---- trees -----------------------------------------------------------------

type treeOpts struct {
	n        int  // number of alternatives; 1: none
	features bool // bindings, types, auxint, aux, ellipsis, trailing
	odd      bool // things a parser never makes
	parsable bool // only what some text stands for
	bad      float64
}

func genOp(r *rand.Rand, o treeOpts) ast.Op {
	name := func() ast.Opcode { return ast.Opcode(someOpcode(r)) }
	if o.bad > 0 && chance(r, o.bad) {
		switch r.Intn(7) {
		case 0:
			return nil
		case 1:
			return alienOp{ast.Opcode("x")}
		case 2:
			return ast.OpcodeParts{name(), alienPart{ast.Opcode("x")}}
		case 3:
			return ast.OpcodeParts{ast.OpcodeAlt{}, name()}
		case 4:
			return ast.OpcodeParts{name(), name()}
		case 5:
			return ast.OpcodeParts{}
		default:
			return ast.OpcodeParts{name(), nil, altOf(r, 2, o)}
		}
	}
	if o.n <= 1 || chance(r, 0.4) {
		return name()
	}
	var ps ast.OpcodeParts
	groups := 0
	for len(ps) == 0 || groups == 0 && (o.parsable || chance(r, 0.95)) || chance(r, 0.5) {
		lastCode := false
		if len(ps) > 0 {
			_, lastCode = ps[len(ps)-1].(ast.Opcode)
		}
		if chance(r, 0.5) && !(lastCode && o.parsable) {
			ps = append(ps, name())
			continue
		}
		k := o.n
		if !o.parsable && chance(r, 0.25) {
			k = 1
		}
		if o.bad > 0 && chance(r, 0.05) {
			k = r.Intn(5)
		}
		groups++
		ps = append(ps, altOf(r, k, o))
	}
	return ps
}

func altOf(r *rand.Rand, k int, o treeOpts) ast.OpcodeAlt {
	a := ast.OpcodeAlt{}
	for i := 0; i < k; i++ {
		a = append(a, ast.Opcode(fmt.Sprintf("%s%d", pick(r, "8", "Q", "x", "U"), i)))
		if !o.parsable && chance(r, 0.1) {
			a[i] = ""
		} else if i > 0 && chance(r, 0.15) {
			a[i] = a[0]
		}
	}
	return a
}

func genValue(r *rand.Rand, depth int, o treeOpts) ast.Value {
	if o.bad > 0 && chance(r, o.bad/2) {
		if chance(r, 0.5) {
			return nil
		}
		return alienValue{ast.Variable("x")}
	}
	if depth > 0 && chance(r, 0.6) {
		return genSExpr(r, depth, o)
	}
	switch r.Intn(6) {
	case 0:
		return &ast.Expr{Expr: genCall(r, 1)}
	case 1:
		return ast.Placeholder
	default:
		return ast.Variable(someVar(r))
	}
}

func genSExpr(r *rand.Rand, depth int, o treeOpts) *ast.SExpr {
	s := &ast.SExpr{Op: genOp(r, o)}
	if o.features {
		if chance(r, 0.2) {
			s.Binding = ast.Variable(someVar(r))
		}
		if chance(r, 0.2) {
			s.Type = ast.Type(pick(r, "t", "typ.Bool", "y.Type", " a b ", "[x]", "a\"b", "&&", "=", "//x", "%d", "{a}"))
		}
		if chance(r, 0.2) {
			s.AuxInt = genExpr(r, r.Intn(4), "]\n")
		}
		if chance(r, 0.2) {
			s.Aux = genExpr(r, r.Intn(3), "}\n")
		}
		s.Ellipsis = chance(r, 0.12)
		s.Trailing = chance(r, 0.12)
	}
	n := r.Intn(4)
	if chance(r, 0.03) {
		n = 9
	}
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, genValue(r, depth-1, o))
	}
	if n == 0 && chance(r, 0.3) {
		s.Args = []ast.Value{}
	}
	return s
}

func genRule(r *rand.Rand, depth int, o treeOpts) *ast.Rule {
	ru := &ast.Rule{Match: genValue(r, depth, o), Result: genValue(r, depth, o)}
	if chance(r, 0.7) {
		ru.Match = genSExpr(r, depth, o)
	}
	if o.features {
		if chance(r, 0.3) {
			ru.Condition = genExpr(r, r.Intn(4), "=\n")
		}
		if chance(r, 0.15) {
			ru.Block = pick(r, "b", "v.Block", "x.Block", "%s", "a@b", "(", "a//b", "é")
		}
	}
	return ru
}

// ---- comparison and copies ---------------------------------------------------

// clone copies everything reachable.
func clone(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	return cloneV(reflect.ValueOf(x)).Interface()
}

func cloneV(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cloneV(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneV(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneV(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(cloneV(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// show writes a value out in full.
func show(x interface{}) string { return showV(reflect.ValueOf(x)) }

func showV(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showV(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return showV(v.Elem())
	case reflect.Slice:
		var ps []string
		for i := 0; i < v.Len(); i++ {
			ps = append(ps, showV(v.Index(i)))
		}
		n := strings.TrimPrefix(v.Type().String(), "[]")
		return strings.TrimPrefix(n, "ast.") + "[" + strings.Join(ps, ", ") + "]"
	case reflect.Struct:
		var ps []string
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.IsZero() {
				continue
			}
			ps = append(ps, v.Type().Field(i).Name+":"+showV(f))
		}
		return strings.TrimPrefix(v.Type().String(), "ast.") + "{" + strings.Join(ps, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	if v.CanInterface() {
		return fmt.Sprintf("%v", v.Interface())
	}
	return v.String()
}

// ---- texts -------------------------------------------------------------------

func corpus() map[string]string {
	out := map[string]string{}
	fs, _ := filepath.Glob(env("VERIF_REPO", "/repo") + "/internal/testdata/*.rules")
	for _, f := range fs {
		b, err := ioutil.ReadFile(f)
		if err == nil {
			out[filepath.Base(f)] = string(b)
		}
	}
	return out
}

// chunk is a random run of lines of the corpus.
func chunk(r *rand.Rand, files []string, text map[string]string, lines int) string {
	t := text[files[r.Intn(len(files))]]
	ls := strings.SplitAfter(t, "\n")
	i := r.Intn(len(ls))
	j := i + 1 + r.Intn(lines)
	if j > len(ls) {
		j = len(ls)
	}
	return strings.Join(ls[i:j], "")
}

func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 0; k <= r.Intn(3); k++ {
		if len(b) == 0 {
			return string(b)
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b = append(b[:i:i], append([]byte(pick(r, "(", ")", "[", "]", "{", "}", "<", ">", ":", ",", "|", "_", " ", "\n", "//", "=>", "&&", "@", "...", "___", "\"", "a", "A", "0", "\t", "\r", "é", "\xff", "\x00", "`", "'", ".", "*", "-", "\u2028", "\ufffd")), b[i:]...)...)
		case 2:
			j := i + r.Intn(len(b)-i+1)
			if j > i+12 {
				j = i + 12
			}
			b = append(b[:i:i], b[j:]...)
		case 3:
			j := i + r.Intn(len(b)-i+1)
			if j > i+12 {
				j = i + 12
			}
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 4:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 5:
			if chance(r, 0.3) {
				b = b[:i]
			} else {
				b[i] = "()[]{}<>:,|_ \n/=&@.\"aA0"[r.Intn(23)]
			}
		}
	}
	return string(b)
}
