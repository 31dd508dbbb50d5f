package zzcheck

import (
	"bytes"
	"errors"
	"fmt"
	goast "go/ast"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
)

func init() {
	checks["C09"] = roundTripSearch
	checks["C10"] = componentSearch
	checks["C11"] = grammarSearch
	checks["C12"] = totalitySearch
	checks["C13"] = embeddedSearch
	checks["C18"] = layoutSearch
}

func corpusNames() ([]string, map[string]string) {
	text := corpus()
	var names []string
	for n := range text {
		names = append(names, n)
	}
	sortStrings(names)
	return names, text
}

// someText is a text that may or may not be a rule file.
func someText(c *Ctx, names []string, text map[string]string, broken float64) string {
	var s string
	switch {
	case len(names) > 0 && chance(c.rng, 0.3):
		s = chunk(c.rng, names, text, 4)
	default:
		s, _ = laid(c.rng, fileText(c.rng, genFile(c.rng, 3)), chance(c.rng, 0.3), chance(c.rng, 0.05))
	}
	if chance(c.rng, broken) {
		s = mutate(c.rng, s)
	}
	return s
}

func roundTripSearch(c *Ctx) {
	c.rule = "the shipped rule files, runs of their lines, random rule files in random layout, and mutations of these; non-trivial: the text is accepted and holds a rule"
	names, text := corpusNames()
	one := func(s string) {
		f, err := parse.String(s)
		if err != nil {
			c.evals++
			return
		}
		c.run(func() string { return s }, len(f.Rules) > 0, func(fail func(string, ...interface{})) {
			b, err := printer.Bytes(f)
			if err != nil {
				fail("the parsed file is not printed: %v", err)
				return
			}
			g, err := parse.String(string(b))
			if err != nil {
				fail("printed as %q, which does not parse: %v", b, err)
				return
			}
			if !reflect.DeepEqual(f, g) {
				fail("printed as %q, which reads as %s, want %s", b, show(g), show(f))
				return
			}
			b2, err := printer.Bytes(g)
			if err != nil || !bytes.Equal(b, b2) {
				fail("printed first as %q, then as %q, %v", b, b2, err)
			}
		})
	}
	for _, n := range names {
		one(text[n])
	}
	for i := 0; i < c.rounds(25000) && !c.stop(); i++ {
		one(someText(c, names, text, 0.4))
	}
}

func componentSearch(c *Ctx) {
	c.rule = "random rule files written out in random layout, with types, auxint and aux anywhere among the arguments and sometimes repeated, and texts the reference parser accepts; non-trivial: at least one rule"
	names, text := corpusNames()
	one := func(s string, want *ast.File) {
		c.run(func() string { return s }, len(want.Rules) > 0, func(fail func(string, ...interface{})) {
			f, err := parse.String(s)
			if err != nil {
				return // C11
			}
			if !z.Eq(f, want) {
				fail("parsed as %s, want %s", show(f), show(want))
			}
			for _, r := range f.Rules {
				if r == nil || r.Match == nil || r.Result == nil {
					fail("a rule lacks a side: %s", show(r))
				}
			}
		})
	}
	for _, n := range names {
		if want, ok := refParse(text[n]); ok {
			one(text[n], want)
		}
	}
	for i := 0; i < c.rounds(25000) && !c.stop(); i++ {
		if chance(c.rng, 0.6) {
			f := genFile(c.rng, 3)
			s, _ := laid(c.rng, fileText(c.rng, f), true, false)
			one(s, f)
			continue
		}
		s := someText(c, names, text, 0.5)
		if want, ok := refParse(s); ok {
			one(s, want)
		}
	}
}

// soup is a random string over the bits of the grammar.
func soup(r *rand.Rand) string {
	s := ""
	for n := 1 + r.Intn(14); n > 0; n-- {
		s += pick(r, "(", ")", "(A", "(A x)", "=>", " => ", "&&", " && ", "x", "_", "__", "___", "...", " ", "\n", "//", "// c\n", "@b ", "@", "<t>", "<", ">", "[1]", "[", "]", "{s}", "{", "}", ":", "x:", "f(", "f(x)", ",", "|", "(8|16)", "(8", "A", "b", "9", "=", "&", ".", "é", "-", "(A x) => (B)\n", "f(x,y)", "f( x )")
	}
	return s
}

func grammarSearch(c *Ctx) {
	c.rule = "the shipped rule files, random rule files in random layout, mutations of both, and random strings over the pieces of the grammar, judged by a reference recogniser; non-trivial: at least eight bytes"
	names, text := corpusNames()
	one := func(s string) {
		c.run(func() string { return s }, len(s) >= 8, func(fail func(string, ...interface{})) {
			f, err := parse.String(s)
			want, ok := refParse(s)
			if (err == nil) != ok {
				fail("error %v, want accepted: %v", err, ok)
				return
			}
			if ok && !z.Eq(f, want) {
				fail("parsed as %s, want %s", show(f), show(want))
			}
		})
	}
	for _, n := range names {
		one(text[n])
	}
	for _, s := range []string{"", " ", "\n", "//", "// c", "//\n", "(A) => (B)", "(A)=>(B)", "x => y", "x=>y", "x => y z => w", "f(x) => g(y)", "f() => x", "_ => _", "__ => _", "(A x) && => (B)", "(A x) && c=> (B)", "(A x)&& c => (B)", "(A x) &&c => (B)", "(A ... ___) => (B ___ ...)", "(A <>) => (B)", "(A []) => (B)", "(A {}) => (B)", "(A(8|16)) => (B(8|16))", "(A(8)) => (B)", "((8|16)) => (B)", "(A |) => (B)", "(A x) => @b (B)", "(A x) => @b(B)", "(A x) => @b(B) (C)", "(A x) => @ (B)", "(A x:(B)) => x:(C)", "(A x: (B)) => (C)", "X:(A) => (B)", "(A x)\n=> (B)", "(A\tx\r\n) => (B)", "(A x) => (B) // c", "(A x) => (B) /", "(A f(x , y)) => (B)", "(A f (x)) => (B)", "(A f(x y)) => (B)", "(A f((B))) => (B)", "(A f(x,)) => (B)", "(A <a<b>) => (B)", "(A <a>b>) => (B)", "(A [x[1]]) => (B)", "(A x) => (B))", "(A x) => (B) (C)", "(A x) && a=>b => (B)", "(A x) && a >=b => (B)", "(A x) && a= >b => (B)", "(A x)=>(B)(C)=>(D)"} {
		one(s)
	}
	for i := 0; i < c.rounds(40000) && !c.stop(); i++ {
		if chance(c.rng, 0.3) {
			one(soup(c.rng))
		} else {
			one(someText(c, names, text, 0.75))
		}
	}
}

// chunked gives its data in random bits, empty ones among them.
type chunked struct {
	s   string
	r   *rand.Rand
	end error // given with the last data if eof is set, else after it
	eof bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, c.end
	}
	n := c.r.Intn(5)
	if n > len(c.s) {
		n = len(c.s)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if len(c.s) == 0 && c.eof {
		return n, c.end
	}
	return n, nil
}

func totalitySearch(c *Ctx) {
	c.rule = "random bytes, truncated and mutated rule files, invalid UTF-8, faulty embedded expressions; parsed from a string, from readers that chunk their data at random, from files, and from readers that fail; non-trivial: at least eight bytes"
	names, text := corpusNames()
	dir, err := ioutil.TempDir("", "zzcheck")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	k := 0
	same := func(a *ast.File, aerr error, b *ast.File, berr error) bool {
		return (aerr == nil) == (berr == nil) && reflect.DeepEqual(a, b)
	}
	one := func(s string, mustFail bool) {
		k++
		disk := k%8 == 0
		seed := c.rng.Int63()
		c.run(func() string { return s }, len(s) >= 8, func(fail func(string, ...interface{})) {
			f, err := parse.String(s)
			if (f == nil) == (err == nil) {
				fail("the result is %v and the error %v", show(f), err)
				return
			}
			if mustFail && err == nil {
				fail("accepted as %s despite a faulty embedded expression", show(f))
			}
			if f2, err2 := parse.String(s); !same(f, err, f2, err2) {
				fail("parsed again: %v, %v; first %v, %v", show(f2), err2, show(f), err)
			}
			r := rand.New(rand.NewSource(seed))
			readers := []io.Reader{
				iotest.OneByteReader(strings.NewReader(s)),
				iotest.DataErrReader(strings.NewReader(s)),
				&chunked{s, r, io.EOF, false},
				&chunked{s, r, io.EOF, true},
			}
			i := r.Intn(len(readers))
			f3, err3 := parse.Reader("some name", readers[i])
			if !same(f, err, f3, err3) {
				fail("from reader %d: %v, %v; from a string: %v, %v", i, show(f3), err3, show(f), err)
			}
			broken := errors.New("broken")
			cut := r.Intn(len(s) + 1)
			f4, err4 := parse.Reader("broken", &chunked{s[:cut], r, broken, r.Intn(2) == 0})
			if err4 == nil || f4 != nil {
				fail("from a reader that fails after %d bytes: %v, %v", cut, show(f4), err4)
			}
			if disk {
				name := filepath.Join(dir, fmt.Sprintf("f%d.rules", k%5))
				if ioutil.WriteFile(name, []byte(s), 0o600) == nil {
					f5, err5 := parse.File(name)
					if !same(f, err, f5, err5) {
						fail("from a file: %v, %v; from a string: %v, %v", show(f5), err5, show(f), err)
					}
				}
			}
		})
	}
	for _, name := range []string{"missing.rules", "", "sub/none"} {
		c.run(func() string { return "file " + name }, true, func(fail func(string, ...interface{})) {
			if f, err := parse.File(filepath.Join(dir, name)); err == nil || f != nil {
				fail("no error for a file that cannot be read: %v, %v", show(f), err)
			}
		})
	}
	for _, n := range names {
		one(text[n], false)
	}
	for _, s := range []string{"", "(", strings.Repeat("(A ", 3000), strings.Repeat("f(", 300), strings.Repeat("(A f(x) ", 1000) + strings.Repeat(")", 1000) + " => x",
		"(A [" + strings.Repeat("(", 2000) + "1" + strings.Repeat(")", 2000) + "]) => x", strings.Repeat("//\n", 5000), strings.Repeat(" ", 50000), "(A" + strings.Repeat("(8|16)", 2000) + ") => x", "\ufeff(A) => (B)", "(A) => (B)\x00", "\xff", "(A [\xff]) => (B)", "(A) => (B) // \xff", strings.Repeat("(A x) && c => (B)\n", 500)} {
		one(s, false)
	}
	badExprs := []string{"x[1]", "a.(T)", "T{}", "x[1:2]", "func() {}", "[]int{1}", "map[k]v{}", "x y", "1 +", ")", "\"", "a := b", "x...", "f(x[1])", "f(-x[1])", "(x[1])", "*x[1]", "x[1].y", "x[1](y)", "a + b*x[1]", "struct{}", "interface{}", "chan int", "...x", "f(T{})", "a,b", "x;", "x//", "if", "'ab'"}
	for _, b := range badExprs {
		for _, form := range []string{"(A x) && %s => (B)", "(A [%s]) => (B)", "(A {%s} x) => (B)", "(A x) => (B (C [%s]))", "(A (B {%s})) && c => (B)"} {
			s := fmt.Sprintf(form, b)
			_, ok := refParse(s)
			one(s, !ok)
		}
	}
	for i := 0; i < c.rounds(20000) && !c.stop(); i++ {
		switch c.rng.Intn(5) {
		case 0:
			b := make([]byte, c.rng.Intn(40))
			c.rng.Read(b)
			one(string(b), !utf8.Valid(b))
		case 1:
			one(soup(c.rng), false)
		case 2:
			s := someText(c, names, text, 0)
			one(s[:c.rng.Intn(len(s)+1)], false)
		case 3:
			// a faulty expression somewhere
			f := genFile(c.rng, 2)
			s, _ := laid(c.rng, fileText(c.rng, f), true, false)
			i := strings.IndexAny(s, "[{")
			if i < 0 {
				continue
			}
			s = s[:i+1] + badExprs[c.rng.Intn(len(badExprs))] + " " + s[i+1:]
			_, ok := refParse(s)
			one(s, !ok)
		default:
			one(someText(c, names, text, 0.9), false)
		}
	}
}

// positions tells the first position an expression carries.
func positions(e goast.Expr) string {
	bad := ""
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.Type.String() == "token.Pos" {
					n := v.Field(i).Int()
					if n != 0 && !(f.Name == "Ellipsis" && n == 1) {
						bad = path + "." + f.Name
					}
					continue
				}
				if f.Name == "Obj" {
					continue
				}
				walk(v.Field(i), path+"."+f.Name)
			}
		}
	}
	walk(reflect.ValueOf(e), "")
	return bad
}

func embeddedSearch(c *Ctx) {
	c.rule = "expression texts, valid Go or not, of accepted kinds or not, in every place an expression can stand and in two layouts; non-trivial: at least four bytes"
	type place struct{ before, after, close string }
	places := []place{
		{"(A x) && ", " => (B)", "=>"},
		{"(A [", "] x) => (B)", "]"},
		{"(A x {", "}) => (B)", "}"},
		{"(A x) => (B [", "] y)", "]"},
		{"(A x) => (B (C {", "}))", "}"},
		{"(A ", ") => (B)", ""},
		{"", " => (B)", ""},
	}
	get := func(k int, f *ast.File) *ast.Expr {
		r := f.Rules[0]
		arg := func(v ast.Value, i int) *ast.SExpr {
			s, _ := v.(*ast.SExpr)
			if i >= 0 && s != nil && len(s.Args) > i {
				s, _ = s.Args[i].(*ast.SExpr)
			}
			return s
		}
		switch k {
		case 0:
			return r.Condition
		case 1:
			return arg(r.Match, -1).AuxInt
		case 2:
			return arg(r.Match, -1).Aux
		case 3:
			return arg(r.Result, -1).AuxInt
		case 4:
			return arg(r.Result, 0).Aux
		case 5:
			if s := arg(r.Match, -1); s != nil && len(s.Args) > 0 {
				e, _ := s.Args[0].(*ast.Expr)
				return e
			}
			return nil
		}
		e, _ := r.Match.(*ast.Expr)
		return e
	}
	one := func(k int, text string) {
		p := places[k]
		src := p.before + text + p.after
		if p.close != "" && (!fits(text, p.close) || k == 0 && strings.Contains(text+p.after[:3], "=>") && strings.Index(text+p.after, "=>") != len(text)+1) || !utf8.ValidString(text) {
			return
		}
		read := text
		if k == 0 {
			read = strings.TrimSpace(strings.ReplaceAll(text, "\n", " "))
			if read == "" {
				return
			}
		}
		c.run(func() string { return src }, len(text) >= 4, func(fail func(string, ...interface{})) {
			want, ok := refExpr(read)
			f, err := parse.String(src)
			if (err == nil) != ok {
				fail("error %v, want accepted: %v", err, ok)
				return
			}
			if !ok {
				return
			}
			e := get(k, f)
			if e == nil {
				fail("no expression where it is written: %s", show(f))
				return
			}
			if !reflect.DeepEqual(bare(e.Expr), want) {
				fail("tree %s, want %s", show(e.Expr), show(want))
			}
			if pos := positions(e.Expr); pos != "" {
				fail("the tree carries a position at %s", pos)
			}
			// the same tokens in another layout and another place
			other := strings.Join(flatten(want), " ")
			for _, k2 := range []int{0, 1 + c.rng.Intn(4)} {
				p2 := places[k2]
				if !fits(other, p2.close) || strings.Contains(other, "\n") {
					continue
				}
				f2, err := parse.String(" \n" + p2.before + other + p2.after)
				if err != nil {
					fail("with the layout %q: %v", other, err)
					continue
				}
				if e2 := get(k2, f2); e2 == nil || !reflect.DeepEqual(e.Expr, e2.Expr) {
					fail("not equal with the layout %q: %s, %s", other, show(e.Expr), show(e2))
				}
			}
		})
	}
	call := func(k int, e goast.Expr) {
		// a call, its arguments laid out over lines with comments
		w := &writer{r: c.rng}
		w.call(e)
		text, _ := laid(c.rng, w.ps, true, false)
		src := places[k].before + text + places[k].after
		c.run(func() string { return src }, true, func(fail func(string, ...interface{})) {
			f, err := parse.String(src)
			if err != nil {
				fail("error %v, want accepted", err)
				return
			}
			if got := get(k, f); got == nil || !reflect.DeepEqual(got.Expr, e) {
				fail("tree %s, want %s", show(got), show(e))
			}
		})
	}
	fixed := []string{"x", "_", "1", "x[1]", "a.(T)", "T{}", "x[1:2]", "func() {}", "[]int{1}", "x y", "1 +", "f(x...)", "f(x, y...)", "f(x...)(y)", "f((g(x...)))", "-f(x...)", "a || f(x...)", "f(g(x...))", "f(x...,)", "f(x,)", "f(-x[1])", "(x[1])", "*x[1]", "x[1].y", "x[1](y)", "a + b*x[1]", "x.y.z", "&x", "<-x", "!x && !y", "a<<b | c&^d", "f()", "x /* c */ + y", "x // c", "x +\ny", "x\n+ y", "f(\nx,\ny)", "chan int", "struct{}", "(x)", "((x))", "x.(type)", "x{}", "f(func() {})", "'a'", "\"s\"", "`r`", "1i", "a.b(c).d(e...)", "f(1...)", "f(-1...)", "~x", "x--", "x = y", "a, b", "x;", "if", "x.if", "f[T](x)", "f[T]", "[]T(x)", "*T(x)", "(*T)(x)", "interface{}(x)", "map[a]b(x)", "", " ", "\t", "é", "\u00a0x", "x\u00a0", "\u2028x", "x\v", "\fx"}
	for k := 0; k < 5; k++ {
		for _, t := range fixed {
			one(k, t)
			one(k, " "+t+"\t")
		}
	}
	for i := 0; i < c.rounds(25000) && !c.stop(); i++ {
		if chance(c.rng, 0.2) {
			call(5+c.rng.Intn(2), genCall(c.rng, 1+c.rng.Intn(3)))
			continue
		}
		k := c.rng.Intn(5)
		text := layTokens(c.rng, goTokens(c.rng, c.rng.Intn(5), exprOpts{}), " ", " ", "\t", "\n")
		if chance(c.rng, 0.4) {
			// damage it
			switch c.rng.Intn(3) {
			case 0:
				text = mutate(c.rng, text)
			default:
				b := pick(c.rng, "x[1]", "a.(T)", "T{}", "x[1:2]", "f(x...)", "f(y, x...)", "[]T", "struct{}", "(x[1])", "func() {}", "g(x[1])", "x...")
				ws := strings.Split(text, " ")
				ws[c.rng.Intn(len(ws))] = b
				text = strings.Join(ws, " ")
			}
		}
		one(k, text)
	}
}

// bare is an expression without the objects Go's parser resolves.
func bare(e goast.Expr) goast.Expr {
	n, ok := norm(e)
	if !ok {
		return e
	}
	return n
}

func layoutSearch(c *Ctx) {
	c.rule = "random rule files, once with the least layout and once with random runs of blanks, line breaks and comments between all components, inside conditions and calls, and at both ends; non-trivial: at least one rule"
	known := false
	one := func(ps []piece, condComments bool) {
		a := plain(ps)
		b, inCond := laid(c.rng, ps, true, condComments)
		if chance(c.rng, 0.3) {
			a, inCond = b, inCond
			var in2 bool
			b, in2 = laid(c.rng, ps, true, condComments)
			inCond = inCond || in2
		}
		c.run(func() string { return a + "\n-- and --\n" + b }, len(ps) > 3, func(fail func(string, ...interface{})) {
			f, err := parse.String(a)
			g, err2 := parse.String(b)
			if (err == nil) == (err2 == nil) && (err != nil || reflect.DeepEqual(f, g)) {
				if err != nil && !inCond {
					fail("refused in both layouts: %v", err)
				}
				return
			}
			if inCond {
				// the known finding: a comment is taken as part of the condition
				rf, ok := refParse(a)
				rg, ok2 := refParse(b)
				if ok == (err == nil) && ok2 == (err2 == nil) && (!ok || z.Eq(rf, f)) && (!ok2 || z.Eq(rg, g)) {
					if !known {
						known = true
						c.known = append(c.known, fmt.Sprintf("comment-in-condition: a // comment inside a condition changes what the rule means, as in %q", b))
					}
					return
				}
			}
			fail("one layout gives %s, %v\nthe other %s, %v", show(f), err, show(g), err2)
		})
	}
	// a comment in a condition, on purpose
	for i := 0; i < 100 && !known; i++ {
		one([]piece{{"(A x)", opt}, {"&&", must}, {"a", must}, {"&&", exprGap}, {"b", exprGap}, {"=>", exprGap}, {"(B x)", opt}, {"", opt}}, true)
	}
	for _, s := range []string{"", " ", "// c", "\n// c", "// c\n", "//", " //x\n//y", "\t\r\n"} {
		s := s
		for _, t := range []string{"", "(A x) => (B)", "(A x) && c => (B x)\nx => y"} {
			t := t
			for _, u := range []string{s + t, t + "\n" + s, s + "\n" + t + " " + s} {
				u := u
				if t != "" && strings.Contains(s, "//") && !strings.HasSuffix(s, "\n") && u == s+t {
					continue
				}
				c.run(func() string { return u }, true, func(fail func(string, ...interface{})) {
					f, err := parse.String(t)
					g, err2 := parse.String(u)
					if err != nil || err2 != nil || !reflect.DeepEqual(f, g) {
						fail("%s, %v; without the layout %s, %v", show(g), err2, show(f), err)
					}
				})
			}
		}
	}
	for i := 0; i < c.rounds(25000) && !c.stop(); i++ {
		one(fileText(c.rng, genFile(c.rng, 3)), chance(c.rng, 0.15))
	}
}

var _ = bytes.NewReader
