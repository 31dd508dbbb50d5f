package zzcheck

import (
	"bytes"
	"errors"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	gotoken "go/token"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
)

func init() {
	checks["C06"] = printSearch
	checks["C07"] = writeErrorSearch
	checks["C08"] = tokenSearch
}

// builtExpr is a Go expression no parser need have made.
func builtExpr(r *rand.Rand, depth int) goast.Expr {
	sub := func() goast.Expr { return builtExpr(r, depth-1) }
	id := func() *goast.Ident { return goast.NewIdent(someIdent(r)) }
	k := r.Intn(9)
	if depth <= 0 {
		k = r.Intn(3)
	}
	switch k {
	case 0, 1:
		return id()
	case 2:
		s := someLit(r)
		kind := gotoken.STRING
		if e, err := goparser.ParseExpr(s); err == nil {
			if l, ok := e.(*goast.BasicLit); ok {
				kind = l.Kind
			}
		}
		return &goast.BasicLit{Kind: kind, Value: s}
	case 3:
		return &goast.ParenExpr{X: sub()}
	case 4:
		ops := []gotoken.Token{gotoken.SUB, gotoken.ADD, gotoken.NOT, gotoken.XOR, gotoken.AND, gotoken.ARROW}
		return &goast.UnaryExpr{Op: ops[r.Intn(len(ops))], X: sub()}
	case 5:
		return &goast.StarExpr{X: sub()}
	case 6:
		ops := []gotoken.Token{gotoken.ADD, gotoken.SUB, gotoken.MUL, gotoken.QUO, gotoken.REM, gotoken.AND, gotoken.OR, gotoken.XOR, gotoken.SHL, gotoken.SHR, gotoken.AND_NOT,
			gotoken.EQL, gotoken.NEQ, gotoken.LSS, gotoken.LEQ, gotoken.GTR, gotoken.GEQ, gotoken.LAND, gotoken.LOR}
		return &goast.BinaryExpr{X: sub(), Op: ops[r.Intn(len(ops))], Y: sub()}
	case 7:
		return &goast.SelectorExpr{X: sub(), Sel: id()}
	default:
		c := &goast.CallExpr{Fun: sub()}
		for n := r.Intn(4); n > 0; n-- {
			c.Args = append(c.Args, sub())
		}
		if len(c.Args) > 0 && chance(r, 0.2) {
			c.Ellipsis = gotoken.Pos(1 + r.Intn(50))
		}
		// positions say nothing
		c.Lparen, c.Rparen = gotoken.Pos(r.Intn(3)), gotoken.Pos(r.Intn(3))
		return c
	}
}

// strange puts built expressions, and kinds nobody prints, into a tree.
func strange(c *Ctx, root ast.Node, bad float64) {
	r := c.rng
	one := func() *ast.Expr {
		if chance(r, bad) {
			return &ast.Expr{Expr: poison(r, 2)}
		}
		return &ast.Expr{Expr: builtExpr(r, r.Intn(4))}
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				return
			}
			if e, ok := v.Interface().(*ast.Expr); ok {
				if chance(r, 0.5) {
					e.Expr = one().Expr
				}
				return
			}
			if _, ok := v.Interface().(goast.Node); ok {
				return
			}
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(root))
}

// poison is a Go expression with an unprintable part somewhere.
func poison(r *rand.Rand, depth int) goast.Expr {
	x := goast.NewIdent("x")
	if depth == 0 || chance(r, 0.3) {
		switch r.Intn(6) {
		case 0:
			return nil
		case 1:
			return &goast.IndexExpr{X: x, Index: x}
		case 2:
			return &goast.CompositeLit{Type: x}
		case 3:
			return &goast.SliceExpr{X: x}
		case 4:
			return &goast.TypeAssertExpr{X: x, Type: x}
		default:
			return &goast.KeyValueExpr{Key: x, Value: x}
		}
	}
	p := poison(r, depth-1)
	switch r.Intn(8) {
	case 0:
		return &goast.ParenExpr{X: p}
	case 1:
		return &goast.UnaryExpr{Op: gotoken.SUB, X: p}
	case 2:
		return &goast.BinaryExpr{X: p, Op: gotoken.ADD, Y: builtExpr(r, 1)}
	case 3:
		return &goast.BinaryExpr{X: builtExpr(r, 1), Op: gotoken.LOR, Y: p}
	case 4:
		return &goast.CallExpr{Fun: p, Args: []goast.Expr{x}}
	case 5:
		return &goast.CallExpr{Fun: x, Args: []goast.Expr{x, p, x}}
	case 6:
		return &goast.StarExpr{X: p}
	default:
		return &goast.SelectorExpr{X: p, Sel: x}
	}
}

func genPrintable(c *Ctx, bad float64) ast.Node {
	r := c.rng
	o := treeOpts{n: 1 + r.Intn(3), features: chance(r, 0.7), bad: bad}
	var root ast.Node
	switch r.Intn(7) {
	case 0, 1:
		f := &ast.File{}
		for k := r.Intn(4); k > 0; k-- {
			f.Rules = append(f.Rules, genRule(r, r.Intn(3), o))
		}
		root = f
	case 2, 3:
		root = genRule(r, r.Intn(4), o)
	case 4:
		root = genSExpr(r, r.Intn(4), o)
	case 5:
		root = genOp(r, o)
	default:
		root = genValue(r, r.Intn(3), o)
	}
	if bad > 0 && chance(r, 0.05) {
		if chance(r, 0.5) {
			root = altOf(r, r.Intn(3), o)
		} else {
			root = nil
		}
	}
	if root != nil {
		strange(c, root, bad)
	}
	return root
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 20
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo > len(s) {
			return ""
		}
		s = s[lo:]
		if len(s) > 80 {
			s = s[:80] + "..."
		}
		return s
	}
	return fmt.Sprintf("%q, want %q (from byte %d)", cut(a), cut(b), lo)
}

func printSearch(c *Ctx) {
	c.rule = "random ASTs of every kind, with expressions no parser makes, and the parsed shipped rules; printed with Bytes, with Fprint (alone and twice to one writer), to standard output, and as copies; non-trivial: more than one node"
	type old struct {
		got  []byte
		want string
		in   func() string
	}
	var olds []old
	one := func(root ast.Node) {
		saved := clone(root)
		in := func() string { return show(saved) }
		c.run(in, root != nil && countNodes(root) > 1, func(fail func(string, ...interface{})) {
			want, ok := refPrint(root)
			if !ok {
				return
			}
			b, err := printer.Bytes(root)
			if err == nil && string(b) != want {
				fail("printed %s", diffAt(string(b), want))
			}
			if err == nil {
				olds = append(olds, old{b, want, in})
			}
			cp := clone(root).(ast.Node)
			var buf bytes.Buffer
			buf.WriteString("<")
			err1 := printer.Fprint(&buf, cp)
			buf.WriteString(">")
			err2 := printer.Fprint(&buf, cp)
			if err1 == nil && err2 == nil && buf.String() != "<"+want+">"+want {
				fail("two printings to one writer: %s", diffAt(buf.String(), "<"+want+">"+want))
			}
			if (err == nil) != (err1 == nil) || err1 == nil && err2 != nil {
				fail("printing a copy, or a second time: errors %v, %v, %v", err, err1, err2)
			}
			if !reflect.DeepEqual(root, saved) {
				fail("printing changed the AST to %s", show(root))
			}
			if len(olds) > 6 {
				o := olds[0]
				olds = olds[1:]
				if string(o.got) != o.want {
					c.fail(o.in(), "later printings changed the bytes returned: %s", diffAt(string(o.got), o.want))
				}
			}
		})
	}
	stdout := func(root ast.Node) {
		c.run(func() string { return "to standard output: " + show(root) }, true, func(fail func(string, ...interface{})) {
			want, ok := refPrint(root)
			if !ok {
				return
			}
			t, err := ioutil.TempFile("", "zzcheck")
			if err != nil {
				return
			}
			defer os.Remove(t.Name())
			keep := os.Stdout
			os.Stdout = t
			err = printer.Print(root)
			os.Stdout = keep
			t.Close()
			b, _ := ioutil.ReadFile(t.Name())
			if err == nil && string(b) != want {
				fail("printed %s", diffAt(string(b), want))
			}
		})
	}
	for _, text := range corpus() {
		if f, err := parse.String(text); err == nil {
			one(f)
		}
	}
	for i := 0; i < c.rounds(25000) && !c.stop(); i++ {
		root := genPrintable(c, 0)
		one(root)
		if i%200 == 0 {
			stdout(root)
		}
	}
}

// faulty is a destination that fails at one write, and counts what follows.
type faulty struct {
	buf   bytes.Buffer
	n     int
	at    int // index of the write that fails; -1: none
	part  float64
	err   error
	after int
	seen  bool
	again bool // works again afterwards
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.seen {
		f.after++
		if f.again {
			return len(p), nil
		}
		return 0, errors.New("second failure")
	}
	if f.n == f.at {
		f.seen = true
		k := int(f.part * float64(len(p)))
		f.buf.Write(p[:k])
		return k, f.err
	}
	f.n++
	f.buf.Write(p)
	return len(p), nil
}

// WriteString as well: some destinations have it.
type faultyString struct{ *faulty }

func (f faultyString) WriteString(s string) (int, error) { return f.faulty.Write([]byte(s)) }

type oddError struct{ s string }

func (e *oddError) Error() string { return e.s }

func writeErrorSearch(c *Ctx) {
	c.rule = "random ASTs, some with unprintable parts, printed to destinations that fail at every single write (wholly or half-way), with errors of several kinds (io.EOF and io.ErrShortWrite among them); non-trivial: a failing write, or an unprintable part"
	errs := []error{errors.New("disk full"), io.EOF, io.ErrShortWrite, io.ErrClosedPipe, &oddError{"odd"}, &oddError{""}, os.ErrClosed}
	for i := 0; i < c.rounds(12000) && !c.stop(); i++ {
		bad := 0.0
		if chance(c.rng, 0.4) {
			bad = 0.08
		}
		root := genPrintable(c, bad)
		want, ok := refPrint(root)
		// how many writes a good destination sees
		good := &faulty{at: -1}
		try := func(name string, f func(fail func(string, ...interface{}))) {
			c.run(func() string { return name + show(root) }, !ok || name != "", f)
		}
		try("", func(fail func(string, ...interface{})) {
			err := printer.Fprint(good, root)
			b, berr := printer.Bytes(root)
			if ok != (err == nil) {
				fail("error %v, printable: %v", err, ok)
			}
			if (err == nil) != (berr == nil) || berr != nil && b != nil {
				fail("Bytes gives %q, %v; Fprint gives %v", b, berr, err)
			}
			if ok && good.buf.String() != want {
				fail("no error, but not all was written: %s", diffAt(good.buf.String(), want))
			}
			if !ok && !strings.HasPrefix(want, good.buf.String()) {
				fail("wrote on after the unprintable part: %s", diffAt(good.buf.String(), want))
			}
			if !ok && err != nil && !strings.Contains(err.Error(), badName(root)) {
				fail("error %q does not name the first unprintable node (%s)", err, badName(root))
			}
		})
		steps := 1
		if good.n > 12 {
			steps = good.n / 12
		}
		for at := c.rng.Intn(steps + 1); at < good.n && !c.stop(); at += steps {
			f := &faulty{at: at, part: []float64{0, 0.5, 1}[c.rng.Intn(3)], err: errs[c.rng.Intn(len(errs))], again: chance(c.rng, 0.5)}
			var w io.Writer = f
			if chance(c.rng, 0.3) {
				w = faultyString{f}
			}
			name := fmt.Sprintf("write %d of %d fails with %T %q, %.0f%% written, works again afterwards: %v: ", at+1, good.n, f.err, f.err, 100*f.part, f.again)
			try(name, func(fail func(string, ...interface{})) {
				err := printer.Fprint(w, root)
				if f.seen && err != f.err {
					if err == nil {
						fail("the failure is not reported")
					} else {
						fail("error %v (%T), want the destination's own", err, err)
					}
				}
				if f.after > 0 {
					fail("%d writes after the failure", f.after)
				}
			})
		}
	}
}

// badName is the type of the first unprintable part.
func badName(root ast.Node) string {
	switch x := root.(type) {
	case *ast.File:
		for _, r := range x.Rules {
			if s := badName(r); s != "" {
				return s
			}
		}
		return ""
	case *ast.Rule:
		if s := badValue(x.Match); s != "" {
			return s
		}
		if x.Condition != nil {
			if s := badExpr(x.Condition.Expr); s != "" {
				return s
			}
		}
		return badValue(x.Result)
	case ast.Value:
		return badValue(x)
	case ast.Op:
		return badOp(x)
	}
	return fmt.Sprintf("%T", root)
}

func badValue(v ast.Value) string {
	switch x := v.(type) {
	case *ast.SExpr:
		if s := badOp(x.Op); s != "" {
			return s
		}
		if x.AuxInt != nil {
			if s := badExpr(x.AuxInt.Expr); s != "" {
				return s
			}
		}
		if x.Aux != nil {
			if s := badExpr(x.Aux.Expr); s != "" {
				return s
			}
		}
		for _, a := range x.Args {
			if s := badValue(a); s != "" {
				return s
			}
		}
		return ""
	case *ast.Expr:
		return badExpr(x.Expr)
	case ast.Variable:
		return ""
	}
	return fmt.Sprintf("%T", v)
}

func badOp(o ast.Op) string {
	switch x := o.(type) {
	case ast.Opcode:
		return ""
	case ast.OpcodeParts:
		for _, p := range x {
			switch p.(type) {
			case ast.Opcode, ast.OpcodeAlt:
			default:
				return fmt.Sprintf("%T", p)
			}
		}
		return ""
	}
	return fmt.Sprintf("%T", o)
}

func badExpr(e goast.Expr) string {
	var kids []goast.Expr
	switch x := e.(type) {
	case *goast.Ident, *goast.BasicLit:
	case *goast.ParenExpr:
		kids = []goast.Expr{x.X}
	case *goast.UnaryExpr:
		kids = []goast.Expr{x.X}
	case *goast.StarExpr:
		kids = []goast.Expr{x.X}
	case *goast.SelectorExpr:
		kids = []goast.Expr{x.X}
	case *goast.BinaryExpr:
		kids = []goast.Expr{x.X, x.Y}
	case *goast.CallExpr:
		kids = append([]goast.Expr{x.Fun}, x.Args...)
	default:
		return fmt.Sprintf("%T", e)
	}
	for _, k := range kids {
		if s := badExpr(k); s != "" {
			return s
		}
	}
	return ""
}

// tokenSearch: every embedded expression the parser makes keeps its tokens.
func tokenSearch(c *Ctx) {
	c.rule = "random token strings of the embedded expression language, laid out at random in every place an expression can stand; non-trivial: at least three tokens"
	separateTable(c)
	places := []struct{ before, after, avoid string }{
		{"(A x) && ", " => (B)", "=\n"},
		{"(A [", "] x) => (B)", "]\n"},
		{"(A {", "} x) => (B)", "}\n"},
		{"(A f(", ")) => (B)", "\n"},
		{"(A x) => (B [", "])", "]\n"},
	}
	get := func(k int, f *ast.File) *ast.Expr {
		r := f.Rules[0]
		m, _ := r.Match.(*ast.SExpr)
		switch k {
		case 0:
			return r.Condition
		case 1:
			return m.AuxInt
		case 2:
			return m.Aux
		case 3:
			e, _ := m.Args[0].(*ast.Expr)
			return e
		}
		return r.Result.(*ast.SExpr).AuxInt
	}
	check := func(k int, text, src string) {
		p := places[k]
		c.run(func() string { return src }, len(text) > 2, func(fail func(string, ...interface{})) {
			f, err := parse.String(src)
			if err != nil || len(f.Rules) != 1 {
				return // C11, C13
			}
			e := get(k, f)
			if e == nil {
				return
			}
			b, err := printer.Bytes(e)
			if err != nil {
				fail("the parsed expression is not printed: %v", err)
				return
			}
			want := flatten(e.Expr)
			got, ok := scan(string(b))
			if !ok || !sameStrings(got, want) {
				fail("printed as %q: tokens %q, want %q", b, got, want)
				return
			}
			// in place, too, and equal when read back
			back := p.before + string(b) + p.after
			if k == 3 {
				back = "(A " + string(b) + ") => (B)"
			}
			if strings.Contains(string(b), "//") || k != 3 && strings.ContainsAny(string(b), p.avoid) {
				return
			}
			f2, err := parse.String(back)
			if err != nil {
				fail("printed as %q, which does not parse: %v", back, err)
				return
			}
			if e2 := get(k, f2); e2 == nil || !reflect.DeepEqual(e.Expr, e2.Expr) {
				fail("printed as %q, which reads as %s, want %s", back, show(e2), show(e))
			}
		})
	}
	// every operator before every unary operator and literal
	for k, p := range places {
		for _, a := range append(append([]string{""}, binaryOps...), unaryOps...) {
			for _, b := range append(append([]string{}, unaryOps...), litTexts...) {
				for _, form := range []string{"x %s %s y", "x %s (%s y)", "x %s %s", "%s %s x", "x %s f(%s y)", "x %s %s y.z", "x %s %s y(z)", "%s %s 1", "x %s %s %[2]s y", "x*y %s %s z", "(x %s %s y)...", "x %s 1 %s y", "x %s 1.f %s y", "-x.y %s %s z"} {
					var text string
					if strings.Contains(form, "%[2]") {
						text = fmt.Sprintf(strings.Replace(form, "%[2]s", b, 1), a, b)
					} else {
						text = fmt.Sprintf(form, a, b)
					}
					if strings.ContainsAny(text, p.avoid) || c.stop() {
						continue
					}
					if _, ok := refExpr(text); !ok {
						continue
					}
					check(k, text, p.before+text+p.after)
				}
			}
		}
	}
	for i := 0; i < c.rounds(30000) && !c.stop(); i++ {
		k := c.rng.Intn(len(places))
		p := places[k]
		ts := goTokens(c.rng, c.rng.Intn(5), exprOpts{avoid: p.avoid})
		text := layTokens(c.rng, ts)
		check(k, text, p.before+text+p.after)
	}
}
