package zzcheck

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/smt2"
)

func init() {
	checks["C14"] = func(c *Ctx) { smtSearch(c, "C14") }
	checks["C15"] = func(c *Ctx) { smtSearch(c, "C15") }
	checks["C16"] = func(c *Ctx) { smtSearch(c, "C16") }
	checks["C17"] = commandSearch
}

func smtSearch(c *Ctx, prop string) {
	c.rule = map[string]string{
		"C14": "random translatable rules over all opcodes, with awkward variable names, and the shipped rules; every script read back by an SMT-LIB reader with sort rules; non-trivial: a script with a declaration",
		"C15": "random translatable rules over all opcodes, and the shipped rules; the assertion evaluated against the meaning of the two sides on boundary and random values; non-trivial: a script with a declaration",
		"C16": "random rules with one or more things that cannot be translated, at any depth, and rules without any, judged by a reference typing; non-trivial: at least two s-expressions",
	}[prop]
	one := func(r *ast.Rule) {
		saved := clone(r).(*ast.Rule)
		g, ok := refTyping(saved)
		c.run(func() string { return show(saved) }, prop == "C16" && countNodes(saved) > 4 || ok && len(g.order) > 0, func(fail func(string, ...interface{})) {
			b, err := smt2.Generate(r)
			if prop == "C16" {
				if ok && err != nil {
					fail("refused (%v), though nothing stands against it", err)
				}
				if !ok && err == nil {
					fail("answered with a script, though %s", g.why)
				}
				if err != nil && b != nil {
					fail("an error and a script: %v, %q", err, b)
				}
				if !reflect.DeepEqual(r, saved) {
					fail("the rule was changed to %s", show(r))
				}
				return
			}
			if err != nil || !ok {
				return
			}
			rule, _ := refPrint(saved)
			sc, err := readScript(string(b), rule)
			if prop == "C14" {
				if err != nil {
					fail("%v, in\n%s", err, b)
					return
				}
				if len(sc.decls) != len(g.order) {
					fail("%d declarations for %d variables, in\n%s", len(sc.decls), len(g.order), b)
				}
				if len(pairings(g, sc)) == 0 {
					fail("the declarations do not fit the variables %v with the sorts %v, in\n%s", g.order, g.sorts, b)
				}
				b2, err := smt2.Generate(r)
				if err != nil || !bytes.Equal(b, b2) {
					fail("generated a second time: %v, %q", err, b2)
				}
				return
			}
			if err != nil {
				return // C14
			}
			pairs := pairings(g, sc)
			if len(pairs) == 0 {
				return
			}
			why := ""
			for _, m := range pairs {
				why = ""
				for i := 0; i < 30 && why == ""; i++ {
					val, sym := map[string]uint64{}, map[string]uint64{}
					base := c.rng.Uint64()
					for _, v := range g.order {
						var x uint64
						switch {
						case i == 0:
							x = 0
						case i == 1:
							x = ^uint64(0)
						case i == 2:
							x = 1
						case i < 10:
							x = []uint64{0, 1, ^uint64(0), 1 << (uint(g.sorts[v]) - 1)}[c.rng.Intn(4)]
						case i < 16:
							x = base + uint64(c.rng.Intn(2))
						default:
							x = c.rng.Uint64()
						}
						val[v] = x & g.sorts[v].mask()
						sym[m[v]] = val[v]
					}
					wild := 0
					lhs := meaning(saved.Match, val, &wild)
					rhs := meaning(saved.Result, val, &wild)
					got := sc.eval(sc.assert, sym)
					if (got == 1) != (lhs != rhs) {
						why = fmt.Sprintf("for %v the sides are %d and %d, but the assertion is %d, in\n%s", val, lhs, rhs, got, b)
					}
				}
				if why == "" {
					break
				}
			}
			if why != "" {
				fail("%s", why)
			}
		})
	}
	// every opcode by itself, against every other use of it
	for _, t := range []sort{1, 8, 16, 32, 64} {
		for _, n := range opsOf[t] {
			d := refOps[n]
			for _, names := range [][]string{{"x", "y"}, {"x", "x"}, {"_", "_"}, {"and", "bvadd"}, {"y", "x"}} {
				for _, result := range []ast.Value{ast.Variable("x"), ast.Variable("y"), ast.Placeholder, ast.Variable("z")} {
					s := &ast.SExpr{Op: ast.Opcode(n)}
					for i, p := range d.params {
						_ = p
						s.Args = append(s.Args, ast.Variable(names[i]))
					}
					one(&ast.Rule{Match: s, Result: result})
					one(&ast.Rule{Match: s, Result: s})
				}
			}
		}
	}
	for _, text := range corpus() {
		f, err := parse.String(text)
		if err != nil || pass.ExpandAlternates(f) != nil {
			continue
		}
		for _, r := range f.Rules {
			one(r)
		}
	}
	for i := 0; i < c.rounds(20000) && !c.stop(); i++ {
		r := typedRule(c.rng)
		p := 0.05
		if prop == "C16" {
			p = 0.75
		}
		if chance(c.rng, p) {
			spoil(c.rng, r)
			if chance(c.rng, 0.2) {
				spoil(c.rng, r)
			}
		}
		one(r)
	}
}

// isSimple is the filter of the command.
func isSimple(r *ast.Rule) bool {
	var any func(n ast.Node) bool
	any = func(n ast.Node) bool {
		if s, ok := n.(*ast.SExpr); ok && (s.Binding != "" || s.Type != "" || s.Aux != nil || s.AuxInt != nil || s.Ellipsis || s.Trailing) {
			return true
		}
		for _, ch := range children(n) {
			if any(ch) {
				return true
			}
		}
		return false
	}
	return r.Condition == nil && r.Block == "" && !any(r)
}

// commandSearch runs the built command in scratch directories.
func commandSearch(c *Ctx) {
	c.rule = "runs of the built command on random sets of rule files (translatable, untranslatable and not simple rules mixed; missing, broken and irreconcilable files; output files that exist, or cannot be written); non-trivial: at least two simple rules"
	cli := env("VERIF_CLI", "")
	top, err := ioutil.TempDir("", "zzcheck")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	names, text := corpusNames()
	k := 0
	type input struct {
		text    string
		missing bool
		again   bool
	}
	one := func(ins []input, pre func(dir string) (blocked map[string]bool)) {
		k++
		dir := filepath.Join(top, fmt.Sprint(k))
		out := filepath.Join(dir, "out")
		if err := os.MkdirAll(out, 0o755); err != nil {
			return
		}
		defer os.RemoveAll(dir)
		// what is to happen
		var simple []*ast.Rule
		bad := false
		var args []string
		for i, in := range ins {
			name := filepath.Join(dir, fmt.Sprintf("in%d.rules", (i*7+3)%10*10+i))
			if in.again && i > 0 {
				// the same file once more
				name = args[0]
				in = ins[0]
			}
			args = append(args, name)
			if in.missing {
				bad = true
				continue
			}
			ioutil.WriteFile(name, []byte(in.text), 0o644)
			f, ok := refParse(in.text)
			if !ok {
				bad = true
				continue
			}
			for _, r := range f.Rules {
				if isSimple(r) {
					simple = append(simple, r)
				}
			}
		}
		want := map[string]string{}
		n := 0
		stop := ""
		var blocked map[string]bool
		if pre != nil {
			blocked = pre(out)
		}
		if !bad {
			if !z.CntAll(simple, len(simple)) {
				bad = true
			} else {
				rs := z.ExpandAll(simple, len(simple))
				n = len(rs)
				for i, r := range rs {
					if _, ok := refTyping(r); !ok {
						continue
					}
					b, err := smt2.Generate(r)
					if err != nil {
						continue
					}
					name := fmt.Sprintf("%04d.smt2", i)
					if blocked[name] {
						bad = true
						stop = name
						break
					}
					want[name] = string(b)
				}
			}
		}
		input := func() string {
			s := ""
			for i, in := range ins {
				s += fmt.Sprintf("-- file %d", i)
				if in.missing {
					s += " (missing)"
				}
				s += "\n" + in.text + "\n"
			}
			return s + fmt.Sprintf("-- blocked %v", blocked)
		}
		c.run(input, n >= 2 || bad, func(fail func(string, ...interface{})) {
			before := tree(dir)
			flags := [][]string{{"-outdir", out}, {"-outdir=" + out + "/"}, {"-outdir", "out"}, nil}[k%4]
			cmd := exec.Command(cli, append(flags, args...)...)
			cmd.Dir = dir
			if flags == nil {
				cmd.Dir = out
			}
			var log bytes.Buffer
			cmd.Stderr, cmd.Stdout = &log, &log
			err := cmd.Run()
			if (err != nil) != bad {
				fail("the command ends with %v, want a failure: %v (%s)\n%s", err, bad, stop, tail(log.String()))
			}
			after := tree(dir)
			for name, s := range after {
				rel, _ := filepath.Rel(out, name)
				w, ok := want[rel]
				if ok && filepath.Dir(rel) == "." {
					if s != w {
						fail("%s holds %q, want %q", rel, tail(s), tail(w))
					}
					continue
				}
				if b, was := before[name]; !was || b != s {
					fail("the command wrote %s: %q", name[len(dir):], tail(s))
				}
			}
			for name := range want {
				if _, ok := after[filepath.Join(out, name)]; !ok {
					fail("%s is missing\n%s", name, tail(log.String()))
				}
			}
			for name := range before {
				if _, ok := after[name]; !ok {
					fail("the command removed %s", name[len(dir):])
				}
			}
		})
	}
	for _, n := range names {
		one([]input{{text: text[n]}}, nil)
	}
	// more rules than four digits
	big := strings.Repeat("(Foo x) => x\n", 9998) + "(Neg8 x) => x\n(Bar x) => x\n(Com8 x) => x\n(Foo y) => y\n(Not x) => x\n"
	one([]input{{text: big}}, nil)
	one(nil, nil)
	rules := func() string {
		f := &ast.File{}
		for i := c.rng.Intn(5); i >= 0; i-- {
			r := typedRule(c.rng)
			switch {
			case chance(c.rng, 0.35):
				spoil(c.rng, r)
			case chance(c.rng, 0.1):
				r.Condition = genExpr(c.rng, 1, "=\n")
			case chance(c.rng, 0.1):
				// alternations over widths
				w := c.rng.Perm(4)
				ws := []ast.Opcode{"8", "16", "32", "64"}
				alt := ast.OpcodeAlt{ws[w[0]], ws[w[1]]}
				m := &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("Add"), alt}, Args: []ast.Value{ast.Variable("x"), ast.Variable("y")}}
				n := &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode(pick(c.rng, "Sub", "Foo", "Add")), alt}, Args: []ast.Value{ast.Variable("y"), ast.Variable("x")}}
				r = &ast.Rule{Match: m, Result: n}
			}
			f.Rules = append(f.Rules, r)
		}
		tidy(f)
		return fileTextOf(c, f)
	}
	for i := 0; i < c.rounds(700) && !c.stop(); i++ {
		var ins []input
		for n := c.rng.Intn(4); n >= 0; n-- {
			in := input{text: rules()}
			switch {
			case chance(c.rng, 0.05):
				in.missing = true
			case chance(c.rng, 0.06):
				in.text = mutate(c.rng, in.text)
			case chance(c.rng, 0.06):
				in.text += "\n(Add(8|16) x y) => (Sub(8|16|32) x y)\n"
			case chance(c.rng, 0.1):
				in.text = chunk(c.rng, names, text, 3)
			case chance(c.rng, 0.05):
				in.again = true
			}
			ins = append(ins, in)
		}
		var pre func(dir string) map[string]bool
		if chance(c.rng, 0.4) {
			seed := c.rng.Intn(1000)
			pre = func(dir string) map[string]bool {
				b := map[string]bool{}
				for j := 0; j < 6; j++ {
					name := fmt.Sprintf("%04d.smt2", j)
					switch (seed >> uint(j)) % 5 {
					case 0:
						// an older, longer file
						ioutil.WriteFile(filepath.Join(dir, name), bytes.Repeat([]byte("old\n"), 500), 0o644)
					case 1:
						if seed%3 == 0 {
							os.MkdirAll(filepath.Join(dir, name), 0o755)
							b[name] = true
						}
					}
				}
				return b
			}
		}
		one(ins, pre)
	}
}

func fileTextOf(c *Ctx, f *ast.File) string {
	s, _ := laid(c.rng, fileText(c.rng, f), chance(c.rng, 0.3), false)
	return s
}

func tail(s string) string {
	if len(s) > 300 {
		return "..." + s[len(s)-300:]
	}
	return s
}

func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := ioutil.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}
