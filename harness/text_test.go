package zzcheck

import (
	goast "go/ast"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// A text is a list of pieces; between two pieces there is a gap.
type gap int

const (
	glue    gap = iota // nothing may stand here
	opt                // any layout, or nothing
	must               // some layout
	exprGap            // inside a condition: layout that keeps the tokens apart
)

type piece struct {
	s   string
	pre gap // before the piece
}

type writer struct {
	ps   []piece
	next gap
	r    *rand.Rand
}

func (w *writer) gap(g gap) {
	if g > w.next {
		w.next = g
	}
}

func (w *writer) put(s string) {
	w.ps = append(w.ps, piece{s, w.next})
	w.next = glue
}

// fits tells whether the text can stand between the marks.
func fits(s, close string) bool { return s != "" && !strings.Contains(s, close) }

// exprText is a one-line text of an expression.
func (w *writer) exprText(e goast.Expr, close string) string {
	ts := flatten(e)
	for i := 0; i < 4; i++ {
		if s := layTokens(w.r, ts, " ", " ", "\t", "  "); fits(s, close) {
			return s
		}
	}
	return strings.Join(ts, " ")
}

func (w *writer) file(f *ast.File) {
	w.gap(opt)
	for _, r := range f.Rules {
		w.rule(r)
		w.gap(opt)
	}
	w.put("") // the end
}

func (w *writer) rule(r *ast.Rule) {
	w.value(r.Match)
	if r.Condition != nil {
		w.gap(must)
		w.put("&&")
		w.gap(must)
		for i, t := range flatten(r.Condition.Expr) {
			if i > 0 {
				w.gap(exprGap)
			}
			w.put(t)
		}
		w.gap(exprGap)
	}
	w.gap(opt)
	w.put("=>")
	w.gap(opt)
	if r.Block != "" {
		w.put("@" + r.Block)
		w.gap(must)
	}
	w.value(r.Result)
	// a variable or placeholder must not join with the next rule
	switch r.Result.(type) {
	case ast.Variable:
		w.gap(must)
	}
}

func (w *writer) value(v ast.Value) {
	switch x := v.(type) {
	case *ast.SExpr:
		w.sexpr(x)
	case *ast.Expr:
		w.call(x.Expr)
	case ast.Variable:
		w.put(string(x))
	}
}

func (w *writer) call(e goast.Expr) {
	switch x := e.(type) {
	case *goast.Ident:
		w.put(x.Name)
	case *goast.CallExpr:
		w.put(x.Fun.(*goast.Ident).Name + "(")
		w.gap(opt)
		for i, a := range x.Args {
			if i > 0 {
				w.gap(opt)
				w.put(",")
				w.gap(opt)
			}
			w.call(a)
		}
		w.gap(opt)
		w.put(")")
	}
}

func (w *writer) sexpr(s *ast.SExpr) {
	if s.Binding != "" {
		w.put(string(s.Binding) + ":(")
	} else {
		w.put("(")
	}
	w.gap(opt)
	switch o := s.Op.(type) {
	case ast.Opcode:
		w.put(string(o))
	case ast.OpcodeParts:
		t := ""
		for _, p := range o {
			switch q := p.(type) {
			case ast.Opcode:
				t += string(q)
			case ast.OpcodeAlt:
				var ss []string
				for _, c := range q {
					ss = append(ss, string(c))
				}
				t += "(" + strings.Join(ss, "|") + ")"
			}
		}
		w.put(t)
	}
	// type, auxint and aux stand anywhere among the arguments; only the last
	// of several counts
	var marks []string
	if s.Type != "" {
		if chance(w.r, 0.05) {
			marks = append(marks, "<old>")
		}
		marks = append(marks, "<"+string(s.Type)+">")
	}
	if s.AuxInt != nil {
		if chance(w.r, 0.05) {
			marks = append(marks, "[9]")
		}
		marks = append(marks, "["+w.exprText(s.AuxInt.Expr, "]")+"]")
	}
	if s.Aux != nil {
		if chance(w.r, 0.05) {
			marks = append(marks, "{old}")
		}
		marks = append(marks, "{"+w.exprText(s.Aux.Expr, "}")+"}")
	}
	late := chance(w.r, 0.4)
	args := s.Args
	for len(marks)+len(args) > 0 {
		w.gap(must)
		if len(marks) > 0 && (len(args) == 0 || !late || chance(w.r, 0.5)) {
			w.put(marks[0])
			marks = marks[1:]
			continue
		}
		w.value(args[0])
		args = args[1:]
	}
	if s.Ellipsis {
		w.gap(must)
		w.put("...")
	}
	if s.Trailing {
		w.gap(must)
		w.put("___")
	}
	w.gap(opt)
	w.put(")")
}

// genFile is a random rule file some text stands for.
func genFile(r *rand.Rand, rules int) *ast.File {
	f := &ast.File{}
	for k := r.Intn(rules + 1); k > 0; k-- {
		ru := genRule(r, r.Intn(4), treeOpts{n: 1 + r.Intn(3), features: chance(r, 0.8), parsable: true})
		f.Rules = append(f.Rules, ru)
	}
	tidy(f)
	return f
}

// tidy makes the parts of a file fit for text.
func tidy(f *ast.File) {
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		if s, ok := n.(*ast.SExpr); ok {
			if !fits(string(s.Type), ">") {
				s.Type = ""
			}
			for _, e := range []**ast.Expr{&s.AuxInt, &s.Aux} {
				close := "]"
				if e == &s.Aux {
					close = "}"
				}
				if *e != nil && strings.Contains(strings.Join(flatten((*e).Expr), " "), close) {
					*e = nil
				}
			}
			if len(s.Args) == 0 {
				s.Args = nil
			}
		}
		for _, c := range children(n) {
			walk(c)
		}
	}
	walk(f)
	for _, r := range f.Rules {
		if strings.Contains(r.Block, "//") {
			r.Block = "b//"[:1+len(r.Block)%2] + "e"
		}
		if r.Condition != nil && strings.Contains(strings.Join(flatten(r.Condition.Expr), " "), "=>") {
			r.Condition = nil
		}
	}
}

func fileText(r *rand.Rand, f *ast.File) []piece {
	w := &writer{r: r}
	w.file(f)
	return w.ps
}

// plain is the text with as little layout as can be.
func plain(ps []piece) string {
	s := ""
	for i, p := range ps {
		switch p.pre {
		case must, exprGap:
			s += " "
		case opt:
			if i > 0 && strings.HasSuffix(s, "=") {
				s += " "
			}
		}
		s += p.s
	}
	return s
}

func comment(r *rand.Rand, tame bool) string {
	texts := []string{"", " x", " (A x) && c => (B)", "/", " => ", "\t[", " \"", "é", ")", " `", "'", "*/", "/*", " \\", "\r", "___", "...", "@b", "\x00", " &&"}
	if tame {
		texts = []string{"", " x", "/", " end", "é"}
	}
	return "//" + texts[r.Intn(len(texts))]
}

// layout is a random run; end allows a comment without a line break.
func layout(r *rand.Rand, empty, comments, end bool) string {
	if empty && chance(r, 0.4) {
		return ""
	}
	s := ""
	for {
		switch k := r.Intn(8); {
		case k < 3:
			s += " "
		case k == 3:
			s += "\t"
		case k == 4:
			s += "\r"
		case k == 5 || !comments:
			s += "\n"
		default:
			s += comment(r, false) + "\n"
		}
		if chance(r, 0.5) {
			break
		}
	}
	if end && comments && chance(r, 0.3) {
		s += comment(r, false)
	}
	return s
}

// laid is the text with random layout. inCond says that a comment stands
// inside a condition or right behind it (a known finding).
func laid(r *rand.Rand, ps []piece, comments, condComments bool) (s string, inCond bool) {
	for i, p := range ps {
		last := i == len(ps)-1 && p.s == ""
		switch p.pre {
		case opt:
			s += layout(r, true, comments, last)
		case must:
			s += layout(r, false, comments, last)
		case exprGap:
			// also before "=>": what stands there is part of the condition
			l := layout(r, false, comments && condComments && chance(r, 0.5), false)
			if strings.Contains(l, "//") {
				inCond = true
			}
			s += l
		}
		s += p.s
	}
	return s, inCond
}
