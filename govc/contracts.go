package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// A Clause is one contract clause.
type Clause struct {
	kind  string // pre, post, inv, hint
	spec  *SpecFn
	label string
	props map[string]bool // empty: base, used by all properties
}

func (c *Clause) active(prop string) bool {
	return len(c.props) == 0 || prop == "" || c.props[prop]
}

// A Contract collects the clauses of one function.
type Contract struct {
	name    string // e.g. pass.expandvalue or printer.printer.rule
	fn      *ssa.Function
	reveal   []string // opaque functions whose definition the unit may use
	clauses []*Clause
	panics  bool // it may panic; the contract is about normal returns
	mutates map[int]bool // parameters whose pointee the function may change
	owned   map[int]bool // ... whose slices and maps belong to them alone
	pure    bool
	inline  bool
	trusted string
	assumed map[string]string // by property: proved elsewhere
	props   map[string]bool
	variant string // "", or the kind of context the contract is for
	base    *Contract
	dec     *Clause
}

func (c *Contract) get(kind, prop string) []*Clause {
	var out []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind && cl.active(prop) {
			out = append(out, cl)
		}
	}
	return out
}

// A Lemma is a lemma function.
type Lemma struct {
	alone   bool // proved without the lemmas before it, but for those it uses by name
	local   bool // known to the functions only where their contracts use it
	reveal  []string // opaque functions whose definition it may use
	spec    *SpecFn
	name    string
	props   map[string]bool
	trig    *SpecFn
	dec     *SpecFn
}

var (
	contracts    = map[*ssa.Function]*Contract{}
	contractName = map[string]*Contract{}
	lemmas       = map[string]*Lemma{}
	lemmaBySpec  = map[*SpecFn]*Lemma{}
	lemmaOrder   []*Lemma
	mutableTypes = map[string]bool{}
	pureByObj    = map[*types.Func]*Contract{}
	contractErrs []string
	useLemmas    = map[string][]string{} // contract name -> lemma names
)

func propSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" && p != "-" {
			m[p] = true
		}
	}
	return m
}

var directiveRE = regexp.MustCompile(`^//verif:(\w+)\s*(.*)$`)

// loadContracts reads the directives of the contract files.
func loadContracts(pkgs []*packages.Package, prog *ssa.Program) {
	byName := map[string]*ssa.Function{}
	bySig := map[string][]*ssa.Function{}
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && !isVerifFile(prog, m) {
					byName[p.Name+"."+m.Name()] = m
					k := p.Name + "|" + types.TypeString(m.Signature, qual)
					bySig[k] = append(bySig[k], m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f == nil || f.Synthetic != "" || f.Pkg != sp {
							continue
						}
						byName[p.Name+"."+m.Name()+"."+f.Name()] = f
					}
				}
			}
		}
	}
	get := func(p *packages.Package, name string) *Contract {
		// pkg:F is F of another package
		pkg := p.Name
		if i := strings.IndexByte(name, ':'); i >= 0 {
			pkg, name = name[:i], name[i+1:]
		}
		full := pkg + "." + name
		variant := ""
		if i := strings.IndexByte(name, '@'); i >= 0 {
			variant = name[i+1:]
			full = pkg + "." + name[:i]
		}
		key := full
		if variant != "" {
			key += "@" + variant
		}
		if c, ok := contractName[key]; ok {
			return c
		}
		c := &Contract{name: key, mutates: map[int]bool{}, owned: map[int]bool{}, props: map[string]bool{}, variant: variant}
		contractName[key] = c
		f := byName[full]
		if f != nil {
			c.fn = f
			if variant == "" {
				contracts[f] = c
			} else {
				variants[f] = append(variants[f], c)
			}
		}
		return c
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			isSpec := strings.Contains(fname, "zzspec") || strings.Contains(fname, "zz_verif_")
			if !isSpec {
				continue
			}
			specs.addFile(p.Types, f, p.TypesInfo)
		}
	}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			fname := p.Fset.Position(f.Pos()).Filename
			if !strings.Contains(fname, "zzspec") && !strings.Contains(fname, "zz_verif_") {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					m := directiveRE.FindStringSubmatch(c.Text)
					if m == nil {
						continue
					}
					fields := strings.Fields(m[2])
					switch m[1] {
					case "inline":
						for _, n := range fields {
							get(p, n).inline = true
						}
					case "panics":
						for _, n := range fields {
							get(p, n).panics = true
						}
					case "mutable":
						for _, n := range fields {
							mutableTypes[p.Name+"."+n] = true
						}
					case "shared":
						for _, n := range fields {
							sharedFields[p.Name+"."+n] = true
						}
					case "writesvia":
						writesVia[p.Name+"."+fields[0]] = &viaClause{field: fields[1], props: propSet(fields[2])}
					case "writesnone":
						writesOf[get(p, fields[0])] = &writesClause{props: propSet(fields[1])}
					case "mutates":
						for _, ix := range fields[1:] {
							var i int
							fmt.Sscan(ix, &i)
							get(p, fields[0]).mutates[i] = true
						}
					case "pure":
						for _, n := range fields {
							c := get(p, n)
							c.pure = true
							if c.fn != nil {
								if o, ok := c.fn.Object().(*types.Func); ok {
									pureByObj[o] = c
								}
							}
						}
					case "assume":
						c := get(p, fields[0])
						if c.assumed == nil {
							c.assumed = map[string]string{}
						}
						for k := range propSet(fields[1]) {
							c.assumed[k] = strings.Join(fields[2:], " ")
						}
					case "grammar", "progress", "shapes":
						grammarClauses = append(grammarClauses, grammarClause{p.PkgPath, fields[0], fields[1], propSet(fields[2]), m[1]})
					case "ends":
						endsOtherwise[p.PkgPath] = strings.Join(fields, " ")
					case "trusted":
						get(p, fields[0]).trusted = strings.Join(fields[1:], " ")
					case "reveal":
						c := get(p, fields[0])
						c.reveal = append(c.reveal, fields[1:]...)
					case "uses":
						c := get(p, fields[0])
						useLemmas[c.name] = append(useLemmas[c.name], fields[1:]...)
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
				sp := specs.byObj[obj]
				for _, c := range fd.Doc.List {
					m := directiveRE.FindStringSubmatch(c.Text)
					if m == nil {
						continue
					}
					fields := strings.Fields(m[2])
					switch m[1] {
					case "pre", "post", "inv", "hint", "inithint", "onpanic", "postassumed", "gives", "shape":
						con := get(p, fields[0])
						props := map[string]bool{}
						if len(fields) > 1 {
							props = propSet(fields[1])
						}
						for k := range props {
							con.props[k] = true
						}
						con.clauses = append(con.clauses, &Clause{kind: m[1], spec: sp, label: fd.Name.Name, props: props})
					case "writes":
						con := get(p, fields[0])
						props := propSet(fields[1])
						writesOf[con] = &writesClause{props: props, spec: &Clause{kind: "writes", spec: sp, label: fd.Name.Name, props: props}}
					case "dynamic", "invoke":
						registerEffect(m[1], fields, sp)
					case "lemma":
						l := &Lemma{spec: sp, name: p.Name + "." + fd.Name.Name, props: map[string]bool{}}
						if len(fields) > 0 {
							l.props = propSet(fields[0])
						}
						for _, f := range fields[min(1, len(fields)):] {
							if f == "alone" {
								l.alone = true
							} else if f == "local" {
								l.local = true
							} else {
								l.reveal = append(l.reveal, f)
							}
						}
						lemmas[fd.Name.Name] = l
						lemmaOrder = append(lemmaOrder, l)
						lemmaBySpec[sp] = l
					}
				}
			}
		}
	}
	for _, f := range specs.byObj {
		n := f.decl.Name.Name
		if strings.HasPrefix(n, "trig_") {
			if l := lemmas[strings.TrimPrefix(n, "trig_")]; l != nil {
				l.trig = f
			}
		}
		if strings.HasPrefix(n, "dec_") {
			if l := lemmas[strings.TrimPrefix(n, "dec_")]; l != nil {
				l.dec = f
			}
		}
	}
	for k := range mutableTypes {
		_ = k
	}
	// Renamed functions: an unattached contract goes to the only function of
	// its package with a matching signature that has no contract.
	var orphans []*Contract
	for _, c := range contractName {
		if c.fn == nil && !c.inline {
			orphans = append(orphans, c)
		}
	}
	sort.Slice(orphans, func(i, j int) bool { return orphans[i].name < orphans[j].name })
	for changed := true; changed; {
		changed = false
		for _, c := range orphans {
			if c.fn == nil && c.variant == "" && adopt(c, orphans, byName) {
				changed = true
			}
		}
	}
	for _, c := range orphans {
		if c.fn == nil {
			contractErrs = append(contractErrs, c.name)
		}
	}
	specs.findRecursion()
}

// adopt attaches a contract whose function is gone to the only function of the
// package that has no contract and takes what the contract speaks of.
func adopt(c *Contract, orphans []*Contract, byName map[string]*ssa.Function) bool {
	sig := contractSig(c)
	if sig == "" {
		return false
	}
	pkg := c.name[:strings.IndexByte(c.name, '.')]
	for _, d := range orphans {
		if d != c && d.fn == nil && strings.HasPrefix(d.name, pkg+".") && contractSig(d) == sig {
			return false
		}
	}
	var found *ssa.Function
	for n, f := range byName {
		if !strings.HasPrefix(n, pkg+".") || contracts[f] != nil || ast.IsExported(f.Name()) || fnSig(f) != sig {
			continue
		}
		if found != nil && found != f {
			return false
		}
		found = f
	}
	if found == nil {
		return false
	}
	c.fn = found
	contracts[found] = c
	return true
}

func fnSig(f *ssa.Function) string {
	var s []string
	for _, p := range f.Params {
		s = append(s, typeKey(p.Type()))
	}
	s = append(s, "->")
	for i := 0; i < f.Signature.Results().Len(); i++ {
		s = append(s, typeKey(f.Signature.Results().At(i).Type()))
	}
	return strings.Join(s, " ")
}

// contractSig is the signature a contract is written for, as far as its
// clauses tell: the parameters are those of a precondition, the results those
// that a postcondition has in addition.
func contractSig(c *Contract) string {
	var in, all []string
	hasPre := false
	keys := func(cl *Clause) []string {
		var s []string
		for _, p := range cl.spec.params {
			if !isWorld(p.Type()) {
				s = append(s, typeKey(p.Type()))
			}
		}
		return s
	}
	for _, cl := range c.clauses {
		switch cl.kind {
		case "pre":
			in, hasPre = keys(cl), true
		case "post":
			all = keys(cl)
		}
	}
	if !hasPre || all == nil || len(all) < len(in) {
		return ""
	}
	res := append([]string(nil), all[len(in):]...)
	// the final contents of changed parameters come last
	for i := range in {
		for _, p := range c.clauses[0].spec.params[i : i+1] {
			if isMutableType(p.Type()) && len(res) > 0 {
				res = res[:len(res)-1]
			}
		}
	}
	return strings.Join(append(append(in, "->"), res...), " ")
}

func isVerifFile(prog *ssa.Program, f *ssa.Function) bool {
	n := prog.Fset.Position(f.Pos()).Filename
	return strings.Contains(n, "zz_verif_") || strings.Contains(n, "zzspec")
}

func isMutableType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return mutableTypes[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
}

func isWorld(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "World" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/zzspec")
}

// mutable reports which parameters of fn are objects it may change, and
// whether their slices and maps are theirs alone.
func (c *Contract) mutable(i int, t types.Type) (mutable, owned bool) {
	if isMutableType(t) {
		return true, true
	}
	if c != nil && c.mutates[i] {
		return true, false
	}
	return false, false
}

// bindClause applies a clause: args are the entry values, the results, the
// final contents of mutable parameters and the worlds.
func bindClause(cl *Clause, vals []*Term, w0, w1 *Term) *Term {
	f := cl.spec
	var args []*Term
	vi, wi := 0, 0
	for _, p := range f.params {
		if isWorld(p.Type()) {
			if wi == 0 {
				args = append(args, w0)
			} else {
				args = append(args, w1)
			}
			wi++
			continue
		}
		if vi >= len(vals) {
			panic(unsupported("contract %s: too many parameters", cl.label))
		}
		v := vals[vi]
		if v != nil && v.sort != SortOf(p.Type()) {
			panic(unsupported("contract %s: parameter %s has sort %s, value has %s", cl.label, p.Name(), SortOf(p.Type()), v.sort))
		}
		args = append(args, v)
		vi++
	}
	if cl.kind == "post" && !f.recursive && !f.ghost && !f.opaque && lemmaBySpec[f] == nil {
		var used []*Term
		g := f.body(fuelN(fuelDepth), args, &used)
		return Implies(And(used...), g)
	}
	return f.Apply(fuelN(fuelDepth), args...)
}

func pureContract(fn *types.Func) bool { _, ok := pureByObj[fn]; return ok }

var curProp string

// pureAxioms are the postconditions of a pure function, for all arguments.
func pureAxioms(t *Term) []*Term {
	var c *Contract
	for o, k := range pureByObj {
		if "pure."+o.FullName() == t.name {
			c = k
		}
	}
	if c == nil {
		return nil
	}
	var vars []*Term
	for _, a := range t.args {
		vars = append(vars, BVar("a", a.sort))
	}
	app := mk("fn", t.name, t.sort, vars...)
	var out []*Term
	for _, cl := range c.get("post", curProp) {
		body := bindClause(cl, append(append([]*Term(nil), vars...), app), nil, nil)
		if len(vars) == 0 {
			out = append(out, body)
			continue
		}
		out = append(out, ForAll(vars, body, []*Term{app}))
	}
	return out
}

// lemmaAxiom is the universally quantified statement of a lemma.
func lemmaAxiom(l *Lemma) *Term {
	fu := BVar("fu", "Fuel")
	var vars []*Term
	for _, p := range l.spec.params {
		vars = append(vars, BVar(p.Name(), SortOf(p.Type())))
	}
	if l.trig == nil {
		panic(unsupported("lemma %s has no trigger", l.name))
	}
	ret := l.trig.decl.Body.List[len(l.trig.decl.Body.List)-1].(*ast.ReturnStmt)
	cl := ret.Results[0].(*ast.CompositeLit)
	sc := &scope{fn: l.trig, vars: map[types.Object]*Term{}, fuel: fu}
	for i, p := range l.trig.params {
		sc.vars[p] = vars[i]
	}
	for _, st := range l.trig.decl.Body.List[:len(l.trig.decl.Body.List)-1] {
		sc.assign(st.(*ast.AssignStmt))
	}
	var pat []*Term
	usesFuel := false
	for _, e := range cl.Elts {
		t := sc.expr(e)
		pat = append(pat, t)
		if freeBound(t)[fu] {
			usesFuel = true
		}
	}
	f := fuelN(fuelDepth)
	if usesFuel {
		vars2 := append([]*Term{fu}, vars...)
		return ForAll(vars2, l.spec.statement(f, vars), pat)
	}
	return ForAll(vars, l.spec.statement(f, vars), pat)
}

// statement is what a lemma says, its uses of other lemmas ignored.
func (f *SpecFn) statement(fuel *Term, args []*Term) *Term {
	return f.statementUsing(fuel, args, nil)
}

// statementUsing also collects the lemmas a lemma uses.
func (f *SpecFn) statementUsing(fuel *Term, args []*Term, hyps *[]*Term) *Term {
	sc := &scope{fn: f, vars: map[types.Object]*Term{}, fuel: fuel, hyps: hyps}
	for i, p := range f.params {
		sc.vars[p] = args[i]
	}
	return sc.block(f.decl.Body.List)
}
