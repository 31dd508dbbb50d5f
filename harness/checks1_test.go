package zzcheck

import (
	"fmt"
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
)

func init() {
	checks["C01"] = func(c *Ctx) { expandSearch(c, "C01") }
	checks["C02"] = func(c *Ctx) { expandSearch(c, "C02") }
	checks["C03"] = func(c *Ctx) { expandSearch(c, "C03") }
}

// snapshot remembers every slice and pointer reachable from x with a copy of
// its contents, spare capacity of slices included.
type snapshot struct {
	at   reflect.Value
	copy interface{}
}

func snap(x interface{}) []snapshot {
	var out []snapshot
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			out = append(out, snapshot{v.Elem(), clone(v.Elem().Interface())})
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			full := v.Slice(0, v.Cap())
			if v.Cap() > 0 {
				out = append(out, snapshot{full, clone(full.Interface())})
			}
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(x))
	return out
}

func (s snapshot) same() bool { return reflect.DeepEqual(s.at.Interface(), s.copy) }

// spare gives some slices capacity beyond their length, the way appends do.
func spare(c *Ctx, v interface{}) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.CanSet() && v.Len() > 0 && chance(c.rng, 0.5) {
				n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+1+c.rng.Intn(4))
				reflect.Copy(n, v)
				v.Set(n)
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
}

func expandSearch(c *Ctx, prop string) {
	c.rule = "random rule files, with well-formed and irreconcilable alternations, shared nodes and unknown kinds, and runs of the shipped rule files; non-trivial: some rule has an alternation, or no expansion"
	one := func(f *ast.File) {
		saved := clone(f).(*ast.File)
		nontrivial := !z.CntAll(f.Rules, len(f.Rules)) || z.Eq(f.Rules, f.Rules) && len(z.ExpandAll(f.Rules, len(f.Rules))) != len(f.Rules)
		c.run(func() string { return show(saved) }, nontrivial, func(fail func(string, ...interface{})) {
			rules := append([]*ast.Rule(nil), f.Rules...)
			var parts []snapshot
			if prop == "C03" {
				parts = snap(f.Rules)
			}
			wantOK := z.CntAll(saved.Rules, len(saved.Rules))
			err := pass.ExpandAlternates(f)
			switch prop {
			case "C01":
				if err == nil && wantOK {
					want := z.ExpandAll(saved.Rules, len(saved.Rules))
					if !z.Eq(f.Rules, want) {
						fail("expanded to %s, want %s", show(f.Rules), show(want))
					}
				}
			case "C02":
				if (err == nil) != wantOK {
					fail("error %v, want an error: %v", err, !wantOK)
				}
				if err != nil && (len(f.Rules) != len(rules) || !z.Eq(f.Rules, saved.Rules) || !samePtrs(f.Rules, rules)) {
					fail("after an error the rule list is %s", show(f.Rules))
				}
			case "C03":
				for _, p := range parts {
					if !p.same() {
						fail("expansion changed %s to %s", show(p.copy), show(p.at.Interface()))
						break
					}
				}
			}
		})
	}
	text := corpus()
	var names []string
	for n := range text {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		if f, err := parse.String(text[n]); err == nil {
			one(f)
		}
	}
	for i := 0; i < c.rounds(6000) && !c.stop(); i++ {
		f := &ast.File{}
		var pool []ast.Value
		bad := 0.0
		if prop != "C01" && chance(c.rng, 0.5) || chance(c.rng, 0.1) {
			bad = 0.03
		}
		for k := c.rng.Intn(4); k >= 0; k-- {
			o := treeOpts{n: 1 + c.rng.Intn(4), features: chance(c.rng, 0.6), bad: bad}
			if chance(c.rng, 0.02) {
				o.n = 11
			}
			r := genRule(c.rng, c.rng.Intn(4), o)
			// share nodes between and inside rules
			if len(pool) > 0 && chance(c.rng, 0.2) {
				r.Result = pool[c.rng.Intn(len(pool))]
			}
			if s, ok := r.Match.(*ast.SExpr); ok {
				pool = append(pool, s)
				if chance(c.rng, 0.1) && len(s.Args) > 1 {
					s.Args[0] = s.Args[len(s.Args)-1]
				}
			}
			f.Rules = append(f.Rules, r)
			if chance(c.rng, 0.1) {
				f.Rules = append(f.Rules, r)
			}
		}
		if prop == "C03" || chance(c.rng, 0.3) {
			spare(c, f)
		}
		one(f)
	}
}

func samePtrs(a, b []*ast.Rule) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = fmt.Sprint
