package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A Static is the value a package variable is initialised with, as far as it
// is made of composite literals and constants.
type Static struct {
	typ    types.Type // the type of the value; of what is pointed to if ptr
	ptr    bool
	con    *Term
	fn     *ssa.Function
	fields map[int]*Static
	elems  []*Static // of a slice or array
	list   bool
	zero   bool
	other  bool // not known
}

// staticOf evaluates the initialiser of a package variable.
func staticOf(g *ssa.Global) *Static {
	if !neverWritten(g) || len(globalStores[g]) != 1 {
		return nil
	}
	return (&staticEval{}).value(globalStores[g][0].Val)
}

type staticEval struct{ depth int }

func (e *staticEval) value(v ssa.Value) *Static {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return &Static{typ: v.Type(), zero: true}
		}
		if t, ok := constVal(v).(*Term); ok {
			return &Static{typ: v.Type(), con: t}
		}
	case *ssa.Function:
		return &Static{typ: v.Type(), fn: v}
	case *ssa.MakeInterface:
		return e.value(v.X)
	case *ssa.ChangeType:
		return e.value(v.X)
	case *ssa.Alloc:
		s := e.object(v, v.Type().Underlying().(*types.Pointer).Elem())
		if s != nil {
			s.ptr = true
		}
		return s
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
			s := e.object(a, a.Type().Underlying().(*types.Pointer).Elem())
			if s != nil && s.list {
				s.typ = v.Type()
				return s
			}
		}
	}
	return &Static{typ: v.Type(), other: true}
}

// object is what is stored at an address, which must be used for nothing but
// storing in it and being referred to once.
func (e *staticEval) object(addr ssa.Value, t types.Type) *Static {
	s := &Static{typ: t, zero: true}
	at, isArr := t.Underlying().(*types.Array)
	if isArr {
		s.list, s.zero = true, false
		for i := int64(0); i < at.Len(); i++ {
			s.elems = append(s.elems, &Static{typ: at.Elem(), zero: true})
		}
	}
	uses := 0
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr == addr {
				return e.value(r.Val)
			}
			uses++
		case *ssa.FieldAddr:
			if s.fields == nil {
				s.fields, s.zero = map[int]*Static{}, false
			}
			ft := r.Type().Underlying().(*types.Pointer).Elem()
			if s.fields[r.Field] != nil {
				return &Static{typ: t, other: true}
			}
			s.fields[r.Field] = e.object(r, ft)
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !isArr || !ok {
				return &Static{typ: t, other: true}
			}
			s.elems[int(i.Int64())] = e.object(r, at.Elem())
		default:
			uses++
		}
	}
	if uses > 1 {
		return &Static{typ: t, other: true}
	}
	return s
}

// writtenTypes are the struct types whose fields some function changes, other
// than those of an object of its own.
func writtenTypes(fns map[*ssa.Function]bool) map[types.Type]bool {
	out := map[types.Type]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				for {
					f, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					a = f.X
				}
				switch f := a.(type) {
				case *ssa.Alloc, *ssa.Global:
				case *ssa.IndexAddr:
					if _, own := f.X.(*ssa.Alloc); !own {
						out[f.X.Type().Underlying()] = true
					}
				default:
					if p, ok := a.Type().Underlying().(*types.Pointer); ok && a != s.Addr {
						out[p.Elem()] = true
					}
				}
			}
		}
	}
	return out
}

// changes: some function changes values of a type in it.
func (s *Static) changes(w map[types.Type]bool) bool {
	if s == nil || s.con != nil || s.fn != nil {
		return false
	}
	u := s.typ
	if s.list {
		u = u.Underlying()
	}
	for t := range w {
		if types.Identical(t, u) {
			return true
		}
	}
	for _, e := range s.elems {
		if e.changes(w) {
			return true
		}
	}
	for _, f := range s.fields {
		if f.changes(w) {
			return true
		}
	}
	return false
}

var typesWritten map[types.Type]bool

// facts states what is known of a value, down to the given depth.
func (s *Static) facts(x *Exec, st *State, v *Term, depth int) {
	if s == nil || s.other || depth < 0 {
		return
	}
	if s.con != nil {
		if v.sort == s.con.sort {
			st.assume(Eq(v, s.con))
		}
		return
	}
	if s.list {
		if _, ok := s.typ.Underlying().(*types.Slice); !ok || isByteSlice(s.typ) {
			return
		}
		st.assume(Eq(Len(v), IntT(int64(len(s.elems)))))
		for i, e := range s.elems {
			e.facts(x, st, Nth(v, IntT(int64(i))), depth-1)
		}
		return
	}
	if _, ok := s.typ.Underlying().(*types.Struct); !ok || s.fields == nil {
		return
	}
	o := v
	if s.ptr {
		if v.sort != SortOf(types.NewPointer(s.typ)) {
			return
		}
		st.assume(Not(IsNilPtr(s.typ, v)))
		o = Deref(s.typ, v)
	}
	for i := 0; i < s.typ.Underlying().(*types.Struct).NumFields(); i++ {
		if f := s.fields[i]; f != nil {
			f.facts(x, st, FieldOf(s.typ, i, o), depth-1)
		}
	}
}
