// Package zzspec holds the specification functions that the contracts of this
// verification are written in. They are ordinary Go: the verifier translates
// them to SMT terms and the falsification harness executes them.
//
// The package exists only in the build overlay of the checks.
package zzspec

import (
	"fmt"
	"reflect"
)

// ---- intrinsics: translated directly, never unfolded ----------------------

// Implies is logical implication.
func Implies(a, b bool) bool { return !a || b }

// Iff is logical equivalence.
func Iff(a, b bool) bool { return a == b }

// Forall is bounded universal quantification over lo <= i < hi.
func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Eq is mathematical equality of values: pointers compare by what they point
// to, and a nil slice equals an empty one.
func Eq(a, b interface{}) bool {
	return deepEq(reflect.ValueOf(a), reflect.ValueOf(b))
}

func deepEq(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return true
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil() || a.Pointer() == b.Pointer()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	default:
		panic(fmt.Sprintf("zzspec.Eq: unsupported kind %s", a.Kind()))
	}
}

// Rank is a measure of finite trees: every node ranks above its children.
// It is only ever used in the decrease measures of lemmas.
func Rank(x interface{}) int { panic("zzspec.Rank is a ghost function") }

// Use marks the use of a lemma inside another lemma.
func Use(bool) {}

// TypeName is the dynamic type of x the way %T prints it.
func TypeName(x interface{}) string { return fmt.Sprintf("%T", x) }

// Sprintf is the text of a format and its operands.
func Sprintf(f string, args []interface{}) string { return fmt.Sprintf(f, args...) }
