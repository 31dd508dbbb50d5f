package zzspec

//verif:file C17

import (
	"path/filepath"

	"github.com/mmcloughlin/ssarules/ast"
)

// ---- C17: the command ------------------------------------------------------------

// An Output is a file handed to the file system, with its contents.
type Output struct {
	Name string
	Text string
}

// Files are the files written so far, in order, the last one possibly in vain.
func Files(wd World) []Output { panic("ghost") }

// FileErr is the first error that writing a file gave.
func FileErr(wd World) error { panic("ghost") }

// FlagsSet: the command line has been parsed.
func FlagsSet(wd World) bool { panic("ghost") }

// Died: the process has been ended with a failure.
func Died(wd World) bool { panic("ghost") }

// CmdArgs are the arguments of the command that are not flags.
func CmdArgs() []string { panic("ghost") }

// CmdFlag is the value of a flag of the command.
func CmdFlag(name string) string { panic("ghost") }

// ParsedRules are the rules of a file.
func ParsedRules(name string) []*ast.Rule { panic("ghost") }

// ParseErr is the error of reading and parsing a file.
func ParseErr(name string) error { panic("ghost") }

// JoinPath is the path of a file in a directory.
func JoinPath(dir, name string) string { return filepath.Join(dir, name) }

// Wrapped is the error that an error wraps.
func Wrapped(err error) error {
	if u, ok := err.(interface{ Unwrap() error }); ok {
		return u.Unwrap()
	}
	return nil
}

// Well: the rule holds no nil pointers.
//
//verif:opaque
func Well(r *ast.Rule) bool { return r != nil && WfNode(r) && WfRule(r) && WfPrint(r) }

// Wells: the first k rules hold no nil pointers.
func Wells(rs []*ast.Rule, k int) bool { return k <= 0 || (Wells(rs, k-1) && Well(rs[k-1])) }

// Same: nothing the command does was done in between.
func Same(w0, w1 World) bool {
	return Eq(Files(w1), Files(w0)) && FileErr(w1) == FileErr(w0) &&
		Iff(FlagsSet(w1), FlagsSet(w0)) && Iff(Died(w1), Died(w0))
}
