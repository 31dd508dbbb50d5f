package parse

//verif:file C17

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:assume File C17 a file has one result, an AST without nil pointers or an error; which one is the subject of C10 to C13

//verif:post File C17
func post_File_result(name string, f *ast.File, err error) bool {
	return err == z.ParseErr(name) && z.Implies(err == nil, f != nil && z.Eq(f.Rules, z.ParsedRules(name)))
}

//verif:post File C17
func post_File_well(name string, f *ast.File, err error) bool {
	return z.Implies(err == nil, z.Wells(f.Rules, len(f.Rules)))
}
