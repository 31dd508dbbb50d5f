package parse

//verif:file C11,C12

import (
	"io"

	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
	"github.com/mmcloughlin/ssarules/parse/internal/parser"
)

// isFile: the value is the AST of a rule file.
func isFile(v interface{}) bool {
	f, ok := v.(*ast.File)
	return ok && f != nil
}

// one: exactly one result.
func one(f *ast.File, err error) bool { return z.Iff(f != nil, err == nil) }

//verif:pre cast C11,C12
func pre_cast(v interface{}, err error) bool { return err != nil || isFile(v) }

//verif:post cast C11,C12
func post_cast(v interface{}, err error, f *ast.File, ferr error) bool {
	return one(f, ferr) && ferr == err && z.Implies(err == nil, z.Eq(v, interface{}(f)))
}

//verif:pre Reader C11,C12
func pre_Reader(name string, r io.Reader) bool { return r != nil }

//verif:post Reader C11,C12
func post_Reader_one(name string, r io.Reader, f *ast.File, err error) bool { return one(f, err) }

//verif:post Reader C11,C12
func post_Reader(name string, r io.Reader, f *ast.File, err error) bool {
	return parser.Reads(r, f, err)
}

//verif:post String C11,C12
func post_String_one(s string, f *ast.File, err error) bool { return one(f, err) }

//verif:post String C11,C12
func post_String(s string, f *ast.File, err error) bool {
	return parser.Gives(parser.Whole(s), f, err)
}

//verif:post File C11,C12
func post_File_one(name string, f *ast.File, err error) bool { return one(f, err) }

//verif:post File C11,C12
func post_File(name string, f *ast.File, err error) bool { return parser.ReadsFile(name, f, err) }
