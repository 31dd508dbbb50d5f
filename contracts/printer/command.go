package printer

//verif:file C17

import (
	"github.com/mmcloughlin/ssarules/ast"
	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:assume Bytes C17 proved under C07 (the error) and C15 (it writes to a buffer of its own)

//verif:pre Bytes C17
func pre_Bytes(n ast.Node) bool { return z.WfPrint(n) }

//verif:post Bytes C17
func post_Bytes(n ast.Node, b []byte, err error, w0, w1 z.World) bool {
	return z.Iff(err != nil, z.BadNode(n).Is)
}

//verif:post Bytes C17
func post_Bytes_quiet(n ast.Node, b []byte, err error, w0, w1 z.World) bool {
	return z.Same(w0, w1)
}
