package zzcheck

import (
	gotoken "go/token"
	"strings"

	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

// separateTable compares the table Separate the proof of C08 rests on with
// Go's scanner: all pairs and triples of sample tokens the table allows
// without blanks between them.
func separateTable(c *Ctx) {
	type tok struct {
		k gotoken.Token
		t string
	}
	var ts []tok
	for k := gotoken.ADD; k <= gotoken.COLON; k++ {
		if k.IsOperator() {
			ts = append(ts, tok{k, k.String()})
		}
	}
	ts = append(ts, tok{gotoken.TILDE, "~"})
	for _, s := range []string{"x", "_", "i", "e1", "x0", "é", "interface_"} {
		ts = append(ts, tok{gotoken.IDENT, s})
	}
	for _, s := range []string{"0", "7", "12", "0x1f", "0b1", "1_0", "0o7"} {
		ts = append(ts, tok{gotoken.INT, s})
	}
	for _, s := range []string{"1.", "1.5", ".5", "1e3", "0x1p4", "1.e+2"} {
		ts = append(ts, tok{gotoken.FLOAT, s})
	}
	ts = append(ts, tok{gotoken.IMAG, "1i"}, tok{gotoken.IMAG, "1.5i"}, tok{gotoken.CHAR, "'a'"}, tok{gotoken.CHAR, `'\''`},
		tok{gotoken.STRING, `"s"`}, tok{gotoken.STRING, "`r`"}, tok{gotoken.STRING, `""`})
	c.run(func() string { return "the table Separate of contracts/zzspec/tokens.go" }, true, func(fail func(string, ...interface{})) {
		ok := func(xs ...tok) bool {
			var want []string
			for _, x := range xs {
				want = append(want, x.t)
			}
			got, good := scan(strings.Join(want, ""))
			return good && sameStrings(got, want)
		}
		for _, a := range ts {
			for _, b := range ts {
				if !z.Separate(a.k, b.k) {
					continue
				}
				if !ok(a, b) {
					fail("the table says that %q and %q stay apart", a.t, b.t)
					return
				}
				for _, d := range ts {
					if z.Separate(b.k, d.k) && !ok(a, b, d) {
						fail("the table says that %q, %q and %q stay apart", a.t, b.t, d.t)
						return
					}
				}
			}
		}
	})
}
