From 2e8eb5e330133286fe683f9f702f9615212ec7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 01/11] fix: expand single-choice opcode alternations without
 panicking

An opcode piece offering one choice next to one offering several was
indexed out of range.
---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From 9d13cc264fd880bafdc48ea1d36cd44a3629f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 02/11] fix: keep the dots of variadic calls in embedded
 expressions

The parser discarded them with the positions, and the printer did not
print them, so f(x...) silently became f(x).
---
 parse/internal/goexpr/parse.go | 5 ++++-
 printer/printer.go             | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..3ff1c93 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -37,7 +37,10 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				// Keep the fact that the call is variadic.
+				n.Ellipsis = 1
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..29765bd 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -210,6 +210,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From f6c141448a4bfb77dd4ab329e34f2b166ed6dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/11] fix: keep adjacent operators apart when printing
 expressions

A negated operand of a subtraction, a complemented or addressed operand of
a conjunction, a dereferenced divisor and the like were printed without a
space and fused into another operator or a comment.
---
 printer/printer.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index 29765bd..a2008cb 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,10 +192,13 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
+		if fuses(e.Op, e.X) {
+			p.printf(" ")
+		}
 		p.goexpr(e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
-		if e.Op.Precedence() < gotoken.ADD.Precedence() {
+		if e.Op.Precedence() < gotoken.ADD.Precedence() || fuses(e.Op, e.Y) {
 			p.printf(" %s ", e.Op)
 		} else {
 			p.printf("%s", e.Op)
@@ -219,12 +222,41 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
+			// Keep the dot from becoming part of the number.
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// fuses reports whether op, directly followed by the text of expr, would be
+// read as a different operator or as the start of a comment.
+func fuses(op gotoken.Token, expr goast.Expr) bool {
+	switch e := expr.(type) {
+	case *goast.UnaryExpr:
+		switch op {
+		case gotoken.ADD, gotoken.SUB:
+			return e.Op == op
+		case gotoken.AND:
+			return e.Op == gotoken.AND || e.Op == gotoken.XOR
+		}
+		return false
+	case *goast.StarExpr:
+		return op == gotoken.QUO
+	case *goast.BinaryExpr:
+		return fuses(op, e.X)
+	case *goast.CallExpr:
+		return fuses(op, e.Fun)
+	case *goast.SelectorExpr:
+		return fuses(op, e.X)
+	default:
+		return false
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From dfb3818dd64555cc5a0404cb3fb18dd6c4beed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 04/11] fix: accept a comment that ends the file without a line
 break

The line break that ends any other comment is skipped as layout.
---
 parse/internal/parser/zparser.go | 102 -------------------------------
 parse/rules.peg                  |   2 +-
 2 files changed, 1 insertion(+), 103 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..5a4e159 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -68,12 +68,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..675d62b 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From 776266a0720e53ddd4613b4c55952b973a0ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 05/11] fix: end the block of a rule at a line break

It used to run on into the next line, up to the first blank.
---
 parse/internal/parser/zparser.go | 4 ++--
 parse/rules.peg                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 5a4e159..609e8e9 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -369,8 +369,8 @@ var g = &grammar{
 															pos: position{line: 184, col: 16, offset: 3443},
 															expr: &charClassMatcher{
 																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
+																val:        "[ \\t\\r\\n]",
+																chars:      []rune{' ', '\t', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   false,
 															},
diff --git a/parse/rules.peg b/parse/rules.peg
index 675d62b..dd7ddf8 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !( Whitespace / EOL ) .)+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 99eb51a748b8a7b46eaadfa308b6798be10f70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 06/11] fix: accept calls with line breaks and comments between
 arguments

The grammar allows layout there, but a line break ended the expression
handed to the Go parser, which rejected it.
---
 parse/internal/parser/zparser.go | 8 +++++++-
 parse/rules.peg                  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 609e8e9..23c07b6 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1529,7 +1529,13 @@ func (p *parser) callonExpr8() (interface{}, error) {
 }
 
 func (c *current) onCall1() (interface{}, error) {
-	expr, err := goexpr.Parse(string(c.text))
+	// Layout between the arguments must not end the Go expression.
+	lines := strings.Split(string(c.text), "\n")
+	for i, line := range lines {
+		lines[i] = strings.Split(line, "//")[0]
+	}
+
+	expr, err := goexpr.Parse(strings.Join(lines, " "))
 	if err != nil {
 		return nil, err
 	}
diff --git a/parse/rules.peg b/parse/rules.peg
index dd7ddf8..d72afdb 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -147,7 +147,13 @@ Aux <- '{' [^}]+ '}' {
 Expr <- Call / Variable / Placeholder
 
 Call <- Ident '(' _ Expr ( _ ',' _ Expr _ )* _ ')' {
-    expr, err := goexpr.Parse(string(c.text))
+    // Layout between the arguments must not end the Go expression.
+    lines := strings.Split(string(c.text), "\n")
+    for i, line := range lines {
+        lines[i] = strings.Split(line, "//")[0]
+    }
+
+    expr, err := goexpr.Parse(strings.Join(lines, " "))
     if err != nil {
         return nil, err
     }
-- 
2.43.0


From 86ebe659d8f504594931838acdf989f5cf90ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 07/11] fix: give SMT variables symbols that cannot clash, and
 placeholders their own

---
 smt2/generate.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..f6b9ca7 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -109,13 +111,24 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
-	g.vars[v] = &value{
-		Expr: string(v),
+	// The symbol must not be a reserved word or a function of the logic, which
+	// never start with a dollar sign.
+	val := &value{
+		Expr: "$" + string(v),
 		Type: t,
 	}
 
-	return g.vars[v], nil
+	if v == ast.Placeholder {
+		// Placeholders are independent of each other.
+		g.placeholders++
+		val.Expr = fmt.Sprintf("$_%d", g.placeholders)
+	} else {
+		g.vars[v] = val
+	}
+
+	g.printf("(declare-const %s %s)\n", val.Expr, s)
+
+	return val, nil
 }
 
 func typesort(t gotypes.Type) (string, error) {
-- 
2.43.0


From c6d4adc00da47967b8983df5b620d2e0496ea255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 08/11] fix: keep the dots of variadic calls apart from a
 preceding number

---
 printer/printer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index a2008cb..61c8ea9 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -214,6 +214,10 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.goexpr(arg)
 		}
 		if e.Ellipsis.IsValid() {
+			if n := len(e.Args); n > 0 && endsInInt(e.Args[n-1]) {
+				// Keep the dots from becoming part of the number.
+				p.printf(" ")
+			}
 			p.printf("...")
 		}
 		p.printf(")")
@@ -257,6 +261,22 @@ func fuses(op gotoken.Token, expr goast.Expr) bool {
 	}
 }
 
+// endsInInt reports whether the text of expr ends with an integer literal.
+func endsInInt(expr goast.Expr) bool {
+	switch e := expr.(type) {
+	case *goast.BasicLit:
+		return e.Kind == gotoken.INT
+	case *goast.UnaryExpr:
+		return endsInInt(e.X)
+	case *goast.BinaryExpr:
+		return endsInInt(e.Y)
+	case *goast.StarExpr:
+		return endsInInt(e.X)
+	default:
+		return false
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From 6a14bd14c92f4223838a84ff8898dd8547f5e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 09/11] fix: accept a file of blanks and comments alone

---
 parse/internal/parser/zparser.go | 36 ++++++++++++++++++++++++++++++++
 parse/rules.peg                  |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 23c07b6..971d2af 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -124,6 +124,42 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&notExpr{
 							pos: position{line: 203, col: 8, offset: 3674},
 							expr: &anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index d72afdb..e716a7f 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,7 +16,7 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- rs:( _ Rule _ )* _ EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
         r := i.([]interface{})[1].(*ast.Rule)
-- 
2.43.0


From 767b0fb0cd4e538bf91a4382f53527135a97c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 10/11] fix: end the block of a rule where a comment starts

---
 parse/internal/parser/zparser.go | 23 +++++++++++++++++------
 parse/rules.peg                  |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 971d2af..9c564a7 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -403,12 +403,23 @@ var g = &grammar{
 													exprs: []interface{}{
 														&notExpr{
 															pos: position{line: 184, col: 16, offset: 3443},
-															expr: &charClassMatcher{
-																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r\\n]",
-																chars:      []rune{' ', '\t', '\r', '\n'},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &choiceExpr{
+																pos: position{line: 184, col: 18, offset: 3445},
+																alternatives: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 201, col: 15, offset: 3647},
+																		val:        "[ \\t\\r\\n]",
+																		chars:      []rune{' ', '\t', '\r', '\n'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																	&litMatcher{
+																		pos:        position{line: 184, col: 37, offset: 3464},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																},
 															},
 														},
 														&anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index e716a7f..bd5c44a 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -187,7 +187,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !( Whitespace / EOL ) .)+ {
+Block <- '@' ( !( Whitespace / EOL / "//" ) .)+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From aa584c2a57b6af8b3e65bf00a5c6da94ead15fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:25 +0000
Subject: [PATCH 11/11] fix: clear every position of a literal, also with later
 Go versions

---
 parse/internal/goexpr/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 3ff1c93..8645e01 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -29,7 +29,8 @@ func clearpos(expr goast.Expr) error {
 		}
 		switch n := node.(type) {
 		case *goast.BasicLit:
-			n.ValuePos = gotoken.NoPos
+			// Later versions of Go hold more than one position.
+			*n = goast.BasicLit{Kind: n.Kind, Value: n.Value}
 		case *goast.ParenExpr:
 			n.Lparen = gotoken.NoPos
 			n.Rparen = gotoken.NoPos
-- 
2.43.0

