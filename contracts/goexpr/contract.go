package goexpr

//verif:file C10,C13

import (
	goast "go/ast"

	z "github.com/mmcloughlin/ssarules/internal/zzspec"
)

//verif:post Parse C10,C13
func post_Parse_err(x string, e goast.Expr, err error) bool {
	return z.Iff(err == nil, z.Accepted(x))
}

//verif:post Parse C10,C13
func post_Parse_tree(x string, e goast.Expr, err error) bool {
	return z.Implies(err == nil, z.Eq(e, z.Embedded(x)))
}

// ---- what the tree of an accepted expression is like ---------------------------

//verif:lemma C13
func lemma_cleanArgsLen(as []goast.Expr, k int) bool {
	return z.Implies(0 <= k && k <= len(as), len(z.CleanArgs(as, k)) == k)
}
func dec_lemma_cleanArgsLen(as []goast.Expr, k int) int { return k }
func trig_lemma_cleanArgsLen(as []goast.Expr, k int) []interface{} {
	return []interface{}{z.CleanArgs(as, k)}
}

//verif:lemma C13
func lemma_plainArgsAt(as []goast.Expr, k, i int) bool {
	return z.Implies(0 <= i && i < k && z.PlainGoArgs(as, k), z.PlainGo(as[i]))
}
func dec_lemma_plainArgsAt(as []goast.Expr, k, i int) int { return k }
func trig_lemma_plainArgsAt(as []goast.Expr, k, i int) []interface{} {
	return []interface{}{z.PlainGoArgs(as, k), as[i]}
}

//verif:lemma C13
func lemma_noPosPrefix(as []goast.Expr, e goast.Expr, k int) bool {
	return z.Implies(k <= len(as), z.Iff(z.NoPosArgs(append(as, e), k), z.NoPosArgs(as, k)))
}
func dec_lemma_noPosPrefix(as []goast.Expr, e goast.Expr, k int) int { return k }
func trig_lemma_noPosPrefix(as []goast.Expr, e goast.Expr, k int) []interface{} {
	return []interface{}{z.NoPosArgs(append(as, e), k)}
}

//verif:lemma C13
func lemma_noPosClean(as []goast.Expr, k int) bool {
	return z.Implies(0 <= k && k <= len(as) &&
		z.All(func(i int) bool { return z.Implies(0 <= i && i < k, z.NoPos(z.CleanGo(as[i]))) }),
		z.NoPosArgs(z.CleanArgs(as, k), k))
}
func dec_lemma_noPosClean(as []goast.Expr, k int) int { return k }
func trig_lemma_noPosClean(as []goast.Expr, k int) []interface{} {
	return []interface{}{z.CleanArgs(as, k)}
}

// Below: what is asked of the tree of an accepted expression, given it of the
// trees that rank lower.

//verif:lemma C13 local
func lemma_cleanIdent(n *goast.Ident) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanBasicLit(n *goast.BasicLit) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanParenExpr(n *goast.ParenExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanUnaryExpr(n *goast.UnaryExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanBinaryExpr(n *goast.BinaryExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanCallExpr(n *goast.CallExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanStarExpr(n *goast.StarExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_cleanSelectorExpr(n *goast.SelectorExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.NoPos(z.CleanGo(c)))
	}), z.NoPos(z.CleanGo(n)))
}

// The tree of an accepted expression has no positions left.
//
//verif:lemma C13
func lemma_clean(n goast.Expr) bool {
	ident, _ := n.(*goast.Ident)
	basicLit, _ := n.(*goast.BasicLit)
	parenExpr, _ := n.(*goast.ParenExpr)
	unaryExpr, _ := n.(*goast.UnaryExpr)
	binaryExpr, _ := n.(*goast.BinaryExpr)
	callExpr, _ := n.(*goast.CallExpr)
	starExpr, _ := n.(*goast.StarExpr)
	selectorExpr, _ := n.(*goast.SelectorExpr)
	z.Use(lemma_cleanIdent(ident))
	z.Use(lemma_cleanBasicLit(basicLit))
	z.Use(lemma_cleanParenExpr(parenExpr))
	z.Use(lemma_cleanUnaryExpr(unaryExpr))
	z.Use(lemma_cleanBinaryExpr(binaryExpr))
	z.Use(lemma_cleanCallExpr(callExpr))
	z.Use(lemma_cleanStarExpr(starExpr))
	z.Use(lemma_cleanSelectorExpr(selectorExpr))
	return z.Implies(z.WfGo(n) && z.PlainGo(n), z.NoPos(z.CleanGo(n)))
}
func dec_lemma_clean(n goast.Expr) int { return z.Rank(n) }
func trig_lemma_clean(n goast.Expr) []interface{} {
	return []interface{}{z.CleanGo(n)}
}

//verif:lemma C13
func lemma_sameArgsAt(as, bs []goast.Expr, k, i int) bool {
	return z.Implies(0 <= i && i < k && z.SameTokensArgs(as, bs, k), z.SameTokens(as[i], bs[i]))
}
func dec_lemma_sameArgsAt(as, bs []goast.Expr, k, i int) int { return k }
func trig_lemma_sameArgsAt(as, bs []goast.Expr, k, i int) []interface{} {
	return []interface{}{z.SameTokensArgs(as, bs, k), as[i]}
}

//verif:lemma C13
func lemma_samePrefix(as, bs []goast.Expr, e goast.Expr, k int) bool {
	return z.Implies(k <= len(bs), z.Iff(z.SameTokensArgs(as, append(bs, e), k), z.SameTokensArgs(as, bs, k)))
}
func dec_lemma_samePrefix(as, bs []goast.Expr, e goast.Expr, k int) int { return k }
func trig_lemma_samePrefix(as, bs []goast.Expr, e goast.Expr, k int) []interface{} {
	return []interface{}{z.SameTokensArgs(as, append(bs, e), k)}
}

//verif:lemma C13
func lemma_keptArgs(as []goast.Expr, k int) bool {
	return z.Implies(0 <= k && k <= len(as) &&
		z.All(func(i int) bool { return z.Implies(0 <= i && i < k, z.SameTokens(as[i], z.CleanGo(as[i]))) }),
		z.SameTokensArgs(as, z.CleanArgs(as, k), k))
}
func dec_lemma_keptArgs(as []goast.Expr, k int) int { return k }
func trig_lemma_keptArgs(as []goast.Expr, k int) []interface{} {
	return []interface{}{z.CleanArgs(as, k)}
}

//verif:lemma C13
func lemma_equalArgs(as, bs []goast.Expr, k int) bool {
	return z.Implies(0 <= k && k <= len(as) && k <= len(bs) &&
		z.All(func(i int) bool { return z.Implies(0 <= i && i < k, z.Eq(z.CleanGo(as[i]), z.CleanGo(bs[i]))) }),
		z.Eq(z.CleanArgs(as, k), z.CleanArgs(bs, k)))
}
func dec_lemma_equalArgs(as, bs []goast.Expr, k int) int { return k }
func trig_lemma_equalArgs(as, bs []goast.Expr, k int) []interface{} {
	return []interface{}{z.CleanArgs(as, k), z.CleanArgs(bs, k)}
}

//verif:lemma C13 local
func lemma_keptIdent(n *goast.Ident) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptBasicLit(n *goast.BasicLit) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptParenExpr(n *goast.ParenExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptUnaryExpr(n *goast.UnaryExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptBinaryExpr(n *goast.BinaryExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptCallExpr(n *goast.CallExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptStarExpr(n *goast.StarExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

//verif:lemma C13 local
func lemma_keptSelectorExpr(n *goast.SelectorExpr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.PlainGo(n) && z.All(func(c goast.Expr) bool {
		return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.PlainGo(c), z.SameTokens(c, z.CleanGo(c)))
	}), z.SameTokens(n, z.CleanGo(n)))
}

// The tree of an accepted expression has all its tokens.
//
//verif:lemma C13
func lemma_kept(n goast.Expr) bool {
	ident, _ := n.(*goast.Ident)
	basicLit, _ := n.(*goast.BasicLit)
	parenExpr, _ := n.(*goast.ParenExpr)
	unaryExpr, _ := n.(*goast.UnaryExpr)
	binaryExpr, _ := n.(*goast.BinaryExpr)
	callExpr, _ := n.(*goast.CallExpr)
	starExpr, _ := n.(*goast.StarExpr)
	selectorExpr, _ := n.(*goast.SelectorExpr)
	z.Use(lemma_keptIdent(ident))
	z.Use(lemma_keptBasicLit(basicLit))
	z.Use(lemma_keptParenExpr(parenExpr))
	z.Use(lemma_keptUnaryExpr(unaryExpr))
	z.Use(lemma_keptBinaryExpr(binaryExpr))
	z.Use(lemma_keptCallExpr(callExpr))
	z.Use(lemma_keptStarExpr(starExpr))
	z.Use(lemma_keptSelectorExpr(selectorExpr))
	return z.Implies(z.WfGo(n) && z.PlainGo(n), z.SameTokens(n, z.CleanGo(n)))
}
func dec_lemma_kept(n goast.Expr) int            { return z.Rank(n) }
func trig_lemma_kept(n goast.Expr) []interface{} { return []interface{}{z.CleanGo(n)} }

//verif:lemma C13 local
func lemma_equalIdent(n *goast.Ident, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalBasicLit(n *goast.BasicLit, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalParenExpr(n *goast.ParenExpr, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalUnaryExpr(n *goast.UnaryExpr, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalBinaryExpr(n *goast.BinaryExpr, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalCallArgs(n, m *goast.CallExpr) bool {
	return z.Implies(n != nil && m != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanArgs(n.Args, len(n.Args)), z.CleanArgs(m.Args, len(m.Args))))
}

//verif:lemma C13 local
func lemma_equalCallExpr(n *goast.CallExpr, m goast.Expr) bool {
	c, _ := m.(*goast.CallExpr)
	z.Use(lemma_equalCallArgs(n, c))
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalStarExpr(n *goast.StarExpr, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

//verif:lemma C13 local
func lemma_equalSelectorExpr(n *goast.SelectorExpr, m goast.Expr) bool {
	return z.Implies(n != nil && z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m) &&
		z.All(func(c, d goast.Expr) bool {
			return z.Implies(z.Rank(c) < z.Rank(n) && z.WfGo(c) && z.WfGo(d) && z.PlainGo(c) && z.SameTokens(c, d),
				z.Eq(z.CleanGo(c), z.CleanGo(d)))
		}), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}

// Expressions with the same tokens give the same tree.
//
//verif:lemma C13
func lemma_equal(n, m goast.Expr) bool {
	ident, _ := n.(*goast.Ident)
	basicLit, _ := n.(*goast.BasicLit)
	parenExpr, _ := n.(*goast.ParenExpr)
	unaryExpr, _ := n.(*goast.UnaryExpr)
	binaryExpr, _ := n.(*goast.BinaryExpr)
	callExpr, _ := n.(*goast.CallExpr)
	starExpr, _ := n.(*goast.StarExpr)
	selectorExpr, _ := n.(*goast.SelectorExpr)
	z.Use(lemma_equalIdent(ident, m))
	z.Use(lemma_equalBasicLit(basicLit, m))
	z.Use(lemma_equalParenExpr(parenExpr, m))
	z.Use(lemma_equalUnaryExpr(unaryExpr, m))
	z.Use(lemma_equalBinaryExpr(binaryExpr, m))
	z.Use(lemma_equalCallExpr(callExpr, m))
	z.Use(lemma_equalStarExpr(starExpr, m))
	z.Use(lemma_equalSelectorExpr(selectorExpr, m))
	return z.Implies(z.WfGo(n) && z.WfGo(m) && z.PlainGo(n) && z.SameTokens(n, m), z.Eq(z.CleanGo(n), z.CleanGo(m)))
}
func dec_lemma_equal(n, m goast.Expr) int { return z.Rank(n) }
func trig_lemma_equal(n, m goast.Expr) []interface{} {
	return []interface{}{z.CleanGo(n), z.CleanGo(m)}
}

// Two accepted texts whose expressions have the same tokens are the same to
// all that follows, wherever and however they are laid out.
//
//verif:lemma C13
func lemma_layout(x, y string) bool {
	return z.Implies(z.WfGo(z.GoTree(x)) && z.WfGo(z.GoTree(y)) && z.Accepted(x) && z.Accepted(y) &&
		z.SameTokens(z.GoTree(x), z.GoTree(y)), z.Eq(z.Embedded(x), z.Embedded(y)))
}
