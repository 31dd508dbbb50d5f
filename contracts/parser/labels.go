package parser

//verif:file C10

// ---- each label goes to its place --------------------------------------------------

// HasLabels: there are labels.
func HasLabels(p *parser) bool { return p != nil && len(p.vstack) > 0 }

// Labelled is the value with the label in the innermost construct.
func Labelled(p *parser, l string) interface{} { return p.vstack[len(p.vstack)-1][l] }

//verif:pre parser.callonFile1 C10,C13
func pre_callonFile1(p *parser) bool { return HasLabels(p) && pre_onFile1(&p.cur, Labelled(p, "rs")) }

//verif:post parser.callonFile1 C10,C13
func post_callonFile1(p *parser, v interface{}, err error) bool {
	return post_onFile1(&p.cur, Labelled(p, "rs"), v, err)
}

//verif:pre parser.callonRule25 C10,C13
func pre_callonRule25(p *parser) bool { return HasLabels(p) && pre_onRule25(&p.cur) }

//verif:post parser.callonRule25 C10,C13
func post_callonRule25(p *parser, v interface{}, err error) bool {
	return post_onRule25(&p.cur, v, err)
}

//verif:pre parser.callonRule50 C10,C13
func pre_callonRule50(p *parser) bool { return HasLabels(p) && pre_onRule50(&p.cur) }

//verif:post parser.callonRule50 C10,C13
func post_callonRule50(p *parser, v interface{}, err error) bool {
	return post_onRule50(&p.cur, v, err)
}

//verif:pre parser.callonRule1 C10,C13
func pre_callonRule1(p *parser) bool {
	return HasLabels(p) && pre_onRule1(&p.cur, Labelled(p, "m"), Labelled(p, "cond"), Labelled(p, "block"), Labelled(p, "r"))
}

//verif:post parser.callonRule1 C10,C13
func post_callonRule1(p *parser, v interface{}, err error) bool {
	return post_onRule1(&p.cur, Labelled(p, "m"), Labelled(p, "cond"), Labelled(p, "block"), Labelled(p, "r"), v, err)
}

//verif:pre parser.callonSExpr6 C10,C13
func pre_callonSExpr6(p *parser) bool { return HasLabels(p) && pre_onSExpr6(&p.cur) }

//verif:post parser.callonSExpr6 C10,C13
func post_callonSExpr6(p *parser, v interface{}, err error) bool {
	return post_onSExpr6(&p.cur, v, err)
}

//verif:pre parser.callonSExpr26 C10,C13
func pre_callonSExpr26(p *parser) bool { return HasLabels(p) && pre_onSExpr26(&p.cur) }

//verif:post parser.callonSExpr26 C10,C13
func post_callonSExpr26(p *parser, v interface{}, err error) bool {
	return post_onSExpr26(&p.cur, v, err)
}

//verif:pre parser.callonSExpr33 C10,C13
func pre_callonSExpr33(p *parser) bool { return HasLabels(p) && pre_onSExpr33(&p.cur) }

//verif:post parser.callonSExpr33 C10,C13
func post_callonSExpr33(p *parser, v interface{}, err error) bool {
	return post_onSExpr33(&p.cur, v, err)
}

//verif:pre parser.callonSExpr40 C10,C13
func pre_callonSExpr40(p *parser) bool { return HasLabels(p) && pre_onSExpr40(&p.cur) }

//verif:post parser.callonSExpr40 C10,C13
func post_callonSExpr40(p *parser, v interface{}, err error) bool {
	return post_onSExpr40(&p.cur, v, err)
}

//verif:pre parser.callonSExpr29 C10,C13
func pre_callonSExpr29(p *parser) bool {
	return HasLabels(p) && pre_onSExpr29(&p.cur, Labelled(p, "first"), Labelled(p, "rest"))
}

//verif:post parser.callonSExpr29 C10,C13
func post_callonSExpr29(p *parser, v interface{}, err error) bool {
	return post_onSExpr29(&p.cur, Labelled(p, "first"), Labelled(p, "rest"), v, err)
}

//verif:pre parser.callonSExpr22 C10,C13
func pre_callonSExpr22(p *parser) bool {
	return HasLabels(p) && pre_onSExpr22(&p.cur, Labelled(p, "parts"))
}

//verif:post parser.callonSExpr22 C10,C13
func post_callonSExpr22(p *parser, v interface{}, err error) bool {
	return post_onSExpr22(&p.cur, Labelled(p, "parts"), v, err)
}

//verif:pre parser.callonSExpr1 C10,C13
func pre_callonSExpr1(p *parser) bool {
	return HasLabels(p) && pre_onSExpr1(&p.cur, Labelled(p, "binding"), Labelled(p, "op"), Labelled(p, "operands"), Labelled(p, "ellipsis"), Labelled(p, "trailing"))
}

//verif:post parser.callonSExpr1 C10,C13
func post_callonSExpr1_err(p *parser, v interface{}, err error) bool {
	return post_onSExpr1_err(&p.cur, Labelled(p, "binding"), Labelled(p, "op"), Labelled(p, "operands"), Labelled(p, "ellipsis"), Labelled(p, "trailing"), v, err)
}

//verif:post parser.callonSExpr1 C10,C13
func post_callonSExpr1(p *parser, v interface{}, err error) bool {
	return post_onSExpr1(&p.cur, Labelled(p, "binding"), Labelled(p, "op"), Labelled(p, "operands"), Labelled(p, "ellipsis"), Labelled(p, "trailing"), v, err)
}

//verif:pre parser.callonOperand2 C10,C13
func pre_callonOperand2(p *parser) bool { return HasLabels(p) && pre_onOperand2(&p.cur) }

//verif:post parser.callonOperand2 C10,C13
func post_callonOperand2(p *parser, v interface{}, err error) bool {
	return post_onOperand2(&p.cur, v, err)
}

//verif:pre parser.callonOperand8 C10,C13
func pre_callonOperand8(p *parser) bool { return HasLabels(p) && pre_onOperand8(&p.cur) }

//verif:post parser.callonOperand8 C10,C13
func post_callonOperand8(p *parser, v interface{}, err error) bool {
	return post_onOperand8(&p.cur, v, err)
}

//verif:pre parser.callonOperand14 C10,C13
func pre_callonOperand14(p *parser) bool { return HasLabels(p) && pre_onOperand14(&p.cur) }

//verif:post parser.callonOperand14 C10,C13
func post_callonOperand14(p *parser, v interface{}, err error) bool {
	return post_onOperand14(&p.cur, v, err)
}

//verif:pre parser.callonExpr3 C10,C13
func pre_callonExpr3(p *parser) bool { return HasLabels(p) && pre_onExpr3(&p.cur) }

//verif:post parser.callonExpr3 C10,C13
func post_callonExpr3(p *parser, v interface{}, err error) bool {
	return post_onExpr3(&p.cur, v, err)
}

//verif:pre parser.callonExpr8 C10,C13
func pre_callonExpr8(p *parser) bool { return HasLabels(p) }

//verif:post parser.callonExpr8 C10,C13
func post_callonExpr8(p *parser, v interface{}, err error) bool {
	return post_onExpr8(&p.cur, v, err)
}

//verif:pre parser.callonCall1 C10,C13
func pre_callonCall1(p *parser) bool { return HasLabels(p) && pre_onCall1(&p.cur) }

//verif:post parser.callonCall1 C10,C13
func post_callonCall1(p *parser, v interface{}, err error) bool {
	return post_onCall1(&p.cur, v, err)
}
