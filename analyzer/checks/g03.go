package checks

import (
	"go/types"
	"slices"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"
)

func init() {
	All["G03"] = G03
	All["G04"] = G04
}

const ws = `[ \n\t\r]`

// within decides whether all matches of the first expression match the second.
func within(a, b string) bool {
	same, err := sameLanguage("^(?:(?:"+a+")|(?:"+b+"))$", "^(?:"+b+")$")
	return err == nil && same
}

func equalTo(a, b string) bool {
	same, err := sameLanguage("^(?:"+a+")$", "^(?:"+b+")$")
	return err == nil && same
}

// nodeName is the name of the type of query node a value points to.
func (a *actions) nodeName(k *kind) string {
	if k == nil {
		return ""
	}
	n := a.c.Type(ast, "Node").Underlying().(*types.Interface)
	if !types.Implements(k.typ, n) {
		return ""
	}
	t := k.typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if x, ok := types.Unalias(t).(*types.Named); ok {
		return x.Obj().Name()
	}
	return ""
}

// yieldsNode reports whether a part of the grammar gives a query node.
func (a *actions) yieldsNode(x *pexpr) bool {
	seen := map[string]bool{}
	var walk func(y *pexpr) bool
	walk = func(y *pexpr) bool {
		switch y.kind {
		case "action":
			for _, k := range a.kinds[y] {
				if a.nodeName(&k) != "" {
					return true
				}
			}
			return false
		case "not", "and":
			return false
		case "ref":
			if r := a.g.byName[y.str]; r != nil && !seen[y.str] {
				seen[y.str] = true
				return walk(r.expr)
			}
			return false
		}
		return slices.ContainsFunc(y.kids, walk)
	}
	return walk(x)
}

// G03: precedence and order of connectives.
func G03(c *Ctx) {
	c.givenText()
	a := c.newActions()
	a.solve()
	c.Rule("the code of every action is analysed for every kind of value its labels can have, the kinds being the least fixpoint over the grammar")
	c.Rule("an or-node or and-node is made of the two labelled operands in the order of the text, with exactly that connective between them")
	c.Rule("an operand of and is no unparenthesised or; the operand of not is a test or parenthesised")
	c.Rule("an operand passed on is enclosed in blanks or parentheses, and none is dropped")
	for _, r := range a.g.reachable() {
		r := r
		r.expr.each(func(x *pexpr) {
			if x.kind == "action" {
				a.precedence(a.runs[x])
			}
		})
	}
	for _, o := range a.in.Obls {
		if !o.Proven {
			c.Bad("panics", prog.FnName(o.Fn), c.P.Where(o.Pos), "%s: %s", o.Kind, o.Detail)
		}
	}
	for _, n := range []string{"AndNode", "OrNode", "NotNode", "parentheses", "passed on"} {
		c.AtLeast(n, 1)
	}
}

func (a *actions) precedence(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	// parts of the text with a node but without label
	body := rs.x.kids[0]
	parts := []*pexpr{body}
	if body.kind == "seq" {
		parts = body.kids
	}
	hasNode := false
	for _, p := range parts {
		if a.yieldsNode(p) {
			hasNode = true
			c.Need(p.kind == "label", "operands", name, p.where, "an operand is parsed and not used")
		}
	}
	if !hasNode {
		for _, ret := range rs.rets {
			if ret.fails == flow.Yes || ret.Panic {
				continue
			}
			if n := a.nodeName(ret.kind); n != "" && n != "ExprNode" {
				c.Bad("operands", name, rs.x.where, "makes a %s without operands in the text", n)
			}
		}
		return
	}
	text, why := a.around(rs.x)
	if why != "" {
		c.Bad("text", name, rs.x.where, "the text around the operands is not regular: %s", why)
		return
	}
	for _, ret := range rs.rets {
		if ret.Panic {
			c.Bad("panics", name, rs.x.where, "the action panics: %s", ret.Why)
			continue
		}
		if ret.fails == flow.Yes {
			continue
		}
		// the node operands of this run
		var nodes []string
		at := map[string]int{}
		for i, l := range rs.labels {
			at[l.str] = i
			if a.nodeName(ret.labels[l.str].kind) != "" {
				nodes = append(nodes, l.str)
			}
		}
		if ret.from != "" {
			if !c.Need(len(nodes) == 1 && nodes[0] == ret.from, "passed on", name, rs.x.where, "only %s of the operands %s is used", ret.from, strings.Join(nodes, ", ")) {
				continue
			}
			if len(rs.labels) == 1 && a.parens(rs.x, ret.from) {
				c.Ok("parentheses")
				continue
			}
			c.Need(within(strings.Join(text, ""), ws+"*"), "passed on", name, rs.x.where, "what stands beside %s is dropped", ret.from)
			continue
		}
		n := a.nodeName(ret.kind)
		switch n {
		case "AndNode", "OrNode":
			if !c.Need(len(nodes) == 2 && len(rs.labels) == 2, n, name, rs.x.where, "a node with two operands is made of %d", len(nodes)) {
				continue
			}
			l, r := rs.labels[0].str, rs.labels[1].str
			left, right := a.field(ret.St, ret.val, "Left"), a.field(ret.St, ret.val, "Right")
			c.Need(left == ret.labels[l].term && right == ret.labels[r].term, n, name, rs.x.where, "the operands %s and %s become %s and %s", l, r, short(left), short(right))
			word := map[string]string{"AndNode": "AND", "OrNode": "OR"}[n]
			c.Need(within(text[1], ws+"*"+word+ws+"*") && within(text[0]+text[2], ws+"*"), n, name, rs.x.where, "the text between the operands of this %s is not just %s", n, word)
			if n == "AndNode" {
				for _, o := range []string{l, r} {
					k := ret.labels[o].kind
					c.Need(a.nodeName(k) != "OrNode" || k.paren, "precedence", name, rs.x.where, "the operand %s of and can be an or without parentheses", o)
				}
			}
		case "NotNode":
			if !c.Need(len(nodes) == 1, n, name, rs.x.where, "a node with one operand is made of %d", len(nodes)) {
				continue
			}
			o := nodes[0]
			e := a.field(ret.St, ret.val, "Expr")
			c.Need(e == ret.labels[o].term, n, name, rs.x.where, "the operand %s becomes %s", o, short(e))
			c.Need(len(rs.labels) == 1 && within(text[0], ws+"*(NOT|!)"+ws+"*") && within(text[1], ws+"*"), n, name, rs.x.where, "the text before the operand of this NotNode is not just NOT or !")
			k := ret.labels[o].kind
			c.Need(a.nodeName(k) == "ExprNode" || a.nodeName(k) == "SubdocNode" || k.paren, "precedence", name, rs.x.where, "the operand of not can be an unparenthesised %s", k)
		case "SubdocNode":
			e := a.field(ret.St, ret.val, "Expr")
			c.Need(len(nodes) == 1 && e == ret.labels[nodes[0]].term, n, name, rs.x.where, "the operand becomes %s", short(e))
		default:
			c.Bad("operands", name, rs.x.where, "the operands %s are replaced by %s", strings.Join(nodes, ", "), short(ret.val))
		}
	}
}

// opWords are the operators of the language by the name of their constant.
var opWords = map[string]string{"exists": "EXS", "null": "NUL", "><": "BET", "~": "SIM", "<": "LT", "<=": "LTE", ">": "GT", ">=": "GTE"}

// tokenShapes are the literals of the language by the type of their value.
var tokenShapes = map[string]string{
	"IntVal":    `-?[0-9]+`,
	"FloatVal":  `-?[0-9]+\.[0-9]+`,
	"NetVal":    `[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}(/[0-9]{1,2})?`,
	"TimeVal":   `[0-9]{4}-[0-9]{2}-[0-9]{2}([Tt ][0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?([Zz]|[+-][0-9]{2}:[0-9]{2}))?`,
	"BoolVal":   `true|false`,
	"StringVal": `"([^\x{0}-\x{1f}"\\]|\\["\\bfnrt]|\\u[0-9a-fA-F]{4})*"`,
	"RegexpVal": `/([^/\\\n]|\\[^\n])*/`,
}

// valName is the name of the type of literal a value points to.
func (a *actions) valName(k *kind) string {
	if k == nil || !types.Implements(k.typ, a.c.Type(ast, "Val").Underlying().(*types.Interface)) {
		return ""
	}
	t := k.typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if x, ok := types.Unalias(t).(*types.Named); ok {
		return x.Obj().Name()
	}
	return ""
}

// G04: operators, literals, paths and lists.
func G04(c *Ctx) {
	c.givenText()
	a := c.newActions()
	a.solve()
	c.Rule("the code of an operator token is analysed for each word the token can be; the result is the operator that the word spells")
	c.Rule("a test takes its path, operator and values from what was parsed at their places; without operator it is equality")
	c.Rule("the language of each literal token equals the shape of its kind, and no alternative tried earlier takes the beginning of it")
	c.Rule("paths and value lists hold the parts in the order of the text, except star segments; lists of up to four parts stand for all, the code comparing positions only with small constants")
	obls := a.in.Obls
	words := map[string]bool{}
	for _, r := range a.g.reachable() {
		r := r
		r.expr.each(func(x *pexpr) {
			switch x.kind {
			case "action":
				rs := a.runs[x]
				a.operators(rs, words)
				a.tests(rs)
				a.literal(rs)
				a.pieces(rs)
				a.paths(rs)
				a.lists(rs)
			case "choice":
				a.hiding(r, x)
			}
		})
	}
	for w, o := range opWords {
		c.Need(words[w], "operators", "operator "+o, a.g.rules[0].where, "no token of the language is %q", w)
	}
	a.entries()
	for _, o := range obls {
		if !o.Proven {
			c.Bad("panics", prog.FnName(o.Fn), c.P.Where(o.Pos), "%s: %s", o.Kind, o.Detail)
		}
	}
	c.cutoff("list lengths", a.in, "internal/grammar")
	c.AtLeast("operators", 8)
	c.AtLeast("tests", 6)
	c.AtLeast("literals", 7)
	c.AtLeast("pieces", 2)
	c.AtLeast("field paths", 4)
	c.AtLeast("lists", 4)
	c.AtLeast("order", 6)
}

func (a *actions) operators(rs *actionRuns, words map[string]bool) {
	c := a.c
	op := c.Type(ast, "Op")
	isOp := false
	for _, ret := range rs.rets {
		if ret.kind != nil && types.Identical(ret.kind.typ, op) && ret.from == "" {
			isOp = true
		}
	}
	if !isOp {
		return
	}
	name := "rule " + rs.rule.name
	ww, ok := a.g.words(rs.x.kids[0])
	if !c.Need(ok, "operators", name, rs.x.where, "the operator token is no finite set of words") {
		return
	}
	for _, w := range ww {
		words[w] = true
		want, known := opWords[w]
		if !c.Need(known, "operators", name, rs.x.where, "%q is no operator of the language", w) {
			continue
		}
		for _, ret := range a.run(rs.rule, rs.x, flow.ToBytes(flow.Str(w))).rets {
			k := c.Const(ast, want)
			if ret.Panic || ret.fails != flow.No || ret.val.Op != "iface" {
				c.Bad("operators", name, rs.x.where, "%q is not turned into an operator: %s", w, short(ret.val))
				continue
			}
			c.Need(ret.val.Args[0] == k, "operators", name, rs.x.where, "%q becomes %s, not %s", w, short(ret.val.Args[0]), want)
		}
	}
}

// unlist gives the elements of a list of known length.
func (a *actions) unlist(st *flow.State, v *flow.Term) ([]*flow.Term, bool) {
	if v == flow.Nil {
		return nil, true
	}
	if v.Op == "iface" {
		v = v.Args[0]
	}
	var out []*flow.Term
	for _, s := range flow.Segs(a.in.ListOf(st, v)) {
		if s.Op != "seg:e" {
			return nil, false
		}
		out = append(out, s.Args[0])
	}
	return out, true
}

func (a *actions) tests(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	op := c.Type(ast, "Op")
	for _, ret := range rs.rets {
		if ret.Panic || ret.fails == flow.Yes || ret.from != "" || a.nodeName(ret.kind) != "ExprNode" {
			continue
		}
		var field, operator, vals *flow.Term
		for _, l := range rs.labels {
			v := ret.labels[l.str]
			if v.kind == nil {
				continue
			}
			switch t := v.kind.typ; {
			case types.Identical(t, op):
				operator = v.term.Args[0]
			case shortType(t) == "[]string":
				field = v.term.Args[0]
			case shortType(t) == "[]ast.Val":
				vals = v.term.Args[0]
			}
		}
		if operator == nil {
			operator = c.Const(ast, "EQ")
		}
		got := a.field(ret.St, ret.val, "Op")
		c.Need(got == operator, "tests", name, rs.x.where, "the operator of the test is %s instead of %s", short(got), short(operator))
		got = a.field(ret.St, ret.val, "Field")
		c.Need(field != nil && got == field, "tests", name, rs.x.where, "the path of the test is %s", short(got))
		got = a.field(ret.St, ret.val, "RVals")
		if vals == nil {
			c.Need(got == flow.Nil || got.Op == "list" && len(flow.Segs(got)) == 0, "tests", name, rs.x.where, "a test without values has values %s", short(got))
		} else {
			c.Need(got == vals, "tests", name, rs.x.where, "the values of the test are %s", short(got))
		}
	}
}

func (a *actions) literal(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	kinds := map[string]bool{}
	for _, ret := range rs.rets {
		if ret.Panic || ret.fails == flow.Yes || ret.from != "" {
			continue
		}
		if n := a.valName(ret.kind); n != "" {
			kinds[n] = true
		}
	}
	for n := range kinds {
		re, why := a.g.regex(rs.x.kids[0])
		if !c.Need(why == "", "literals", name, rs.x.where, "the language of this literal is not known: %s", why) {
			continue
		}
		shape, ok := tokenShapes[n]
		if !c.Need(ok, "literals", name, rs.x.where, "%s is no kind of literal of the language", n) {
			continue
		}
		c.Need(len(kinds) == 1 && equalTo(re, shape), "literals", name, rs.x.where, "the texts that become a %s are not those of the form %s", n, shape)
	}
}

// hiding checks that no alternative takes the beginning of a literal or
// operator that a later alternative is for.
func (a *actions) hiding(r *prule, x *pexpr) {
	c := a.c
	var prev []string
	for i, k := range x.kids {
		re, why := a.g.regex(k)
		if why != "" {
			prev = nil
			return
		}
		good := false
		seen := map[string]bool{}
		var walk func(y *pexpr)
		walk = func(y *pexpr) {
			switch y.kind {
			case "action":
				for _, k := range a.kinds[y] {
					if a.valName(&k) != "" || types.Identical(k.typ, c.Type(ast, "Op")) || shortType(k.typ) == "string" {
						good = true
					}
				}
				return
			case "ref":
				if r := a.g.byName[y.str]; r != nil && !seen[y.str] {
					seen[y.str] = true
					walk(r.expr)
				}
			}
			for _, k := range y.kids {
				walk(k)
			}
		}
		walk(k)
		if good {
			for j, p := range prev {
				hides, err := meets("(?:"+p+`)[\x{0}-\x{10FFFF}]*`, re)
				c.Need(err == nil && !hides, "order", "rule "+r.name, x.kids[i].where, "alternative %d takes the beginning of what alternative %d is for", j+1, i+1)
			}
		}
		prev = append(prev, re)
	}
}

// pieces checks what the segments of a path are made of.
func (a *actions) pieces(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	sv := types.NewPointer(c.Type(ast, "StringVal"))
	for _, ret := range rs.rets {
		if ret.Panic || ret.fails == flow.Yes || ret.kind == nil || shortType(ret.kind.typ) != "string" || ret.from != "" {
			continue
		}
		got := ret.val.Args[0]
		re, why := a.g.regex(rs.x.kids[0])
		if why != "" {
			c.Bad("pieces", name, rs.x.where, "the language of this segment is not known: %s", why)
			continue
		}
		if len(rs.labels) == 1 && ret.labels[rs.labels[0].str].kind != nil && types.Identical(ret.labels[rs.labels[0].str].kind.typ, sv) {
			v := ret.labels[rs.labels[0].str].term.Args[0]
			text, why := a.around(rs.x)
			if !c.Need(why == "" && strings.Join(text, "") == "", "pieces", name, rs.x.where, "there is more in a quoted segment than the string") {
				continue
			}
			for _, w := range a.in.CallFn(ret.St, c.Method(sv, "Value"), v) {
				c.Need(!w.Panic && w.Val == got, "pieces", name, rs.x.where, "a quoted segment is %s, not the string", short(got))
			}
			continue
		}
		if s, ok := got.StrVal(); ok {
			ww, fin := a.g.words(rs.x.kids[0])
			c.Need(fin && len(ww) == 1 && ww[0] == s, "pieces", name, rs.x.where, "the segment is always %q but its text is of the form %s", s, re)
			continue
		}
		c.Need(got == flow.ToString(a.matchText(ret.St, ret.cur)), "pieces", name, rs.x.where, "the segment is %s, not its text", short(got))
		c.Need(within(`[A-Za-z0-9_\-]+`, re) && within(re, `[A-Za-z0-9_\-\x{212A}\x{130}\x{17F}]+`), "pieces", name, rs.x.where, "the texts that can be a segment are not words of letters, digits, _ and -")
	}
}

// flatten lists the strings or values in a parsed value in the order of the text.
func (a *actions) flatten(st *flow.State, v *flow.Term, keep func(*flow.Term) bool) []*flow.Term {
	if v.Op != "iface" {
		return nil
	}
	if keep(v) {
		return []*flow.Term{v}
	}
	if shortType(v.DTyp) != "[]any" && shortType(v.DTyp) != "[]interface{}" {
		return nil
	}
	var out []*flow.Term
	xs, _ := a.unlist(st, v)
	for _, x := range xs {
		out = append(out, a.flatten(st, x, keep)...)
	}
	return out
}

func (a *actions) paths(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	for _, ret := range rs.rets {
		if ret.Panic || ret.from != "" {
			continue
		}
		var parts []*flow.Term
		for _, l := range rs.labels {
			parts = append(parts, a.flatten(ret.St, ret.labels[l.str].term, func(v *flow.Term) bool { return shortType(v.DTyp) == "string" })...)
		}
		isPath := ret.kind != nil && shortType(ret.kind.typ) == "[]string"
		if !isPath && (ret.fails != flow.Yes || len(parts) == 0 || a.nodeName(ret.kind) != "") {
			continue
		}
		var want []*flow.Term
		undecided := false
		for _, p := range parts {
			switch a.in.Eval(flow.T(flow.Eq(p.Args[0], flow.Str("*"))), ret.St) {
			case flow.No:
				want = append(want, p.Args[0])
			case flow.Maybe:
				undecided = true
			}
		}
		if undecided {
			c.Bad("field paths", name, rs.x.where, "whether a segment is a star makes no difference for the path")
			continue
		}
		if len(want) == 0 {
			c.Need(ret.fails == flow.Yes, "field paths", name, rs.x.where, "a path of stars only is accepted")
			continue
		}
		if !c.Need(ret.fails == flow.No, "field paths", name, rs.x.where, "a path with a segment that is no star is rejected") {
			continue
		}
		got, ok := a.unlist(ret.St, ret.val)
		c.Need(ok && slices.Equal(got, want), "field paths", name, rs.x.where, "the segments %s become %s", shorts(want), shorts(got))
	}
}

func shorts(ts []*flow.Term) string {
	var out []string
	for _, t := range ts {
		out = append(out, short(t))
	}
	return "[" + strings.Join(out, ", ") + "]"
}

func (a *actions) lists(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	for _, ret := range rs.rets {
		if ret.Panic || ret.from != "" || ret.fails == flow.Yes || ret.kind == nil || shortType(ret.kind.typ) != "[]ast.Val" {
			continue
		}
		var want []*flow.Term
		for _, l := range rs.labels {
			want = append(want, a.flatten(ret.St, ret.labels[l.str].term, func(v *flow.Term) bool { return a.valName(&kind{typ: v.DTyp}) != "" })...)
		}
		got, ok := a.unlist(ret.St, ret.val)
		c.Need(ok && len(want) > 0 && slices.Equal(got, want), "lists", name, rs.x.where, "the values %s become %s", shorts(want), shorts(got))
	}
}

// entries checks that a value of a test can be any kind of literal.
func (a *actions) entries() {
	c := a.c
	found := map[string]bool{}
	for _, r := range a.g.reachable() {
		r.expr.each(func(x *pexpr) {
			if x.kind != "action" {
				return
			}
			for _, ret := range a.runs[x].rets {
				if ret.Panic || ret.fails == flow.Yes || ret.kind == nil || shortType(ret.kind.typ) != "[]ast.Val" {
					continue
				}
				for _, v := range ret.labels {
					if n := a.valName(v.kind); n != "" {
						found[n] = true
					}
				}
			}
		})
	}
	for n := range tokenShapes {
		c.Need(found[n], "literals", "literal "+n, a.g.rules[0].where, "no value of a test can be a %s", n)
	}
}
