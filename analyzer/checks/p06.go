package checks

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"aqlverify/flow"
)

func init() { All["P06"] = p06 }

func p06(c *Ctx) {
	c.givenText()
	c.Rule("capture: the position of a literal or a test is the line, column and offset of the match and its length in characters, and the match begins and ends with the construct")
	c.Rule("literal errors: the error of a literal that denotes no value carries the length of the literal")
	c.Rule("reading and action: positions advance with the characters read, and code that runs for a match is given the position of its start, where its error is recorded (analysed as in G06)")
	c.Rule("handing out: the error of parsing has the position of the first error recorded, or no position if there is none")
	c.Rule("validation: an error about an argument has the position of an argument that is wrong, an error about the number of arguments has that of the test")
	c.Rule("no place: an error that belongs to no part of the query has no position")
	c.guard("capture", func() { c.captured() })
	c.guard("reading", func() {
		r := c.newRuntime()
		r.action(r.each, flow.Sym("part", anyT))
		r.reading()
		r.outcome()
		r.starts()
		r.restores()
		c.Used(r.in)
	})
	c.guard("handing out", func() { c.handedOut() })
	c.guard("validation", func() { c.validationPlaces() })
	c.guard("no place", func() { c.noPlace() })
	c.AtLeast("capture", 16)
	c.AtLeast("literal errors", 6)
	c.AtLeast("reading", 3)
	c.AtLeast("handing out", 3)
	c.AtLeast("validation", 100)
	c.AtLeast("no place", 3)
	c.Assume = append(c.Assume, "a position is determined by its offset: positions are only made by reading on from the start, or put back as a whole")
}

// captured checks the positions that actions attach.
func (c *Ctx) captured() {
	a := c.newActions()
	a.solve()
	pos := c.Type(ast, "Pos")
	lits := map[string]bool{}
	for _, r := range a.g.reachable() {
		r := r
		r.expr.each(func(x *pexpr) {
			if x.kind != "action" {
				return
			}
			rs := a.runs[x]
			name := "rule " + r.name
			lit, test := false, false
			for _, ret := range rs.rets {
				if ret.Panic || ret.from != "" || ret.fails == flow.Yes {
					continue
				}
				if n := a.valName(ret.kind); n != "" {
					lit = true
					lits[n] = true
				} else if a.nodeName(ret.kind) == "ExprNode" {
					test = true
				}
			}
			if !lit && !test {
				return
			}
			if test {
				t, why := a.around(x)
				c.Need(why == "" && t[0] == "" && t[len(t)-1] == "", "capture", name, x.where, "the match of a test begins or ends with more than the test")
			}
			rets := rs.rets
			if ww, fin := a.g.words(x.kids[0]); lit && fin {
				// each of the few texts
				rets = nil
				for _, w := range ww {
					rets = append(rets, a.run(r, x, flow.ToBytes(flow.Str(w))).rets...)
				}
			}
			for _, ret := range rets {
				if ret.Panic || ret.from != "" {
					continue
				}
				m := a.in.Load(ret.St, ret.cur)
				at := flow.FieldNamed(m, "pos", a.cur)
				text := a.matchText(ret.St, ret.cur)
				size := flow.App("unicode/utf8.RuneCount", types.Typ[types.Int], text)
				size2 := flow.App("unicode/utf8.RuneCountInString", types.Typ[types.Int], flow.ToString(text))
				isSize := func(t *flow.Term) bool {
					if s, ok := flow.ToString(text).StrVal(); ok && t == flow.Int(int64(utf8.RuneCountInString(s))) {
						return true
					}
					return t == size || t == size2 || t == flow.Len(flow.App("runes", nil, flow.ToString(text)))
				}
				if ret.fails == flow.Yes {
					if !lit {
						continue
					}
					got := a.tokenLength(ret)
					c.Need(got != nil && isSize(got), "literal errors", name, x.where, "the error of a literal that denotes no value does not carry the length of the literal")
					continue
				}
				got := a.call(ret.St, ret.val, "Pos")
				why := ""
				if got == nil {
					why = "the position is not known"
				} else {
					for _, f := range [][2]string{{"Line", "line"}, {"Col", "col"}, {"Offset", "offset"}} {
						if g, w := flow.FieldNamed(got, f[0], pos), flow.FieldNamed(at, f[1], at.Typ); g != w {
							why = fmt.Sprintf("%s of the position is %s", f[0], short(g))
						}
					}
					if g := flow.FieldNamed(got, "Len", pos); !isSize(g) {
						why = fmt.Sprintf("the length of the position is %s, not the number of characters", short(g))
					}
				}
				c.Need(why == "", "capture", name, x.where, "%s", why)
			}
		})
	}
	for n := range tokenShapes {
		c.Need(lits[n], "capture", "literal "+n, a.g.rules[0].where, "no literal becomes a %s", n)
	}
	c.Used(a.in)
}

// call is the result of a method without arguments, nil if not known.
func (a *actions) call(st *flow.State, v *flow.Term, method string) *flow.Term {
	rets := a.in.CallFn(st.Clone(), a.c.Method(v.DTyp, method), v.Args[0])
	if len(rets) != 1 || rets[0].Panic {
		return nil
	}
	return rets[0].Val
}

// tokenLength is the length that parsing reports for the error of an action,
// nil if the error has none.
func (a *actions) tokenLength(ret actionRet) *flow.Term {
	c := a.c
	st := ret.St.Clone()
	for _, w := range c.parseErrorOf(a.in, st, ret.err, flow.Sym("place of the error", c.Type(gram, "position"))) {
		if w.Panic {
			return nil
		}
		pe := c.Type(gram, "ParseError")
		p := flow.FieldNamed(a.in.Load(w.St, w.Val), "Position", pe)
		return flow.FieldNamed(p, "Len", c.Type(ast, "Pos"))
	}
	return nil
}

// parseErrorOf hands out an error that was recorded first, at a place.
func (c *Ctx) parseErrorOf(in *flow.Interp, st *flow.State, inner, place *flow.Term) []flow.Ret {
	return in.CallFn(st, c.Fn(gram, "GetParseError"), c.recordedErrors(in, st, inner, place, 2))
}

// recordedErrors is the error that the grammar returns.
func (c *Ctx) recordedErrors(in *flow.Interp, st *flow.State, inner, place *flow.Term, n int) *flow.Term {
	el := c.Type(gram, "errList")
	pe := c.Type(gram, "parserError")
	var es []*flow.Term
	for i := 0; i < n; i++ {
		o := st.Alloc(fmt.Sprint("recorded error ", i), pe, flow.Sym(fmt.Sprint("content of recorded error ", i), pe))
		m := &matching{c: c, in: in}
		if i == 0 {
			m.setField(st, o, "Inner", inner)
			m.setField(st, o, "pos", place)
		}
		es = append(es, flow.Elem(flow.MakeIface(o, types.NewPointer(pe))))
	}
	return flow.MakeIface(flow.List(el, es...), el)
}

// starts checks where reading starts.
func (r *runtime) starts() {
	c := r.c
	fn := c.Fn(gram, "newParser")
	st := r.in.NewState()
	bytes := types.NewSlice(types.Typ[types.Byte])
	r.in.Unroll = 4
	r.self = fn
	for _, ret := range r.in.CallFn(st, fn, flow.Sym("name", types.Typ[types.String]), flow.Sym("data", bytes), flow.List(fn.Params[2].Type())) {
		why := ""
		if ret.Panic {
			why = "panics: " + ret.Why
		} else {
			pt := r.pt(ret.St, ret.Val)
			for f, n := range map[string]int64{"line": 1, "col": 0, "offset": 0} {
				if g := flow.FieldNamed(r.position(pt), f, r.posType()); g != flow.Int(n) {
					why = fmt.Sprintf("the %s before the first character is %s", f, short(g))
				}
			}
			if g := flow.FieldNamed(pt, "w", r.fieldType("pt")); g != flow.Int(0) {
				why = "reading does not start at the first character"
			}
			if g := flow.FieldNamed(r.in.Load(ret.St, ret.Val), "data", r.parser); g != flow.Sym("data", bytes) {
				why = "the text read is not that given"
			}
		}
		c.Need(why == "", "reading", fn.Name(), c.P.Where(fn.Pos()), "%s", why)
	}
}

// restores checks that going back puts the whole position back.
func (r *runtime) restores() {
	c := r.c
	fn := r.named("restore")
	st, p := r.begin()
	r.self = fn
	to := flow.Sym("earlier position", r.fieldType("pt"))
	from := r.pt(st, p)
	for _, ret := range r.in.CallFn(st, fn, p, to) {
		why := ""
		if ret.Panic {
			why = "panics: " + ret.Why
		} else if pt := r.pt(ret.St, p); pt != to && !(pt == from && r.in.Eval(flow.T(flow.IEq(r.offset(pt), r.offset(to))), ret.St) == flow.Yes) {
			why = "the position after going back is " + short(pt)
		}
		c.Need(why == "", "reading", fn.Name(), c.P.Where(fn.Pos()), "%s", why)
	}
}

// handedOut checks how the errors of the grammar become errors of parsing.
func (c *Ctx) handedOut() {
	rule := "handing out"
	pos := c.Type(ast, "Pos")
	gp := c.Type(gram, "position")
	pt := c.Type(gram, "ParseError")
	for _, kind := range []string{"other", "list"} {
		p := c.newParsing()
		st := p.in.NewState()
		inner := flow.Sym("inner error", errorT)
		st.Assume(flow.Eq(inner, flow.Nil), false)
		place := flow.Sym("place of the error", gp)
		p.result = func(st *flow.State) []flow.Ret {
			if kind == "list" {
				return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, c.recordedErrors(p.in, st, inner, place, 2))}}
			}
			e := flow.Sym("error of the grammar", errorT)
			st.Assume(flow.Eq(e, flow.Nil), false)
			st.Assume(flow.IsType(e, c.Type(gram, "errList")), false)
			return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, e)}}
		}
		for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
			why := ""
			if r.Panic {
				continue // a matter of other properties
			}
			err := flow.Ext(r.Val, 1, nil)
			got := p.content(r.St, err, "Position")
			switch {
			case got == nil:
				why = "the error is not known: " + short(err)
			case kind == "other":
				if !isNoPosition(got, pos) {
					why = "an error without a place has the position " + short(got)
				}
			default:
				for _, f := range [][2]string{{"Line", "line"}, {"Col", "col"}, {"Offset", "offset"}} {
					if g, w := flow.FieldNamed(got, f[0], pos), flow.FieldNamed(place, f[1], gp); g != w {
						why = fmt.Sprintf("%s of the position is %s", f[0], short(g))
					}
				}
				if g := flow.FieldNamed(got, "Len", pos); why == "" && g != flow.Int(1) && !g.Mentions(func(x *flow.Term) bool { return x == inner }) {
					why = fmt.Sprintf("the length of the position is %s", short(g))
				}
			}
			c.Need(why == "", rule, "error of the grammar: "+kind, c.P.Where(p.parse.Pos()), "%s", why)
		}
		c.Used(p.in)
	}
	_ = pt
}

func isNoPosition(t *flow.Term, pos types.Type) bool {
	for f, n := range map[string]int64{"Line": 0, "Col": 0, "Offset": -1, "Len": 0} {
		if flow.FieldNamed(t, f, pos) != flow.Int(n) {
			return false
		}
	}
	return true
}

// validationPlaces checks the positions of the errors of the validation.
func (c *Ctx) validationPlaces() {
	p := c.newParsing()
	level := []world{{st: p.in.NewState()}}
	for n := 0; ; n++ {
		for _, w := range level {
			for _, op := range operators {
				c.places(p, op, w)
			}
		}
		if n == 3 {
			break
		}
		var next []world
		for _, w := range level {
			for _, k := range literalKinds {
				next = append(next, p.with([]world{w}, k, fmt.Sprintf("literal %d:%s", n+1, k))...)
			}
		}
		level = next
	}
	c.cutoff("list lengths", p.in, "parser")
	c.Used(p.in)
}

func (c *Ctx) places(p *parsing, op string, w world) {
	st := w.st.Clone()
	var segs []*flow.Term
	what := op
	for _, a := range w.args {
		segs = append(segs, flow.Elem(a.val))
		what += " " + a.kind
	}
	rvals := flow.Nil
	if len(segs) > 0 {
		rvals = flow.List(types.NewSlice(c.Type(ast, "Val")), segs...)
	}
	tree := p.node(st, c.Const(ast, op), rvals)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
		if r.Panic {
			continue // see P02
		}
		err := flow.Ext(r.Val, 1, nil)
		if err == flow.Nil {
			continue
		}
		got := p.content(r.St, err, "Position")
		var ok []*flow.Term
		if !arity(op, len(w.args)) {
			ok = append(ok, flow.Sym("position of the test", c.Type(ast, "Pos")))
		}
		for i, a := range w.args {
			bad := !permitted(op, a.kind) || op == "BET" && i == 1 && len(w.args) == 2
			for _, b := range w.args[:i] {
				bad = bad || p.in.Eval(flow.T(flow.Eq(a.text, b.text)), r.St) == flow.Yes
				bad = bad || op == "EQ" && a.kind == "BoolVal" && b.kind == "BoolVal" && p.in.Eval(flow.T(flow.Eq(a.text, b.text)), r.St) == flow.No
			}
			if bad {
				ok = append(ok, p.get(r.St, a, "Pos"))
			}
		}
		found := false
		for _, t := range ok {
			found = found || got == t
		}
		c.Need(found, "validation", what, c.P.Where(p.parse.Pos()), "the error has the position %v, which is not that of what is wrong %s", got, shorts(ok))
	}
}

func arity(op string, n int) bool {
	switch op {
	case "EXS", "NUL":
		return n == 0
	case "LT", "LTE", "GT", "GTE":
		return n == 1
	case "BET":
		return n == 2
	}
	return n > 0
}

// noPlace checks errors that belong to no part of the query.
func (c *Ctx) noPlace() {
	rule := "no place"
	pos := c.Type(ast, "Pos")
	for _, input := range []string{"nothing", "no node", "visitor"} {
		p := c.newParsing()
		p.visiting()
		st := p.in.NewState()
		opts := flow.Nil
		var tree *flow.Term
		if input == "visitor" {
			tree = p.node(st, c.Const(ast, "EXS"), flow.Nil)
			v := p.visitor("visitor a")
			st.Assume(flow.IsType(v, types.NewPointer(c.Type("parser", "MessageVisitor"))), false)
			opts = p.options(st, []*flow.Term{v})
		}
		p.result = func(st *flow.State) []flow.Ret {
			v := flow.Nil
			switch input {
			case "no node":
				v = flow.MakeIface(flow.Str("text"), stringT)
			case "visitor":
				v = tree
			}
			return []flow.Ret{{St: st, Val: flow.Tuple(v, flow.Nil)}}
		}
		for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), opts) {
			err := flow.Ext(r.Val, 1, nil)
			if r.Panic || err == flow.Nil {
				continue
			}
			if input == "visitor" {
				// the error of the visitor itself is handed on (P03)
				own := false
				for _, e := range visits(r.St) {
					own = own || e.Res != nil && r.St.F.Decide(flow.IsType(e.Res, types.NewPointer(c.Type(gram, "ParseError")))) == flow.Yes
				}
				if own {
					continue
				}
			}
			got := p.content(r.St, err, "Position")
			c.Need(got != nil && isNoPosition(got, pos), rule, "error when there is "+input, c.P.Where(p.parse.Pos()), "the position of an error without a place is %v", got)
		}
		c.Used(p.in)
	}
	// the marker
	in := c.Interp()
	fn := c.Fn(ast, "NoPosition")
	for _, r := range in.CallFn(in.NewState(), fn) {
		c.Need(!r.Panic && isNoPosition(r.Val, pos), rule, "NoPosition", c.P.Where(fn.Pos()), "the marker for no position is %s", short(r.Val))
	}
}
