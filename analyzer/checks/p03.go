package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["P03"] = P03
	All["P04"] = P04
	All["P05"] = P05
}

var errorT = types.Universe.Lookup("error").Type()

// ways a visit can end
const (
	goOn    = "goes on"
	skip    = "asks to skip"
	skipAll = "asks to skip all"
	fails   = "fails"
	anyWay  = "ends in any way"
)

// visiting makes calls of symbolic visitors events with one of the outcomes.
func (p *parsing) visiting() {
	old := p.hook
	p.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if strings.HasSuffix(call.Name, "parser.Visitor).Visit") && call.Args[0].Op == "sym" {
			v := call.Args[0]
			var out []flow.Ret
			for _, way := range []string{goOn, skip, skipAll, fails} {
				s2 := st.Clone()
				var res *flow.Term
				switch way {
				case goOn:
					res = flow.Nil
				case skip:
					res = p.sentinel("Skip")
				case skipAll:
					res = p.sentinel("SkipAll")
				default:
					res = flow.Sym("failure of "+v.Aux, errorT)
					s2.Assume(flow.Eq(res, flow.Nil), false)
					s2.Assume(flow.Eq(res, p.sentinel("Skip")), false)
					s2.Assume(flow.Eq(res, p.sentinel("SkipAll")), false)
				}
				s2.Emit(&flow.Event{Name: "visit", Args: append([]*flow.Term{flow.Str(way)}, call.Args...), Res: res, Pos: call.Pos})
				out = append(out, flow.Ret{St: s2, Val: res})
			}
			return out, true
		}
		if old != nil {
			return old(in, st, call)
		}
		return nil, false
	}
}

// visitor is a visitor of the caller.
func (p *parsing) visitor(name string) *flow.Term {
	return flow.Sym(name, p.c.Type("parser", "Visitor"))
}

// options makes the option list [Visitors(first...), Debug(), Visitors(rest...)].
func (p *parsing) options(st *flow.State, groups ...[]*flow.Term) *flow.Term {
	var segs []*flow.Term
	opt := p.c.Type("parser", "Option")
	vt := types.NewSlice(p.c.Type("parser", "Visitor"))
	call := func(fn *ssa.Function, args ...*flow.Term) {
		rs := p.in.CallFn(st, fn, args...)
		if len(rs) != 1 || rs[0].Panic {
			flow.Undecided("%s does not simply return an option", fn)
		}
		segs = append(segs, flow.Elem(rs[0].Val))
		*st = *rs[0].St
	}
	for i, g := range groups {
		if i == 1 {
			call(p.c.Fn("parser", "Debug"))
		}
		var es []*flow.Term
		for _, v := range g {
			es = append(es, flow.Elem(v))
		}
		call(p.c.Fn("parser", "Visitors"), flow.List(vt, es...))
	}
	return flow.List(types.NewSlice(opt), segs...)
}

// isParseError tells whether a returned error is a parse error that is not nil.
func (p *parsing) isParseError(st *flow.State, err *flow.Term) bool {
	pe := types.NewPointer(p.c.Type("internal/grammar", "ParseError"))
	if err.Op == "iface" {
		return err.DTyp != nil && types.Identical(err.DTyp, pe) && (err.Args[0].Op == "obj" || st.F.Decide(flow.Eq(err.Args[0], flow.Nil)) != flow.Yes)
	}
	return st.F.Decide(flow.IsType(err, pe)) == flow.Yes
}

// content returns a field of a parse error.
func (p *parsing) content(st *flow.State, err *flow.Term, field string) *flow.Term {
	if err.Op != "iface" || err.Args[0].Op != "obj" {
		return nil
	}
	return flow.FieldNamed(p.in.Load(st, err.Args[0]), field, p.c.Type("internal/grammar", "ParseError"))
}

func visits(st *flow.State) (out []*flow.Event) {
	for _, e := range allEvents(st) {
		if e.Name == "visit" {
			out = append(out, e)
		}
	}
	return
}

// P03 checks that parsing returns a tree or an error.
func P03(c *Ctx) {
	c.Rule("on every path of parsing, whatever the grammar returned: either a tree and no error, or no tree and an error that is a parse error; the tree is the one of the grammar")
	c.Rule("a tree is returned only after the validation and all visitors of the caller have visited it in the order given; a failing visitor ends parsing with its error")
	c.givenText()
	c.guard("tree or error", func() { c.manyValues(); c.treeOrError() })
	c.AtLeast("tree or error", 20)
	c.AtLeast("visitors", 20)
	c.Rule("compiling a matcher returns a matcher and no error, or no matcher and the error of parsing; it parses the text it is given")
	c.guard("matcher or error", func() { c.matcherOrError("matcher or error") })
	c.AtLeast("matcher or error", 4)
	c.Assume = append(c.Assume, "three visitors in two options stand for any number: the functions compare lengths and positions with numbers up to 2 only (checked)")
}

func (c *Ctx) treeOrError() {
	rule := "tree or error"
	entries := []*ssa.Function{c.Fn("parser", "ParseQuery")}
	if f := c.P.Func("parser", "ParseQueryReader"); f != nil {
		entries = append(entries, f)
	}
	node := c.Type(ast, "Node")
	for _, entry := range entries {
		for _, input := range []string{"error", "nothing", "no node", "test", "invalid test"} {
			for _, groups := range [][]string{nil, {"a"}, {"a", "b", "c"}} {
				if len(groups) > 0 && input != "test" && input != "invalid test" {
					continue
				}
				p := c.newParsing()
				p.visiting()
				st := p.in.NewState()
				var tree *flow.Term
				switch input {
				case "test":
					tree = p.node(st, c.Const(ast, "EXS"), flow.Nil)
				case "invalid test":
					tree = p.node(st, c.Const(ast, "EXS"), flow.List(types.NewSlice(c.Type(ast, "Val")), flow.Elem(flow.MakeIface(flow.Sym("literal", types.NewPointer(c.Type(ast, "IntVal"))), types.NewPointer(c.Type(ast, "IntVal"))))))
				}
				p.result = func(st *flow.State) []flow.Ret {
					anyT := types.Universe.Lookup("any").Type()
					switch input {
					case "error":
						// the value that comes with an error is not used
						var out []flow.Ret
						for _, v := range []*flow.Term{flow.Nil, flow.Sym("value with an error", anyT)} {
							s2 := st.Clone()
							e := flow.Sym("error of the grammar", errorT)
							s2.Assume(flow.Eq(e, flow.Nil), false)
							out = append(out, flow.Ret{St: s2, Val: flow.Tuple(v, e)})
						}
						return out
					case "nothing":
						return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, flow.Nil)}}
					case "no node":
						return []flow.Ret{{St: st, Val: flow.Tuple(flow.MakeIface(flow.Str("text"), stringT), flow.Nil)}}
					}
					return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}}
				}
				var vs []*flow.Term
				for _, n := range groups {
					vs = append(vs, p.visitor("visitor "+n))
					st.Assume(flow.IsType(vs[len(vs)-1], types.NewPointer(c.Type("parser", "MessageVisitor"))), false) // see P04
				}
				opts := flow.Nil
				if len(vs) > 0 {
					opts = p.options(st, vs[:1], vs[1:])
				}
				var text *flow.Term
				if types.TypeString(entry.Params[0].Type(), nil) == "string" {
					text = flow.Sym("query", stringT)
				} else {
					text = flow.Sym("reader", entry.Params[0].Type())
				}
				what := fmt.Sprintf("%s of a grammar result that is %s with %d visitors", prog.FnName(entry), input, len(vs))
				where := c.P.Where(entry.Pos())
				n := 0
				for _, r := range p.in.CallFn(st, entry, text, opts) {
					if r.Panic {
						c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
						continue
					}
					n++
					res, err := flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
					parsed, input := false, input
					for _, e := range allEvents(r.St) {
						if e.Name == "grammar" {
							for _, a := range e.Args {
								parsed = parsed || sameText(a, text)
							}
						}
						if e.Name == "reading fails" {
							parsed, input = true, "error"
						}
					}
					c.Need(parsed, rule, what, where, "does not parse the text it is given")
					if err == flow.Nil {
						c.Need(input == "test" && res == tree, rule, what, where, "returns %s and no error", short(res))
					} else {
						isErr := p.isParseError(r.St, err)
						c.Need(res == flow.Nil && isErr && (input != "test" || len(vs) > 0), rule, what, where, "returns %s and %s", short(res), short(err))
					}
					c.visited(what, where, p, r.St, vs, tree, err, input)
				}
				if n == 0 {
					c.Bad(rule, what, where, "no path was found")
				}
				c.cutoff("list lengths", p.in, "parser")
				c.Used(p.in)
			}
		}
	}
	_ = node
}

// visited checks the order of visitors and which error is returned.
func (c *Ctx) visited(what, where string, p *parsing, st *flow.State, vs []*flow.Term, tree, err *flow.Term, input string) {
	rule := "visitors"
	es := visits(st)
	if input != "test" {
		c.Need(len(es) == 0, rule, what, where, "a visitor of the caller is called although there is no valid tree")
		return
	}
	for i, e := range es {
		if i >= len(vs) {
			c.Bad(rule, what, c.P.Where(e.Pos), "a visitor is called again")
			return
		}
		if !c.Need(e.Args[1] == vs[i] && e.Args[2] == tree, rule, what, c.P.Where(e.Pos), "%s is called where %s should be", short(e.Args[1]), short(vs[i])) {
			return
		}
		way, _ := e.Args[0].StrVal()
		last := i == len(es)-1
		if way == fails {
			if !c.Need(last && err != flow.Nil, rule, what, where, "parsing goes on although %s failed", short(vs[i])) {
				return
			}
			pe := types.NewPointer(c.Type("internal/grammar", "ParseError"))
			if st.F.Decide(flow.IsType(e.Res, pe)) == flow.Yes {
				same := err == e.Res || err.Op == "iface" && err.Args[0] == flow.IfaceVal(e.Res, pe)
				c.Need(same, rule, what, where, "the error of %s is replaced by %s", short(vs[i]), short(err))
				continue
			}
			msg := p.content(st, err, "Msg")
			pos := p.content(st, err, "Position")
			ok := msg != nil && msg.Mentions(func(x *flow.Term) bool {
				return x.Mentions(func(y *flow.Term) bool { return y == e.Res }) || strings.HasPrefix(x.Aux, "invoke (error).Error")
			})
			c.Need(ok, rule, what, where, "the text of the error of %s is lost: %s", short(vs[i]), short(err))
			c.Need(pos != nil && pos == p.noPosition(), rule, what, where, "the error of %s, which has no position, is given the position %v", short(vs[i]), pos)
		}
	}
	failed := len(es) > 0 && es[len(es)-1].Args[0] == flow.Str(fails)
	if err == flow.Nil {
		c.Need(len(es) == len(vs) && !failed, rule, what, where, "the tree is returned although only %d of %d visitors have seen it", len(es), len(vs))
	} else {
		c.Need(failed, rule, what, where, "parsing fails although no visitor does: %s", short(err))
	}
}

// noPosition is the value of ast.NoPosition.
func (p *parsing) noPosition() *flow.Term {
	rs := p.in.CallFn(p.in.NewState(), p.c.Fn(ast, "NoPosition"))
	if len(rs) != 1 || rs[0].Panic {
		flow.Undecided("NoPosition does not return a constant")
	}
	return rs[0].Val
}

func (c *Ctx) matcherOrError(rule string) {
	newM := c.Fn("jsonmatcher", "NewMatcher")
	where := c.P.Where(newM.Pos())
	for _, input := range []string{"error", "nothing", "test"} {
		p := c.newParsing()
		st := p.in.NewState()
		tree := p.node(st, c.Const(ast, "EXS"), flow.Nil)
		p.result = func(st *flow.State) []flow.Ret {
			switch input {
			case "error":
				e := flow.Sym("error of the grammar", errorT)
				st.Assume(flow.Eq(e, flow.Nil), false)
				return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, e)}}
			case "nothing":
				return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, flow.Nil)}}
			}
			return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}}
		}
		text := flow.Sym("query", stringT)
		for _, r := range p.in.CallFn(st, newM, text) {
			if r.Panic {
				c.Bad(rule, input, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			m, err := flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
			parsed := false
			for _, e := range allEvents(r.St) {
				if e.Name == "grammar" {
					for _, a := range e.Args {
						parsed = parsed || sameText(a, text)
					}
				}
			}
			c.Need(parsed, rule, input, where, "does not parse the text it is given")
			if input == "test" {
				c.Need(m.Op == "obj" && err == flow.Nil, rule, input, where, "a query that was parsed gives %s and %s", short(m), short(err))
			} else {
				c.Need(m == flow.Nil && err != flow.Nil && p.isParseError(r.St, err), rule, input, where, "a query that was not parsed gives %s and %s", short(m), short(err))
			}
		}
		c.Used(p.in)
	}
}

// tapeCall is a way to record a message.
type tapeCall struct {
	method, kind, place string
}

var tapeCalls = []tapeCall{
	{"Hint", "MsgHint", ""}, {"HintWith", "MsgHint", "With"}, {"HintAt", "MsgHint", "At"},
	{"Warning", "MsgWarning", ""}, {"WarningWith", "MsgWarning", "With"}, {"WarningAt", "MsgWarning", "At"},
	{"Error", "MsgError", ""}, {"ErrorWith", "MsgError", "With"}, {"ErrorAt", "MsgError", "At"},
}

// P04 checks messages of visitors.
func P04(c *Ctx) {
	c.Rule("for every sequence of up to two ways to record a message, and of three by the unplaced ways, by one of up to two visitors: parsing fails exactly if there is an error, with the text and position of the first one, and the messages are exactly those recorded, in order, with their kinds, positions and texts")
	rule := "recorded messages"
	c.guard(rule, c.manyValues)
	var seqs [][]tapeCall
	for _, a := range tapeCalls {
		seqs = append(seqs, []tapeCall{a})
		for _, b := range tapeCalls {
			seqs = append(seqs, []tapeCall{a, b})
		}
	}
	plain := []tapeCall{tapeCalls[0], tapeCalls[3], tapeCalls[6]}
	for _, a := range plain {
		for _, b := range plain {
			for _, d := range plain {
				seqs = append(seqs, []tapeCall{a, b, d})
			}
		}
	}
	c.guard(rule, func() {
		for _, s := range seqs {
			c.recorded(rule, s, false, 0)
			if len(s) == 1 {
				c.recorded(rule, s, false, 1)
				c.recorded(rule, s, false, -1)
			}
		}
		c.recorded(rule, nil, false, 0)
		// an error of a visitor takes precedence
		for _, a := range plain {
			c.recorded(rule, []tapeCall{a}, true, 0)
		}
	})
	c.AtLeast(rule, 100)
	c.Rule("no other exported way to record a message exists")
	tape := c.Type("parser", "MessageTape")
	ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(tape))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		known := false
		for _, t := range tapeCalls {
			known = known || t.method == ms.At(i).Obj().Name()
		}
		c.Need(known, "ways to record", ms.At(i).Obj().Name(), c.P.Where(ms.At(i).Obj().Pos()), "a message tape has a method that is not checked")
	}
	c.AtLeast("ways to record", 9)
	c.Rule("the compiled matcher gives the messages of its query")
	c.guard("messages of a matcher", func() { c.matcherMessages("messages of a matcher") })
	c.AtLeast("messages of a matcher", 1)
	c.Assume = append(c.Assume, "three messages stand for any number: the functions compare lengths and positions with numbers up to 2 only (checked)")
}

// recorded lets a message visitor record a sequence. If other is not 0, another
// one comes before or after it.
func (c *Ctx) recorded(rule string, seq []tapeCall, fail bool, other int) {
	p := c.newParsing()
	st := p.in.NewState()
	tree := p.node(st, c.Const(ast, "EXS"), flow.Nil)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	newV := c.Fn("parser", "NewMessageVisitor")
	f, quiet := flow.Sym("function of the visitor", newV.Params[0].Type()), flow.Sym("function of the other visitor", newV.Params[0].Type())
	mv := p.in.CallFn(st, newV, f)
	if len(mv) != 1 || mv[0].Panic || mv[0].Val.Op != "obj" {
		flow.Undecided("NewMessageVisitor does not return a new visitor")
	}
	st = mv[0].St
	v := mv[0].Val
	vt := newV.Signature.Results().At(0).Type()
	tapeT := types.NewPointer(c.Type("parser", "MessageTape"))
	posT := c.Type(ast, "Pos")
	what := "nothing recorded"
	if len(seq) > 0 {
		what = ""
		for _, s := range seq {
			what += " " + s.method
		}
		what = what[1:]
	}
	type message struct{ kind, pos, text *flow.Term }
	var want []message
	failure := flow.Sym("failure of the function", errorT)
	called := 0
	p.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if strings.HasSuffix(call.Name, "parser.Positioned).Pos") && call.Args[0].Op == "sym" {
			return []flow.Ret{{St: st, Val: flow.App("position of", posT, call.Args[0])}}, true
		}
		if call.Fn == nil && len(call.Args) == 3 && call.Args[0] == quiet {
			return []flow.Ret{{St: st, Val: flow.Nil}}, true
		}
		if call.Fn != nil || len(call.Args) != 3 || call.Args[0] != f {
			return nil, false
		}
		called++
		want = nil
		cur := []*flow.State{st}
		for i, s := range seq {
			method := c.Method(tapeT, s.method)
			format := flow.Sym(fmt.Sprintf("format %d", i), stringT)
			vals := flow.Sym(fmt.Sprintf("values %d", i), types.NewSlice(types.Universe.Lookup("any").Type()))
			args := []*flow.Term{call.Args[2]}
			pos := p.noPosition()
			switch s.place {
			case "With":
				n := flow.Sym(fmt.Sprintf("node %d", i), c.Type("parser", "Positioned"))
				pos = flow.App("position of", posT, n)
				args = append(args, n)
			case "At":
				pos = flow.Sym(fmt.Sprintf("place %d", i), posT)
				args = append(args, pos)
			}
			args = append(args, format, vals)
			want = append(want, message{c.Const("parser", s.kind), pos, in.Sprintf(st, format, vals)})
			var next []*flow.State
			for _, s := range cur {
				for _, r := range in.CallFn(s, method, args...) {
					if r.Panic {
						c.Bad(rule, what, c.P.Where(r.Pos), "recording a message can panic: %s", r.Why)
						continue
					}
					next = append(next, r.St)
				}
			}
			cur = next
		}
		var out []flow.Ret
		for _, s := range cur {
			res := flow.Nil
			if fail {
				res = failure
				s.Assume(flow.Eq(res, flow.Nil), false)
				s.Assume(flow.Eq(res, p.sentinel("Skip")), false)
				s.Assume(flow.Eq(res, p.sentinel("SkipAll")), false)
			}
			out = append(out, flow.Ret{St: s, Val: res})
		}
		return out, true
	}
	vs := []*flow.Term{flow.MakeIface(v, vt)}
	if other != 0 {
		o := p.in.CallFn(st, newV, quiet)
		if len(o) != 1 || o[0].Panic {
			flow.Undecided("NewMessageVisitor does not return a new visitor")
		}
		st = o[0].St
		if other > 0 {
			vs = append(vs, flow.MakeIface(o[0].Val, vt))
			what += " before another visitor"
		} else {
			vs = append([]*flow.Term{flow.MakeIface(o[0].Val, vt)}, vs...)
			what += " after another visitor"
		}
	}
	opts := p.options(st, vs)
	where := c.P.Where(p.parse.Pos())
	n := 0
	for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), opts) {
		if r.Panic {
			c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
			continue
		}
		n++
		err := flow.Ext(r.Val, 1, nil)
		first := -1
		for i, s := range seq {
			if s.kind == "MsgError" && first < 0 {
				first = i
			}
		}
		switch {
		case fail:
			c.Need(err != flow.Nil, rule, what, where, "parsing succeeds although the visitor fails")
		case first < 0:
			c.Need(err == flow.Nil, rule, what, where, "parsing fails with %s although no error was recorded", short(err))
		case c.Need(err != flow.Nil, rule, what, where, "parsing succeeds although an error was recorded"):
			c.Need(p.isParseError(r.St, err), rule, what, where, "parsing fails with %s, which is no parse error", short(err))
			if x := p.content(r.St, err, "Msg"); x != nil {
				c.Need(x == want[first].text, rule, what, where, "the error says %s instead of the first error recorded", short(x))
			} else {
				c.Bad(rule, what, where, "the text of the error is unknown")
			}
			if x := p.content(r.St, err, "Position"); x != nil {
				c.Need(x == want[first].pos, rule, what, where, "the error is at %s instead of %s", short(x), short(want[first].pos))
			}
		}
		for _, q := range p.in.CallFn(r.St.Clone(), c.Method(vt, "Messages"), v) {
			if q.Panic {
				c.Bad(rule, what, c.P.Where(q.Pos), "reading the messages can panic: %s", q.Why)
				continue
			}
			var got []*flow.Term
			if l := p.in.ListOf(q.St, q.Val); l.Op == "list" {
				for _, s := range flow.Segs(l) {
					if s.Op != "seg:e" {
						flow.Undecided("the messages are %s", short(l))
					}
					got = append(got, s.Args[0])
				}
			} else if l != flow.Nil && l != flow.Zero(q.Val.Typ) {
				flow.Undecided("the messages are %s", short(l))
			}
			if !c.Need(len(got) == len(want), rule, what, where, "%d messages can be read, %d were recorded", len(got), len(want)) {
				continue
			}
			mt := c.Type("parser", "ParserMessage")
			for i, g := range got {
				m := p.in.Load(q.St, g)
				for _, f := range []struct {
					name string
					want *flow.Term
				}{{"Type", want[i].kind}, {"Position", want[i].pos}, {"Msg", want[i].text}} {
					x := flow.FieldNamed(m, f.name, mt)
					c.Need(x == f.want, rule, what, where, "the %s of message %d is %s instead of %s", f.name, i+1, short(x), short(f.want))
				}
				for _, g2 := range []struct {
					name string
					want *flow.Term
				}{{"Pos", want[i].pos}, {"Message", want[i].text}} {
					for _, z := range p.in.CallFn(q.St.Clone(), c.Method(types.NewPointer(mt), g2.name), g) {
						c.Need(!z.Panic && z.Val == g2.want, rule, what, where, "%s of message %d does not give what was recorded", g2.name, i+1)
					}
				}
			}
		}
	}
	if n == 0 || called == 0 {
		c.Bad(rule, what, where, "the function of the visitor is not called")
	}
	c.cutoff("list lengths", p.in, "parser")
	c.Used(p.in)
}

// matcherMessages checks that a matcher hands out the messages of its visitor.
func (c *Ctx) matcherMessages(rule string) {
	newM := c.Fn("jsonmatcher", "NewMatcher")
	p := c.newParsing()
	st := p.in.NewState()
	tree := p.node(st, c.Const(ast, "EXS"), flow.Nil)
	list := flow.Sym("messages of the visitor", types.NewSlice(types.NewPointer(c.Type("parser", "ParserMessage"))))
	mv := c.Type("parser", "MessageVisitor")
	read := c.Method(mv, "Messages")
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	var made []*flow.Term
	p.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn == read {
			made = append(made, call.Args[0])
			return []flow.Ret{{St: st, Val: list}}, true
		}
		return nil, false
	}
	where := c.P.Where(newM.Pos())
	for _, r := range p.in.CallFn(st, newM, flow.Sym("query", stringT)) {
		if r.Panic || flow.Ext(r.Val, 1, nil) != flow.Nil {
			continue
		}
		m := flow.Ext(r.Val, 0, nil)
		for _, q := range p.in.CallFn(r.St.Clone(), c.Method(c.Type("jsonmatcher", "Matcher"), "Messages"), m) {
			c.Need(!q.Panic && q.Val == list && len(made) > 0, rule, "Messages", where, "the messages of the matcher are %s", short(q.Val))
		}
	}
	c.Used(p.in)
}

// P05 checks the walk over a tree.
func P05(c *Ctx) {
	c.Rule("for every kind of node: the visitor is called with the node first and once, then the walk goes on to each operand once and from left to right; skipping prunes the operands, skipping all ends the walk without an error, another error ends it at once and is reported. Operands are walked by the same rule, so that it holds for trees of any depth")
	rule := "walk"
	kinds := []string{"AndNode", "OrNode", "NotNode", "SubdocNode", "ExprNode"}
	c.either(rule, func() {
		c.manyValues()
		// if walking an operand never returns the request to skip, it need not be
		// handled by the caller
		nv, nc := len(c.Viol), c.Count[rule]
		passes := false
		for _, k := range kinds {
			passes = c.walked(rule, k, true) || passes
		}
		if passes {
			c.Viol, c.Count[rule] = c.Viol[:nv], nc
			c.seen = map[string]bool{}
			for _, k := range kinds {
				c.walked(rule, k, false)
			}
		}
		c.AtLeast(rule, 20)
	}, func() { c.walkedTrees(rule) })
	// nodes not covered
	node := c.Type(ast, "Node").Underlying().(*types.Interface)
	for _, t := range c.P.Implementers(node) {
		known := false
		for _, k := range kinds {
			known = known || types.Identical(t, types.NewPointer(c.Type(ast, k)))
		}
		c.Need(known, "kinds of node", types.TypeString(t, nil), "", "a kind of node that is not checked")
	}
	c.Rule("the analysis covers every type that is used as a node")
	c.AtLeast("kinds of node", 4)
}

// walked runs a visitor over a node of a kind with arbitrary operands.
func (c *Ctx) walked(rule, kind string, noSkip bool) (passes bool) {
	p := c.newParsing()
	p.visiting()
	st := p.in.NewState()
	m := &matching{c: c, in: p.in}
	t := c.Type(ast, kind)
	var operands []*flow.Term
	var tree *flow.Term
	if kind == "ExprNode" {
		tree = p.node(st, c.Const(ast, "EXS"), flow.Nil)
	} else {
		obj := st.Alloc("node "+kind, t, flow.Zero(t))
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if types.IsInterface(s.Field(i).Type()) {
				x := flow.Sym("operand "+s.Field(i).Name(), s.Field(i).Type())
				operands = append(operands, x)
				m.setField(st, obj, s.Field(i).Name(), x)
			}
		}
		tree = flow.MakeIface(obj, types.NewPointer(t))
	}
	isOperand := func(x *flow.Term) bool {
		for _, o := range operands {
			if o == x {
				return true
			}
		}
		return false
	}
	p.nonNil(isOperand)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	v := p.visitor("visitor a")
	st.Assume(flow.IsType(v, types.NewPointer(c.Type("parser", "MessageVisitor"))), false)
	opts := p.options(st, []*flow.Term{v})
	where := c.P.Where(p.parse.Pos())
	// calls that walk an operand, one for each way of calling
	type sub struct {
		fn *ssa.Function
		e  *flow.Event
		st *flow.State
	}
	var subs []sub
	ways := map[string]bool{}
	collect := func(st *flow.State) {
		for _, e := range allEvents(st) {
			if !strings.HasPrefix(e.Name, "rec ") {
				continue
			}
			for _, fn := range c.P.Funcs {
				if "rec "+fn.String() != e.Name {
					continue
				}
				way, mine := e.Name, false
				for _, a := range e.Args {
					if a == v || a.Op == "obj" && p.in.Load(st, a).Mentions(func(y *flow.Term) bool { return y == v }) {
						mine = true
					} else if a.Typ != nil {
						if _, ok := a.Typ.Underlying().(*types.Basic); ok {
							way += " " + a.String()
						}
					}
				}
				if !mine || ways[way] {
					continue
				}
				if len(ways) >= 8 {
					flow.Undecided("operands are walked with ever new arguments: %s", way)
				}
				ways[way] = true
				subs = append(subs, sub{fn, e, st})
			}
		}
	}
	compare := func(level string, st *flow.State, out *flow.Term, top bool) {
		if noSkip {
			for _, e := range allEvents(st) {
				if strings.HasPrefix(e.Name, "rec ") && e.Res != nil && p.ended(st, e.Res) == skip {
					return
				}
			}
			if !top && p.ended(st, out) == skip {
				passes = true
			}
		}
		// what happened, and how it ended
		var got []string
		var last string
		bad := ""
		var res *flow.Term
		for _, e := range allEvents(st) {
			switch {
			case e.Name == "visit":
				got = append(got, short(e.Args[2]))
				last, _ = e.Args[0].StrVal()
				if last == fails {
					res = e.Res
				}
			case strings.HasPrefix(e.Name, "rec "):
				var x *flow.Term
				mine := false
				for _, a := range e.Args {
					if isOperand(a) {
						x = a
					}
					mine = mine || a == v || a.Mentions(func(y *flow.Term) bool { return y == v }) || a.Op == "obj" && p.in.Load(st, a).Mentions(func(y *flow.Term) bool { return y == v })
				}
				if x == nil || !mine {
					continue
				}
				if !(last == "" || last == goOn || last == skip && len(got) > 1) {
					bad = "goes on after it " + last
				}
				got = append(got, short(x))
				last = p.ended(st, e.Res)
				res = e.Res
			}
		}
		// visiting: node first, then operands in order, as far as it goes on
		want := []string{short(tree)}
		for _, o := range operands {
			want = append(want, short(o))
		}
		stop := last == skipAll || last == fails || last == skip && len(got) == 1
		okOrder := len(got) <= len(want)
		for i := range got {
			okOrder = okOrder && got[i] == want[i]
		}
		if !stop {
			okOrder = okOrder && len(got) == len(want)
		}
		c.Need(okOrder && bad == "" && len(got) > 0, rule, kind+" "+level, where, "the walk visits %s instead of %s when the last visit %s %s", strings.Join(got, ", "), strings.Join(want, ", "), last, bad)
		switch {
		case last == anyWay && !top:
			// handed on
			c.Need(out == res && len(got) == len(want), rule, kind+" "+level, where, "walking an operand returns %s instead of how its last operand ended", short(out))
		case last == fails && top:
			c.Need(out != flow.Nil, rule, kind+" "+level, where, "the failure of a visitor is not reported")
		case last == fails:
			c.Need(out == res, rule, kind+" "+level, where, "the failure of a visitor is returned as %s", short(out))
		case last == skipAll && !top:
			c.Need(out == p.sentinel("SkipAll") || st.F.Decide(flow.Eq(out, p.sentinel("SkipAll"))) == flow.Yes, rule, kind+" "+level, where, "after a visitor asks to skip all, walking an operand returns %s, so that the walk goes on", short(out))
		case top:
			c.Need(out == flow.Nil, rule, kind+" "+level, where, "the walk fails with %s although no visitor failed", short(out))
		default:
			e := p.ended(st, out)
			c.Need(e == goOn || e == skip, rule, kind+" "+level, where, "walking an operand returns %s although no visitor failed", short(out))
		}
	}
	for _, r := range p.in.CallFn(st.Clone(), p.parse, flow.Sym("query", stringT), opts) {
		if r.Panic {
			c.Bad(rule, kind, c.P.Where(r.Pos), "can panic: %s", r.Why)
			continue
		}
		err := flow.Ext(r.Val, 1, nil)
		if len(visits(r.St)) == 0 {
			// the validation failed or asked to skip all: see P01
			if err == flow.Nil {
				c.Bad(rule, kind, where, "the visitor is not called")
			}
			continue
		}
		compare("from the top", r.St, err, true)
		collect(r.St)
	}
	for i := 0; i < len(subs); i++ {
		fn := subs[i].fn
		var args []*flow.Term
		for _, a := range subs[i].e.Args {
			if isOperand(a) {
				a = tree
			}
			args = append(args, a)
		}
		// a state in which nothing was visited yet
		s0 := st.Clone()
		for _, a := range args {
			if a.Op == "obj" {
				s0.Store(a, p.in.Load(subs[i].st, a))
			}
		}
		for _, r := range p.in.CallFn(s0, fn, args[:len(fn.Params)]...) {
			if r.Panic {
				c.Bad(rule, kind, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			compare("as an operand", r.St, r.Val, false)
			collect(r.St)
		}
	}
	c.Need(kind == "ExprNode" || len(subs) > 0, rule, kind, where, "the operands are not walked")
	c.Used(p.in)
	return passes
}

// ended tells how walking an operand ended.
func (p *parsing) ended(st *flow.State, res *flow.Term) string {
	switch {
	case st.F.Decide(flow.Eq(res, flow.Nil)) == flow.Yes:
		return goOn
	case st.F.Decide(flow.Eq(res, p.sentinel("Skip"))) == flow.Yes:
		return skip
	case st.F.Decide(flow.Eq(res, p.sentinel("SkipAll"))) == flow.Yes:
		return skipAll
	case st.F.Decide(flow.Eq(res, flow.Nil)) == flow.No:
		return fails
	}
	return anyWay
}
