package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["P09"] = P09
}

// onlyRegexp tells whether a function only answers a question about a parsed
// regular expression.
func onlyRegexp(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Params().Len() == 0 || fn.Signature.Results().Len() != 1 || fn.Signature.Recv() != nil {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if types.TypeString(fn.Signature.Params().At(i).Type(), nil) != "*regexp/syntax.Regexp" {
			return false
		}
	}
	b, ok := fn.Signature.Results().At(0).Type().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// advising makes calls that record a message events and lets functions that
// only look at a parsed regular expression answer anything.
func (p *parsing) advising() {
	c := p.c
	tapeT := types.NewPointer(c.Type("parser", "MessageTape"))
	methods := map[*ssa.Function]tapeCall{}
	for _, t := range tapeCalls {
		methods[c.Method(tapeT, t.method)] = t
	}
	p.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if t, ok := methods[call.Fn]; ok && call.Fn != nil {
			if _, inner := methods[call.In]; inner {
				return nil, false
			}
			st.Emit(&flow.Event{Name: "advice " + t.method, Args: call.Args[1:], Pos: call.Pos})
			return []flow.Ret{{St: st, Val: flow.Nil}}, true
		}
		if call.Name == "regexp/syntax.Parse" && len(call.Args) == 2 {
			// the text of a compiled expression can be parsed again
			text, flags := call.Args[0], call.Args[1]
			perl := false
			if flags.Val != nil {
				n, _ := constant.Int64Val(flags.Val)
				perl = n == int64(syntax.Perl)
			}
			own := text.Op == "app" && text.Aux == "(*regexp.Regexp).String"
			res := flow.App("parsed", call.Sig.Results().At(0).Type(), text)
			st2 := st.Clone()
			st.Assume(flow.Eq(res, flow.Nil), false)
			out := []flow.Ret{{St: st, Val: flow.Tuple(res, flow.Nil)}}
			if !perl || !own {
				e := flow.Sym("failure to parse the expression", errorT)
				st2.Assume(flow.Eq(e, flow.Nil), false)
				out = append(out, flow.Ret{St: st2, Val: flow.Tuple(flow.Nil, e)})
			}
			return out, true
		}
		if onlyRegexp(call.Fn) && c.P.InRepo(call.Fn) {
			return []flow.Ret{{St: st, Val: flow.App("answer of "+call.Fn.Name(), types.Typ[types.Bool], call.Args...)}}, true
		}
		return nil, false
	}
}

// P09 checks the advice given when a matcher is compiled.
func P09(c *Ctx) {
	c.Rule("for every operator and every list of one or two literals it supports and lists of three, on every path of compiling the test: each literal gets exactly the warnings it calls for, by its kind and the operator; each message is a hint or a warning at the position of a literal that calls for one; the test is compiled")
	rule := "advice"
	c.guard(rule, c.manyValues)
	pairs := map[string][][]string{
		"EQ":  {{"TimeVal", "TimeVal"}, {"TimeVal", "RegexpVal"}, {"RegexpVal", "TimeVal"}, {"IntVal", "TimeVal"}, {"TimeVal", "NetVal"}, {"StringVal", "TimeVal"}, {"IntVal", "BoolVal", "TimeVal"}},
		"SIM": {{"StringVal", "StringVal"}, {"BoolVal", "StringVal"}, {"BoolVal", "RegexpVal"}, {"RegexpVal", "BoolVal"}, {"StringVal", "BoolVal"}, {"BoolVal", "StringVal", "BoolVal"}},
		"BET": {{"TimeVal", "TimeVal"}, {"IntVal", "FloatVal"}},
	}
	for _, op := range operators {
		a := &advices{c: c, rule: rule, op: op}
		for _, kind := range literalKinds {
			if permitted(op, kind) && op != "BET" {
				c.guardAs(rule, op+" "+kind, func() { a.advised(kind) })
			}
		}
		for _, p := range pairs[op] {
			c.guardAs(rule, op+" "+strings.Join(p, " "), func() { a.advised(p...) })
		}
		if op == "EXS" || op == "NUL" {
			c.guardAs(rule, op, func() { a.advised() })
		}
		if permitted(op, "RegexpVal") {
			where := c.P.Where(c.Fn("jsonmatcher", "NewMatcher").Pos())
			c.Need(a.unicode[true] > 0 && a.unicode[false] > 0, "unicode", op, where, "the warning about characters beyond ASCII in a case-insensitive regular expression is given %d times and not given %d times", a.unicode[true], a.unicode[false])
			c.Need(a.dotStar > 0, "redundant .*", op, where, "there is never a hint on a regular expression that begins or ends with .*")
		}
	}
	c.AtLeast(rule, 800)
	c.Rule("a test gets its advice wherever it is in the query: the operands of every connective do")
	c.guard("advice on operands", func() { c.advisedOperands("advice on operands") })
	c.AtLeast("advice on operands", 50)
	c.Rule("the values of a message fit its text")
	c.AtLeast("texts", 800)
	c.Assume = append(c.Assume,
		"the text of a compiled regular expression can be parsed again with the flags it was compiled with",
		"two literals stand for any number: the literals are visited by one loop",
		"what functions answer about a parsed regular expression only decides about hints")
}

type advices struct {
	c        *Ctx
	rule, op string
	unicode  map[bool]int
	dotStar  int
}

// advice is a recorded message.
type advice struct {
	call  tapeCall
	place *flow.Term
	where string
}

// advices lists the messages recorded on a path.
func (p *parsing) advices(st *flow.State) []advice {
	var out []advice
	c := p.c
	for _, e := range allEvents(st) {
		name, ok := strings.CutPrefix(e.Name, "advice ")
		if !ok {
			continue
		}
		a := advice{where: c.P.Where(e.Pos)}
		for _, t := range tapeCalls {
			if t.method == name {
				a.call = t
			}
		}
		args := e.Args
		switch a.call.place {
		case "At":
			a.place, args = args[0], args[1:]
		case "With":
			a.place, args = args[0], args[1:]
		}
		format, vals := args[0], args[1]
		what := name
		if format.Val != nil {
			text := constant.StringVal(format.Val)
			what = fmt.Sprintf("%s %.30q", name, text)
			n := strings.Count(strings.ReplaceAll(text, "%%", ""), "%")
			have := 0
			if vals != flow.Nil {
				have = len(flow.Segs(p.in.ListOf(st, vals)))
			}
			c.Need(n == have, "texts", what, a.where, "a message whose text has %d places for values has %d values", n, have)
			c.Need(strings.TrimSpace(text) != "", "texts", what, a.where, "an empty message")
		}
		out = append(out, a)
	}
	return out
}

// at tells whether a message is placed at a literal.
func (a advice) at(x arg, name string) bool {
	if a.place == nil {
		return false
	}
	if a.call.place == "With" {
		return a.place.Op == "iface" && a.place.Args[0] == x.ptr || a.place == x.ptr
	}
	return a.place.Op == "sym" && a.place.Aux == "position of "+name
}

func (a *advices) advised(kinds ...string) {
	c, op, rule := a.c, a.op, a.rule
	if a.unicode == nil {
		a.unicode = map[bool]int{}
	}
	p := c.newParsing()
	newM := c.Fn("jsonmatcher", "NewMatcher")
	ws := []world{{st: p.in.NewState()}}
	var names []string
	for i, k := range kinds {
		names = append(names, fmt.Sprintf("literal %d:%s", i+1, k))
		ws = p.with(ws, k, names[i])
	}
	p.advising()
	what := strings.TrimSpace(op + " " + strings.Join(kinds, " "))
	compiled := 0
	for _, w := range ws {
		st := w.st.Clone()
		rvals := flow.Nil
		var es []*flow.Term
		for _, x := range w.args {
			es = append(es, flow.Elem(x.val))
		}
		if len(es) > 0 {
			rvals = flow.List(types.NewSlice(c.Type(ast, "Val")), es...)
		}
		tree := p.node(st, c.Const(ast, op), rvals)
		p.result = func(st *flow.State) []flow.Ret {
			return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}}
		}
		var ends []flow.Ret
		beyond := false // whether the analysis sees which texts are beyond ASCII
		for _, r := range p.in.CallFn(st, newM, flow.Sym("query", stringT)) {
			if r.Panic {
				c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			ends = append(ends, r)
			for _, x := range w.args {
				beyond = beyond || x.kind == "RegexpVal" && beyondASCII(r.St, x)
			}
		}
		for _, r := range ends {
			where := c.P.Where(newM.Pos())
			all := p.advices(r.St)
			if err := flow.Ext(r.Val, 1, nil); err != flow.Nil {
				// the validation can refuse the test
				if spec := language(op, w.args); len(spec) > 0 && p.in.Eval(spec[0], r.St) == flow.Yes {
					c.Bad(rule, what, where, "a test of the language is not compiled: %s", short(err))
				}
				continue
			}
			compiled++
			for _, m := range all {
				placed := false
				for i, x := range w.args {
					placed = placed || m.at(x, names[i])
				}
				c.Need(placed, rule, what, m.where, "a message is not placed at the literal it is about")
				c.Need(m.call.kind != "MsgError", rule, what, m.where, "an error is recorded for a test of the language")
			}
			for i, x := range w.args {
				warnings, hints := 0, 0
				at := where
				for _, m := range all {
					if m.at(x, names[i]) {
						at = m.where
						if m.call.kind == "MsgWarning" {
							warnings++
						} else {
							hints++
						}
					}
				}
				want := 0
				switch {
				case op == "SIM" && x.kind != "BoolVal":
					want++
				case op == "EQ" && x.kind == "TimeVal":
					switch d := p.get(r.St, x, "DayOnly"); r.St.F.Decide(d) {
					case flow.No:
						want++
					case flow.Maybe:
						flow.Undecided("it is not known whether a time has a time of day: %s", short(d))
					}
				}
				what := what + ", " + names[i]
				if x.kind != "RegexpVal" {
					c.Need(warnings == want, rule, what, at, "has %d warnings instead of %d", warnings, want)
					c.Need(hints == 0, rule, what, at, "has a hint")
					continue
				}
				c.Need(warnings == want || warnings == want+1, rule, what, at, "has %d warnings instead of %d or %d", warnings, want, want+1)
				ci := prefixed(r.St, x, "(?i)", "strings.HasPrefix")
				if ci != flow.Maybe && warnings >= want {
					a.unicode[warnings > want]++
					if beyond {
						c.Need((warnings > want) == (ci == flow.Yes && beyondASCII(r.St, x)), rule, what, at, "the warning about characters beyond ASCII is given %v for an expression that is case-insensitive: %v, with such characters: %v", warnings > want, ci == flow.Yes, beyondASCII(r.St, x))
					}
				}
				if prefixed(r.St, x, ".*", "strings.HasPrefix") == flow.Yes || prefixed(r.St, x, ".*", "strings.HasSuffix") == flow.Yes {
					c.Need(hints > 0, rule, what, at, "an expression that begins or ends with .* has no hint")
				}
				if hints > 0 {
					a.dotStar++
				}
			}
		}
	}
	c.Need(compiled > 0, rule, what, c.P.Where(newM.Pos()), "the test is never compiled")
	c.Used(p.in)
}

// beyondASCII tells whether a character of the text is known to be beyond ASCII.
func beyondASCII(st *flow.State, x arg) bool {
	for _, cmp := range st.F.Comparisons() {
		if cmp.GT && !cmp.LT && cmp.B.Val != nil && cmp.A.Mentions(func(t *flow.Term) bool { return strings.HasPrefix(t.Aux, "text of ") }) {
			if n, ok := constant.Int64Val(cmp.B.Val); ok && n == 128 && cmp.A.Mentions(func(t *flow.Term) bool { return textOf(t, x) }) {
				return true
			}
		}
	}
	return false
}

func textOf(t *flow.Term, x arg) bool {
	return t == x.text || t.Op == "sym" && x.text.Mentions(func(u *flow.Term) bool { return u == t })
}

// prefixed tells whether the text of a literal is known to begin or end with s.
func prefixed(st *flow.State, x arg, s, fn string) flow.Tri {
	out := flow.Maybe
	st.F.Atoms(func(t *flow.Term, v bool) {
		if t.Op == "app" && t.Aux == fn && len(t.Args) == 2 && t.Args[1] == flow.Str(s) && t.Args[0].Mentions(func(u *flow.Term) bool { return textOf(u, x) }) {
			if v {
				out = flow.Yes
			} else if out == flow.Maybe {
				out = flow.No
			}
		}
	})
	return out
}

// advisedOperands compiles connectives of tests, the last of which calls for a
// warning.
func (c *Ctx) advisedOperands(rule string) {
	newM := c.Fn("jsonmatcher", "NewMatcher")
	where := c.P.Where(newM.Pos())
	// what a test with a time is preceded by, innermost first
	befores := [][]string{nil, {"EXS"}, {"SIM StringVal"}, {"SIM RegexpVal"}, {"GT IntVal"}, {"EQ TimeVal", "NotNode"}, {"EQ TimeVal", "SubdocNode"}, {"EQ TimeVal", "AndNode"}, {"EQ TimeVal", "OrNode"}}
	for _, k := range literalKinds {
		befores = append(befores, []string{"EQ " + k})
	}
	for _, kind := range []string{"NotNode", "SubdocNode", "AndNode", "OrNode"} {
		for _, before := range befores {
			if one := kind == "NotNode" || kind == "SubdocNode"; one == (len(before) > 0) {
				continue
			}
			c.advisedOperand(rule, newM, where, kind, before)
		}
	}
}

func (c *Ctx) advisedOperand(rule string, newM *ssa.Function, where, kind string, before []string) {
	p := c.newParsing()
	p.in.Recurse = true
	m := &matching{c: c, in: p.in}
	ws := []world{{st: p.in.NewState()}}
	var names []string
	add := func(kind string) {
		names = append(names, fmt.Sprintf("literal %d:%s", len(names)+1, kind))
		ws = p.with(ws, kind, names[len(names)-1])
	}
	if len(before) > 0 {
		if f := strings.Fields(before[0]); len(f) == 2 {
			add(f[1])
		}
	}
	add("TimeVal")
	p.advising()
	n := 0
	test := func(st *flow.State, op string, args ...arg) *flow.Term {
		n++
		en := c.Type(ast, "ExprNode")
		obj := st.Alloc(fmt.Sprintf("test %d", n), en, flow.Zero(en))
		m.setField(st, obj, "Op", c.Const(ast, op))
		m.setField(st, obj, "Field", flow.Sym("path", types.NewSlice(stringT)))
		for _, a := range args {
			m.setField(st, obj, "RVals", flow.List(types.NewSlice(c.Type(ast, "Val")), flow.Elem(a.val)))
		}
		return flow.MakeIface(obj, types.NewPointer(en))
	}
	connect := func(st *flow.State, kind string, operands ...*flow.Term) *flow.Term {
		n++
		t := c.Type(ast, kind)
		s := t.Underlying().(*types.Struct)
		obj := st.Alloc(fmt.Sprintf("%s %d", kind, n), t, flow.Zero(t))
		k := 0
		for i := 0; i < s.NumFields(); i++ {
			if types.IsInterface(s.Field(i).Type()) {
				m.setField(st, obj, s.Field(i).Name(), operands[k])
				if k < len(operands)-1 {
					k++
				}
			}
		}
		if kind == "SubdocNode" {
			m.setField(st, obj, "Field", flow.Sym("outer path", types.NewSlice(stringT)))
		}
		return flow.MakeIface(obj, types.NewPointer(t))
	}
	what := strings.Join(append([]string{kind}, before...), " ")
	for _, w := range ws {
		st := w.st.Clone()
		n = 0
		operands := []*flow.Term{test(st, "EQ", w.args[len(w.args)-1])}
		if len(before) > 0 {
			first := test(st, strings.Fields(before[0])[0], w.args[:len(w.args)-1]...)
			for _, k := range before[1:] {
				first = connect(st, k, first, test(st, "EXS"))
			}
			operands = append([]*flow.Term{first}, operands...)
		}
		tree := connect(st, kind, operands...)
		p.result = func(st *flow.State) []flow.Ret {
			return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}}
		}
		for _, r := range p.in.CallFn(st, newM, flow.Sym("query", stringT)) {
			if r.Panic || flow.Ext(r.Val, 1, nil) != flow.Nil {
				c.Bad(rule, what, where, "a query of the language is not compiled")
				continue
			}
			all := p.advices(r.St)
			for i, x := range w.args {
				if x.kind != "TimeVal" {
					continue
				}
				n := 0
				for _, m := range all {
					if m.at(x, names[i]) {
						n++
					}
				}
				full := r.St.F.Decide(p.get(r.St, x, "DayOnly")) == flow.No
				c.Need(n == 1 && full || n == 0 && !full, rule, what+", "+names[i], where, "an operand has %d messages", n)
			}
		}
	}
	c.Used(p.in)
}
