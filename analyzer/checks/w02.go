package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() { All["W02"] = W02 }

const page = "wasm/aqlparse"

// browsing is a call of the function the page uses.
type browsing struct {
	c      *Ctx
	in     *flow.Interp
	query  *flow.Term
	tree   *flow.Term
	failed bool
	none   bool // the error and the last message have no position
	kinds  []string
	msgs   []*flow.Term
}

// W02 checks the function the page with the parser uses. The package it is in
// is only part of programs for browsers.
func W02(c *Ctx) {
	c.Rule("results: for every query, on every path: the query is parsed as given; if that fails the result is no tree and one message, the error; otherwise it is the encoded tree and the messages of the visitor that was used, in order; nothing panics")
	c.Rule("messages: a message has its text and the name of its kind, and the bounds of the part of the query it is about, in UTF-16 code units, exactly if it has a position; an incomplete query is marked at its last character")
	c.Rule("advice: the visitor places messages at the test or the literal they are about, records no errors and does not fail; a full comparison with a regular expression by ~ and each time compared for equality has a warning")
	p, err := prog.LoadFor(c.P.Dir, page, "GOOS=js", "GOARCH=wasm")
	if err != nil {
		c.Bad("load", page, "", "the source cannot be analysed: %v", err)
		return
	}
	c.P, c.init = p, nil
	entries := c.exported()
	rule := "results"
	c.guard(rule, func() {
		for _, fn := range entries {
			for _, none := range []bool{false, true} {
				c.browse(fn, true, none)
				c.browse(fn, false, none)
				for _, k := range []string{"MsgHint", "MsgWarning", "MsgError"} {
					c.browse(fn, false, none, k)
				}
				c.browse(fn, false, none, "MsgWarning", "MsgHint")
			}
		}
	})
	c.AtLeast(rule, 12)
	c.AtLeast("messages", 12)
	c.guard("advice", func() { c.pageAdvice("advice") })
	c.AtLeast("advice", 20)
	c.Assume = append(c.Assume,
		"a query tree can be encoded as JSON",
		"positions are those P06 describes: the offset is at a character of the query or its end",
		"texts from the browser are valid UTF-8")
}

// exported lists the functions given to the page.
func (c *Ctx) exported() []*ssa.Function {
	var out []*ssa.Function
	named := false
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, page) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "parseAQL" {
						named = true
					}
				}
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "syscall/js.FuncOf" {
					continue
				}
				v := call.Call.Args[0]
				if x, ok := v.(*ssa.ChangeType); ok {
					v = x.X
				}
				switch x := v.(type) {
				case *ssa.Function:
					out = append(out, x)
				case *ssa.MakeClosure:
					if len(x.Bindings) > 0 {
						flow.Undecided("the function given to the page depends on variables")
					}
					out = append(out, x.Fn.(*ssa.Function))
				default:
					flow.Undecided("the function given to the page is not known: %s", v)
				}
			}
		}
	}
	if len(out) == 0 || !named {
		c.Missing("a function given to the page as parseAQL")
	}
	return out
}

func (c *Ctx) browse(fn *ssa.Function, fails, none bool, kinds ...string) {
	in := c.Interp()
	in.Unroll = 8
	b := &browsing{c: c, in: in, query: flow.Sym("query", stringT), failed: fails, none: none, kinds: kinds}
	what := "a query"
	if fails {
		what = "a faulty query"
	}
	if len(kinds) > 0 {
		what += " with messages " + strings.Join(kinds, ", ")
	}
	if none {
		what += " without a position"
	}
	posT := c.Type(ast, "Pos")
	intT := types.Typ[types.Int]
	m := &matching{c: c, in: in}
	st := in.NewState()
	place := func(obj *flow.Term, name string, none bool) {
		if none {
			rs := in.CallFn(st, c.Fn(ast, "NoPosition"))
			m.setField(st, obj, "Position", rs[0].Val)
			return
		}
		p := st.Alloc("place "+name, posT, flow.Zero(posT))
		off, n := flow.Sym("offset of "+name, intT), flow.Sym("length of "+name, intT)
		st.Assume(flow.Le(flow.Int(0), off), true)
		st.Assume(flow.Le(off, flow.Len(b.query)), true)
		st.Assume(flow.Le(flow.Int(0), n), true)
		m.setField(st, p, "Line", flow.Sym("line of "+name, intT))
		m.setField(st, p, "Col", flow.Sym("column of "+name, intT))
		st.Assume(flow.Le(flow.Int(1), flow.Sym("line of "+name, intT)), true)
		st.Assume(flow.Le(flow.Int(1), flow.Sym("column of "+name, intT)), true)
		m.setField(st, p, "Offset", off)
		m.setField(st, p, "Len", n)
		m.setField(st, obj, "Position", in.Load(st, p))
	}
	pe := c.Type("parser", "ParseError")
	obj := st.Alloc("parse error", pe, flow.Zero(pe))
	place(obj, "the error", none)
	m.setField(st, obj, "Msg", flow.Sym("text of the error", stringT))
	err := flow.MakeIface(obj, types.NewPointer(pe))
	pm := c.Type("parser", "ParserMessage")
	var segs []*flow.Term
	for i, k := range kinds {
		name := fmt.Sprintf("message %d", i+1)
		o := st.Alloc(name, pm, flow.Zero(pm))
		place(o, name, none && i == len(kinds)-1)
		m.setField(st, o, "Msg", flow.Sym("text of "+name, stringT))
		m.setField(st, o, "Type", c.Const("parser", k))
		segs = append(segs, flow.Elem(o))
	}
	parse := c.Fn("parser", "ParseQuery")
	read := c.Method(types.NewPointer(c.Type("parser", "MessageVisitor")), "Messages")
	b.tree = flow.Sym("tree", parse.Signature.Results().At(0).Type())
	st.Assume(flow.Eq(b.tree, flow.Nil), false)
	encoded := flow.App("encoding", types.NewSlice(types.Typ[types.Byte]), b.tree)
	st.Assume(flow.Lt(flow.Int(0), flow.Len(encoded)), true)
	in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		one := func(v *flow.Term) ([]flow.Ret, bool) { return []flow.Ret{{St: st, Val: v}}, true }
		switch {
		case call.Fn == parse && call.Fn != nil:
			st.Emit(&flow.Event{Name: "parsed", Args: []*flow.Term{call.Args[0], in.ListOf(st, call.Args[1])}, Pos: call.Pos})
			if fails {
				return one(flow.Tuple(flow.Nil, err))
			}
			return one(flow.Tuple(b.tree, flow.Nil))
		case call.Fn == read && call.Fn != nil:
			st.Emit(&flow.Event{Name: "read", Args: call.Args, Pos: call.Pos})
			if fails || len(segs) == 0 {
				return one(flow.Nil)
			}
			return one(flow.List(call.Sig.Results().At(0).Type(), segs...))
		case call.Name == "(syscall/js.Value).String":
			return one(b.query)
		case strings.HasPrefix(call.Name, "encoding/json.Marshal"):
			return one(flow.Tuple(flow.App("encoding", types.NewSlice(types.Typ[types.Byte]), plain(call.Args[0])), flow.Nil))
		case call.Name == "unicode/utf16.Encode":
			return one(flow.App("utf16", types.NewSlice(types.Typ[types.Uint16]), in.ListOf(st, call.Args[0])))
		case call.Name == "unicode/utf8.DecodeLastRuneInString":
			n := flow.App("size of the last character", types.Typ[types.Int], call.Args[0])
			st.Assume(flow.Le(flow.Int(0), n), true)
			st.Assume(flow.Le(n, flow.Int(4)), true)
			st.Assume(flow.Le(n, flow.Len(call.Args[0])), true)
			return one(flow.Tuple(flow.App("last character", types.Typ[types.Rune], call.Args[0]), n))
		}
		return nil, false
	}
	where := c.P.Where(fn.Pos())
	js := fn.Signature.Params().At(0).Type()
	args := flow.List(fn.Signature.Params().At(1).Type(), flow.Elem(flow.Sym("argument", js)))
	n := 0
	for _, r := range in.CallFn(st, fn, flow.Sym("this", js), args) {
		if r.Panic {
			c.Bad("results", what, c.P.Where(r.Pos), "can panic: %s", r.Why)
			continue
		}
		n++
		why := b.result(r.St, plain(r.Val), encoded)
		c.Need(why == "", "results", what, where, "%s", why)
	}
	c.Need(n > 0, "results", what, where, "there is no result")
	c.Used(in)
}

// result compares a result with the outcome of parsing.
func (b *browsing) result(st *flow.State, res, encoded *flow.Term) string {
	var visitor *flow.Term
	parsed := 0
	for _, e := range allEvents(st) {
		switch e.Name {
		case "parsed":
			parsed++
			if e.Args[0] != b.query {
				return "what is parsed is " + short(e.Args[0])
			}
			visitor = e.Args[1]
		case "read":
			used := false
			if visitor != nil {
				for _, x := range b.in.Reachable(st, visitor) {
					used = used || x.Mentions(func(t *flow.Term) bool { return t == e.Args[0] })
				}
			}
			if !used {
				return "the messages are those of a visitor that was not used"
			}
		}
	}
	if parsed == 0 {
		return "the query is not parsed"
	}
	out := entries(b.in, st, res)
	tree := plain(out["ast"])
	if tree == nil {
		return "there is no entry for the tree"
	}
	if b.failed {
		if tree != flow.Str("") {
			return "the query is faulty and the tree is " + short(tree)
		}
	} else if tree != flow.ToString(encoded) {
		return "the tree is shown as " + short(tree)
	}
	if out["messages"] == nil {
		return "there is no entry for messages"
	}
	ms := flow.Segs(b.in.ListOf(st, plain(out["messages"])))
	want := len(b.kinds)
	if b.failed {
		want = 1
	}
	if len(ms) != want {
		return fmt.Sprintf("there are %d messages instead of %d", len(ms), want)
	}
	for i, s := range ms {
		if s.Op != "seg:e" {
			return "the messages are " + short(s)
		}
		m := entries(b.in, st, plain(s.Args[0]))
		name, kind := fmt.Sprintf("message %d", i+1), "error"
		if b.failed {
			name = "the error"
		} else {
			kind = strings.ToLower(strings.TrimPrefix(b.kinds[i], "Msg"))
		}
		if why := b.message(st, m, name, kind, b.none && i == len(ms)-1); why != "" {
			return name + ": " + why
		}
		b.c.Ok("messages")
	}
	return ""
}

// message compares a message with the one it was made of.
func (b *browsing) message(st *flow.State, m map[string]*flow.Term, name, kind string, none bool) string {
	if got := plain(m["type"]); got != flow.Str(kind) {
		return "the type is " + short(got)
	}
	text := flow.Sym("text of "+name, stringT)
	off, n := flow.Sym("offset of "+name, types.Typ[types.Int]), flow.Sym("length of "+name, types.Typ[types.Int])
	incomplete := false
	if got := plain(m["msg"]); got != text {
		// nothing fits: said in other words, at the end of the query
		none = false
		st.F.Atoms(func(t *flow.Term, v bool) {
			incomplete = incomplete || b.failed && v && t.Op == "app" && strings.HasPrefix(t.Aux, "strings.") && t.Args[0] == text
		})
		if s, ok := got.StrVal(); !ok || s == "" || !incomplete {
			return "the text is " + short(got)
		}
		off, n = flow.Sub(flow.Len(b.query), flow.App("size of the last character", types.Typ[types.Int], b.query)), flow.Int(1)
	}
	start, end := plain(m["start"]), plain(m["end"])
	if none {
		if start != nil || end != nil {
			return fmt.Sprintf("there is no position, and it is shown at %s to %s", short(start), short(end))
		}
		return ""
	}
	if start == nil || end == nil {
		return "the position is not shown"
	}
	units := func(runes *flow.Term) *flow.Term {
		return flow.Len(flow.App("utf16", types.NewSlice(types.Typ[types.Uint16]), runes))
	}
	runes := func(s *flow.Term) *flow.Term { return flow.App("runes", types.NewSlice(types.Typ[types.Rune]), s) }
	equal := func(a, b *flow.Term) bool { return a == b || st.F.Decide(flow.IEq(a, b)) == flow.Yes }
	before := units(runes(flow.SliceOf(b.query, flow.Int(0), off, stringT)))
	if !equal(start, before) {
		return "starts at " + short(start)
	}
	rest := runes(flow.SliceOf(b.query, off, flow.Len(b.query), stringT))
	covered := flow.SliceOf(rest, flow.Int(0), n, rest.Typ)
	short1 := st.F.Decide(flow.Le(flow.Len(rest), n)) == flow.Yes // no more than this is left
	if equal(end, flow.Add(before, units(covered))) || short1 && equal(end, flow.Add(before, units(rest))) {
		return ""
	}
	return "ends at " + short(end)
}

// usedAsValue tells whether a function is passed or stored, not just called.
func (c *Ctx) usedAsValue(fn *ssa.Function) bool {
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				x, call := i.(ssa.CallInstruction)
				for _, op := range i.Operands(nil) {
					if op != nil && *op == ssa.Value(fn) && !(call && op == &x.Common().Value) {
						return true
					}
				}
			}
		}
	}
	return false
}

// pageAdvice checks what the visitor of the page records.
func (c *Ctx) pageAdvice(rule string) {
	var visit *ssa.Function
	tapeT := types.NewPointer(c.Type("parser", "MessageTape"))
	for _, fn := range c.P.Funcs {
		s := fn.Signature
		if inPkg(fn, page) && s.Recv() == nil && s.Params().Len() == 2 && types.Identical(s.Params().At(1).Type(), tapeT) && s.Results().Len() == 1 && c.usedAsValue(fn) {
			if visit != nil {
				flow.Undecided("several visitors")
			}
			visit = fn
		}
	}
	if visit == nil {
		c.Missing("the visitor of the page")
	}
	where := c.P.Where(visit.Pos())
	for _, op := range operators {
		lists := [][]string{}
		for _, k := range literalKinds {
			if permitted(op, k) {
				lists = append(lists, []string{k})
			}
		}
		switch op {
		case "EQ":
			lists = append(lists, []string{"TimeVal", "TimeVal"}, []string{"RegexpVal", "TimeVal"}, []string{"TimeVal", "StringVal"}, []string{"IntVal", "TimeVal"})
		case "SIM":
			lists = append(lists, []string{"StringVal", "RegexpVal"}, []string{"RegexpVal", "StringVal"})
		case "EXS", "NUL":
			lists = append(lists, nil)
		}
		for _, kinds := range lists {
			c.guardAs(rule, op+" "+strings.Join(kinds, " "), func() { c.pageAdvised(rule, where, visit, op, kinds) })
		}
	}
}

func (c *Ctx) pageAdvised(rule, where string, visit *ssa.Function, op string, kinds []string) {
	p := c.newParsing()
	ws := []world{{st: p.in.NewState()}}
	var names []string
	for i, k := range kinds {
		names = append(names, fmt.Sprintf("literal %d:%s", i+1, k))
		ws = p.with(ws, k, names[i])
	}
	p.advising()
	what := strings.TrimSpace(op + " " + strings.Join(kinds, " "))
	tapeT := c.Type("parser", "MessageTape")
	n := 0
	for _, w := range ws {
		st := w.st.Clone()
		rvals := flow.Nil
		var es []*flow.Term
		for _, x := range w.args {
			es = append(es, flow.Elem(x.val))
		}
		if len(es) > 0 {
			rvals = flow.List(types.NewSlice(c.Type(ast, "Val")), es...)
		}
		node := p.node(st, c.Const(ast, op), rvals)
		own := flow.FieldNamed(p.in.Load(st, plain(node)), "Position", c.Type(ast, "ExprNode"))
		for _, r := range p.in.CallFn(st, visit, node, st.Alloc("tape", tapeT, flow.Zero(tapeT))) {
			if r.Panic {
				c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			n++
			c.Need(r.Val == flow.Nil, rule, what, where, "a valid query is refused: %s", short(r.Val))
			all := p.advices(r.St)
			warned := map[int]int{}
			for _, m := range all {
				at := -1
				for i, x := range w.args {
					if m.at(x, names[i]) {
						at = i
					}
				}
				test := m.place != nil && (m.place == own || plain(m.place) == plain(node))
				c.Need(at >= 0 || test, rule, what, m.where, "a message is placed neither at the test nor at a literal")
				c.Need(m.call.kind != "MsgError", rule, what, m.where, "an error is recorded for a valid query")
				if m.call.kind == "MsgWarning" {
					warned[at]++
				}
			}
			about := 0 // literals whose warning may be at the test
			for i, x := range w.args {
				switch {
				case op == "EQ" && x.kind == "TimeVal":
					c.Need(warned[i] == 1, rule, what, where, "%s has %d warnings", names[i], warned[i])
				case op == "SIM" && x.kind == "RegexpVal":
					about++
				case x.kind != "RegexpVal":
					c.Need(warned[i] == 0, rule, what, where, "%s has %d warnings", names[i], warned[i])
				}
			}
			if about > 0 {
				sum := 0
				for _, k := range warned {
					sum += k
				}
				c.Need(sum >= about, rule, what, where, "%d regular expressions compared by ~ have %d warnings", about, sum)
			}
		}
	}
	c.Need(n > 0, rule, what, where, "there is no outcome")
	c.Used(p.in)
}
