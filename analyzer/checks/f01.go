package checks

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"aqlverify/flow"
)

func init() {
	All["F01"] = F01
	All["F02"] = F02
	All["F03"] = F03
}

const fm = "parser/fmtmsg"

// output stands for what a template writes.
var output = flow.Sym("output of the template", stringT)

// formatting is one way of formatting a message: the formatter, the message and
// what the template is given.
type formatting struct {
	c        *Ctx
	in       *flow.Interp
	what     string
	query    *flow.Term
	tmpl     *flow.Term // text of the template
	pos      *flow.Term
	off, len *flow.Term
	kind     string
	html     bool
	terminal bool
	placed   bool
	shown    []shown
	sprint   []flow.Ret
}

// shown is the data given to a template in a state.
type shown struct {
	st     *flow.State
	engine string
	tmpl   *flow.Term
	data   *flow.Term
	funcs  map[string]*flow.Term
	where  string
}

func (c *Ctx) formattings(f func(*formatting)) {
	for _, html := range []bool{false, true} {
		for _, placed := range []bool{true, false} {
			for _, kind := range []string{"ParseError", "MsgError", "MsgWarning", "MsgHint"} {
				f(c.format(kind, html, placed, false))
				if !html {
					f(c.format(kind, html, placed, true))
				}
			}
		}
	}
}

// format analyses formatting a message with an arbitrary template, or with the
// one for terminals.
func (c *Ctx) format(kind string, html, placed, terminal bool) *formatting {
	in := c.Interp()
	in.Lemmas = true
	intT := types.Typ[types.Int]
	x := &formatting{c: c, in: in, kind: kind, html: html, placed: placed, terminal: terminal,
		query: flow.Sym("query", stringT), tmpl: flow.Sym("template", stringT),
		off: flow.Sym("offset", intT), len: flow.Sym("length", intT)}
	x.what = kind
	for _, w := range []struct {
		on   bool
		text string
	}{{placed, "with a position"}, {!placed, "without a position"}, {html, "in HTML"}, {terminal, "for a terminal"}} {
		if w.on {
			x.what += " " + w.text
		}
	}
	st := in.NewState()
	st.Assume(flow.Le(flow.Int(0), x.off), true)
	st.Assume(flow.Le(flow.Int(0), x.len), true)
	posT := c.Type(ast, "Pos")
	m := &matching{c: c, in: in}
	place := func(st *flow.State, obj *flow.Term) {
		if !placed {
			rs := in.CallFn(st, c.Fn(ast, "NoPosition"))
			m.setField(st, obj, "Position", rs[0].Val)
			return
		}
		p := st.Alloc("place", posT, flow.Zero(posT))
		m.setField(st, p, "Line", flow.Sym("line", intT))
		m.setField(st, p, "Col", flow.Sym("column", intT))
		m.setField(st, p, "Offset", x.off)
		m.setField(st, p, "Len", x.len)
		m.setField(st, obj, "Position", in.Load(st, p))
	}
	for _, n := range []string{"line", "column"} {
		st.Assume(flow.Le(flow.Int(1), flow.Sym(n, intT)), true)
	}
	var msg *flow.Term
	if kind == "ParseError" {
		t := c.Type("parser", "ParseError")
		obj := st.Alloc("parse error", t, flow.Zero(t))
		place(st, obj)
		m.setField(st, obj, "Msg", flow.Sym("text of the message", stringT))
		msg = flow.MakeIface(obj, types.NewPointer(t))
	} else {
		t := c.Type("parser", "ParserMessage")
		obj := st.Alloc("message", t, flow.Zero(t))
		place(st, obj)
		m.setField(st, obj, "Msg", flow.Sym("text of the message", stringT))
		m.setField(st, obj, "Type", c.Const("parser", kind))
		msg = flow.MakeIface(obj, types.NewPointer(t))
	}
	in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		for _, e := range []string{"html/template", "text/template"} {
			t := "(*" + e + ".Template)."
			switch call.Name {
			case e + ".New":
				return []flow.Ret{{St: st, Val: flow.App(call.Name, call.Sig.Results().At(0).Type(), call.Args...)}}, true
			case t + "Funcs":
				st.Emit(&flow.Event{Name: "funcs", Args: []*flow.Term{call.Args[1]}, Pos: call.Pos})
				return []flow.Ret{{St: st, Val: call.Args[0]}}, true
			case t + "Parse":
				s := st.Clone()
				s.Emit(&flow.Event{Name: "parsed", Args: []*flow.Term{call.Args[1], call.Args[0]}, Pos: call.Pos})
				out := []flow.Ret{{St: s, Val: flow.Tuple(call.Args[0], flow.Nil)}}
				if !call.Args[1].IsConst() {
					// whether a constant is valid is checked where it is shown
					out = append(out, flow.Ret{St: st, Val: flow.Tuple(flow.Nil, flow.Sym("template error", errorT))})
				}
				return out, true
			case t + "Execute":
				sh := shown{st: st.Clone(), engine: e, data: call.Args[2], funcs: map[string]*flow.Term{}, where: c.P.Where(call.Pos)}
				for _, ev := range allEvents(st) {
					switch ev.Name {
					case "parsed":
						if ev.Args[1] == call.Args[0] {
							sh.tmpl = ev.Args[0]
						}
					case "funcs":
						for k, v := range entries(in, st, ev.Args[0]) {
							sh.funcs[k] = v
						}
					}
				}
				x.shown = append(x.shown, sh)
				failed := st.Clone()
				out := []flow.Ret{{St: failed, Val: flow.Sym("execution error", errorT)}}
				if st.Assume(flow.Sym("template can be executed", boolT), true) {
					if !in.Write(st, call.Args[1], output) {
						flow.Undecided("the writer of a template is not understood")
					}
					out = append(out, flow.Ret{St: st, Val: flow.Nil})
				}
				return out, true
			}
		}
		return nil, false
	}
	c.mustCalls("bounds", in)
	in.Uni.NonNil = func(t *flow.Term) bool {
		return t.Op == "sym" && types.Identical(t.Typ, errorT)
	}
	pt := types.NewPointer(c.Type(fm, "Printer"))
	ft := types.NewPointer(c.Type(fm, "Formatter"))
	var fs []flow.Ret
	width := flow.Sym("width", intT)
	if terminal {
		fs = in.CallFn(st, c.Fn(fm, "NewTerminalFormatter"), width)
	} else {
		fs = in.CallFn(st, c.Fn(fm, "NewFormatter"), x.tmpl, flow.Bool(html), width)
	}
	for _, r := range fs {
		x.panics(r)
		f, err := r.Val, flow.Nil
		if !terminal {
			f, err = flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
		}
		if err != flow.Nil {
			continue
		}
		for _, r := range in.CallFn(r.St, c.Method(ft, "WithQuery"), f, x.query) {
			x.panics(r)
			for _, r := range in.CallFn(r.St, c.Method(pt, "Sprint"), r.Val, msg) {
				x.panics(r)
				x.sprint = append(x.sprint, r)
			}
		}
	}
	return x
}

func (x *formatting) panics(r flow.Ret) {
	if r.Panic {
		x.c.Bad("bounds", x.what, x.c.P.Where(r.Pos), "formatting can panic: %s", r.Why)
	}
}

// entries returns the functions of a map of functions.
func entries(in *flow.Interp, st *flow.State, m *flow.Term) map[string]*flow.Term {
	out := map[string]*flow.Term{}
	var walk func(t *flow.Term)
	walk = func(t *flow.Term) {
		switch t.Op {
		case "mapempty":
		case "mapupd":
			walk(t.Args[0])
			k, ok := t.Args[1].StrVal()
			if !ok {
				flow.Undecided("the name of a function of a template is not a constant")
			}
			out[k] = t.Args[2]
		default:
			flow.Undecided("the functions of a template are not understood: %s", short(t))
		}
	}
	walk(in.MapContent(st, m))
	return out
}

// view is what a template can show of a message in a state.
type view struct {
	st   *flow.State
	vals map[string]*flow.Term
}

// shownParts are the names a template can use for the parts of a query.
var shownParts = []string{"Query", "QueryPre", "QueryHL", "QueryPost", "HLStrOffset", "HLLen", "HasHL", "Type", "Message"}

// views evaluates everything a template can use, one after the other.
func (x *formatting) views(sh shown) []view {
	out := []view{{sh.st.Clone(), map[string]*flow.Term{}}}
	for _, n := range shownParts {
		var next []view
		for _, v := range out {
			rs, ok := x.c.member(x.in, v.st, sh.data, n)
			if !ok {
				x.c.Missing(n + " of the data of a template")
			}
			for _, r := range rs {
				x.panics(r)
				if r.Panic {
					continue
				}
				w := view{r.St, map[string]*flow.Term{n: r.Val}}
				for k, t := range v.vals {
					w.vals[k] = t
				}
				next = append(next, w)
			}
		}
		out = next
	}
	return out
}

// piece is a part of the query with what stands for the text left out.
type piece struct {
	before, after bool // ellipsis
	lo, hi        *flow.Term
}

const ellipsis = "..."

// piece reads a text as a part of the query.
func (x *formatting) piece(t *flow.Term) (p piece, why string) {
	runes := flow.App("runes", types.NewSlice(types.Typ[types.Rune]), x.query)
	segs := []*flow.Term{t}
	if t.Op == "concat" {
		segs = t.Args
	}
	if s, ok := t.StrVal(); ok && s == "" {
		return piece{}, ""
	}
	for _, s := range segs {
		c, isConst := s.StrVal()
		switch {
		case isConst && c == ellipsis && p.lo == nil && !p.before:
			p.before = true
		case isConst && c == ellipsis && p.lo != nil && !p.after:
			p.after = true
		case s == x.query && p.lo == nil:
			p.lo, p.hi = flow.Int(0), flow.Len(runes)
		case s.Op == "app" && s.Aux == "runestring" && p.lo == nil && s.Args[0].Op == "slice" && s.Args[0].Args[0] == runes:
			p.lo, p.hi = s.Args[0].Args[1], s.Args[0].Args[2]
			if p.hi.Op == "nil" {
				p.hi = flow.Len(runes)
			}
		default:
			return p, short(t) + " is not a part of the query"
		}
	}
	return p, ""
}

// count is the number of characters of a piece.
func (p piece) count() *flow.Term {
	n := flow.Int(0)
	if p.lo != nil {
		n = flow.Sub(p.hi, p.lo)
	}
	for _, b := range []bool{p.before, p.after} {
		if b {
			n = flow.Add(n, flow.Int(int64(len(ellipsis))))
		}
	}
	return n
}

// finding is the answer to a question about a state.
type finding struct {
	ok                     bool
	rule, construct, where string
	text                   string
}

// probe collects findings about a state, which count if the state is possible.
type probe struct {
	c   *Ctx
	all []finding
}

func (p *probe) Need(ok bool, rule, construct, where, format string, args ...any) {
	p.all = append(p.all, finding{ok, rule, construct, where, fmt.Sprintf(format, args...)})
}

func (p *probe) report(st *flow.State) {
	for _, f := range p.all {
		if !f.ok && !st.F.Consistent() {
			return
		}
	}
	for _, f := range p.all {
		p.c.Need(f.ok, f.rule, f.construct, f.where, "%s", f.text)
	}
}

func same(st *flow.State, a, b *flow.Term) bool { return st.F.Decide(flow.IEq(a, b)) == flow.Yes }

func F01(c *Ctx) {
	c.Rule("bounds: for every query, every message of the parser with or without a position, every template and width, on every path of formatting and of everything a template can ask for: no index, slice or conversion is out of range, and the numbers given to repetitions are not negative")
	c.Rule("parts: what is shown before, at and after the highlight are consecutive parts of the query that together are what is shown of it")
	c.Rule("ellipsis: dots stand exactly where text was left out")
	c.Rule("templates: constant templates are valid and only use what exists")
	c.Assume = append(c.Assume, "The offset of a position is not within a character (P06); its length is not negative.")
	c.formattings(func(x *formatting) {
		c.guardAs("parts", x.what, func() {
			for _, sh := range x.shown {
				x.template(sh)
				for _, v := range x.views(sh) {
					x.consecutive(sh, v)
				}
			}
		})
		c.discharged("bounds", x.in)
	})
	c.AtLeast("parts", 500)
	c.AtLeast("bounds", 5)
	c.AtLeast("templates", 1)
}

// consecutive checks that the parts of the query fit together.
func (x *formatting) consecutive(sh shown, v view) {
	c := &probe{c: x.c}
	defer c.report(v.st)
	runes := flow.App("runes", types.NewSlice(types.Typ[types.Rune]), x.query)
	var ps [4]piece
	for i, n := range shownParts[:4] {
		var why string
		if ps[i], why = x.piece(v.vals[n]); why != "" {
			c.Need(false, "parts", n+" of "+x.what, sh.where, "%s", why)
			return
		}
	}
	all, pre, hl, post := ps[0], ps[1], ps[2], ps[3]
	if !x.placed {
		ok := v.vals["Query"] == x.query && v.vals["QueryPre"] == v.vals["Query"] && hl.lo == nil && post.lo == nil
		c.Need(ok, "parts", x.what, sh.where, "a query without highlight is shown as %s, of which %s, %s and %s", short(v.vals["Query"]), short(v.vals["QueryPre"]), short(v.vals["QueryHL"]), short(v.vals["QueryPost"]))
		return
	}
	if pre.lo == nil || hl.lo == nil || post.lo == nil || all.lo == nil {
		// an empty text is an empty part wherever it is needed
		if hl.lo == nil && pre.lo != nil {
			hl.lo, hl.hi = pre.hi, pre.hi
		}
		if post.lo == nil && hl.lo != nil {
			post.lo, post.hi = hl.hi, hl.hi
		}
		if pre.lo == nil && hl.lo != nil {
			pre.lo, pre.hi = hl.lo, hl.lo
		}
		if pre.lo == nil || all.lo == nil {
			c.Need(false, "parts", x.what, sh.where, "nothing of the query is shown")
			return
		}
	}
	ok := same(v.st, pre.hi, hl.lo) && same(v.st, hl.hi, post.lo)
	c.Need(ok, "parts", x.what, sh.where, "the parts %s, %s and %s are not consecutive", short(v.vals["QueryPre"]), short(v.vals["QueryHL"]), short(v.vals["QueryPost"]))
	ok = same(v.st, pre.lo, all.lo) && same(v.st, post.hi, all.hi)
	c.Need(ok, "parts", x.what, sh.where, "the parts %s, %s and %s are not all of %s", short(v.vals["QueryPre"]), short(v.vals["QueryHL"]), short(v.vals["QueryPost"]), short(v.vals["Query"]))
	dots := func(what string, has bool, t *flow.Term, allowed bool) {
		d := v.st.F.Decide(t)
		ok := has == (d == flow.Yes) && d != flow.Maybe
		c.Need(ok && (allowed || !has), "ellipsis", what+" of "+x.what, sh.where, "%s has dots: %v, though text is left out there: %v", what, has, d)
	}
	left, right := flow.Lt(flow.Int(0), all.lo), flow.Lt(all.hi, flow.Len(runes))
	dots("the start of the query", all.before, left, true)
	dots("the end of the query", all.after, right, true)
	dots("the part before the highlight", pre.before, left, true)
	dots("the part after the highlight", post.after, right, true)
	c.Need(!pre.after && !hl.before && !hl.after && !post.before, "ellipsis", x.what, sh.where, "there are dots next to the highlight")
}

func F02(c *Ctx) {
	c.Rule("start: the highlight starts after as many characters as the text before the offset, which is in bytes, has")
	c.Rule("end: the highlight has as many characters as the length says, unless what is shown of the query ends before")
	c.Rule("indent: the offset for marking the highlight under the query is the number of characters shown before it, and the length is that of the position")
	c.Rule("marker: in the template for terminals the marks are under the highlight")
	c.Assume = append(c.Assume, "The offset of a position is not within a character (P06); its length is not negative.")
	c.formattings(func(x *formatting) {
		if !x.placed {
			return
		}
		c.guardAs("start", x.what, func() {
			for _, sh := range x.shown {
				for _, v := range x.views(sh) {
					x.highlight(sh, v)
				}
				x.marks(sh)
			}
		})
		c.Used(x.in)
	})
	c.AtLeast("start", 500)
	c.AtLeast("end", 500)
	c.AtLeast("indent", 500)
	c.AtLeast("marker", 4)
}

// highlight checks that the highlight is where the position says.
func (x *formatting) highlight(sh shown, v view) {
	c := &probe{c: x.c}
	defer c.report(v.st)
	hl, why := x.piece(v.vals["QueryHL"])
	pre, why2 := x.piece(v.vals["QueryPre"])
	all, why3 := x.piece(v.vals["Query"])
	if why+why2+why3 != "" || pre.lo == nil || all.lo == nil {
		c.Need(false, "start", x.what, sh.where, "the parts of the query are not understood: %s", why+why2+why3)
		return
	}
	if hl.lo == nil {
		hl.lo, hl.hi = pre.hi, pre.hi
	}
	runes := func(t *flow.Term) *flow.Term {
		return flow.Len(flow.App("runes", types.NewSlice(types.Typ[types.Rune]), t))
	}
	before := runes(flow.SliceOf(x.query, flow.Int(0), x.off, stringT))
	if v.st.F.Decide(flow.Le(flow.Len(x.query), x.off)) == flow.Yes {
		before = runes(x.query)
	}
	c.Need(same(v.st, hl.lo, before), "start", x.what, sh.where, "the highlight starts at %s, not after the text before the offset", short(hl.lo))
	end := flow.Add(before, x.len)
	ok := same(v.st, hl.hi, end) || same(v.st, hl.hi, all.hi) && v.st.F.Decide(flow.Le(all.hi, end)) == flow.Yes
	c.Need(ok, "end", x.what, sh.where, "the highlight ends at %s", short(hl.hi))
	c.Need(same(v.st, v.vals["HLStrOffset"], pre.count()), "indent", "offset of "+x.what, sh.where, "the offset of the highlight is %s, where %s is shown before it", short(v.vals["HLStrOffset"]), short(v.vals["QueryPre"]))
	n := v.vals["HLLen"]
	c.Need(same(v.st, n, x.len) || same(v.st, n, hl.count()), "indent", "length of "+x.what, sh.where, "the length of the highlight is %s", short(n))
}

func F03(c *Ctx) {
	c.Rule("label: errors, warnings and hints are labelled as such")
	c.Rule("engine: a formatter for HTML uses html/template and a plain one text/template, with the template it was given")
	c.Rule("escaping: nothing a template can show has a type that html/template does not escape")
	c.Rule("output: what is written is what the template writes")
	c.Rule("texts: the message and the query are given to the template as they are")
	c.Rule("terminal: the template for terminals shows the label and the message")
	c.formattings(func(x *formatting) {
		c.guardAs("engine", x.what, func() {
			for _, sh := range x.shown {
				x.honoured(sh)
			}
			x.written()
		})
		c.Used(x.in)
	})
	c.AtLeast("label", 16)
	c.AtLeast("engine", 16)
	c.AtLeast("escaping", 8)
	c.AtLeast("output", 16)
	c.AtLeast("terminal", 8)
}

var labels = map[string][]string{"ParseError": {"error"}, "MsgError": {"error"}, "MsgWarning": {"warning"}, "MsgHint": {"info", "hint"}}

func (x *formatting) honoured(sh shown) {
	c := x.c
	want := "text/template"
	if x.html {
		want = "html/template"
	}
	c.Need(sh.engine == want, "engine", x.what, sh.where, "%s is used", sh.engine)
	if !x.terminal {
		c.Need(sh.tmpl == x.tmpl, "engine", "template of "+x.what, sh.where, "the template is %v", sh.tmpl)
	}
	for _, v := range x.views(sh) {
		s, ok := v.vals["Type"].StrVal()
		c.Need(ok && slices.Contains(labels[x.kind], s), "label", x.what, sh.where, "the label is %s", short(v.vals["Type"]))
		c.Need(v.vals["Message"] == flow.Sym("text of the message", stringT), "texts", x.what, sh.where, "the message is %s", short(v.vals["Message"]))
		hl, ok := v.vals["HasHL"].BoolVal()
		c.Need(ok && hl == x.placed, "texts", "highlight of "+x.what, sh.where, "the message is said to have a position: %s", short(v.vals["HasHL"]))
	}
	plain := func(what string, t types.Type) {
		_, named := t.(*types.Named)
		n := types.TypeString(t, nil)
		c.Need(!named || !strings.HasPrefix(n, "html/template."), "escaping", what, sh.where, "%s has the type %s, which is not escaped", what, n)
	}
	for k, f := range sh.funcs {
		if f.Op == "iface" {
			f = f.Args[0]
		}
		sig, ok := f.Typ.Underlying().(*types.Signature)
		if !ok {
			flow.Undecided("the function %s of a template is not understood", k)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			plain("function "+k, sig.Results().At(i).Type())
		}
	}
	t := sh.data
	if t.Op == "iface" {
		t = t.Args[0]
	}
	ms := c.P.SSA.MethodSets.MethodSet(t.Typ)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if r := o.Type().(*types.Signature).Results(); o.Exported() && r.Len() > 0 {
			plain("method "+o.Name(), r.At(0).Type())
		}
	}
	v := t.Typ
	if p, ok := v.Underlying().(*types.Pointer); ok {
		v = p.Elem()
	}
	if s, ok := v.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Exported() {
				plain("field "+f.Name(), f.Type())
			}
		}
	}
	if x.terminal {
		for _, r := range x.template(sh) {
			text := flow.Concat(r.out...)
			label := false
			for _, l := range labels[x.kind] {
				if len(r.out) > 0 {
					s, ok := r.out[0].StrVal()
					label = label || ok && strings.HasPrefix(s, strings.ToUpper(l))
				}
			}
			c.Need(label, "terminal", "label of "+x.what, sh.where, "the output %s does not start with the label", short(text))
			c.Need(has(r.out, flow.Sym("text of the message", stringT)), "terminal", "message of "+x.what, sh.where, "the output %s does not have the message", short(text))
			q := has(r.out, x.query)
			for _, o := range r.out {
				p, why := x.piece(o)
				q = q || why == "" && p.lo != nil
			}
			c.Need(q || !x.placed, "terminal", "query of "+x.what, sh.where, "the output %s does not have the query", short(text))
		}
	}
}

// written checks that what is returned is what the template wrote.
func (x *formatting) written() {
	for _, r := range x.sprint {
		if r.Panic || r.St.F.Decide(flow.Sym("template can be executed", boolT)) != flow.Yes {
			continue
		}
		x.c.Need(r.Val == output, "output", x.what, x.c.P.Where(r.Pos), "the text is %s", short(r.Val))
	}
}
