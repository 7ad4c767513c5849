package checks

import (
	"go/types"
	"strings"

	"aqlverify/flow"
)

func init() {
	All["M01"] = M01
	All["M06"] = M06
	All["M04"] = M04
	All["M07"] = M07
	All["M10"] = M10
	All["M11"] = M11
}

// connective prepares a matching of a tree whose root is a connective with
// arbitrary operands. The operands' own matchers are those the builder returns
// for them, and evaluating them has an unknown outcome.
func (c *Ctx) connective(kind string) (m *matching, operands []*flow.Term) {
	m = c.newMatching()
	t := c.Type(ast, kind)
	node := c.Type(ast, "Node")
	st := m.in.NewState()
	obj := st.Alloc(kind, t, flow.Zero(t))
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), node) {
			x := flow.Sym(kind+"."+s.Field(i).Name(), node)
			operands = append(operands, x)
			m.in.SetField(st, obj, i, x)
			st.Assume(flow.Eq(x, flow.Nil), false)
		}
	}
	m.rvals = flow.Nil
	m.tree = flow.MakeIface(obj, types.NewPointer(t))
	m.start = st
	m.in.Uni.NonNil = func(x *flow.Term) bool { return x.Op == "rec" }
	m.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if !strings.HasPrefix(call.Name, "invoke (github.com/flowchartsman/aql/jsonmatcher.") {
			return nil, false
		}
		recv := call.Args[0]
		for i, o := range operands {
			if recv.Op == "rec" && recv.Mentions(func(x *flow.Term) bool { return x == o }) {
				r := call.Sig.Results()
				if r.Len() != 1 {
					return nil, false
				}
				name := "report"
				if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					name = "outcome"
				}
				args := append([]*flow.Term{flow.Int(int64(i))}, call.Args[1:]...)
				v := flow.App(name, r.At(0).Type(), args...)
				st.Emit(&flow.Event{Name: name, Args: args, Res: v, Pos: call.Pos})
				return []flow.Ret{{St: st, Val: v}}, true
			}
		}
		return nil, false
	}
	return m, operands
}

var connectives = []struct {
	kind string
	n    int
	f    func(a, b *flow.Formula) *flow.Formula
}{
	{"AndNode", 2, func(a, b *flow.Formula) *flow.Formula { return flow.FAnd(a, b) }},
	{"OrNode", 2, func(a, b *flow.Formula) *flow.Formula { return flow.FOr(a, b) }},
	{"NotNode", 1, func(a, b *flow.Formula) *flow.Formula { return flow.FNot(a) }},
}

// M01 checks the connectives.
func M01(c *Ctx) {
	c.Rule("for each connective with arbitrary operands, on every path through compiling and matching: the result is the truth function of the operands' outcomes for the same document")
	for _, k := range connectives {
		m, ops := c.connective(k.kind)
		if len(ops) != k.n {
			c.Bad("connective", k.kind, "", "has %d operands", len(ops))
			continue
		}
		of := func(i int) *flow.Formula {
			return flow.T(flow.App("outcome", boolT, flow.Int(int64(i)), m.doc))
		}
		m.compare("connective", k.kind, func(st *flow.State) *flow.Formula { return k.f(of(0), of(1)) })
	}
	c.AtLeast("connective", 3)

	c.Rule("for queries of several parts, built and evaluated as a whole: the outcome is the combination of what each test says about its own field and argument")
	for _, w := range c.wholes() {
		w.compare("whole queries", w.what, w.spec)
	}
	c.AtLeast("whole queries", 3)
}

// M06 checks exists and null.
func M06(c *Ctx) {
	c.Rule("exists: result true ⇔ the path denotes a value; null: result true ⇔ it denotes a value and none that is not null; on every path through compiling and matching")
	m := c.newMatching()
	m.test(c.Const(ast, "EXS"), flow.Nil)
	m.compare("exists", "exists test", func(st *flow.State) *flow.Formula {
		l, _, _ := m.denoted(st)
		return flow.T(flow.Le(flow.Int(1), flow.Len(l)))
	})
	n := c.newMatching()
	n.test(c.Const(ast, "NUL"), flow.Nil)
	n.compare("null", "null test", func(st *flow.State) *flow.Formula {
		l, s, _ := n.denoted(st)
		if s == nil {
			return flow.T(flow.Bool(false))
		}
		return flow.FAnd(flow.T(flow.Le(flow.Int(1), flow.Len(l))), flow.FNot(flow.Exists(l, s.elem, func(v *flow.Term) *flow.Formula {
			return flow.FNot(n.isKind(flow.Field(v, s.kind, s.elem), "Null"))
		})))
	})
	c.AtLeast("exists", 1)
	c.AtLeast("null", 1)
	c.ownField("lookup arguments")
	c.denotation()
}

// M04 checks for every kind of literal which values are looked at.
func M04(c *Ctx) {
	c.Rule("for one literal of each kind: the result is true ⇔ some scalar among the values and the elements of array values can be read as the literal's kind and matches; the path given to the value lookup is the field of the test and the document is the one being matched")
	for _, kind := range literalKinds {
		m := c.equalityTest("EQ", kind)
		m.compare("scalars considered", "field EQ "+kind, m.specs([]string{kind})...)
	}
	m := c.newMatching()
	lit := m.literal("IntVal", "literal")
	m.test(c.Const(ast, "LT"), m.list(lit))
	v := m.numLit(lit, "IntVal")
	m.compare("scalars considered", "field LT IntVal", func(st *flow.State) *flow.Formula {
		l, s, _ := m.denoted(st)
		return m.someScalar(l, s, m.number(func(f *flow.Term) *flow.Formula { return flow.T(flow.Ord(f, "<", v, true)) }))
	})
	c.AtLeast("scalars considered", 8)
	m.lookups("lookup arguments")
	c.AtLeast("lookup arguments", 1)
	c.denotation()
}

// lookups requires that values are looked for in the document under the path of
// the test.
func (m *matching) lookups(rule string) {
	outs := m.run(rule, "field LT IntVal")
	for _, o := range outs {
		for _, e := range allEvents(o.st) {
			fn := m.resolver(strings.TrimPrefix(e.Name, ""))
			if fn == nil {
				continue
			}
			hasPath, hasDoc, other := false, false, ""
			for _, a := range e.Args {
				switch {
				case a == m.path:
					hasPath = true
				case a == m.doc:
					hasDoc = true
				default:
					if t := a.Typ; t != nil {
						switch types.TypeString(t.Underlying(), nil) {
						case "[]string", "[]byte":
							other = short(a)
						}
					}
				}
			}
			m.c.Need(hasPath && hasDoc && other == "", rule, "call of "+fn.Name(), m.c.P.Where(e.Pos), "looks for values with %v instead of the field of the test in the document", e.Args)
		}
	}
}

// everyTree runs f for a test of every operator and every connective.
func (c *Ctx) everyTree(f func(m *matching, what string)) {
	for _, op := range []string{"EXS", "NUL"} {
		m := c.newMatching()
		m.test(c.Const(ast, op), flow.Nil)
		f(m, "field "+op)
	}
	for _, op := range []string{"LT", "LTE", "GT", "GTE", "BET"} {
		m := c.newMatching()
		if op == "BET" {
			m.test(c.Const(ast, op), m.list(m.literal("IntVal", "low"), m.literal("FloatVal", "high")))
		} else {
			m.test(c.Const(ast, op), m.list(m.literal("TimeVal", "literal")))
		}
		f(m, "field "+op)
	}
	for _, op := range []string{"EQ", "SIM"} {
		for _, kind := range literalKinds {
			if op == "SIM" && kind != "StringVal" && kind != "RegexpVal" && kind != "BoolVal" {
				continue
			}
			f(c.equalityTest(op, kind), "field "+op+" "+kind)
		}
	}
	for _, k := range connectives {
		m, _ := c.connective(k.kind)
		f(m, k.kind)
	}
}

// M07 checks the validation of documents.
func M07(c *Ctx) {
	c.Rule("on every path through matching: the document is found invalid and the result is false with an error before anything is evaluated or recorded, or it is found valid and the error is nil")
	rule := "validation"
	c.everyTree(func(m *matching, what string) {
		valid := flow.App("encoding/json.Valid", boolT, m.doc)
		for _, o := range m.run(rule, what) {
			where := c.P.Where(m.match.Pos())
			isErr := o.st.F.Decide(flow.Eq(o.err, flow.Nil)).Not()
			switch o.st.F.Decide(valid) {
			case flow.No:
				c.Need(isErr == flow.Yes, rule, what, where, "an invalid document gives the error %s", short(o.err))
				c.Need(o.st.F.Decide(o.matched) == flow.No, rule, what, where, "an invalid document gives the outcome %s", short(o.matched))
				n := len(o.st.Events()) - o.compile
				c.Need(n == 0, rule, what, where, "an invalid document is evaluated: %d calls before the error", n)
			case flow.Yes:
				c.Need(isErr == flow.No, rule, what, where, "a valid document can give the error %s", short(o.err))
			default:
				c.Bad(rule, what, where, "a result is returned without finding out whether the document is valid JSON")
			}
		}
	})
	c.AtLeast(rule, 40)
}

// counters are the addresses of the counters of a node.
type counters struct {
	checked, matched *flow.Term
	order            int // position of the load of matched minus that of checked
	children         *flow.Term
	report           *flow.Term
}

// reports analyses reading the statistics of a compiled matcher.
func (m *matching) reports(rule, what string, st *flow.State, matcher *flow.Term) []counters {
	c := m.c
	var out []counters
	rt := c.Type("jsonmatcher", "MatchStats")
	before := len(st.Events())
	for _, r := range m.in.CallFn(st.Clone(), m.stats, matcher) {
		if r.Panic {
			c.Bad(rule, what, c.P.Where(r.Pos), "reading the statistics of %s can panic: %s", what, r.Why)
			continue
		}
		if r.Val.Op != "obj" {
			c.Bad(rule, what, c.P.Where(m.stats.Pos()), "the statistics of %s are %s instead of a new report", what, short(r.Val))
			continue
		}
		k := counters{report: r.Val}
		rep := m.in.Load(r.St, r.Val)
		load := func(field string) (*flow.Term, int) {
			v := flow.FieldNamed(rep, field, rt)
			for i, e := range r.St.Events()[before:] {
				if e.Res == v && strings.HasSuffix(e.Name, ".Load") {
					return e.Args[0], i
				}
			}
			c.Bad(rule, what, c.P.Where(m.stats.Pos()), "%s of %s is %s instead of the value of a counter", field, what, short(v))
			return nil, 0
		}
		var a, b int
		k.checked, a = load("TimesChecked")
		k.matched, b = load("TimesMatched")
		k.order = b - a
		k.children = m.in.ListOf(r.St, flow.FieldNamed(rep, "Children", rt))
		if k.checked != nil && k.matched != nil {
			out = append(out, k)
		}
	}
	return out
}

// increments returns the increments of a counter on a path of matching, and
// whether one can happen in a loop.
func increments(evs []*flow.Event, addr *flow.Term) (n int, first int, odd string) {
	first = -1
	inc := func(e *flow.Event) (int, string) {
		if len(e.Args) == 0 || e.Args[0] != addr {
			return 0, ""
		}
		m := e.Name[strings.LastIndex(e.Name, ".")+1:]
		switch {
		case m == "Inc":
			return 1, ""
		case m == "Add" && len(e.Args) == 2:
			if k, ok := e.Args[1].IntVal(); ok {
				return int(k), ""
			}
			return 0, "adds " + short(e.Args[1])
		case m == "Load":
			return 0, ""
		}
		return 0, "is changed by " + m
	}
	var inLoop func(l *flow.LoopRun) string
	inLoop = func(l *flow.LoopRun) string {
		for _, t := range l.L.Trans {
			for _, e := range t.Evs {
				if e.Run != nil {
					if s := inLoop(e.Run); s != "" {
						return s
					}
				} else if k, o := inc(e); k != 0 || o != "" {
					return "is changed in a loop"
				}
			}
		}
		return ""
	}
	for i, e := range evs {
		if e.Run != nil {
			if s := inLoop(e.Run); s != "" {
				odd = s
			}
			continue
		}
		k, o := inc(e)
		if o != "" {
			odd = o
		}
		if k != 0 && first < 0 {
			first = i
		}
		n += k
	}
	return n, first, odd
}

// M10 checks the counters.
func M10(c *Ctx) {
	c.Rule("for every kind of node, on every path through matching a valid document: the counter reported as TimesChecked is incremented exactly once, the one reported as TimesMatched exactly once if the result is true and not at all if it is false; both belong to objects created when compiling that node, and no counter of an operand is changed other than by evaluating it")
	rule := "counters"
	c.everyTree(func(m *matching, what string) {
		valid := flow.App("encoding/json.Valid", boolT, m.doc)
		for _, o := range m.run(rule, what) {
			if o.st.F.Decide(valid) == flow.No {
				continue
			}
			where := c.P.Where(m.match.Pos())
			for _, v := range []bool{true, false} {
				s := o.st.Clone()
				if !s.Assume(o.matched, v) {
					continue
				}
				ks := m.reports(rule, what, s, o.matcher)
				if len(ks) == 0 {
					c.Bad(rule, what, where, "no counters of %s are reported", what)
				}
				for _, k := range ks {
					evs := s.Events()[o.compile:]
					want := 0
					if v {
						want = 1
					}
					for _, x := range []struct {
						name string
						addr *flow.Term
						want int
					}{{"checked", k.checked, 1}, {"matched", k.matched, want}} {
						n, _, odd := increments(evs, x.addr)
						c.Need(odd == "", rule, what+" "+x.name, where, "the %s counter of %s %s", x.name, what, odd)
						c.Need(n == x.want, rule, what+" "+x.name, where, "the %s counter of %s grows by %d on a path with outcome %v", x.name, what, n, v)
						c.Need(flow.RootOf(x.addr).Op == "obj", rule, what+" "+x.name, where, "the %s counter of %s is shared: %s", x.name, what, short(x.addr))
					}
					c.Need(k.checked != k.matched, rule, what, where, "both counters of %s are the same", what)
					for _, e := range allEvents(s) {
						if m := e.Name[strings.LastIndex(e.Name, ".")+1:]; strings.Contains(e.Name, "atomic.") && m != "Load" && len(e.Args) > 0 && flow.RootOf(e.Args[0]).Op != "obj" {
							c.Bad(rule, what, c.P.Where(e.Pos), "evaluating %s changes a counter of another part: %s of %s", what, m, short(e.Args[0]))
						}
					}
				}
			}
		}
	})
	c.AtLeast(rule, 200)

	c.Rule("in queries of several tests, on every path of a match: what is counted for a connective follows from what is counted for its operands, NOT evaluates its operand, and no part is counted twice or without what it is part of")
	for _, w := range c.wholes() {
		c.guardAs("parts together", w.what, func() { w.counts("parts together") })
	}
	c.AtLeast("parts together", 12)
}

// M11 checks the statistics report.
func M11(c *Ctx) {
	c.Rule("for every kind of node: the report is a new object with the node's two counters and the reports of exactly its operands in order; the matched counter is read before the checked one and incremented after it")
	c.Rule("names: the name of a connective is a text of its own and that of a test is made from the test")
	rule := "report"
	c.everyTree(func(m *matching, what string) {
		n := 0
		for _, k := range connectives {
			if k.kind == what {
				n = k.n
			}
		}
		for _, r := range m.compile(rule, what) {
			mt := flow.Ext(r.Val, 0, nil)
			where := c.P.Where(m.stats.Pos())
			ks := m.reports(rule, what, r.St, mt)
			if len(ks) == 0 {
				c.Bad(rule, what, where, "no report of %s", what)
			}
			for _, k := range ks {
				c.Need(k.order < 0, rule, what+" order", where, "the checked counter of %s is read before the matched one: a report can show more successes than evaluations", what)
				segs := flow.Segs(k.children)
				c.Need(len(segs) == n, rule, what+" children", where, "the report of %s has %d entries for its %d operands: %s", what, len(segs), n, short(k.children))
				for i, s := range segs {
					want := flow.App("report", nil, flow.Int(int64(i)))
					c.Need(s.Op == "seg:e" && s.Args[0] == want, rule, what+" children", where, "entry %d of the report of %s is %s", i, what, short(s))
				}
			}
		}
		for _, o := range m.run(rule, what) {
			for _, k := range m.reports(rule, what, o.st, o.matcher) {
				evs := o.st.Events()[o.compile:]
				_, a, _ := increments(evs, k.checked)
				_, b, _ := increments(evs, k.matched)
				if b >= 0 {
					c.Need(a >= 0 && a < b, rule, what+" order", c.P.Where(m.match.Pos()), "the matched counter of %s is incremented before the checked one", what)
				}
			}
		}
	})
	c.AtLeast(rule, 60)

	c.Rule("for queries of several parts, built as a whole: the report has the shape of the query and no counter in it belongs to two parts")
	for _, w := range c.wholes() {
		c.guardAs("separate counters", w.what, func() { w.reportTree("separate counters") })
	}
	c.AtLeast("separate counters", 6)
	c.AtLeast("names", 12)
}
