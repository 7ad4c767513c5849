package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"
)

// whole is a query of several tests, built without leaving anything unknown.
type whole struct {
	*matching
	what string
	// shape is the tree in the order of its nodes, with the number of operands
	shape []int
	parts []entry // in the same order
	spec  func(st *flow.State) *flow.Formula
}

// entry is what the name of a part of a query has to show: the connective, or
// the parts of a test.
type entry struct {
	kind  string
	node  *flow.Term
	shows []*flow.Term
}

// wholes are queries of several tests, with which it shows that the parts of a
// query are built and evaluated independently of each other.
func (c *Ctx) wholes() []*whole {
	type part struct {
		node    *flow.Term
		f       func(st *flow.State) *flow.Formula
		entries []entry
	}
	var out []*whole
	add := func(what string, build func(w *whole, st *flow.State) part) {
		w := &whole{matching: c.newMatching(), what: what}
		w.in.Recurse = true
		st := w.in.NewState()
		p := build(w, st)
		w.tree, w.spec, w.parts, w.start = p.node, p.f, p.entries, st
		out = append(out, w)
	}
	n := 0
	path := func(st *flow.State, name string) *flow.Term {
		p := flow.Sym(name, types.NewSlice(stringT))
		st.Assume(flow.Le(flow.Int(1), flow.Len(p)), true)
		return p
	}
	test := func(w *whole, st *flow.State, op string, path *flow.Term, lit *flow.Term, f func(st *flow.State, l *flow.Term, s *valueShape) *flow.Formula) part {
		en := c.Type(ast, "ExprNode")
		n++
		obj := st.Alloc(fmt.Sprint("test ", n), en, flow.Zero(en))
		w.setField(st, obj, "Op", c.Const(ast, op))
		w.setField(st, obj, "Field", path)
		shows := []*flow.Term{path}
		if lit != nil {
			w.setField(st, obj, "RVals", w.list(lit))
			shows = append(shows, lit)
		}
		return part{flow.MakeIface(obj, types.NewPointer(en)), func(st *flow.State) *flow.Formula {
			l, s := w.denotedBy(st, path)
			return f(st, l, s)
		}, []entry{{node: obj, shows: shows}}}
	}
	exists := func(w *whole, st *flow.State, path *flow.Term) part {
		return test(w, st, "EXS", path, nil, func(st *flow.State, l *flow.Term, s *valueShape) *flow.Formula {
			return flow.T(flow.Le(flow.Int(1), flow.Len(l)))
		})
	}
	null := func(w *whole, st *flow.State, path *flow.Term) part {
		return test(w, st, "NUL", path, nil, func(st *flow.State, l *flow.Term, s *valueShape) *flow.Formula {
			if s == nil {
				return flow.T(flow.Bool(false))
			}
			return flow.FAnd(flow.T(flow.Le(flow.Int(1), flow.Len(l))), flow.FNot(flow.Exists(l, s.elem, func(v *flow.Term) *flow.Formula {
				return flow.FNot(w.isKind(flow.Field(v, s.kind, s.elem), "Null"))
			})))
		})
	}
	number := func(w *whole, st *flow.State, op string, path *flow.Term, name string) part {
		lit := w.literal("IntVal", name)
		v := w.numLit(lit, "IntVal")
		return test(w, st, op, path, lit, func(st *flow.State, l *flow.Term, s *valueShape) *flow.Formula {
			return w.someScalar(l, s, w.number(func(f *flow.Term) *flow.Formula {
				if op == "EQ" {
					return flow.T(flow.Ord(f, "==", v, true))
				}
				return flow.T(flow.Ord(f, relOf[op], v, true))
			}))
		})
	}
	node := func(w *whole, st *flow.State, kind string, parts ...part) part {
		t := c.Type(ast, kind)
		n++
		obj := st.Alloc(fmt.Sprint(kind, " ", n), t, flow.Zero(t))
		i := 0
		s := t.Underlying().(*types.Struct)
		for k := 0; k < s.NumFields(); k++ {
			if types.IsInterface(s.Field(k).Type()) {
				w.in.SetField(st, obj, k, parts[i].node)
				i++
			}
		}
		entries := []entry{{kind: kind}}
		for _, p := range parts {
			entries = append(entries, p.entries...)
		}
		return part{flow.MakeIface(obj, types.NewPointer(t)), func(st *flow.State) *flow.Formula {
			var fs []*flow.Formula
			for _, p := range parts {
				fs = append(fs, p.f(st))
			}
			switch kind {
			case "AndNode":
				return flow.FAnd(fs...)
			case "OrNode":
				return flow.FOr(fs...)
			}
			return flow.FNot(fs[0])
		}, entries}
	}
	add("(a:exists AND a:null) OR NOT b:exists", func(w *whole, st *flow.State) part {
		w.shape = []int{2, 2, 0, 0, 1, 0}
		a, b := path(st, "path a"), path(st, "path b")
		return node(w, st, "OrNode", node(w, st, "AndNode", exists(w, st, a), null(w, st, a)), node(w, st, "NotNode", exists(w, st, b)))
	})
	add("a:<x AND a:<y", func(w *whole, st *flow.State) part {
		w.shape = []int{2, 0, 0}
		a := path(st, "path a")
		return node(w, st, "AndNode", number(w, st, "LT", a, "x"), number(w, st, "LT", a, "y"))
	})
	add("NOT NOT (a:x OR b:>=x)", func(w *whole, st *flow.State) part {
		w.shape = []int{1, 1, 2, 0, 0}
		a, b := path(st, "path a"), path(st, "path b")
		return node(w, st, "NotNode", node(w, st, "NotNode", node(w, st, "OrNode", number(w, st, "EQ", a, "x"), number(w, st, "GTE", b, "x"))))
	})
	return out
}

// denotedBy returns the values found for a path, nil if none were looked for.
func (m *matching) denotedBy(st *flow.State, path *flow.Term) (*flow.Term, *valueShape) {
	list, shape := flow.Nil, (*valueShape)(nil)
	for _, e := range allEvents(st) {
		if m.resolver(e.Name) == nil {
			continue
		}
		mine := false
		for _, a := range e.Args {
			mine = mine || a == path
		}
		if !mine {
			continue
		}
		if l, s := findValues(e.Res, e.Res.Typ, 0); l != nil {
			list, shape = l, s
		}
	}
	return list, shape
}

// reportTree checks that a report has the shape of the query and returns the
// counters in it.
func (w *whole) reportTree(rule string) {
	c := w.c
	rt := c.Type("jsonmatcher", "MatchStats")
	where := c.P.Where(w.stats.Pos())
	for _, r := range w.compile(rule, w.what) {
		before := len(r.St.Events())
		for _, q := range w.in.CallFn(r.St.Clone(), w.stats, flow.Ext(r.Val, 0, nil)) {
			if q.Panic {
				c.Bad(rule, w.what, c.P.Where(q.Pos), "reading the statistics of %s can panic: %s", w.what, q.Why)
				continue
			}
			seen := map[*flow.Term]int{}
			var shape []int
			var names []*flow.Term
			var walk func(v *flow.Term)
			walk = func(v *flow.Term) {
				if v.Op != "obj" {
					c.Bad(rule, w.what, where, "an entry of the report of %s is %s", w.what, short(v))
					return
				}
				rep := w.in.Load(q.St, v)
				names = append(names, flow.FieldNamed(rep, "NodeName", rt))
				for _, f := range []string{"TimesChecked", "TimesMatched"} {
					x := flow.FieldNamed(rep, f, rt)
					for _, e := range q.St.Events()[before:] {
						if e.Res == x && strings.HasSuffix(e.Name, ".Load") {
							seen[e.Args[0]]++
						}
					}
				}
				kids := flow.Segs(w.in.ListOf(q.St, flow.FieldNamed(rep, "Children", rt)))
				shape = append(shape, len(kids))
				for _, k := range kids {
					if k.Op != "seg:e" {
						c.Bad(rule, w.what, where, "an entry of the report of %s is %s", w.what, short(k))
						return
					}
					walk(k.Args[0])
				}
			}
			walk(q.Val)
			c.Need(fmt.Sprint(shape) == fmt.Sprint(w.shape), rule, w.what, where, "the entries of the report of %s have %v entries instead of %v", w.what, shape, w.shape)
			if len(names) == len(w.parts) {
				w.names(names, where)
			}
			c.Need(len(seen) == 2*len(w.shape), rule, w.what, where, "the report of %s shows %d different counters for %d parts: parts share counters, when %s", w.what, len(seen), len(w.shape), trim(q.St.F.String()))
		}
	}
	c.Used(w.in)
}

// names checks that the entries of a report name the parts of the query.
func (w *whole) names(names []*flow.Term, where string) {
	c := w.c
	const rule = "names"
	kinds := map[string]string{}
	for i, p := range w.parts {
		if p.kind == "" {
			for _, x := range p.shows {
				c.Need(names[i].Mentions(func(t *flow.Term) bool { return t == x || t == p.node }), rule, w.what, where, "a test in the report of %s is called %s, which does not show %s", w.what, short(names[i]), short(x))
			}
			continue
		}
		n, ok := names[i].StrVal()
		if !c.Need(ok && n != "", rule, p.kind, where, "a %s in the report of %s is called %s", p.kind, w.what, short(names[i])) {
			continue
		}
		c.Need(kinds[n] == "" || kinds[n] == p.kind, rule, p.kind, where, "%s and %s have the same name %q in the report", kinds[n], p.kind, n)
		kinds[n] = p.kind
	}
}

// counters returns the counters reported for the parts of the query in their
// order, the checked one first.
func (w *whole) counters(rule string, st *flow.State, matcher *flow.Term) [][][2]*flow.Term {
	rt := w.c.Type("jsonmatcher", "MatchStats")
	var out [][][2]*flow.Term
	before := len(st.Events())
	for _, q := range w.in.CallFn(st.Clone(), w.stats, matcher) {
		if q.Panic {
			continue // reported by M08 and M11
		}
		var ks [][2]*flow.Term
		var walk func(v *flow.Term)
		walk = func(v *flow.Term) {
			rep := w.in.Load(q.St, v)
			var k [2]*flow.Term
			for i, f := range []string{"TimesChecked", "TimesMatched"} {
				x := flow.FieldNamed(rep, f, rt)
				for _, e := range q.St.Events()[before:] {
					if e.Res == x && strings.HasSuffix(e.Name, ".Load") {
						k[i] = e.Args[0]
					}
				}
			}
			ks = append(ks, k)
			for _, s := range flow.Segs(w.in.ListOf(q.St, flow.FieldNamed(rep, "Children", rt))) {
				if s.Op == "seg:e" {
					walk(s.Args[0])
				}
			}
		}
		walk(q.Val)
		out = append(out, ks)
	}
	return out
}

// counts checks that the parts of a query are counted with each other: what is
// counted for a connective follows from what is counted for its operands.
func (w *whole) counts(rule string) {
	c := w.c
	where := c.P.Where(w.match.Pos())
	valid := flow.App("encoding/json.Valid", boolT, w.doc)
	for _, o := range w.run(rule, w.what) {
		if o.st.F.Decide(valid) == flow.No {
			continue
		}
		evs := o.st.Events()[o.compile:]
		for _, ks := range w.counters(rule, o.st, o.matcher) {
			if !c.Need(len(ks) == len(w.shape), rule, w.what, where, "the report of %s has %d entries instead of %d", w.what, len(ks), len(w.shape)) {
				continue
			}
			n := make([][2]int, len(ks))
			for i, k := range ks {
				for j := range k {
					if k[j] != nil {
						n[i][j], _, _ = increments(evs, k[j])
					}
				}
			}
			next := 0
			var part func(evaluated bool)
			part = func(evaluated bool) {
				i := next
				next++
				name := fmt.Sprintf("%s, part %d", w.what, i+1)
				checked, matched := n[i][0], n[i][1]
				c.Need(checked <= 1 && matched <= checked, rule, name, where, "one match evaluates %s %d times with %d successes", name, checked, matched)
				if !evaluated {
					c.Need(checked == 0, rule, name, where, "%s is counted although what it is part of is not", name)
				}
				var yes, no int
				for k := 0; k < w.shape[i]; k++ {
					ch := n[next]
					yes += ch[1]
					no += ch[0] - ch[1]
					part(checked > 0)
				}
				if checked == 0 || w.shape[i] == 0 {
					return
				}
				ok := false
				switch kind := w.parts[i].kind; {
				case kind == "NotNode":
					ok = matched == no && no+yes == 1
				case kind == "AndNode" && matched > 0:
					ok = yes == 2
				case kind == "AndNode":
					ok = no > 0
				case matched > 0:
					ok = yes > 0
				default:
					ok = no == 2
				}
				c.Need(ok, rule, name, where, "%s is counted with %d successes, its operands with %d successes and %d failures, when %s", name, matched, yes, no, trim(o.st.F.String()))
			}
			part(true)
			c.Need(n[0][0] == 1, rule, w.what, where, "one match counts %s %d times", w.what, n[0][0])
		}
	}
}
