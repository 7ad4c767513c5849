package checks

import (
	"go/types"
	"sort"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["M05"] = M05
}

// resolution is how the values of a path are found: some entry functions and one
// recursive function.
type resolution struct {
	entries []*ssa.Function
	walk    *ssa.Function
}

func paramKind(t types.Type) string {
	switch types.TypeString(t.Underlying(), nil) {
	case "[]string":
		return "path"
	case "[]byte":
		return "data"
	}
	if types.TypeString(t, nil) == jp+"ValueType" {
		return "kind"
	}
	return ""
}

// outerCalls returns which function calls which, closures counting for the
// function they are in.
func (c *Ctx) outerCalls() map[*ssa.Function]map[*ssa.Function]bool {
	outer := func(f *ssa.Function) *ssa.Function {
		for f != nil && f.Parent() != nil {
			f = f.Parent()
		}
		return f
	}
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for f, cs := range c.calls() {
		o := outer(f)
		if succ[o] == nil {
			succ[o] = map[*ssa.Function]bool{}
		}
		for _, x := range cs {
			if x.fn != nil {
				succ[o][outer(x.fn)] = true
			}
		}
	}
	return succ
}

// entriesOf returns the resolvers that are called by other functions.
func (c *Ctx) entriesOf(res map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	succ := c.outerCalls()
	for f := range res {
		called := false
		for g, hs := range succ {
			if hs[f] && !res[g] {
				called = true
			}
		}
		if called {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		c.Missing("a caller of the function that finds the values of a path")
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (c *Ctx) resolution() *resolution {
	res := c.resolvers()
	succ := c.outerCalls()
	r := &resolution{}
	for f := range res {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for h := range succ[g] {
				if !seen[h] && res[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		have := map[string]int{}
		for _, p := range f.Params {
			have[paramKind(p.Type())]++
		}
		if seen[f] && have["path"] == 1 && have["data"] == 1 && have["kind"] == 1 {
			if r.walk != nil && r.walk != f && !succ[f][r.walk] {
				continue
			}
			r.walk = f
		}
	}
	if r.walk == nil {
		c.Missing("a recursive function that finds the values of a path")
	}
	r.entries = c.entriesOf(res)
	return r
}

// args makes the arguments of a resolver.
func resolverArgs(f *ssa.Function, path, data, kind *flow.Term) []*flow.Term {
	var out []*flow.Term
	for _, p := range f.Params {
		switch paramKind(p.Type()) {
		case "path":
			out = append(out, path)
		case "data":
			out = append(out, data)
		case "kind":
			out = append(out, kind)
		default:
			out = append(out, flow.Sym("parameter "+p.Name(), p.Type()))
		}
	}
	return out
}

// M05 checks how the values of a path are found.
func M05(c *Ctx) {
	c.denotation()

	c.ownField("lookup arguments")
}

// ownField checks that the tests look at the values of their own field in the
// document given.
func (c *Ctx) ownField(rule string) {
	c.Rule("every lookup of a test is for its own field, in the document that is given, both unchanged")
	t := c.newMatching()
	lit := t.literal("IntVal", "literal")
	t.test(c.Const(ast, "LT"), t.list(lit))
	t.lookups(rule)
	e := c.equalityTest("EQ", "StringVal")
	e.lookups(rule)
	for _, op := range []string{"EXS", "NUL"} {
		x := c.newMatching()
		x.test(c.Const(ast, op), flow.Nil)
		x.lookups(rule)
	}
	c.AtLeast(rule, 2)
}

// denotation checks which values a path denotes.
func (c *Ctx) denotation() {
	c.either("values of a path", c.generalDenotation, c.limitedDenotation)
	c.Assume = append(c.Assume, "jsonparser.Get returns the value of a key of an object or reports that it is absent; jsonparser.ArrayEach calls its callback for every element in order")
}

// generalDenotation shows it step by step.
func (c *Ctx) generalDenotation() {
	m := c.newMatching()
	r := c.resolution()
	c.Rule("finding the values of a path: the entry looks at the root by its own type; then, by the type of the value: object: nothing if the key is absent, the child if it is the last segment, else the values of the rest of the path in the child; array: the values of the same path in each element that is an object, all elements, in order; anything else: nothing")
	get := func(d *flow.Term, keys ...*flow.Term) *flow.Term {
		l := flow.EmptyList
		if len(keys) > 0 {
			var segs []*flow.Term
			for _, k := range keys {
				segs = append(segs, flow.Elem(k))
			}
			l = flow.List(types.NewSlice(stringT), segs...)
		}
		return flow.App(jp+"Get", nil, d, l)
	}
	missing := m.missing
	bytes := types.NewSlice(types.Typ[types.Byte])

	// same compares two values under the facts of a state
	same := func(st *flow.State, a, b *flow.Term) bool {
		if a == b || st.F.Known(a) == st.F.Known(b) {
			return true
		}
		if a.Op == "rec" && b.Op == "rec" && a.Aux == b.Aux && len(a.Args) == len(b.Args) {
			for i := range a.Args {
				if a.Args[i] != b.Args[i] && st.F.Known(a.Args[i]) != st.F.Known(b.Args[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	// entries
	for _, e := range r.entries {
		if e == r.walk {
			c.Bad("root", e.Name(), c.P.Where(e.Pos()), "the root of the document is looked at with a type given by the caller")
			continue
		}
		rule := "root"
		in := c.Interp()
		in.Opaque = func(f *ssa.Function) bool { return f == r.walk }
		st := in.NewState()
		st.Assume(flow.Le(flow.Int(1), flow.Len(m.path)), true)
		for _, q := range in.CallFn(st, e, resolverArgs(e, m.path, m.doc, flow.Nil)...) {
			where := c.P.Where(e.Pos())
			if q.Panic {
				c.Bad(rule, e.Name(), c.P.Where(q.Pos), "finding values can panic: %s", q.Why)
				continue
			}
			l, _ := listIn(in, q.St, q.Val, resultType(e))
			if l == nil {
				c.Bad(rule, e.Name(), where, "no list of values in the result %s", short(q.Val))
				continue
			}
			l = in.ListOf(q.St, l)
			call := get(m.doc)
			want := flow.Rec(r.walk, resolverArgs(r.walk, m.path, flow.Ext(call, 0, bytes), flow.Ext(call, 1, m.vt)))
			switch {
			case isEmpty(q.St, l):
				c.Need(missing(q.St, call) == flow.Yes, rule, e.Name(), where, "no values are found although the document can have some, when %s", trim(q.St.F.String()))
			default:
				c.Need(same(q.St, oneList(l), want), rule, e.Name(), where, "finds %s instead of the values of the path in the root by its type", short(l))
			}
		}
		c.Used(in)
	}
	c.AtLeast("root", 1)

	// the walk
	in := c.Interp()
	w := r.walk
	p := flow.Sym("path", types.NewSlice(stringT))
	var pt types.Type
	for _, x := range w.Params {
		if paramKind(x.Type()) == "path" {
			pt = x.Type()
		}
	}
	p = flow.Sym("rest of the path", pt)
	d := flow.Sym("value", bytes)
	k := flow.Sym("kind of value", m.vt)
	rec := func(p, d, k *flow.Term) *flow.Term { return flow.Rec(w, resolverArgs(w, p, d, k)) }
	st := in.NewState()
	st.Assume(flow.Le(flow.Int(1), flow.Len(p)), true)
	rule := "values of a path"
	where := c.P.Where(w.Pos())
	what := w.Name()
	for _, q := range in.CallFn(st, w, resolverArgs(w, p, d, k)...) {
		if q.Panic {
			c.Bad(rule, what, c.P.Where(q.Pos), "finding values can panic: %s", q.Why)
			continue
		}
		l, shape := listIn(in, q.St, q.Val, resultType(w))
		if l == nil {
			c.Bad(rule, what, where, "no list of values in the result %s", short(q.Val))
			continue
		}
		l = in.ListOf(q.St, l)
		when := trim(q.St.F.String())
		obj := q.St.F.Decide(flow.Eq(k, m.kindConst("Object")))
		arr := q.St.F.Decide(flow.Eq(k, m.kindConst("Array")))
		switch {
		case obj == flow.Yes:
			call := get(d, flow.Item(p, 0, stringT))
			child, ck := flow.Ext(call, 0, bytes), flow.Ext(call, 1, m.vt)
			switch missing(q.St, call) {
			case flow.Yes:
				c.Need(isEmpty(q.St, l), rule, what+" absent key", where, "finds %s in an object without the key", short(l))
			case flow.No:
				switch q.St.F.Decide(flow.IEq(flow.Len(p), flow.Int(1))) {
				case flow.Yes:
					ok := l.Op == "list" && len(l.Args) == 1 && l.Args[0].Op == "seg:e"
					if ok {
						v := l.Args[0].Args[0]
						ok = same(q.St, flow.Field(v, shape.data, shape.elem), child) && same(q.St, flow.Field(v, shape.kind, shape.elem), ck)
					}
					c.Need(ok, rule, what+" last segment", where, "finds %s instead of the value of the key", short(l))
				case flow.No:
					want := rec(flow.SliceOf(p, flow.Int(1), flow.Len(p), pt), child, ck)
					c.Need(same(q.St, oneList(l), want), rule, what+" next segment", where, "finds %s instead of the values of the rest of the path in the value of the key", short(l))
				default:
					c.Bad(rule, what, where, "finds %s without looking whether segments remain, when %s", short(l), when)
				}
			default:
				c.Bad(rule, what, where, "finds %s in an object without finding out whether the key is absent, when %s", short(l), when)
			}
		case arr == flow.Yes:
			list := flow.JSONArray(d)
			if isEmpty(q.St, l) {
				none := q.St.F.Decide(flow.Le(flow.Len(list), flow.Int(0))) == flow.Yes
				c.Need(none, rule, what+" array", where, "finds nothing in an array, when %s", when)
				continue
			}
			ok := false
			if l.Op == "list" && len(l.Args) == 1 && l.Args[0].Op == "seg:c" {
				ok = true
				alts, complete := in.Comprehension(q.St, l.Args[0], list)
				c.Need(complete, rule, what+" array", where, "not every element of an array is looked at")
				for _, a := range alts {
					ek := flow.JSONType(a.Elem, m.vt)
					want := rec(p, flow.JSONData(a.Elem), m.kindConst("Object"))
					switch a.St.F.Decide(flow.Eq(ek, m.kindConst("Object"))) {
					case flow.Yes:
						good := len(a.Add) == 1 && a.Add[0].Op == "seg:s" && same(a.St, a.Add[0].Args[0], want)
						c.Need(good, rule, what+" element", where, "takes %v of an element that is an object instead of the values of the path in it", a.Add)
					case flow.No:
						c.Need(len(a.Add) == 0, rule, what+" element", where, "takes %v of an element that is not an object", a.Add)
					default:
						c.Bad(rule, what, where, "takes %v of an element whatever its type", a.Add)
					}
				}
			}
			c.Need(ok, rule, what+" array", where, "finds %s in an array", short(l))
		case obj == flow.No && arr == flow.No:
			c.Need(isEmpty(q.St, l), rule, what+" scalar", where, "finds %s in a value that is neither an object nor an array", short(l))
		default:
			c.Bad(rule, what, where, "finds %s whatever the type of the value, when %s", short(l), when)
		}
	}
	c.Used(in)
	c.AtLeast(rule, 6)
}

func isEmpty(st *flow.State, l *flow.Term) bool {
	return l.Op == "nil" || st.F.Known(l).Op == "nil" || l.Op == "list" && len(l.Args) == 0 || st.F.Decide(flow.Le(flow.Len(l), flow.Int(0))) == flow.Yes
}

// oneList returns x for a list that consists of the elements of x.
func oneList(l *flow.Term) *flow.Term {
	if l.Op == "list" && len(l.Args) == 1 && l.Args[0].Op == "seg:s" {
		return l.Args[0].Args[0]
	}
	return l
}
