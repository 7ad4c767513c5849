package checks

import (
	"fmt"
	"go/types"
	"maps"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

// either tries a general analysis and, if that does not succeed, one for data of
// limited size, which does not depend on how the code is organised. In the
// second, numbers that the code compares with have to be within these sizes.
func (c *Ctx) either(rule string, general, limited func()) {
	viol, count, seen, limits := len(c.Viol), maps.Clone(c.Count), maps.Clone(c.seen), c.limits
	c.limits = maps.Clone(limits)
	c.maxSteps = 100_000
	ok := c.succeeds(rule, general)
	c.maxSteps = 0
	if ok && len(c.Viol) == viol {
		return
	}
	c.Viol, c.Count, c.seen = c.Viol[:viol:viol], count, seen
	c.limits = map[*ssa.BinOp]*flow.Limit{}
	c.guard(rule, limited)
	c.Limits()
	c.limits = limits
}

// succeeds tells whether an analysis comes to an end.
func (c *Ctx) succeeds(rule string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	c.guard(rule, f)
	return true
}

// lookup is how values are found in documents for paths of some length, with
// arrays of some length.
type lookup struct {
	c        *Ctx
	m        *matching
	in       *flow.Interp
	entry    *ssa.Function
	path     *flow.Term
	segments []*flow.Term
	elements int
}

var jsonBytes = types.NewSlice(types.Typ[types.Byte])

func (c *Ctx) limitedLookups(use func(l *lookup, st *flow.State, rs func() []flow.Ret)) {
	m := c.newMatching()
	for _, e := range c.entriesOf(c.resolvers()) {
		for _, size := range [][2]int{{1, 3}, {2, 2}, {3, 1}, {4, 1}} {
			l := &lookup{c: c, m: m, in: c.Interp(), entry: e, elements: size[1]}
			l.in.Unroll = 40
			l.in.Recurse = true
			l.in.Hook = l.hook
			var pt types.Type
			for _, p := range e.Params {
				if paramKind(p.Type()) == "path" {
					pt = p.Type()
				}
			}
			if pt == nil {
				flow.Undecided("%s has no path", e)
			}
			var segs []*flow.Term
			for i := 0; i < size[0]; i++ {
				s := flow.Sym(fmt.Sprint("segment ", i+1), stringT)
				l.segments = append(l.segments, s)
				segs = append(segs, flow.Elem(s))
			}
			l.path = flow.List(pt, segs...)
			st := l.in.NewState()
			use(l, st, func() []flow.Ret {
				return l.in.CallFn(st, e, resolverArgs(e, l.path, m.doc, flow.Nil)...)
			})
			c.Used(l.in)
		}
	}
}

// element is an element of an array.
func (l *lookup) element(array *flow.Term, i int) (data, kind *flow.Term) {
	e := flow.App(fmt.Sprintf("element %d", i+1), nil, array)
	return flow.JSONData(e), flow.JSONType(e, l.m.vt)
}

// hook goes through the elements of arrays.
func (l *lookup) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	if !strings.HasSuffix(call.Name, "jsonparser.ArrayEach") {
		return nil, false
	}
	if len(call.Args) > 2 && flow.Len(in.ListOf(st, call.Args[2])) != flow.Int(0) {
		flow.Undecided("%s is given keys", call.Name)
	}
	array := flow.JSONArray(in.ListOf(st, call.Args[0]))
	cb := call.Args[1]
	if cb.Fn == nil {
		flow.Undecided("callback of %s is not a function of the program", call.Name)
	}
	var out []flow.Ret
	sts := []*flow.State{st}
	for n := 0; n <= l.elements; n++ {
		for _, st := range sts {
			if s := st.Clone(); s.Assume(flow.IEq(flow.Len(array), flow.Int(int64(n))), true) {
				out = append(out, flow.Ret{St: s, Val: flow.Tuple(flow.Sym("offset", types.Typ[types.Int]), flow.Nil)})
			}
		}
		if n == l.elements {
			break
		}
		data, kind := l.element(array, n)
		args := []*flow.Term{data, kind, flow.Sym("offset", types.Typ[types.Int]), flow.Nil}
		var next []*flow.State
		for _, st := range sts {
			if !st.Assume(flow.Le(flow.Int(int64(n+1)), flow.Len(array)), true) {
				continue
			}
			for _, r := range in.CallValue(st, cb, args, call) {
				if r.Panic {
					out = append(out, r)
					continue
				}
				next = append(next, r.St)
			}
		}
		sts = next
	}
	return out, true
}

// found is a value in a document.
type found struct{ data, kind *flow.Term }

// denote returns the values of a path in a value.
func (l *lookup) denote(st *flow.State, segs []*flow.Term, data, kind *flow.Term) (out []found, why string) {
	m := l.m
	obj := st.F.Decide(flow.Eq(kind, m.kindConst("Object")))
	arr := st.F.Decide(flow.Eq(kind, m.kindConst("Array")))
	switch {
	case obj == flow.Yes:
		call := flow.App(jp+"Get", nil, data, flow.List(types.NewSlice(stringT), flow.Elem(segs[0])))
		child, ck := flow.Ext(call, 0, jsonBytes), flow.Ext(call, 1, m.vt)
		switch m.missing(st, call) {
		case flow.Yes:
			return nil, ""
		case flow.Maybe:
			return nil, "without finding out whether the key is absent"
		}
		if len(segs) == 1 {
			return []found{{child, ck}}, ""
		}
		return l.denote(st, segs[1:], child, ck)
	case arr == flow.Yes:
		array := flow.JSONArray(data)
		for i := 0; i < l.elements; i++ {
			switch st.F.Decide(flow.Le(flow.Int(int64(i+1)), flow.Len(array))) {
			case flow.No:
				return out, ""
			case flow.Maybe:
				return nil, "without going through the array"
			}
			d, k := l.element(array, i)
			switch st.F.Decide(flow.Eq(k, m.kindConst("Object"))) {
			case flow.Maybe:
				return nil, "whatever the type of an element"
			case flow.Yes:
				vs, why := l.denote(st, segs, d, k)
				if why != "" {
					return nil, why
				}
				out = append(out, vs...)
			}
		}
		return out, ""
	case obj == flow.No && arr == flow.No:
		return nil, ""
	}
	return nil, "whatever the type of the value"
}

// limitedDenotation checks which values short paths denote.
func (c *Ctx) limitedDenotation() {
	const rule = "values of a path"
	c.Rule("finding the values of paths of up to four segments in documents with arrays of up to three elements: exactly those of the definition; the code compares with no number beyond these sizes")
	c.limitedLookups(func(l *lookup, st *flow.State, rs func() []flow.Ret) {
		m := l.m
		what := fmt.Sprintf("%s for %d segments", prog.FnName(l.entry), len(l.segments))
		where := c.P.Where(l.entry.Pos())
		for _, q := range rs() {
			if q.Panic {
				c.Bad(rule, what, c.P.Where(q.Pos), "finding values can panic: %s", q.Why)
				continue
			}
			list, shape := listIn(l.in, q.St, q.Val, resultType(l.entry))
			if list == nil {
				c.Bad(rule, what, where, "no list of values in the result %s", short(q.Val))
				continue
			}
			list = l.in.ListOf(q.St, list)
			when := trim(q.St.F.String())
			root := flow.App(jp+"Get", nil, m.doc, flow.EmptyList)
			var want []found
			if m.missing(q.St, root) != flow.Yes {
				var why string
				if want, why = l.denote(q.St, l.segments, flow.Ext(root, 0, jsonBytes), flow.Ext(root, 1, m.vt)); why != "" {
					c.Bad(rule, what, where, "finds %s %s, when %s", short(list), why, when)
					continue
				}
			}
			var segs []*flow.Term
			if !isEmpty(q.St, list) {
				segs = flow.Segs(list)
			}
			ok := len(segs) == len(want)
			for i := 0; ok && i < len(segs); i++ {
				ok = segs[i].Op == "seg:e"
				if ok {
					v := segs[i].Args[0]
					d, k := flow.Field(v, shape.data, shape.elem), flow.Field(v, shape.kind, shape.elem)
					ok = q.St.F.Known(d) == q.St.F.Known(want[i].data) && q.St.F.Known(k) == q.St.F.Known(want[i].kind)
				}
			}
			c.Need(ok, rule, what, where, "finds %s instead of %v, when %s", short(list), want, when)
		}
	})
	c.AtLeast(rule, 100)
}

func listIn(in *flow.Interp, st *flow.State, v *flow.Term, typ types.Type) (*flow.Term, *valueShape) {
	if p, ok := typ.Underlying().(*types.Pointer); ok && v.Op == "obj" {
		return findValues(in.Load(st, v), p.Elem(), 0)
	}
	return findValues(v, typ, 0)
}

func resultType(f *ssa.Function) types.Type {
	rs := f.Signature.Results()
	if rs.Len() == 1 {
		return rs.At(0).Type()
	}
	return rs
}

// missing tells whether a lookup of a key has found nothing.
func (m *matching) missing(st *flow.State, call *flow.Term) flow.Tri {
	for _, x := range []flow.Tri{
		st.F.Decide(flow.Eq(flow.Ext(call, 0, jsonBytes), flow.Nil)),
		st.F.Decide(flow.Eq(flow.Ext(call, 3, nil), flow.Nil)).Not(),
		st.F.Decide(flow.Eq(flow.Ext(call, 1, m.vt), m.kindConst("NotExist"))),
	} {
		if x != flow.Maybe {
			return x
		}
	}
	return flow.Maybe
}
