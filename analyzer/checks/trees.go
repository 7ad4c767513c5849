package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"
)

// tree is a query tree of limited size.
type tree struct {
	kind string
	sub  []*tree
	node *flow.Term
}

func (t *tree) String() string {
	var ss []string
	for _, s := range t.sub {
		ss = append(ss, s.String())
	}
	if len(ss) == 0 {
		return "test"
	}
	return strings.TrimSuffix(t.kind, "Node") + "(" + strings.Join(ss, ",") + ")"
}

// tests returns the tests of the tree.
func (t *tree) tests() (out []*tree) {
	if len(t.sub) == 0 {
		return []*tree{t}
	}
	for _, s := range t.sub {
		out = append(out, s.tests()...)
	}
	return
}

func (t *tree) clone() *tree {
	c := &tree{kind: t.kind}
	for _, s := range t.sub {
		c.sub = append(c.sub, s.clone())
	}
	return c
}

// trees returns all trees of up to five nodes and some larger ones.
func trees() (out []*tree) {
	one := []string{"NotNode", "SubdocNode"}
	two := []string{"AndNode", "OrNode"}
	size := [][]*tree{nil, {{kind: "ExprNode"}}}
	for n := 2; n <= 5; n++ {
		var ts []*tree
		for _, k := range one {
			for _, s := range size[n-1] {
				ts = append(ts, &tree{kind: k, sub: []*tree{s.clone()}})
			}
		}
		for _, k := range two {
			for l := 1; l < n-1; l++ {
				for _, a := range size[l] {
					for _, b := range size[n-1-l] {
						ts = append(ts, &tree{kind: k, sub: []*tree{a.clone(), b.clone()}})
					}
				}
			}
		}
		size = append(size, ts)
	}
	for _, ts := range size {
		out = append(out, ts...)
	}
	// both sides of both sides, and long chains
	for _, k := range two {
		pair := func() *tree { return &tree{kind: k, sub: []*tree{{kind: "ExprNode"}, {kind: "ExprNode"}}} }
		for _, o := range two {
			out = append(out, &tree{kind: o, sub: []*tree{pair(), pair()}})
		}
		left, right := pair(), pair()
		for i := 0; i < 5; i++ {
			left = &tree{kind: k, sub: []*tree{left, {kind: "ExprNode"}}}
			right = &tree{kind: k, sub: []*tree{{kind: "ExprNode"}, right}}
		}
		out = append(out, left, right)
	}
	for _, k := range one {
		t := &tree{kind: "ExprNode"}
		for i := 0; i < 9; i++ {
			t = &tree{kind: k, sub: []*tree{t}}
		}
		out = append(out, t)
	}
	return out
}

// limitedTree prepares parsing of a query with such a tree; op is the operator
// of a test.
func (c *Ctx) limitedTree(t *tree, op func(t *tree) string) (*parsing, *flow.State) {
	p := c.newParsing()
	p.in.Recurse = true
	p.in.Unroll = 60
	m := &matching{c: c, in: p.in}
	st := p.in.NewState()
	n := 0
	var build func(t *tree)
	build = func(t *tree) {
		n++
		typ := c.Type(ast, t.kind)
		obj := st.Alloc(fmt.Sprint(t.kind, " ", n), typ, flow.Zero(typ))
		if t.kind == "ExprNode" {
			m.setField(st, obj, "Position", flow.Sym(fmt.Sprint("position ", n), c.Type(ast, "Pos")))
			m.setField(st, obj, "Op", c.Const(ast, op(t)))
			m.setField(st, obj, "Field", flow.Sym(fmt.Sprint("path ", n), types.NewSlice(stringT)))
		}
		t.node = flow.MakeIface(obj, types.NewPointer(typ))
		i := 0
		s := typ.Underlying().(*types.Struct)
		for f := 0; f < s.NumFields(); f++ {
			if types.IsInterface(s.Field(f).Type()) && i < len(t.sub) {
				build(t.sub[i])
				m.setField(st, obj, s.Field(f).Name(), t.sub[i].node)
				i++
			}
		}
		if i != len(t.sub) {
			c.Missing("operands of " + t.kind)
		}
	}
	build(t)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(t.node, flow.Nil)}} }
	return p, st
}

// walkedTrees checks in which order the nodes of trees of limited size are visited.
func (c *Ctx) walkedTrees(rule string) {
	c.Rule("for every tree of up to five nodes, and some larger ones: the sequence of visits is the one of the definition for each way the visits end, and so is the outcome; the code compares with no number beyond these sizes")
	c.manyValues()
	for _, t := range trees() {
		p, st := c.limitedTree(t, func(*tree) string { return "EXS" })
		p.visiting()
		v := p.visitor("visitor a")
		st.Assume(flow.IsType(v, types.NewPointer(c.Type("parser", "MessageVisitor"))), false)
		opts := p.options(st, []*flow.Term{v})
		what, where := t.String(), c.P.Where(p.parse.Pos())
		for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), opts) {
			if r.Panic {
				c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			es := visits(r.St)
			i := 0
			bad := ""
			var failure *flow.Term
			var walk func(t *tree) bool
			walk = func(t *tree) bool {
				if i == len(es) {
					bad = "is not visited"
					return false
				}
				e := es[i]
				i++
				if e.Args[1] != v || e.Args[2] != t.node {
					bad = "comes after " + short(e.Args[2])
					return false
				}
				switch way, _ := e.Args[0].StrVal(); way {
				case skip:
					return true
				case skipAll:
					return false
				case fails:
					failure = e.Res
					return false
				}
				for _, s := range t.sub {
					if !walk(s) {
						return false
					}
				}
				return true
			}
			walk(t)
			var ways []string
			for _, e := range es {
				w, _ := e.Args[0].StrVal()
				ways = append(ways, w)
			}
			c.Need(bad == "" && i == len(es), rule, what, where, "the visits of %s are not those of its nodes in order when they end with %s: %d of %d as expected, then a node %s", what, strings.Join(ways, ", "), i, len(es), bad)
			err := flow.Ext(r.Val, 1, nil)
			c.Need((failure != nil) == (r.St.F.Decide(flow.Eq(err, flow.Nil)) == flow.No), rule, what, where, "parsing returns the error %s when the visits of %s end with %s", short(err), what, strings.Join(ways, ", "))
		}
		c.Used(p.in)
	}
	c.AtLeast(rule, 500)
}

// validatesTrees checks that a test is refused wherever it is in a tree of
// limited size.
func (c *Ctx) validatesTrees(rule string) {
	c.Rule("for every tree of up to five nodes, and some larger ones: it is refused if one of its tests has too few arguments, whichever it is")
	c.manyValues()
	for _, t := range trees() {
		for i := range t.tests() {
			t := t.clone()
			wrong := t.tests()[i]
			p, st := c.limitedTree(t, func(x *tree) string {
				if x == wrong {
					return "EQ"
				}
				return "EXS"
			})
			for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
				what := fmt.Sprintf("test %d of %s", i+1, t)
				c.Need(!r.Panic && r.St.F.Decide(flow.Eq(flow.Ext(r.Val, 1, nil), flow.Nil)) == flow.No, rule, what, c.P.Where(p.parse.Pos()), "%s is not validated when %s", what, trim(r.St.F.String()))
			}
			c.Used(p.in)
		}
	}
	c.AtLeast(rule, 200)
}

// manyValues has a test of three values parsed for each operator, so that the
// numbers of values met by the validation are not all zero.
func (c *Ctx) manyValues() {
	p := c.newParsing()
	ws := []world{{st: p.in.NewState()}}
	for _, n := range []string{"one", "two", "three"} {
		ws = p.with(ws, "IntVal", n)
	}
	for _, w := range ws {
		var segs []*flow.Term
		for _, a := range w.args {
			segs = append(segs, flow.Elem(a.val))
		}
		for _, op := range operators {
			st := w.st.Clone()
			tree := p.node(st, c.Const(ast, op), flow.List(types.NewSlice(c.Type(ast, "Val")), segs...))
			p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
			p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil)
		}
	}
	c.Used(p.in)
}
