package checks

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"strings"

	"aqlverify/flow"
)

func init() {
	All["V01"] = V01
	All["V02"] = V02
}

const (
	gr       = "aqlgraph"
	graphviz = "github.com/goccy/go-graphviz"
)

// queryNode is a node of a query tree to be drawn.
type queryNode struct {
	kind   string
	kids   []*queryNode
	field  []*flow.Term
	op     *flow.Term
	vals   []*flow.Term
	valStr []*flow.Term
}

func (n *queryNode) count() int {
	k := 1
	for _, x := range n.kids {
		k += x.count()
	}
	return k
}

// drawing is one query tree being drawn.
type drawing struct {
	c     *Ctx
	in    *flow.Interp
	what  string
	root  *queryNode
	tests int
	rets  []flow.Ret
}

func (d *drawing) test(fields int, vals ...string) *queryNode {
	d.tests++
	n := &queryNode{kind: "ExprNode", op: flow.Sym(fmt.Sprintf("operator %d", d.tests), d.c.Type(ast, "Op"))}
	for i := 0; i < fields; i++ {
		n.field = append(n.field, flow.Sym(fmt.Sprintf("field %d of %d", i, d.tests), stringT))
	}
	for i, k := range vals {
		n.vals = append(n.vals, (&matching{c: d.c, in: d.in}).literal(k, fmt.Sprintf("value %d of %d", i, d.tests)))
	}
	return n
}

func join(kind string, kids ...*queryNode) *queryNode { return &queryNode{kind: kind, kids: kids} }

// build creates the tree in a state.
func (d *drawing) build(st *flow.State, n *queryNode) *flow.Term {
	t := d.c.Type(ast, n.kind)
	m := &matching{c: d.c, in: d.in}
	obj := st.Alloc(n.kind, t, flow.Zero(t))
	switch n.kind {
	case "ExprNode":
		var segs []*flow.Term
		for _, f := range n.field {
			segs = append(segs, flow.Elem(f))
		}
		m.setField(st, obj, "Field", flow.List(types.NewSlice(stringT), segs...))
		m.setField(st, obj, "Op", n.op)
		m.setField(st, obj, "RVals", m.list(n.vals...))
		for _, v := range n.vals {
			rs := d.in.CallFn(st, d.c.Method(v.Args[0].Typ, "String"), v.Args[0])
			if len(rs) != 1 {
				flow.Undecided("the text of %s is not one value", short(v))
			}
			n.valStr = append(n.valStr, rs[0].Val)
		}
	case "NotNode":
		m.setField(st, obj, "Expr", d.build(st, n.kids[0]))
	default:
		m.setField(st, obj, "Left", d.build(st, n.kids[0]))
		m.setField(st, obj, "Right", d.build(st, n.kids[1]))
	}
	return flow.MakeIface(obj, types.NewPointer(t))
}

// drawings analyses drawing query trees of several shapes.
func (c *Ctx) drawings(faults bool, f func(d *drawing)) {
	draw := func(what string, tree func(d *drawing) *queryNode) {
		c.guardAs("nodes", what, func() {
			d := &drawing{c: c, in: c.Interp(), what: what}
			d.in.Recurse = true
			d.in.Unroll = 64
			d.in.Opaque = stringy
			d.root = tree(d)
			d.run(faults)
			c.Used(d.in)
			c.cutoff("shapes", d.in, gr)
			f(d)
		})
	}
	for i := 1; i <= 3; i++ {
		draw(fmt.Sprintf("a test of a path of %d fields", i), func(d *drawing) *queryNode { return d.test(i) })
	}
	for _, k := range literalKinds {
		draw("a test with a "+k, func(d *drawing) *queryNode { return d.test(2, k) })
	}
	draw("a test with values of all kinds", func(d *drawing) *queryNode { return d.test(1, literalKinds...) })
	draw("a test with repeated values", func(d *drawing) *queryNode { return d.test(1, "StringVal", "StringVal", "StringVal") })
	for _, k := range []string{"AndNode", "OrNode"} {
		draw("a tree with "+k, func(d *drawing) *queryNode { return join(k, d.test(1, "IntVal"), d.test(2)) })
		draw("a tree with NotNode of "+k, func(d *drawing) *queryNode { return join("NotNode", join(k, d.test(1), d.test(1))) })
		for _, l := range []string{"AndNode", "OrNode"} {
			draw("a tree with "+l+" on the left of "+k, func(d *drawing) *queryNode {
				return join(k, join(l, d.test(1), d.test(1, "StringVal")), d.test(1))
			})
			draw("a tree with "+l+" on the right of "+k, func(d *drawing) *queryNode {
				return join(k, d.test(1), join(l, d.test(1), d.test(1)))
			})
		}
		draw("a tree with NotNode on the left of "+k, func(d *drawing) *queryNode { return join(k, join("NotNode", d.test(1)), d.test(1)) })
		draw("a tree with NotNode on the right of "+k, func(d *drawing) *queryNode { return join(k, d.test(1), join("NotNode", d.test(1))) })
	}
	draw("a negated test", func(d *drawing) *queryNode { return join("NotNode", d.test(1)) })
	draw("a test negated twice", func(d *drawing) *queryNode { return join("NotNode", join("NotNode", d.test(1))) })
	if !faults {
		draw("a large tree", func(d *drawing) *queryNode {
			n := d.test(1)
			for i := 0; i < 4; i++ {
				n = join("OrNode", join("AndNode", n, d.test(1)), join("NotNode", d.test(2, "IntVal")))
			}
			return n
		})
	}
}

const failed = "graph library failed"

func hasFailed(st *flow.State) bool {
	for _, e := range allEvents(st) {
		if e.Name == failed {
			return true
		}
	}
	return false
}

// run draws the tree. With faults, every call of the library that can fail does so
// on a path of its own.
func (d *drawing) run(faults bool) {
	c, in := d.c, d.in
	errs := 0
	in.Uni.NonNil = func(t *flow.Term) bool {
		if t.Op != "sym" {
			return false
		}
		_, ptr := t.Typ.Underlying().(*types.Pointer)
		return ptr || types.Identical(t.Typ, errorT)
	}
	var tree *flow.Term
	// fail is the path on which a call fails.
	fail := func(st *flow.State, call *flow.Call) []flow.Ret {
		if !faults || hasFailed(st) {
			return nil
		}
		st = st.Clone()
		errs++
		err := flow.Sym(fmt.Sprintf("failure %d of %s", errs, call.Name), errorT)
		st.Emit(&flow.Event{Name: failed, Args: []*flow.Term{flow.Str(call.Name)}, Res: err, Pos: call.Pos})
		res := call.Sig.Results()
		var vals []*flow.Term
		for i := 0; i < res.Len()-1; i++ {
			vals = append(vals, flow.Zero(res.At(i).Type()))
		}
		if len(vals) == 0 {
			return []flow.Ret{{St: st, Val: err}}
		}
		return []flow.Ret{{St: st, Val: flow.Tuple(append(vals, err)...)}}
	}
	in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn == nil {
			return nil, false
		}
		res := call.Sig.Results()
		pkg := pkgOf(call.Fn)
		if inPkg(call.Fn, "parser") && res.Len() == 2 && types.Identical(res.At(0).Type(), c.Type(ast, "Node")) {
			out := fail(st, call)
			st.Emit(&flow.Event{Name: "parse", Args: call.Args, Pos: call.Pos})
			return append(out, flow.Ret{St: st, Val: flow.Tuple(tree, flow.Nil)}), true
		}
		if rs, ok := reads(st, call); ok {
			return rs, true
		}
		if rs, ok := templateCalls(st, call); ok {
			return rs, true
		}
		for _, e := range []string{"html/template", "text/template"} {
			switch call.Name {
			case "(*" + e + ".Template).Execute":
				out := fail(st, call)
				for _, r := range d.render(e, st, call) {
					text := flow.Concat(r.out...)
					if e == "html/template" {
						text = flow.App("escaped in its context", stringT, text)
					}
					if !in.Write(r.st, call.Args[1], text) {
						flow.Undecided("the writer of a template is not understood")
					}
					out = append(out, flow.Ret{St: r.st, Val: flow.Nil})
				}
				return out, true
			}
		}
		if pkg != graphviz && !strings.HasPrefix(pkg, graphviz+"/") {
			return nil, false
		}
		name := call.Fn.Name()
		if call.Sig.Recv() == nil && name != "New" {
			return nil, false
		}
		if hasFailed(st) {
			for _, a := range call.Args {
				c.Need(a != flow.Nil && !(a.Op == "zero"), "results", name+" after "+failedCall(st), c.P.Where(call.Pos), "%s is given the missing result of %s, which has failed", name, failedCall(st))
			}
		}
		var out []flow.Ret
		fallible := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errorT)
		if fallible && name != "Close" {
			out = fail(st, call)
		}
		args := append([]*flow.Term(nil), call.Args...)
		var val *flow.Term
		n := res.Len()
		if fallible {
			n--
		}
		if n > 1 {
			return nil, false
		}
		if n == 1 {
			t := res.At(0).Type()
			switch {
			case name == "StrdupHTML":
				val = flow.App("html label", stringT, call.Args[1])
			case name == "StrdupUTF8" || name == "Strdup":
				val = call.Args[1]
			case call.Sig.Recv() != nil && types.Identical(t, call.Sig.Recv().Type()):
				val = call.Args[0]
			default:
				if p, ok := t.Underlying().(*types.Pointer); ok {
					val = st.Alloc(fmt.Sprintf("%s %d", name, len(allEvents(st))), p.Elem(), flow.Sym(fmt.Sprintf("content of %s %d", name, len(allEvents(st))), p.Elem()))
				} else {
					val = flow.Sym("result of "+name, t)
				}
			}
		}
		st.Emit(&flow.Event{Name: "graph " + name, Args: args, Res: val, Pos: call.Pos})
		switch {
		case fallible && n == 0:
			val = flow.Nil
		case fallible:
			val = flow.Tuple(val, flow.Nil)
		}
		return append(out, flow.Ret{St: st, Val: val}), true
	}
	st := in.NewState()
	tree = d.build(st, d.root)
	d.rets = in.CallFn(st, c.Fn(gr, "QueryGraph"), flow.Sym("query", stringT))
}

func failedCall(st *flow.State) string {
	for _, e := range allEvents(st) {
		if e.Name == failed {
			s, _ := e.Args[0].StrVal()
			return s
		}
	}
	return ""
}

// render evaluates the template of a label.
func (d *drawing) render(engine string, st *flow.State, call *flow.Call) []rendered {
	text := ""
	texts := 0
	e := &evaluation{c: d.c, in: d.in, what: d.what, where: d.c.P.Where(call.Pos), funcs: map[string]*flow.Term{}, by: call.In,
		panics: func(r flow.Ret) {
			if r.Panic {
				d.c.Bad("templates", d.what, d.c.P.Where(r.Pos), "the template of a label can panic: %s", r.Why)
			}
		}}
	call.Args[0].Mentions(func(t *flow.Term) bool {
		if t.Op == "app" && t.Aux == "(*"+engine+".Template).Parse" {
			s, ok := t.Args[1].StrVal()
			if !ok {
				flow.Undecided("the template of a label is not a constant")
			}
			text = s
			texts++
		}
		if t.Op == "app" && t.Aux == "(*"+engine+".Template).Funcs" {
			for k, v := range entries(d.in, st, t.Args[1]) {
				e.funcs[k] = v
			}
		}
		return false
	})
	if texts != 1 {
		flow.Undecided("the template of a label is not known: %s", short(call.Args[0]))
	}
	return e.template(text, call.Args[2], st)
}

// shape is the graph drawn in a state.
type shape struct {
	nodes []*flow.Term
	names map[string]int
	edges []edge
	label map[*flow.Term]*flow.Term
	where map[*flow.Term]string
}

type edge struct{ from, to *flow.Term }

func (d *drawing) shape(st *flow.State) *shape {
	s := &shape{names: map[string]int{}, label: map[*flow.Term]*flow.Term{}, where: map[*flow.Term]string{}}
	for _, e := range allEvents(st) {
		switch e.Name {
		case "graph CreateNode":
			s.nodes = append(s.nodes, e.Res)
			n, ok := e.Args[1].StrVal()
			if !ok {
				flow.Undecided("the name of a node is not known: %s", short(e.Args[1]))
			}
			s.names[n]++
			s.where[e.Res] = d.c.P.Where(e.Pos)
		case "graph CreateEdge":
			s.edges = append(s.edges, edge{e.Args[2], e.Args[3]})
		case "graph SetLabel":
			s.label[e.Args[0]] = e.Args[1]
			s.where[e.Args[0]] = d.c.P.Where(e.Pos)
		case "graph SafeSet", "graph Set":
			if k, ok := e.Args[1].StrVal(); !ok || k == "label" {
				s.label[e.Args[0]] = e.Args[2]
				s.where[e.Args[0]] = d.c.P.Where(e.Pos)
			}
		case "graph DeleteNode", "graph DeleteEdge", "graph Delete":
			flow.Undecided("part of the graph is deleted")
		}
	}
	return s
}

func (s *shape) out(n *flow.Term) (to []*flow.Term) {
	for _, e := range s.edges {
		if e.from == n {
			to = append(to, e.to)
		}
	}
	return to
}

func (s *shape) in(n *flow.Term) (k int) {
	for _, e := range s.edges {
		if e.to == n {
			k++
		}
	}
	return k
}

func V01(c *Ctx) {
	c.Rule("nodes: for trees of all kinds of nodes, connected in every way two connectiveNames can be, the graph that is returned has one node for every node of the tree and one where it starts, all with different names")
	c.Rule("text of the query: the query that is parsed is the one given, unchanged")
	c.Rule("edges: there is exactly one edge to every node, from the node it is an operand of, the left one first; the first node has an edge from the start")
	c.Rule("labels: a connective is labelled with its name; the label of a test is well-formed and shows the path, the operator and each of the values once and in this order, each whole and escaped at most once")
	c.Rule("output: the graph that was drawn is given to the renderer with the format and file name of the call")
	c.Rule("shapes: drawing makes no decision that depends on large numbers, so trees and lists larger than those analysed are drawn in the same way")
	c.Assume = append(c.Assume, "The graph library creates a node for every new name and an edge for every call, and keeps the label set last.")
	done := 0
	c.drawings(false, func(d *drawing) {
		for _, r := range d.rets {
			where := c.P.Where(c.Fn(gr, "QueryGraph").Pos())
			if r.Panic {
				c.Need(!r.St.F.Consistent(), "nodes", d.what, where, "drawing panics: %s", r.Why)
				continue
			}
			g, err := flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
			if !c.Need(err == flow.Nil, "nodes", d.what, where, "drawing fails with %s though nothing else does", short(err)) {
				continue
			}
			d.check(r.St, where)
			d.output(r.St, g)
			done++
		}
	})
	c.AtLeast("text of the query", 20)
	c.AtLeast("nodes", 60)
	c.AtLeast("labels", 60)
	c.AtLeast("output", 2)
}

func (d *drawing) check(st *flow.State, where string) {
	c, s := d.c, d.shape(st)
	for _, e := range allEvents(st) {
		if e.Name != "parse" {
			continue
		}
		given := false
		for _, a := range e.Args {
			given = given || sameText(a, flow.Sym("query", stringT))
		}
		c.Need(given, "text of the query", d.what, c.P.Where(e.Pos), "draws what %v says instead of the query", e.Args)
	}
	want := d.root.count() + 1
	c.Need(len(s.nodes) == want, "nodes", d.what, where, "the graph has %d nodes, the query %d", len(s.nodes)-1, want-1)
	for n, k := range s.names {
		c.Need(k == 1, "nodes", d.what+" "+n, where, "%d nodes have the name %q and become one", k, n)
	}
	c.Need(len(s.edges) == want-1, "edges", d.what, where, "the graph has %d edges, there should be %d", len(s.edges), want-1)
	var start *flow.Term
	for _, n := range s.nodes {
		switch s.in(n) {
		case 0:
			if start == nil {
				start = n
				break
			}
			c.Bad("edges", d.what, s.where[n], "more than one node has no edge to it")
			return
		case 1:
		default:
			c.Bad("edges", d.what, s.where[n], "a node has %d edges to it", s.in(n))
			return
		}
	}
	if start == nil {
		c.Bad("edges", d.what, where, "there is no node to start from")
		return
	}
	to := s.out(start)
	if !c.Need(len(to) == 1, "edges", d.what+" start", where, "%d edges leave the start", len(to)) {
		return
	}
	d.follow(st, s, to[0], d.root, where)
}

var connectiveNames = map[string]string{"NotNode": "NOT", "AndNode": "AND", "OrNode": "OR"}

func (d *drawing) follow(st *flow.State, s *shape, n *flow.Term, q *queryNode, where string) {
	c := d.c
	if w := s.where[n]; w != "" {
		where = w
	}
	to := s.out(n)
	if !c.Need(len(to) == len(q.kids), "edges", d.what+" "+q.kind, where, "the node of a %s has %d edges, not %d", q.kind, len(to), len(q.kids)) {
		return
	}
	l := s.label[n]
	if l == nil {
		c.Bad("labels", d.what+" "+q.kind, where, "the node of a %s has no label", q.kind)
		return
	}
	if name, ok := connectiveNames[q.kind]; ok {
		c.Need(l == flow.Str(name), "labels", d.what+" "+q.kind, where, "the node of a %s (with these operands) has the label %s", q.kind, short(l))
	} else {
		d.labelled(st, l, q, where)
	}
	for i, k := range q.kids {
		d.follow(st, s, to[i], k, where)
	}
}

// escapes are the functions that escape text for HTML.
var escapes = []string{"template function html", "html.EscapeString", "text/template.HTMLEscapeString", "html/template.HTMLEscapeString"}

func escaped(t *flow.Term) (*flow.Term, bool) {
	if t.Op == "app" {
		for _, e := range escapes {
			if t.Aux == e {
				return t.Args[0], true
			}
		}
	}
	return t, false
}

func flatten(t *flow.Term) []*flow.Term {
	if t.Op == "concat" {
		var out []*flow.Term
		for _, a := range t.Args {
			out = append(out, flatten(a)...)
		}
		return out
	}
	return []*flow.Term{t}
}

// pieces returns the pieces of an HTML-like label and whether they are escaped
// where they are.
func (d *drawing) pieces(t *flow.Term) (ps []*flow.Term, auto bool) {
	if t.Op == "app" && t.Aux == "escaped in its context" {
		return flatten(t.Args[0]), true
	}
	for _, p := range flatten(t) {
		if p.Op == "app" && p.Aux == "escaped in its context" {
			// each piece counts as escaped
			for _, q := range flatten(p.Args[0]) {
				if _, ok := q.StrVal(); !ok {
					if _, ok := escaped(q); !ok {
						q = flow.App(escapes[0], stringT, q)
					}
				}
				ps = append(ps, q)
			}
			continue
		}
		ps = append(ps, p)
	}
	return ps, false
}

// labelled checks the label of a test.
func (d *drawing) labelled(st *flow.State, l *flow.Term, q *queryNode, where string) {
	c := d.c
	html := l.Op == "app" && l.Aux == "html label"
	if html {
		l = l.Args[0]
	}
	var path []*flow.Term
	for i, f := range q.field {
		if i > 0 {
			path = append(path, flow.Str("."))
		}
		path = append(path, f)
	}
	want := append([]*flow.Term{flow.Concat(path...), flow.Conv(q.op, q.op.Typ, stringT)}, q.valStr...)
	names := []string{"path", "operator"}
	for i := range q.valStr {
		names = append(names, fmt.Sprintf("value %d", i+1))
	}
	ps, _ := d.pieces(l)
	// pieces of the path that are not escaped stand one by one
	var text strings.Builder
	var got []*flow.Term
	var plain []*flow.Term
	flush := func() {
		if len(plain) > 0 {
			got = append(got, flow.Concat(plain...))
			plain = nil
		}
	}
	for _, p := range ps {
		if s, ok := p.StrVal(); ok {
			if s == "." && len(plain) > 0 {
				plain = append(plain, p)
				continue
			}
			flush()
			text.WriteString(s)
			continue
		}
		text.WriteString("text")
		if t, ok := escaped(p); ok {
			flush()
			got = append(got, t)
			continue
		}
		plain = append(plain, p)
	}
	flush()
	if html {
		c.Need(wellFormed(text.String()), "labels", d.what+" markup", where, "the label of a test is not well-formed: %s", text.String())
	} else {
		c.Need(!strings.ContainsAny(text.String(), "<>"), "labels", d.what+" markup", where, "the label of a test is shown with its markup")
	}
	same := func(a, b *flow.Term) bool { return a == b || st.F.Decide(flow.Eq(a, b)) == flow.Yes }
	for i, w := range want {
		if i >= len(got) {
			c.Bad("labels", d.what+" "+names[i], where, "the label of a test lacks its %s, %s", names[i], short(w))
			continue
		}
		c.Need(same(got[i], w), "labels", d.what+" "+names[i], where, "the label of a test shows %s, not its %s, %s", short(got[i]), names[i], short(w))
	}
	for _, g := range got[min(len(want), len(got)):] {
		c.Bad("labels", d.what, where, "the label of a test shows %s as well", short(g))
	}
}

// wellFormed reports whether a label can be read by the graph library.
func wellFormed(s string) bool {
	x := xml.NewDecoder(strings.NewReader(s))
	for {
		if _, err := x.Token(); err == io.EOF {
			return true
		} else if err != nil {
			return false
		}
	}
}

// output checks that the graph drawn is the one that is rendered.
func (d *drawing) output(st *flow.State, g *flow.Term) {
	c := d.c
	graph := flow.Nil
	for _, e := range allEvents(st) {
		if e.Name == "graph Graph" {
			graph = e.Res
		}
	}
	for _, f := range []struct{ method, format string }{{"OutputSVG", "svg"}, {"OutputDOT", "dot"}} {
		name := flow.Sym("name of a file", stringT)
		fn := c.Method(types.NewPointer(c.Type(gr, "Graph")), f.method)
		for _, r := range d.in.CallFn(st.Clone(), fn, g, name) {
			n := 0
			for _, e := range allEvents(r.St) {
				if e.Name == "graph RenderFilename" {
					n++
					ok := e.Args[1] == graph && flow.Conv(e.Args[2], e.Args[2].Typ, stringT) == flow.Str(f.format) && e.Args[3] == name
					c.Need(ok, "output", f.method, c.P.Where(e.Pos), "%s of %s is rendered to %s, not %s of what was drawn to the file named", short(e.Args[2]), short(e.Args[1]), short(e.Args[3]), f.format)
				}
			}
			c.Need(n == 1 && !r.Panic && r.Val == flow.Nil, "output", f.method, c.P.Where(fn.Pos()), "%d graphs are rendered, with the result %v", n, r.Val)
		}
	}
}

func V02(c *Ctx) {
	c.Rule("escaping: in every HTML-like label, for trees of all kinds of nodes and literals, every piece of text that is not a constant of the program is escaped, and the markup around it is the program's")
	c.Rule("failures: for every call of the graph library, the template engine and the parser that can fail and is made when drawing such trees or writing the result, on the path on which it fails an error is returned or the program stops")
	c.Rule("results: after such a failure no call of the library is given the missing result")
	c.drawings(true, func(d *drawing) {
		for _, r := range d.rets {
			where := c.P.Where(c.Fn(gr, "QueryGraph").Pos())
			if call := failedCall(r.St); call != "" {
				what := d.what + " " + call
				if r.Panic {
					c.Need(stops(r), "failures", what, where, "after the failure of %s drawing goes on and panics: %s", call, r.Why)
					continue
				}
				err := flow.Ext(r.Val, 1, nil)
				c.Need(r.St.F.Decide(flow.Eq(err, flow.Nil)) == flow.No, "failures", what, where, "the failure of %s is not reported, the result is %s", call, short(r.Val))
				continue
			}
			if r.Panic {
				continue
			}
			d.escaping(r.St)
			g := flow.Ext(r.Val, 0, nil)
			for _, m := range []string{"OutputSVG", "OutputDOT"} {
				fn := c.Method(types.NewPointer(c.Type(gr, "Graph")), m)
				for _, r := range d.in.CallFn(r.St.Clone(), fn, g, flow.Sym("name of a file", stringT)) {
					if call := failedCall(r.St); call != "" {
						ok := r.Panic && stops(r) || !r.Panic && r.St.F.Decide(flow.Eq(r.Val, flow.Nil)) == flow.No
						c.Need(ok, "failures", m+" "+call, c.P.Where(fn.Pos()), "the failure of %s is not reported", call)
					}
				}
			}
		}
	})
	c.AtLeast("escaping", 40)
	c.AtLeast("failures", 100)
}

// escaping checks the HTML-like labels of a graph.
func (d *drawing) escaping(st *flow.State) {
	for _, e := range allEvents(st) {
		if !strings.HasPrefix(e.Name, "graph ") || len(e.Args) == 0 {
			continue
		}
		if e.Name != "graph SetLabel" && e.Name != "graph SafeSet" && e.Name != "graph Set" && e.Name != "graph StrdupHTML" {
			for _, a := range e.Args {
				if a.Op == "app" && a.Aux == "html label" {
					d.escapedPieces(a.Args[0], d.c.P.Where(e.Pos))
				}
			}
			continue
		}
		for _, a := range e.Args[1:] {
			if e.Name == "graph StrdupHTML" {
				d.escapedPieces(a, d.c.P.Where(e.Pos))
			} else if a.Op == "app" && a.Aux == "html label" {
				d.escapedPieces(a.Args[0], d.c.P.Where(e.Pos))
			}
		}
	}
}

func (d *drawing) escapedPieces(t *flow.Term, where string) {
	ps, auto := d.pieces(t)
	for _, p := range ps {
		if _, ok := p.StrVal(); ok {
			continue
		}
		_, ok := escaped(p)
		d.c.Need(ok || auto, "escaping", d.what, where, "the label contains %s as it is", short(p))
	}
}

// stops reports whether a panic is one the program asks for.
func stops(r flow.Ret) bool { return strings.HasPrefix(r.Why, "panic(") || r.Why == "exit" }
