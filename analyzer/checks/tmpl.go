package checks

import (
	"go/types"
	"html/template"
	"strings"
	"text/template/parse"
	"unicode/utf8"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

// rendered is what a template writes in a state.
type rendered struct {
	st   *flow.State
	out  []*flow.Term
	vars map[string]*flow.Term
}

// with returns a copy in a state in which variables have values.
func (r rendered) with(st *flow.State, names []*parse.VariableNode, vals ...*flow.Term) rendered {
	q := rendered{st: st, out: append([]*flow.Term(nil), r.out...), vars: map[string]*flow.Term{}}
	for k, v := range r.vars {
		q.vars[k] = v
	}
	for i, n := range names {
		q.vars[n.Ident[0]] = vals[i]
	}
	return q
}

// templateFuncs are predefined functions of templates that the templates here
// may use.
var templateFuncs = []string{"and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge", "len", "print", "printf", "println", "html", "js", "urlquery", "index", "slice", "call"}

// template evaluates a constant template on the data it is given.
func (x *formatting) template(sh shown) []rendered {
	if sh.tmpl == nil {
		return nil
	}
	text, ok := sh.tmpl.StrVal()
	if !ok {
		return nil
	}
	e := &evaluation{c: x.c, in: x.in, what: x.what, where: sh.where, funcs: sh.funcs, panics: x.panics, by: x.c.Fn(fm, "NewFormatter")}
	return e.template(text, sh.data, sh.st.Clone())
}

// evaluation is the evaluation of a template on abstract data.
type evaluation struct {
	c           *Ctx
	in          *flow.Interp
	what, where string
	funcs       map[string]*flow.Term
	panics      func(flow.Ret)
	by          *ssa.Function
	vars        map[string]*flow.Term
}

// template evaluates a template on data.
func (e *evaluation) template(text string, dot *flow.Term, st *flow.State) []rendered {
	funcs := map[string]any{}
	for k := range e.funcs {
		funcs[k] = true
	}
	for _, k := range templateFuncs {
		funcs[k] = true
	}
	trees, err := parse.Parse("message", text, "", "", funcs)
	if !e.c.Need(err == nil, "templates", e.what, e.where, "the template is not valid: %v", err) {
		return nil
	}
	return e.nodes(dot, trees["message"].Root, []rendered{{st: st, vars: map[string]*flow.Term{"$": dot}}})
}

func (e *evaluation) nodes(dot *flow.Term, n parse.Node, in []rendered) []rendered {
	switch n := n.(type) {
	case nil, *parse.CommentNode:
	case *parse.ListNode:
		if n == nil {
			return in
		}
		for _, k := range n.Nodes {
			in = e.nodes(dot, k, in)
		}
	case *parse.TextNode:
		for i := range in {
			in[i].write(flow.Str(string(n.Text)))
		}
	case *parse.ActionNode:
		var out []rendered
		for _, r := range in {
			for _, v := range e.pipe(dot, n.Pipe, r) {
				if len(n.Pipe.Decl) > 0 {
					out = append(out, r.with(v.St, n.Pipe.Decl, v.Val))
					continue
				}
				q := r.with(v.St, nil)
				q.write(v.Val)
				out = append(out, q)
			}
		}
		return out
	case *parse.RangeNode:
		var out []rendered
		for _, r := range in {
			for _, v := range e.pipe(dot, n.Pipe, r) {
				q := []rendered{r.with(v.St, nil)}
				segs := flow.Segs(e.in.ListOf(v.St, v.Val))
				for i, s := range segs {
					if s.Op != "seg:e" {
						flow.Undecided("the list of a template is not known: %s", short(v.Val))
					}
					vals := []*flow.Term{flow.Int(int64(i)), s.Args[0]}
					for k := range q {
						q[k] = q[k].with(q[k].st, n.Pipe.Decl, vals[2-len(n.Pipe.Decl):]...)
					}
					q = e.nodes(s.Args[0], n.List, q)
				}
				if len(segs) == 0 && n.ElseList != nil {
					q = e.nodes(dot, n.ElseList, q)
				}
				out = append(out, q...)
			}
		}
		return out
	case *parse.IfNode:
		return e.branch(dot, &n.BranchNode, false, in)
	case *parse.WithNode:
		return e.branch(dot, &n.BranchNode, true, in)
	default:
		flow.Undecided("the template has a construct that is not understood: %s", n)
	}
	return in
}

// branch evaluates a choice between two parts of a template.
func (e *evaluation) branch(dot *flow.Term, n *parse.BranchNode, with bool, in []rendered) (out []rendered) {
	for _, r := range in {
		for _, v := range e.pipe(dot, n.Pipe, r) {
			for _, b := range []bool{true, false} {
				s := v.St.Clone()
				if !s.Assume(truth(v.Val), b) {
					continue
				}
				vals := []*flow.Term{v.Val}
				q := []rendered{r.with(s, n.Pipe.Decl, vals[:len(n.Pipe.Decl)]...)}
				switch {
				case b && with:
					q = e.nodes(v.Val, n.List, q)
				case b:
					q = e.nodes(dot, n.List, q)
				case n.ElseList != nil:
					q = e.nodes(dot, n.ElseList, q)
				}
				out = append(out, q...)
			}
		}
	}
	return out
}

// write adds a text to the output.
func (r *rendered) write(t *flow.Term) {
	if s, ok := t.StrVal(); ok && len(r.out) > 0 {
		if l, ok := r.out[len(r.out)-1].StrVal(); ok {
			r.out[len(r.out)-1] = flow.Str(l + s)
			return
		}
	}
	r.out = append(r.out, t)
}

func (e *evaluation) pipe(dot *flow.Term, p *parse.PipeNode, r rendered) []flow.Ret {
	if p.IsAssign {
		flow.Undecided("the template changes a variable")
	}
	e.vars = r.vars
	return e.commands(dot, p, r.st)
}

func (e *evaluation) commands(dot *flow.Term, p *parse.PipeNode, st *flow.State) []flow.Ret {
	rs := []flow.Ret{{St: st}}
	for i, cmd := range p.Cmds {
		var next []flow.Ret
		for _, r := range rs {
			var last []*flow.Term
			if i > 0 {
				last = []*flow.Term{r.Val}
			}
			next = append(next, e.command(dot, cmd.Args, last, r.St)...)
		}
		rs = next
	}
	return rs
}

func (e *evaluation) command(dot *flow.Term, args []parse.Node, last []*flow.Term, st *flow.State) []flow.Ret {
	if len(args) == 1 && len(last) == 0 {
		return e.operand(dot, args[0], st)
	}
	id, ok := args[0].(*parse.IdentifierNode)
	if !ok {
		flow.Undecided("the template calls %s", args[0])
	}
	type call struct {
		st   *flow.State
		args []*flow.Term
	}
	cs := []call{{st, nil}}
	for _, a := range args[1:] {
		var next []call
		for _, c := range cs {
			for _, r := range e.operand(dot, a, c.st) {
				next = append(next, call{r.St, append(append([]*flow.Term(nil), c.args...), r.Val)})
			}
		}
		cs = next
	}
	var out []flow.Ret
	for _, c := range cs {
		out = append(out, e.function(id.Ident, append(c.args, last...), c.st)...)
	}
	return out
}

func (e *evaluation) function(name string, args []*flow.Term, st *flow.State) []flow.Ret {
	f := e.funcs[name]
	if f == nil {
		if name == "html" && len(args) == 1 {
			if s, ok := args[0].StrVal(); ok {
				return []flow.Ret{{St: st, Val: flow.Str(template.HTMLEscapeString(s))}}
			}
		}
		one := func(t *flow.Term) []flow.Ret { return []flow.Ret{{St: st, Val: t}} }
		switch {
		case name == "len" && len(args) == 1:
			return one(flow.Len(args[0]))
		case name == "not" && len(args) == 1:
			return one(flow.Not(truth(args[0])))
		case name == "eq" && len(args) == 2:
			return one(equalTerms(args[0], args[1]))
		case name == "ne" && len(args) == 2:
			return one(flow.Not(equalTerms(args[0], args[1])))
		case name == "lt" && len(args) == 2:
			return one(flow.Lt(args[0], args[1]))
		case name == "le" && len(args) == 2:
			return one(flow.Le(args[0], args[1]))
		case name == "gt" && len(args) == 2:
			return one(flow.Lt(args[1], args[0]))
		case name == "ge" && len(args) == 2:
			return one(flow.Le(args[1], args[0]))
		case (name == "and" || name == "or") && len(args) > 0:
			// the arguments are evaluated already, which has no effects
			var out []flow.Ret
			for i, a := range args {
				if i == len(args)-1 {
					return append(out, flow.Ret{St: st, Val: a})
				}
				done := st.Clone()
				if done.Assume(truth(a), name == "or") {
					out = append(out, flow.Ret{St: done, Val: a})
				}
				if !st.Assume(truth(a), name == "and") {
					return out
				}
			}
		case name == "print":
			if len(args) == 1 && args[0].Typ != nil && types.Identical(args[0].Typ.Underlying(), stringT) {
				return one(args[0])
			}
		}
		return one(flow.App("template function "+name, stringT, args...))
	}
	if f.Op == "iface" {
		f = f.Args[0]
	}
	var out []flow.Ret
	for _, r := range e.in.CallValue(st, f, args, &flow.Call{In: e.by}) {
		e.panics(r)
		if !r.Panic {
			out = append(out, r)
		}
	}
	return out
}

func (e *evaluation) operand(dot *flow.Term, n parse.Node, st *flow.State) []flow.Ret {
	switch n := n.(type) {
	case *parse.FieldNode:
		return e.path(dot, n.Ident, n.String(), st)
	case *parse.DotNode:
		return []flow.Ret{{St: st, Val: dot}}
	case *parse.StringNode:
		return []flow.Ret{{St: st, Val: flow.Str(n.Text)}}
	case *parse.NumberNode:
		if n.IsInt {
			return []flow.Ret{{St: st, Val: flow.Int(n.Int64)}}
		}
	case *parse.PipeNode:
		return e.commands(dot, n, st)
	case *parse.VariableNode:
		v := e.vars[n.Ident[0]]
		if v == nil {
			flow.Undecided("the template uses the variable %s, which is not known", n)
		}
		return e.path(v, n.Ident[1:], n.String(), st)
	case *parse.ChainNode:
		var out []flow.Ret
		for _, r := range e.operand(dot, n.Node, st) {
			out = append(out, e.path(r.Val, n.Field, n.String(), r.St)...)
		}
		return out
	case *parse.IdentifierNode:
		return e.function(n.Ident, nil, st)
	case *parse.BoolNode:
		return []flow.Ret{{St: st, Val: flow.Bool(n.True)}}
	}
	flow.Undecided("the template has an operand that is not understood: %s", n)
	return nil
}

// path evaluates names one after the other.
func (e *evaluation) path(dot *flow.Term, names []string, text string, st *flow.State) []flow.Ret {
	out := []flow.Ret{{St: st, Val: dot}}
	for _, n := range names {
		var next []flow.Ret
		for _, v := range out {
			rs, ok := e.c.member(e.in, v.St, v.Val, n)
			if !e.c.Need(ok, "templates", e.what+" "+n, e.where, "the template uses %s, which does not exist", text) {
				return nil
			}
			for _, r := range rs {
				e.panics(r)
				if !r.Panic {
					next = append(next, r)
				}
			}
		}
		out = next
	}
	return out
}

// truth is the condition that a value is not empty.
func truth(t *flow.Term) *flow.Term {
	if t.Op == "list" || t.Op == "nil" {
		return flow.Bool(len(flow.Segs(t)) > 0)
	}
	if t.Typ == nil {
		return t
	}
	switch u := t.Typ.Underlying().(type) {
	case *types.Slice, *types.Map:
		return flow.Lt(flow.Int(0), flow.Len(t))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return flow.Lt(flow.Int(0), flow.Len(t))
		}
		if u.Info()&types.IsInteger != 0 {
			return flow.Not(flow.IEq(t, flow.Int(0)))
		}
	}
	return t
}

func equalTerms(a, b *flow.Term) *flow.Term {
	for _, t := range []*flow.Term{a, b} {
		if t.Typ != nil {
			if u, ok := t.Typ.Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
				return flow.IEq(a, b)
			}
		}
	}
	return flow.Eq(a, b)
}

// member evaluates a name in a template: a method without arguments or a field of
// the data.
func (c *Ctx) member(in *flow.Interp, st *flow.State, dot *flow.Term, name string) ([]flow.Ret, bool) {
	t := dot
	if t.Op == "iface" {
		t = t.Args[0]
	}
	if t.Typ == nil {
		flow.Undecided("the data of a template is not understood: %s", short(dot))
	}
	ms := c.P.SSA.MethodSets.MethodSet(t.Typ)
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Name() == name && o.Exported() && o.Type().(*types.Signature).Params().Len() == 0 {
			return in.CallFn(st, c.P.SSA.MethodValue(ms.At(i)), t), true
		}
	}
	v := t
	if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
		v = in.Load(st, t)
	}
	if s, ok := v.Typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == name && f.Exported() {
				return []flow.Ret{{St: st, Val: flow.Field(v, i, f.Type())}}, true
			}
		}
	}
	return nil, false
}

// marks checks that a template that marks the highlight on the line under the
// query does so in the right place.
func (x *formatting) marks(sh shown) {
	for _, r := range x.template(sh) {
		at := -1
		var prefix int
		for i, t := range r.out {
			if p, why := x.piece(t); why == "" && p.lo != nil {
				at = i
				if i > 0 {
					s, _ := r.out[i-1].StrVal()
					prefix = utf8.RuneCountInString(s[strings.LastIndex(s, "\n")+1:])
				}
				break
			}
		}
		ok := at >= 0 && at+1 < len(r.out)
		if !ok {
			x.c.Bad("marker", x.what, sh.where, "the query is not shown with a line of marks: %s", short(flow.Concat(r.out...)))
			continue
		}
		indent := flow.Int(0)
		found, why := false, "there are no marks"
		for i, t := range r.out[at+1:] {
			s, isConst := t.StrVal()
			switch {
			case isConst && i == 0:
				if !strings.HasPrefix(s, "\n") || strings.Count(s, "\n") != 1 {
					why = "the marks are not on the line under the query"
				}
				indent = flow.Int(int64(utf8.RuneCountInString(s) - 1))
			case isConst:
				indent = flow.Add(indent, flow.Int(int64(utf8.RuneCountInString(s))))
			case t.Op == "app" && t.Aux == "strings.Repeat" && t.Args[0] == flow.Str(" "):
				indent = flow.Add(indent, t.Args[1])
			case t.Op == "app" && t.Aux == "strings.Repeat":
				found = true
				rs, _ := x.c.member(x.in, r.st.Clone(), sh.data, "QueryPre")
				for _, v := range rs {
					pre, w := x.piece(v.Val)
					if w != "" || pre.lo == nil || !same(v.St, indent, flow.Add(pre.count(), flow.Int(int64(prefix)))) {
						found, why = false, "the marks are preceded by "+short(indent)+" characters"
					}
				}
			}
			if found {
				break
			}
		}
		if !found && !r.st.F.Consistent() {
			continue
		}
		x.c.Need(found, "marker", x.what, sh.where, "%s: %s", why, short(flow.Concat(r.out...)))
	}
}

// templateCalls gives templates that are not executed yet a meaning: a term with
// the text and the functions.
func templateCalls(st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	for _, e := range []string{"html/template", "text/template"} {
		t := "(*" + e + ".Template)."
		switch call.Name {
		case e + ".New", t + "Funcs", t + "New", t + "Option":
			return []flow.Ret{{St: st, Val: flow.App(call.Name, call.Sig.Results().At(0).Type(), call.Args...)}}, true
		case t + "Parse":
			v := flow.App(call.Name, call.Sig.Results().At(0).Type(), call.Args...)
			return []flow.Ret{{St: st, Val: flow.Tuple(v, flow.Nil)}}, true
		case e + ".Must":
			return []flow.Ret{{St: st, Val: call.Args[0]}}, true
		}
	}
	return nil, false
}
