package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

const (
	jp  = "github.com/buger/jsonparser."
	ast = "parser/ast"
)

// reaches returns the functions of the module from which a call whose name
// satisfies pred can be reached.
func (c *Ctx) reaches(pred func(name string) bool) map[*ssa.Function]bool {
	callees := c.calls()
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for fn, cs := range callees {
			if out[fn] {
				continue
			}
			for _, x := range cs {
				if x.fn != nil && out[x.fn] || pred(x.name) {
					out[fn] = true
					changed = true
					break
				}
			}
		}
	}
	return out
}

type callee struct {
	fn   *ssa.Function
	name string
}

// calls returns the callees of every function and the functions it mentions.
func (c *Ctx) calls() map[*ssa.Function][]callee {
	if c.callees != nil {
		return c.callees
	}
	out := map[*ssa.Function][]callee{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok {
					cc := x.Common()
					if cc.IsInvoke() {
						out[fn] = append(out[fn], callee{nil, "invoke " + cc.Method.FullName()})
					}
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						out[fn] = append(out[fn], callee{f, f.String()})
					}
				}
			}
		}
	}
	c.callees = out
	return out
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func inPkg(fn *ssa.Function, pkg string) bool {
	return fn != nil && pkgOf(fn) == prog.Module+"/"+pkg
}

// stringy tells whether a function of the tree package computes a text.
func stringy(fn *ssa.Function) bool { return computesText(fn, map[*ssa.Function]bool{}) }

func computesText(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[fn] {
		return true
	}
	busy[fn] = true
	if !inPkg(fn, ast) {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return false
	}
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				// a helper that only hands out a text is none
				if callee := call.Common().StaticCallee(); callee == nil || !inPkg(callee, ast) || callee.Signature.Results().Len() != 1 || !types.Identical(callee.Signature.Results().At(0).Type(), r.At(0).Type()) || computesText(callee, busy) {
					return true
				}
			}
		}
	}
	return false
}

// resolvers returns the functions that only find the values of a path: they use
// jsonparser.Get, and neither evaluate a part of the query nor read a value.
func (c *Ctx) resolvers() map[*ssa.Function]bool {
	get := c.reaches(func(n string) bool { return n == jp+"Get" })
	other := c.reaches(func(n string) bool {
		return strings.HasPrefix(n, "invoke (github.com/flowchartsman/aql/jsonmatcher.") || strings.HasPrefix(n, jp+"Parse") ||
			strings.HasSuffix(n, "parser.ParseQuery")
	})
	out := map[*ssa.Function]bool{}
	for fn := range get {
		if inPkg(fn, "jsonmatcher") && !other[fn] && fn.Parent() == nil && fn.Synthetic == "" {
			out[fn] = true
		}
	}
	return out
}

// matching is the analysis of compiling query trees and matching documents.
type matching struct {
	c      *Ctx
	in     *flow.Interp
	doc    *flow.Term
	path   *flow.Term
	rvals  *flow.Term
	tree   *flow.Term
	start  *flow.State
	vt     types.Type // jsonparser.ValueType
	values *valueShape
	res    map[*ssa.Function]bool
	// patterns are the constant patterns used to find addresses in texts
	patterns  []*flow.Term
	findIndex bool
	match     *ssa.Function
	stats     *ssa.Function
	newM      *ssa.Function
	hook      func(in *flow.Interp, st *flow.State, c *flow.Call) ([]flow.Ret, bool)
}

// valueShape says how the values of a path are represented.
type valueShape struct {
	elem       types.Type
	data, kind int
}

// shapeOf recognises a struct with the bytes and the kind of a JSON value.
func shapeOf(t types.Type) *valueShape {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	v := &valueShape{elem: t, data: -1, kind: -1}
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(s.Field(i).Type(), nil) {
		case "[]byte":
			v.data = i
		case jp + "ValueType":
			v.kind = i
		}
	}
	if v.data < 0 || v.kind < 0 {
		return nil
	}
	return v
}

func (c *Ctx) newMatching() *matching {
	m := &matching{c: c, in: c.Interp()}
	m.res = c.resolvers()
	m.doc = flow.Sym("document", types.NewSlice(types.Typ[types.Byte]))
	m.path = flow.Sym("path", types.NewSlice(types.Typ[types.String]))
	m.newM = c.Fn("jsonmatcher", "NewMatcher")
	mt := c.Type("jsonmatcher", "Matcher")
	m.match = c.Method(mt, "Match")
	m.stats = c.Method(mt, "Stats")
	for fn := range m.res {
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if types.TypeString(sig.Params().At(i).Type(), nil) == jp+"ValueType" {
				m.vt = sig.Params().At(i).Type()
			}
		}
	}
	if m.vt == nil {
		for _, p := range c.P.Pkgs {
			if x := p.Imports["github.com/buger/jsonparser"]; x != nil {
				m.vt = x.Types.Scope().Lookup("ValueType").Type()
			}
		}
	}
	if m.vt == nil {
		c.Missing("jsonparser.ValueType")
	}
	m.in.Opaque = func(fn *ssa.Function) bool { return stringy(fn) || m.res[fn] }
	m.in.Uni.NonNil = func(x *flow.Term) bool {
		return x.Op == "rec" && len(m.res) > 0 // shown by M08
	}
	m.in.Uni.Number = func(x *flow.Term) bool { return m.fieldOf(x, "FloatVal") }
	m.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if inPkg(call.Fn, "parser") && strings.HasPrefix(call.Fn.Name(), "ParseQuery") {
			return []flow.Ret{{St: st, Val: flow.Tuple(m.tree, flow.Nil)}}, true
		}
		if call.Name == "(time.Time).AddDate" && call.Args[1] == flow.Int(0) && call.Args[2] == flow.Int(0) && m.fieldOf(call.Args[0], "TimeVal") {
			// days of literals are days in UTC
			if n, ok := call.Args[3].IntVal(); ok {
				return []flow.Ret{{St: st, Val: flow.App("(time.Time).Add", call.Args[0].Typ, call.Args[0], flow.Int(n*24*60*60*1000000000))}}, true
			}
		}
		if m.hook != nil {
			return m.hook(in, st, call)
		}
		return nil, false
	}
	return m
}

// fieldOf tells whether a term is a field of a literal of a kind.
func (m *matching) fieldOf(x *flow.Term, kind string) bool {
	return x.Op == "fld" && x.Args[0].Typ != nil && types.Identical(x.Args[0].Typ, m.c.Type(ast, kind))
}

// kindConst is a kind of JSON value.
func (m *matching) kindConst(name string) *flow.Term {
	p := m.vt.(*types.Named).Obj().Pkg()
	k, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		m.c.Missing("jsonparser." + name)
	}
	return flow.Const(k.Val(), m.vt)
}

func (m *matching) isKind(t *flow.Term, names ...string) *flow.Formula {
	var fs []*flow.Formula
	for _, n := range names {
		fs = append(fs, flow.T(flow.Eq(t, m.kindConst(n))))
	}
	return flow.FOr(fs...)
}

// test makes the tree of a test.
func (m *matching) test(op *flow.Term, rvals *flow.Term) {
	en := m.c.Type(ast, "ExprNode")
	st := m.in.NewState()
	st.Assume(flow.Le(flow.Int(1), flow.Len(m.path)), true)
	obj := st.Alloc("test", en, flow.Zero(en))
	m.setField(st, obj, "Op", op)
	m.setField(st, obj, "Field", m.path)
	m.setField(st, obj, "RVals", rvals)
	m.setField(st, obj, "Position", flow.Sym("position", m.c.Type(ast, "Pos")))
	m.rvals = rvals
	m.tree = flow.MakeIface(obj, types.NewPointer(en))
	m.start = st
}

func (m *matching) setField(st *flow.State, obj *flow.Term, name string, v *flow.Term) {
	t := obj.Typ.(*types.Pointer).Elem()
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			m.in.SetField(st, obj, i, v)
			return
		}
	}
	m.c.Missing(types.TypeString(t, nil) + "." + name)
}

// literal is a literal of a kind as an element of the argument list.
func (m *matching) literal(kind, name string) *flow.Term {
	p := types.NewPointer(m.c.Type(ast, kind))
	return flow.MakeIface(flow.Sym(name+":"+kind, p), p)
}

func (m *matching) list(lits ...*flow.Term) *flow.Term {
	t := types.NewSlice(m.c.Type(ast, "Val"))
	if len(lits) == 0 {
		return flow.Nil
	}
	var segs []*flow.Term
	for _, l := range lits {
		segs = append(segs, flow.Elem(l))
	}
	return flow.List(t, segs...)
}

// method evaluates a getter of a literal.
func (m *matching) getter(lit *flow.Term, kind, name string) *flow.Term {
	p := types.NewPointer(m.c.Type(ast, kind))
	v := lit
	if v.Op == "iface" || !types.Identical(v.Typ, p) {
		v = flow.IfaceVal(lit, p)
	}
	rs := m.in.CallFn(m.in.NewState(), m.c.Method(p, name), v)
	if len(rs) != 1 || rs[0].Panic {
		flow.Undecided("%s.%s is not a plain getter", kind, name)
	}
	return rs[0].Val
}

// outcome is one way compiling and matching can end.
type outcome struct {
	st      *flow.State
	matched *flow.Term
	err     *flow.Term
	compile int // number of events of compiling
	matcher *flow.Term
}

// run compiles the tree and matches the document.
func (m *matching) run(rule, what string) []outcome {
	var out []outcome
	for _, r := range m.compile(rule, what) {
		mt := flow.Ext(r.Val, 0, nil)
		n := len(r.St.Events())
		for _, q := range m.in.CallFn(r.St.Clone(), m.match, mt, m.doc) {
			if q.Panic {
				m.c.Bad(rule, what, m.c.P.Where(q.Pos), "matching %s can panic: %s", what, q.Why)
				continue
			}
			out = append(out, outcome{st: q.St, matched: flow.Ext(q.Val, 0, types.Typ[types.Bool]), err: flow.Ext(q.Val, 1, nil), compile: n, matcher: mt})
		}
	}
	m.c.Used(m.in)
	return out
}

// compile builds the matcher of the tree.
func (m *matching) compile(rule, what string) []flow.Ret {
	var out []flow.Ret
	for _, r := range m.in.CallFn(m.start.Clone(), m.newM, flow.Sym("query", types.Typ[types.String])) {
		if r.Panic {
			m.c.Bad(rule, what, m.c.P.Where(r.Pos), "compiling %s can panic: %s", what, r.Why)
			continue
		}
		if r.St.F.Decide(flow.Eq(flow.Ext(r.Val, 1, nil), flow.Nil)) != flow.Yes {
			m.c.Bad(rule, what, m.c.P.Where(m.newM.Pos()), "compiling %s can fail with %s", what, short(flow.Ext(r.Val, 1, nil)))
			continue
		}
		out = append(out, r)
	}
	m.c.Used(m.in)
	return out
}

// denoted returns the list of the values of the path found on a path of the
// analysis. It is empty if none were looked for.
func (m *matching) denoted(st *flow.State) (list *flow.Term, shape *valueShape, events int) {
	list = flow.Nil
	for _, e := range allEvents(st) {
		if !strings.HasPrefix(e.Name, "rec ") {
			continue
		}
		fn := m.resolver(e.Name)
		if fn == nil {
			continue
		}
		events++
		l, s := findValues(e.Res, e.Res.Typ, 0)
		if l == nil {
			flow.Undecided("the result of %s has no list of values", fn)
		}
		if list != flow.Nil && list != l {
			flow.Undecided("%s is called with different arguments in one test", fn)
		}
		list, shape = l, s
	}
	return list, shape, events
}

func (m *matching) resolver(name string) *ssa.Function {
	for fn := range m.res {
		if "rec "+fn.String() == name {
			return fn
		}
	}
	return nil
}

// allEvents returns the events of a path including those in loops.
func allEvents(st *flow.State) []*flow.Event {
	var out []*flow.Event
	seen := map[*flow.Event]bool{}
	var add func(evs []*flow.Event)
	add = func(evs []*flow.Event) {
		for _, e := range evs {
			if seen[e] {
				continue
			}
			seen[e] = true
			if e.Run != nil {
				for _, t := range e.Run.L.Trans {
					add(t.Evs)
				}
				continue
			}
			out = append(out, e)
		}
	}
	add(st.Events())
	return out
}

// findValues finds the list of values in the result of a resolver.
func findValues(t *flow.Term, typ types.Type, depth int) (*flow.Term, *valueShape) {
	if depth > 3 || typ == nil {
		return nil, nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return findValues(flow.Deref(t), u.Elem(), depth+1)
	case *types.Slice:
		if s := shapeOf(u.Elem()); s != nil {
			return t, s
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if l, s := findValues(flow.Field(t, i, typ), u.Field(i).Type(), depth+1); l != nil {
				return l, s
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if l, s := findValues(flow.Ext(t, i, u.At(i).Type()), u.At(i).Type(), depth+1); l != nil {
				return l, s
			}
		}
	}
	return nil, nil
}

// reading is a condition on a scalar with the given text and kind.
type reading func(data, kind *flow.Term) *flow.Formula

// someScalar is the condition that some scalar of the list satisfies p.
func (m *matching) someScalar(list *flow.Term, s *valueShape, p reading) *flow.Formula {
	if s == nil {
		return flow.T(flow.Bool(false))
	}
	scalar := func(k *flow.Term) *flow.Formula { return flow.FNot(m.isKind(k, "Object", "Array")) }
	return flow.Exists(list, s.elem, func(v *flow.Term) *flow.Formula {
		d, k := flow.Field(v, s.data, s.elem), flow.Field(v, s.kind, s.elem)
		return flow.FOr(
			flow.FAnd(scalar(k), p(d, k)),
			flow.FAnd(m.isKind(k, "Array"), flow.Exists(flow.JSONArray(d), nil, func(e *flow.Term) *flow.Formula {
				d, k := flow.JSONData(e), flow.JSONType(e, m.vt)
				return flow.FAnd(scalar(k), p(d, k))
			})))
	})
}

func ok(call *flow.Term, i int) *flow.Formula {
	return flow.T(flow.Eq(flow.Ext(call, i, nil), flow.Nil))
}

var (
	float64T = types.Typ[types.Float64]
	stringT  = types.Typ[types.String]
	boolT    = types.Typ[types.Bool]
)

// number reads a scalar as a number.
func (m *matching) number(p func(f *flow.Term) *flow.Formula) reading {
	return func(d, k *flow.Term) *flow.Formula {
		call := flow.App(jp+"ParseFloat", nil, d)
		return flow.FAnd(m.isKind(k, "String", "Number"), ok(call, 1), p(flow.Ext(call, 0, float64T)))
	}
}

// text reads a scalar as a text.
func (m *matching) text(p func(s *flow.Term) *flow.Formula) reading {
	return func(d, k *flow.Term) *flow.Formula {
		s := flow.App(jp+"ParseString", nil, d)
		f := flow.App(jp+"ParseFloat", nil, d)
		ff := flow.App("strconv.FormatFloat", stringT, flow.Ext(f, 0, float64T),
			flow.Const(constant.MakeInt64('f'), types.Typ[types.Byte]), flow.Int(-1), flow.Int(64))
		return flow.FOr(
			flow.FAnd(m.isKind(k, "String"), ok(s, 1), p(flow.Ext(s, 0, stringT))),
			flow.FAnd(m.isKind(k, "Number"), ok(f, 1), p(ff)))
	}
}

// instant reads a scalar as a timestamp.
func (m *matching) instant(p func(t *flow.Term) *flow.Formula) reading {
	return m.text(func(s *flow.Term) *flow.Formula {
		call := flow.App("github.com/araddon/dateparse.ParseAny", nil, s, flow.EmptyList)
		return flow.FAnd(ok(call, 1), p(flow.Ext(call, 0, nil)))
	})
}

func (m *matching) boolean(p func(b *flow.Term) *flow.Formula) reading {
	return func(d, k *flow.Term) *flow.Formula {
		call := flow.App(jp+"ParseBoolean", nil, d)
		return flow.FAnd(m.isKind(k, "Boolean"), ok(call, 1), p(flow.Ext(call, 0, boolT)))
	}
}

// agree compares the outcome of matching with its specification on every path.
// It returns the first disagreement.
func (m *matching) agree(outs []outcome, spec func(st *flow.State) *flow.Formula) (paths int, bad string, st *flow.State) {
	for _, o := range outs {
		if o.st.F.Decide(flow.App("encoding/json.Valid", boolT, m.doc)) == flow.No {
			continue
		}
		for _, v := range []bool{true, false} {
			s := o.st.Clone()
			if !s.Assume(o.matched, v) {
				continue
			}
			f := spec(s)
			got := m.in.Eval(f, s)
			paths++
			if got == flow.Yes && v || got == flow.No && !v {
				continue
			}
			how := "which does not follow from"
			if got != flow.Maybe {
				how = "contradicting"
			}
			return paths, fmt.Sprintf("returns %v, %s the values, when %s", v, how, trim(s.F.String())), s
		}
	}
	return paths, "", nil
}

func trim(s string) string {
	s = strings.ReplaceAll(s, prog.Module+"/", "")
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

// compare reports a violation if no variant of the specification agrees.
func (m *matching) compare(rule, what string, variants ...func(st *flow.State) *flow.Formula) {
	m.c.guard(rule, func() {
		outs := m.run(rule, what)
		var msg string
		for _, v := range variants {
			n, bad, st := m.agree(outs, v)
			if bad == "" {
				if n == 0 {
					m.c.Bad(rule, what, "", "no path found")
					return
				}
				m.c.Count["paths compared"] += n
				m.c.Ok(rule)
				return
			}
			if msg == "" {
				msg = bad
				_ = st
			}
		}
		m.c.Bad(rule, what, m.c.P.Where(m.match.Pos()), "matching %s %s", what, msg)
	})
}

func sortedNames(m map[*ssa.Function]bool) []string {
	var out []string
	for f := range m {
		out = append(out, prog.FnName(f))
	}
	sort.Strings(out)
	return out
}
