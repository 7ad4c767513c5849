package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["P01"] = P01
}

// parsing is the analysis of what happens to a tree after the grammar made it.
type parsing struct {
	c     *Ctx
	in    *flow.Interp
	parse *ssa.Function
	// tree gives what the grammar returns: a tree and an error.
	result func(st *flow.State) []flow.Ret
	hook   func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool)
}

func (c *Ctx) newParsing() *parsing {
	p := &parsing{c: c, in: c.Interp(), parse: c.Fn("parser", "ParseQuery")}
	p.in.Opaque = stringy
	p.nonNil(nil)
	p.in.Uni.Number = func(x *flow.Term) bool { return x.Op == "app" && x.Aux == "value of strconv.ParseFloat" }
	p.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if inPkg(call.Fn, "internal/grammar") && call.Fn.Parent() == nil && strings.HasPrefix(call.Fn.Name(), "Parse") && call.Fn.Signature.Recv() == nil && p.result != nil {
			st.Emit(&flow.Event{Name: "grammar", Args: call.Args, Pos: call.Pos})
			return p.result(st), true
		}
		if rs, ok := reads(st, call); ok {
			return rs, true
		}
		if p.hook != nil {
			return p.hook(in, st, call)
		}
		return nil, false
	}
	return p
}

// nonNil sets which terms are not nil, besides errors that are parse errors.
func (p *parsing) nonNil(more func(x *flow.Term) bool) {
	pe := types.NewPointer(p.c.Type("internal/grammar", "ParseError"))
	p.in.Uni.NonNil = func(x *flow.Term) bool {
		if x.Op == "ifval" && x.DTyp != nil && types.Identical(x.DTyp, pe) {
			return true
		}
		return more != nil && more(x)
	}
}

// arg is a literal made by its constructor.
type arg struct {
	kind string
	val  *flow.Term // the interface
	ptr  *flow.Term
	text *flow.Term
	num  *flow.Term // as a 64-bit float
	raw  *flow.Term
}

// world is a state in which literals were made.
type world struct {
	st   *flow.State
	args []arg
}

// with adds a literal of a kind to each of the worlds.
func (p *parsing) with(ws []world, kind, name string) []world {
	c := p.c
	t := c.Type(ast, kind)
	mk := c.Fn(ast, "New"+kind)
	old := p.hook
	p.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		// parsing the text succeeds
		if call.Fn == nil || c.P.InRepo(call.Fn) || call.Sig.Results().Len() != 2 || types.TypeString(call.Sig.Results().At(1).Type(), nil) != "error" {
			return nil, false
		}
		v := flow.App("value of "+call.Name, call.Sig.Results().At(0).Type(), append([]*flow.Term{flow.Sym(name, stringT)}, call.Args...)...)
		if types.TypeString(v.Typ, nil) == "bool" {
			var out []flow.Ret
			for _, b := range []bool{true, false} {
				if s2 := st.Clone(); s2.Assume(v, b) {
					out = append(out, flow.Ret{St: s2, Val: flow.Tuple(flow.Bool(b), flow.Nil)})
				}
			}
			return out, true
		}
		return []flow.Ret{{St: st, Val: flow.Tuple(v, flow.Nil)}}, true
	}
	defer func() { p.hook = old }()
	var out []world
	bytes := types.NewSlice(types.Typ[types.Byte])
	for _, w := range ws {
		for _, r := range p.in.CallFn(w.st.Clone(), mk, flow.Sym("text of "+name, bytes), flow.Sym("position of "+name, c.Type(ast, "Pos"))) {
			obj, err := flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
			if r.Panic || err != flow.Nil || obj.Op != "obj" {
				continue
			}
			a := arg{kind: kind, ptr: obj, val: flow.MakeIface(obj, types.NewPointer(t))}
			a.text = p.get(r.St, a, "String")
			switch kind {
			case "IntVal":
				a.raw = p.get(r.St, a, "Value")
				a.num = flow.Conv(a.raw, types.Typ[types.Int64], types.Typ[types.Float64])
			case "FloatVal", "TimeVal":
				a.raw = p.get(r.St, a, "Value")
				a.num = a.raw
			}
			if kind != "BoolVal" {
				ok := r.St.Assume(flow.Eq(a.text, flow.Str("true")), false) && r.St.Assume(flow.Eq(a.text, flow.Str("false")), false) && r.St.Assume(flow.Eq(a.text, flow.Str("")), false)
				if !ok {
					continue
				}
			}
			out = append(out, world{r.St, append(append([]arg(nil), w.args...), a)})
		}
	}
	if len(out) == 0 {
		flow.Undecided("no way to make a %s was found", kind)
	}
	return out
}

// get evaluates a method of a literal.
func (p *parsing) get(st *flow.State, a arg, name string) *flow.Term {
	rs := p.in.CallFn(st.Clone(), p.c.Method(types.NewPointer(p.c.Type(ast, a.kind)), name), a.ptr)
	if len(rs) != 1 || rs[0].Panic {
		flow.Undecided("%s.%s is not a plain getter", a.kind, name)
	}
	return rs[0].Val
}

// node makes the tree of a test.
func (p *parsing) node(st *flow.State, op, rvals *flow.Term) *flow.Term {
	m := &matching{c: p.c, in: p.in}
	en := p.c.Type(ast, "ExprNode")
	path := flow.Sym("path", types.NewSlice(stringT))
	obj := st.Alloc("test", en, flow.Zero(en))
	m.setField(st, obj, "Op", op)
	m.setField(st, obj, "Field", path)
	m.setField(st, obj, "RVals", rvals)
	m.setField(st, obj, "Position", flow.Sym("position of the test", p.c.Type(ast, "Pos")))
	return flow.MakeIface(obj, types.NewPointer(en))
}

// language is the specification: when a test is a test of the language.
func language(op string, args []arg) (spec []*flow.Formula) {
	no, yes := flow.T(flow.Bool(false)), flow.T(flow.Bool(true))
	one := func(f *flow.Formula) []*flow.Formula { return []*flow.Formula{f} }
	for _, a := range args {
		if !permitted(op, a.kind) {
			return one(no)
		}
	}
	var dup, conflict []*flow.Formula
	for i, a := range args {
		for _, b := range args[:i] {
			dup = append(dup, flow.T(flow.Eq(a.text, b.text)))
			for _, x := range []string{"true", "false"} {
				y := map[string]string{"true": "false", "false": "true"}[x]
				conflict = append(conflict, flow.FAnd(flow.T(flow.Eq(a.text, flow.Str(x))), flow.T(flow.Eq(b.text, flow.Str(y)))))
			}
		}
	}
	switch op {
	case "EXS", "NUL":
		if len(args) == 0 {
			return one(yes)
		}
	case "LT", "LTE", "GT", "GTE":
		if len(args) == 1 {
			return one(yes)
		}
	case "BET":
		if len(args) != 2 {
			return one(no)
		}
		l, r := args[0], args[1]
		if (l.kind == "TimeVal") != (r.kind == "TimeVal") {
			return one(no)
		}
		partial := l.kind != "TimeVal"
		out := one(flow.FAnd(flow.FNot(flow.FOr(dup...)), flow.T(flow.Ord(l.num, "<", r.num, partial))))
		if l.kind == "IntVal" && r.kind == "IntVal" {
			out = append(out, flow.FAnd(flow.FNot(flow.FOr(dup...)), flow.T(flow.Lt(l.raw, r.raw))))
		}
		return out
	case "SIM":
		if len(args) > 0 {
			return one(flow.FNot(flow.FOr(dup...)))
		}
	case "EQ":
		if len(args) > 0 {
			return one(flow.FNot(flow.FOr(append(dup, conflict...)...)))
		}
	}
	return one(no)
}

var operators = []string{"EQ", "LT", "LTE", "GT", "GTE", "BET", "SIM", "EXS", "NUL"}

// P01 checks which tests are accepted.
func P01(c *Ctx) {
	c.Rule("for every operator and every list of up to three literals of any kinds or four of one kind: on every path through parsing after the grammar, the query is accepted if and only if the test is one of the language")
	rule := "accepted tests"
	names := c.StrConsts(ast, c.Type(ast, "Op"))
	for n := range names {
		found := false
		for _, o := range operators {
			found = found || o == n
		}
		c.Need(found, "operators", n, "", "the operator %s is not one of the language", n)
	}
	p := c.newParsing()
	worlds := []world{{st: p.in.NewState()}}
	level := worlds
	c.guard(rule, func() {
		for n := 0; ; n++ {
			for _, w := range level {
				for _, op := range operators {
					c.accepted(rule, p, op, w)
				}
			}
			if n == 3 {
				break
			}
			var next []world
			for _, w := range level {
				for _, k := range literalKinds {
					next = append(next, p.with([]world{w}, k, fmt.Sprintf("literal %d:%s", n+1, k))...)
				}
			}
			level = next
		}
		for _, k := range literalKinds {
			four := worlds
			for n := 1; n <= 4; n++ {
				four = p.with(four, k, fmt.Sprintf("literal %d:%s", n, k))
			}
			for _, w := range four {
				for _, op := range operators {
					c.accepted(rule, p, op, w)
				}
			}
		}
		c.cutoff("list lengths", p.in, "parser")
		c.Used(p.in)
	})
	c.AtLeast(rule, 1000)

	c.Rule("the functions that decide compare lengths and positions only with each other and with numbers up to 2, so that longer lists bring no new case")
	c.Rule("for every operator and any list of literals: an accepted test has the number of literals the operator supports, and ~ only the kinds it supports")
	rule = "accepted lists"
	for _, op := range operators {
		c.guard(rule, func() { c.acceptedLists(rule, op) })
	}
	c.AtLeast(rule, 9)

	c.Rule("a test is refused wherever it is in the query: for every connective, visiting the operands is not skipped by the validation")
	rule = "validation of operands"
	c.either(rule, func() { c.validatesAll(rule); c.AtLeast(rule, 4) }, func() { c.validatesTrees(rule) })
	c.Assume = append(c.Assume,
		"arguments are repeated if their printed forms are equal",
		"numbers are compared as 64-bit floats (N01)",
		"the printed form of a literal that is no boolean is never true, false or empty",
		"every node of the tree is visited (P05), by the validation first (P03)")
}

// accepted compares the outcomes of parsing a test with the specification.
func (c *Ctx) accepted(rule string, p *parsing, op string, w world) {
	st := w.st.Clone()
	var segs []*flow.Term
	what := op
	for _, a := range w.args {
		segs = append(segs, flow.Elem(a.val))
		what += " " + a.kind
	}
	rvals := flow.Nil
	if len(segs) > 0 {
		rvals = flow.List(types.NewSlice(c.Type(ast, "Val")), segs...)
	}
	tree := p.node(st, c.Const(ast, op), rvals)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	spec := language(op, w.args)
	for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
		if r.Panic {
			c.Bad(rule, what, c.P.Where(r.Pos), "validating %s can panic: %s", what, r.Why)
			continue
		}
		err := flow.Ext(r.Val, 1, nil)
		got := err == flow.Nil
		want := flow.Maybe
		for _, f := range spec {
			if v := p.in.Eval(f, r.St); v != flow.Maybe {
				want = v
			}
		}
		msg := "accepted"
		if !got {
			msg = "refused"
		}
		c.Need(want == flow.Yes && got || want == flow.No && !got, rule, what, c.P.Where(p.parse.Pos()), "%s is %s although it should be otherwise when %s", what, msg, trim(r.St.F.String()))
	}
}

// acceptedLists looks at lists of any length.
func (c *Ctx) acceptedLists(rule, op string) {
	p := c.newParsing()
	list := flow.Sym("literals", types.NewSlice(c.Type(ast, "Val")))
	p.nonNil(func(x *flow.Term) bool { return x.Op == "elem" && x.Args[0] == list })
	st := p.in.NewState()
	tree := p.node(st, c.Const(ast, op), list)
	p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
	n := 0
	for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
		if r.Panic {
			c.Bad(rule, op, c.P.Where(r.Pos), "validating %s can panic: %s", op, r.Why)
			continue
		}
		if flow.Ext(r.Val, 1, nil) != flow.Nil {
			continue
		}
		n++
		var size *flow.Term
		switch op {
		case "EXS", "NUL":
			size = flow.IEq(flow.Len(list), flow.Int(0))
		case "LT", "LTE", "GT", "GTE":
			size = flow.IEq(flow.Len(list), flow.Int(1))
		case "BET":
			size = flow.IEq(flow.Len(list), flow.Int(2))
		default:
			size = flow.Le(flow.Int(1), flow.Len(list))
		}
		c.Need(r.St.F.Decide(size) == flow.Yes, rule, op, c.P.Where(p.parse.Pos()), "%s is accepted with a number of arguments that it does not support when %s", op, trim(r.St.F.String()))
		bad := flow.Exists(list, c.Type(ast, "Val"), func(x *flow.Term) *flow.Formula {
			var fs []*flow.Formula
			for _, k := range literalKinds {
				if !permitted(op, k) {
					fs = append(fs, flow.T(flow.IsType(x, types.NewPointer(c.Type(ast, k)))))
				}
			}
			return flow.FOr(fs...)
		})
		if op == "SIM" { // the others accept all kinds, or a number of arguments covered above
			c.Need(p.in.Eval(bad, r.St) == flow.No, rule, op, c.P.Where(p.parse.Pos()), "%s is accepted with an argument of a kind that it does not support when %s", op, trim(r.St.F.String()))
		}
	}
	if n == 0 {
		c.Bad(rule, op, "", "no way to accept %s was found", op)
	}
	c.Used(p.in)
}

// validatesAll runs parsing on connectives and checks that the validation goes on
// to the operands, or has refused.
func (c *Ctx) validatesAll(rule string) {
	for _, k := range connectives {
		p := c.newParsing()
		m := &matching{c: c, in: p.in}
		t := c.Type(ast, k.kind)
		st := p.in.NewState()
		obj := st.Alloc("connective "+k.kind, t, flow.Zero(t))
		s := t.Underlying().(*types.Struct)
		var operands []*flow.Term
		for i := 0; i < s.NumFields(); i++ {
			if types.IsInterface(s.Field(i).Type()) {
				x := flow.Sym("operand "+s.Field(i).Name(), s.Field(i).Type())
				operands = append(operands, x)
				m.setField(st, obj, s.Field(i).Name(), x)
			}
		}
		p.nonNil(func(x *flow.Term) bool { return x.Op == "sym" && strings.HasPrefix(x.Aux, "operand ") })
		tree := flow.MakeIface(obj, types.NewPointer(t))
		p.result = func(st *flow.State) []flow.Ret { return []flow.Ret{{St: st, Val: flow.Tuple(tree, flow.Nil)}} }
		for _, r := range p.in.CallFn(st, p.parse, flow.Sym("query", stringT), flow.Nil) {
			if r.Panic || flow.Ext(r.Val, 1, nil) != flow.Nil {
				continue
			}
			if p.skipped(r.St) {
				continue // the validation does not ask for it: shown for every kind of node
			}
			for _, x := range operands {
				seen := false
				for _, e := range allEvents(r.St) {
					if strings.HasPrefix(e.Name, "rec ") {
						for _, a := range e.Args {
							seen = seen || a == x
						}
					}
				}
				c.Need(seen, rule, k.kind+" "+x.Aux, c.P.Where(p.parse.Pos()), "the %s of %s is not validated when %s", x.Aux, k.kind, trim(r.St.F.String()))
			}
		}
		c.Used(p.in)
	}
}

// skipped tells whether visiting an operand asked to skip.
func (p *parsing) skipped(st *flow.State) bool {
	for _, e := range allEvents(st) {
		if !strings.HasPrefix(e.Name, "rec ") || e.Res == nil {
			continue
		}
		for _, n := range []string{"Skip", "SkipAll"} {
			if st.F.Decide(flow.Eq(e.Res, p.sentinel(n))) == flow.Yes {
				return true
			}
		}
	}
	return false
}

// sentinel is the value of an exported error variable.
func (p *parsing) sentinel(name string) *flow.Term {
	g := p.c.P.Pkg("parser").Var(name)
	if g == nil {
		p.c.Missing("parser." + name)
	}
	return p.in.Load(p.in.NewState(), p.in.Global(g))
}

// cutoff checks that the functions do not depend on numbers greater than two.
func (c *Ctx) cutoff(rule string, in *flow.Interp, pkg string) {
	for fn := range in.Funcs {
		if !inPkg(fn, pkg) {
			continue
		}
		big := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return false
			}
			b, ok := k.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || types.TypeString(k.Type(), nil) != "int" {
				return false
			}
			n, exact := constant.Int64Val(k.Value)
			return !exact || n > 2 || n < -2
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var vs []ssa.Value
				switch x := i.(type) {
				case *ssa.BinOp:
					if x.Op == token.REM || x.Op == token.AND || x.Op == token.QUO {
						c.Bad(rule, prog.FnName(fn), c.P.Where(i.Pos()), "depends on a part of a number: %s", i)
					}
					vs = []ssa.Value{x.X, x.Y}
				case *ssa.Slice:
					vs = []ssa.Value{x.Low, x.High, x.Max}
				case *ssa.Phi:
					vs = x.Edges
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
						vs = x.Call.Args
					}
				}
				for _, v := range vs {
					c.Need(v == nil || !big(v), rule, prog.FnName(fn), c.P.Where(i.Pos()), "depends on the number %v", v)
				}
			}
		}
	}
	c.AtLeast(rule, 1)
}
