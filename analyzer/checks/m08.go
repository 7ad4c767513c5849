package checks

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["M08"] = M08
	All["P02"] = P02
}

// acceptedTests prepares every operator with every permitted kind and number of
// arguments, and every connective.
func (c *Ctx) acceptedTests(f func(m *matching, what string)) {
	for _, op := range []string{"EXS", "NUL"} {
		m := c.newMatching()
		m.test(c.Const(ast, op), flow.Nil)
		f(m, "field "+op)
	}
	for _, op := range []string{"LT", "LTE", "GT", "GTE"} {
		for _, k := range []string{"IntVal", "FloatVal", "TimeVal"} {
			m := c.newMatching()
			m.test(c.Const(ast, op), m.list(m.literal(k, "literal")))
			f(m, "field "+op+" "+k)
		}
	}
	for _, ks := range [][2]string{{"IntVal", "IntVal"}, {"IntVal", "FloatVal"}, {"FloatVal", "IntVal"}, {"FloatVal", "FloatVal"}, {"TimeVal", "TimeVal"}} {
		m := c.newMatching()
		m.test(c.Const(ast, "BET"), m.list(m.literal(ks[0], "low"), m.literal(ks[1], "high")))
		f(m, "field BET "+ks[0]+" "+ks[1])
	}
	for _, op := range []string{"EQ", "SIM"} {
		for _, kind := range literalKinds {
			if op == "SIM" && !permitted("SIM", kind) {
				continue
			}
			f(c.equalityTest(op, kind), "field "+op+" "+kind)
		}
		m := c.equalityTest(op, "")
		if op == "SIM" {
			old := m.in.Uni.Domain
			m.in.Uni.Domain = func(x *flow.Term) []types.Type {
				if x.Op == "elem" && x.Args[0] == m.rvals {
					var ts []types.Type
					for _, k := range literalKinds {
						if permitted("SIM", k) {
							ts = append(ts, types.NewPointer(c.Type(ast, k)))
						}
					}
					return ts
				}
				return old(x)
			}
		}
		f(m, "field "+op+" (list of literals)")
	}
	for _, k := range connectives {
		m, _ := c.connective(k.kind)
		f(m, k.kind)
	}
}

func permitted(op, kind string) bool {
	switch op {
	case "SIM":
		return kind == "StringVal" || kind == "RegexpVal" || kind == "BoolVal"
	case "LT", "LTE", "GT", "GTE", "BET":
		return kind == "IntVal" || kind == "FloatVal" || kind == "TimeVal"
	case "EQ":
		return true
	}
	return false
}

// discharged reports the obligations of an interpreter that were not shown.
func (c *Ctx) discharged(rule string, in *flow.Interp) {
	var keys []string
	for k := range in.Obls {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := in.Obls[k]
		if !c.P.InRepo(o.Fn) {
			continue
		}
		ok := "ok " + k
		if o.Proven {
			if !c.seen[ok] {
				c.seen[ok] = true
				c.Ok(rule)
			}
			continue
		}
		c.Bad(rule, prog.FnName(o.Fn)+" "+o.Kind, c.P.Where(o.Pos), "can panic: %s", trim(o.Detail))
	}
	c.Used(in)
}

// mustCalls watches calls of library functions that panic on bad arguments.
func (c *Ctx) mustCalls(rule string, in *flow.Interp) {
	old := in.Hook
	in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn != nil && !c.P.InRepo(call.Fn) {
			n := call.Fn.Name()
			switch {
			case call.Name == "regexp.MustCompile":
				c.mustCompile(rule, in, st, call)
			case strings.HasPrefix(n, "Must") || call.Name == "text/template.Must" || call.Name == "html/template.Must":
				c.Bad(rule, prog.FnName(call.In)+" "+call.Name, c.P.Where(call.Pos), "%s panics if its argument is not valid", call.Name)
			case call.Name == "strings.Repeat" || call.Name == "bytes.Repeat":
				c.Need(st.F.Decide(flow.Le(flow.Int(0), call.Args[1])) == flow.Yes, rule, prog.FnName(call.In)+" "+call.Name, c.P.Where(call.Pos), "the count %s can be negative", short(call.Args[1]))
			}
		}
		if old != nil {
			return old(in, st, call)
		}
		return nil, false
	}
}

// mustCompile checks that a pattern is always valid: it consists of quoted text
// and constant pieces that are each valid on their own.
func (c *Ctx) mustCompile(rule string, in *flow.Interp, st *flow.State, call *flow.Call) {
	what := prog.FnName(call.In) + " " + call.Name
	where := c.P.Where(call.Pos)
	pat := call.Args[0]
	if s, ok := pat.StrVal(); ok {
		_, err := regexp.Compile(s)
		c.Need(err == nil, rule, what, where, "the pattern %q is not valid", s)
		return
	}
	bad := ""
	for _, p := range in.Pieces(st, pat) {
		switch s, ok := p.StrVal(); {
		case ok:
			if _, err := regexp.Compile(s); err != nil {
				bad = s
			}
		case p.Op == "app" && p.Aux == "regexp.QuoteMeta":
		default:
			bad = short(p)
		}
	}
	c.Need(bad == "", rule, what, where, "the pattern contains %s, which is not always valid", bad)
	// a valid pattern is still refused when it is too large
	c.Bad("pattern size", "search pattern of a string literal", where, "%s panics if the pattern is too large, and the length of the text it is made from is not bounded", call.Name)
}

// M08 checks that nothing panics.
func M08(c *Ctx) {
	c.Rule("for every operator with every permitted kind of argument and every connective: on no path through compiling, matching and reading statistics is a panic reached; every index, slice bound, length, divisor and type assertion is shown to be safe")
	rule := "compile and match"
	c.acceptedTests(func(m *matching, what string) {
		c.guard(rule, func() {
			for _, o := range m.run(rule, what) {
				for _, r := range m.in.CallFn(o.st.Clone(), m.stats, o.matcher) {
					if r.Panic {
						c.Bad(rule, what, c.P.Where(r.Pos), "reading statistics of %s can panic: %s", what, r.Why)
					}
				}
				c.Count["paths"]++
			}
			c.discharged(rule, m.in)
		})
	})
	c.AtLeast(rule, 5)

	c.Rule("finding the values of a path: no panic for a path of at least one segment; the result is not nil; every recursive call passes a path of at least one segment")
	c.either("values of a path", func() { c.safeResolution("values of a path") }, func() { c.safeLookups("values of a path") })

	c.Rule("making a pattern from a string literal: no panic; the pattern consists of quoted text and valid constant pieces, and its size is bounded")
	rule = "patterns"
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, "jsonmatcher") || fn.Parent() != nil || !patternMaker(fn.Signature) {
			continue
		}
		c.guard(rule, func() {
			in := c.Interp()
			c.mustCalls(rule, in)
			for _, r := range in.CallFn(in.NewState(), fn, flow.Sym("literal", stringT)) {
				if r.Panic {
					c.Bad(rule, prog.FnName(fn), c.P.Where(r.Pos), "can panic: %s", r.Why)
				} else {
					c.Ok(rule)
				}
			}
			c.discharged(rule, in)
		})
	}
	c.AtLeast(rule, 1)

	c.Rule("texts of trees and literals: no panic")
	rule = "texts"
	for _, fn := range c.P.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && stringy(fn) {
			c.guard(rule, func() { c.safeFunction(rule, fn) })
		}
	}
	c.AtLeast(rule, 3)

	c.Rule("parsing: the generated parser turns panics into errors; validators and message visitors do not panic on any node")
	c.guard("visitors", func() { c.safeVisitors("visitors") })
	c.guard("recover", func() { c.recovers("recover") })
	c.Assume = append(c.Assume,
		"operands, arguments and paths of query trees are not nil and not empty (G04, P01)",
		"library functions do not panic on valid arguments", "memory and stack suffice")
}

// safeFunction analyses a function on arbitrary arguments.
func (c *Ctx) safeFunction(rule string, fn *ssa.Function) {
	in := c.Interp()
	c.mustCalls(rule, in)
	in.Uni.NonNil = func(x *flow.Term) bool {
		return x.Typ != nil && types.IsInterface(x.Typ) && x.Op != "ext" || x.Op == "arg"
	}
	var args []*flow.Term
	for _, p := range fn.Params {
		args = append(args, flow.Sym("parameter "+p.Name(), p.Type()))
	}
	in.Opaque = func(f *ssa.Function) bool { return f != fn && stringy(f) }
	n := 0
	for _, r := range in.CallFn(in.NewState(), fn, args...) {
		n++
		if r.Panic {
			c.Bad(rule, prog.FnName(fn), c.P.Where(r.Pos), "can panic: %s", r.Why)
		} else {
			c.Ok(rule)
		}
	}
	c.discharged(rule, in)
}

// safeResolution analyses the functions that find values.
func (c *Ctx) safeResolution(rule string) {
	r := c.resolution()
	m := c.newMatching()
	bytes := types.NewSlice(types.Typ[types.Byte])
	for _, f := range append([]*ssa.Function{r.walk}, r.entries...) {
		in := c.Interp()
		if f != r.walk {
			in.Opaque = func(g *ssa.Function) bool { return g == r.walk }
		}
		var p *flow.Term
		for _, x := range f.Params {
			if paramKind(x.Type()) == "path" {
				p = flow.Sym("rest of the path", x.Type())
			}
		}
		if p == nil {
			flow.Undecided("%s has no path", f)
		}
		st := in.NewState()
		st.Assume(flow.Le(flow.Int(1), flow.Len(p)), true)
		for _, q := range in.CallFn(st, f, resolverArgs(f, p, flow.Sym("value", bytes), flow.Sym("kind of value", m.vt))...) {
			if q.Panic {
				c.Bad(rule, prog.FnName(f), c.P.Where(q.Pos), "can panic: %s", q.Why)
				continue
			}
			if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				c.Need(q.Val.Op == "obj", rule, prog.FnName(f), c.P.Where(f.Pos()), "returns %s, which can be nil", short(q.Val))
			}
			n := 0
			for _, e := range allEvents(q.St) {
				if e.Name != "rec "+r.walk.String() {
					continue
				}
				for i, x := range r.walk.Params {
					if paramKind(x.Type()) == "path" {
						n++
						c.Need(e.F.Decide(flow.Le(flow.Int(1), flow.Len(e.Args[i]))) == flow.Yes, rule, prog.FnName(f)+" recursion", c.P.Where(e.Pos), "looks for the path %s, which can be empty, when %s", short(e.Args[i]), trim(e.F.String()))
					}
				}
			}
			_ = n
		}
		c.discharged(rule, in)
	}
	c.AtLeast(rule, 4)
}

// safeLookups analyses finding values in documents of limited size.
func (c *Ctx) safeLookups(rule string) {
	c.limitedLookups(func(l *lookup, st *flow.State, rs func() []flow.Ret) {
		what := prog.FnName(l.entry)
		for _, q := range rs() {
			if q.Panic {
				c.Bad(rule, what, c.P.Where(q.Pos), "can panic: %s", q.Why)
				continue
			}
			if _, ok := resultType(l.entry).Underlying().(*types.Pointer); ok {
				c.Need(q.Val.Op == "obj", rule, what, c.P.Where(l.entry.Pos()), "returns %s, which can be nil", short(q.Val))
			}
		}
		c.discharged(rule, l.in)
	})
	c.AtLeast(rule, 4)
}

// visitorFuncs returns the functions that are called for nodes of a tree.
func (c *Ctx) visitorFuncs() []*ssa.Function {
	node := c.Type(ast, "Node")
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		s := fn.Signature
		if fn.Synthetic != "" || !(inPkg(fn, "jsonmatcher") || inPkg(fn, "parser")) || s.Recv() != nil || s.Params().Len() == 0 || s.Results().Len() != 1 {
			continue
		}
		if !types.Identical(s.Params().At(0).Type(), node) || types.TypeString(s.Results().At(0).Type(), nil) != "error" {
			continue
		}
		if s.Params().Len() == 2 && !strings.HasSuffix(types.TypeString(s.Params().At(1).Type(), nil), "parser.MessageTape") || s.Params().Len() > 2 {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// safeVisitors analyses visitors on arbitrary nodes.
func (c *Ctx) safeVisitors(rule string) {
	// operators a tree can contain
	fns := c.visitorFuncs()
	ops := c.StrConsts(ast, c.Type(ast, "Op"))
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, fn := range fns {
		c.guard(rule, func() {
			for _, op := range names {
				in := c.Interp()
				c.mustCalls(rule, in)
				m := &matching{c: c, in: in}
				rv := flow.Sym("literals", types.NewSlice(c.Type(ast, "Val")))
				in.Opaque = stringy
				in.Uni.NonNil = func(x *flow.Term) bool { return x.Op == "elem" && x.Args[0] == rv }
				m.path = flow.Sym("path", types.NewSlice(stringT))
				m.test(flow.Const(constant.MakeString(ops[op]), c.Type(ast, "Op")), rv)
				args := []*flow.Term{m.tree}
				if len(fn.Params) == 2 {
					p := fn.Params[1]
					args = append(args, flow.Sym("parameter "+p.Name(), p.Type()))
				}
				for _, r := range in.CallFn(m.start, fn, args...) {
					if r.Panic {
						c.Bad(rule, prog.FnName(fn), c.P.Where(r.Pos), "can panic on operator %s: %s", op, r.Why)
					} else {
						c.Ok(rule)
					}
				}
				c.discharged(rule, in)
			}
		})
	}
	c.AtLeast(rule, 9)
}

// recovers checks that the generated parser turns panics into errors: the
// function that runs it defers a function that calls recover, on the condition
// of a field that is true unless an option sets it.
func (c *Ctx) recovers(rule string) {
	found := false
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, "internal/grammar") || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Call); ok {
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						found = true
					}
				}
			}
		}
	}
	c.Need(found, rule, "generated parser", "", "the generated parser does not recover from panics")
	// the condition on which it does
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, "internal/grammar") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				d, ok := i.(*ssa.Defer)
				if !ok || !recovering(d.Call.Value) {
					continue
				}
				for _, p := range b.Preds {
					x, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					u, ok := x.Cond.(*ssa.UnOp)
					if !ok {
						flow.Undecided("recovering from panics depends on %s", x.Cond)
					}
					f, ok := u.X.(*ssa.FieldAddr)
					if !ok {
						flow.Undecided("recovering from panics depends on %s", u.X)
					}
					c.Need(c.setTrue(f), rule, "generated parser", c.P.Where(d.Pos()), "the generated parser recovers from panics only if asked to")
				}
			}
		}
	}
	opt := c.P.Func("internal/grammar", "Recover")
	for _, fn := range c.P.Funcs {
		if inPkg(fn, "internal/grammar") {
			continue // options return options that restore the old value
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok && opt != nil && x.Common().StaticCallee() == opt {
					k, isC := x.Common().Args[0].(*ssa.Const)
					c.Need(isC && k.Value != nil && constant.BoolVal(k.Value), rule, prog.FnName(fn), c.P.Where(i.Pos()), "parsing is asked to let panics through")
				}
			}
		}
	}
}

// P02 checks that everything the parser accepts can be compiled.
func P02(c *Ctx) {
	c.Rule("for every operator with every permitted kind and number of arguments and every connective: on every path compiling returns a matcher and no error and does not panic, and the matcher refers to the path and to every argument or operand of the node")
	rule := "compile"
	c.acceptedTests(func(m *matching, what string) {
		c.guard(rule, func() {
			n := 0
			for _, r := range m.compile(rule, what) {
				n++
				mt := flow.Ext(r.Val, 0, nil)
				where := c.P.Where(m.newM.Pos())
				if !c.Need(mt.Op == "obj", rule, what, where, "compiling %s returns %s", what, short(mt)) {
					continue
				}
				refs := m.in.Reachable(r.St, mt)
				has := func(t *flow.Term) bool {
					for _, x := range refs {
						if x == t || x.Mentions(func(y *flow.Term) bool { return y == t }) {
							return true
						}
					}
					return false
				}
				tree := m.tree.Args[0]
				content := m.in.Load(m.start, tree)
				st := tree.Typ.(*types.Pointer).Elem().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					f := flow.Field(content, i, tree.Typ.(*types.Pointer).Elem())
					switch name := st.Field(i).Name(); {
					case types.IsInterface(st.Field(i).Type()):
						c.Need(has(f), rule, what, where, "compiling %s drops its operand %s", what, name)
					case name == "Field":
						c.Need(has(f), rule, what, where, "compiling %s drops its path", what)
					case name == "RVals" && f.Op == "list":
						for k, s := range f.Args {
							c.Need(has(s.Args[0].Args[0]), rule, what, where, "compiling %s drops its argument %d", what, k+1)
						}
					case name == "RVals" && f.Op == "sym":
						c.Need(c.eachContributes(m, r.St, refs, f), rule, what, where, "compiling %s does not turn each argument into a part of the matcher", what)
					}
				}
			}
			if n == 0 && len(c.Viol) == 0 {
				c.Bad(rule, what, "", "no way to compile %s was found", what)
			}
		})
	})
	c.AtLeast(rule, 40)

	c.Rule("for queries of several parts, built and evaluated as a whole: the outcome is the combination of what each test says about its own field and argument")
	for _, w := range c.wholes() {
		w.compare("whole queries", w.what, w.spec)
	}
	c.AtLeast("whole queries", 3)

	c.Rule("the only nodes the grammar makes are the connectives and tests above")
	rule = "nodes of the grammar"
	node := c.Type(ast, "Node").Underlying().(*types.Interface)
	known := map[string]bool{"ExprNode": true}
	for _, k := range connectives {
		known[k.kind] = true
	}
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, "internal/grammar") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				a, ok := i.(*ssa.Alloc)
				if !ok || !types.Implements(a.Type(), node) {
					continue
				}
				n := a.Type().(*types.Pointer).Elem().(*types.Named).Obj().Name()
				c.Need(known[n], rule, n, c.P.Where(i.Pos()), "the grammar makes nodes of type %s, which are not compiled", n)
			}
		}
	}
	c.AtLeast(rule, 4)
}

// eachContributes tells whether some list in the matcher has a part for every
// element of src.
func (c *Ctx) eachContributes(m *matching, st *flow.State, refs []*flow.Term, src *flow.Term) bool {
	for _, t := range refs {
		ok := false
		t.Mentions(func(x *flow.Term) bool {
			if x.Op == "list" && len(x.Args) == 1 && x.Args[0].Op == "seg:c" {
				adds, complete := m.in.Comprehension(st, x.Args[0], src)
				if !complete || len(adds) == 0 {
					return false
				}
				all := true
				for _, a := range adds {
					if len(a.Add) == 0 {
						all = false
					}
				}
				ok = ok || all
			}
			return ok
		})
		if ok {
			return true
		}
	}
	return false
}

// recovering tells whether a deferred function recovers from panics.
func recovering(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeClosure); ok {
		v = m.Fn
	}
	fn, ok := v.(*ssa.Function)
	if !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Call); ok {
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// setTrue tells whether a field is set to true somewhere and nowhere to false.
func (c *Ctx) setTrue(f *ssa.FieldAddr) bool {
	t := f.X.Type().Underlying().(*types.Pointer).Elem()
	yes := false
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || a.Field != f.Field || !types.Identical(a.X.Type().Underlying().(*types.Pointer).Elem(), t) {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok {
					if k.Value == nil || !constant.BoolVal(k.Value) {
						return false
					}
					yes = true
				}
			}
		}
	}
	return yes
}
