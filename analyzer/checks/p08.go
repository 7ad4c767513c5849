package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() { All["P08"] = p08 }

// printing is the analysis of how trees are printed.
type printing struct {
	c     *Ctx
	in    *flow.Interp
	field *ssa.Function // prints a path
	names map[string]string
}

func p08(c *Ctx) {
	c.Rule("connectives: a connective prints each of its operands once, in order, with text before, between and after them that no other connective has")
	c.Rule("tests: a test prints its operator, its path and each of its values once, in order, with something between them; the readable form leaves out the operator of equality only")
	c.Rule("field paths: a path prints each segment once, in order, separated by dots; a segment is printed bare only if it has no dot, blank or quote")
	c.Rule("operators: all operators are printed differently")
	c.Rule("literals: a literal is printed as its text or in a form from which its value can be read again")
	p := &printing{c: c, in: c.Interp(), names: map[string]string{}}
	p.in.Unroll = 40
	p.field = c.Fn(ast, "FieldString")
	p.in.Uni.NonNil = func(x *flow.Term) bool { return isOperand(x) }
	p.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn == p.field {
			return []flow.Ret{{St: st, Val: flow.App("path text", stringT, call.Args...)}}, true
		}
		if len(call.Args) == 1 && isOperand(call.Args[0]) && (call.Fn == nil && strings.HasSuffix(call.Name, "String") || call.Fn != nil && call.Fn.Name() == "String") {
			return []flow.Ret{{St: st, Val: flow.App("print", stringT, call.Args[0])}}, true
		}
		return nil, false
	}
	p.connectives()
	p.tests()
	p.paths()
	c.cutoff("list lengths", p.in, ast)
	c.Used(p.in)
	ops := map[string]string{}
	for n, v := range c.StrConsts(ast, c.Type(ast, "Op")) {
		o, twice := ops[v]
		c.Need(v != "" && !twice, "operators", n, "", "the operators %s and %s are printed alike", n, o)
		ops[v] = n
	}
	c.guard("literals", func() { c.printedLiterals() })
	c.AtLeast("connectives", 4)
	c.AtLeast("tests", 30)
	c.AtLeast("field paths", 10)
	c.AtLeast("operators", 9)
	c.AtLeast("literals", 8)
}

func isOperand(x *flow.Term) bool { return x.Op == "sym" && strings.HasPrefix(x.Aux, "operand ") }

// parts splits a printed text into what it shows, and the text around it.
func parts(t *flow.Term) (shown []*flow.Term, text []string) {
	ps := []*flow.Term{t}
	if t.Op == "concat" {
		ps = t.Args
	}
	text = []string{""}
	for _, x := range ps {
		if s, ok := x.StrVal(); ok {
			text[len(text)-1] += s
			continue
		}
		if x.Op == "app" && (x.Aux == "fmt:%s" || x.Aux == "fmt:%v") && isOperand(x.Args[0]) {
			x = flow.App("print", stringT, x.Args[0])
		}
		shown = append(shown, x)
		text = append(text, "")
	}
	return
}

// printed are the texts that a method of a node returns.
func (p *printing) printed(rule, what string, st *flow.State, fn *ssa.Function, x *flow.Term, f func(st *flow.State, shown []*flow.Term, text []string) string) {
	p.c.guard(rule, func() {
		for _, r := range p.in.CallFn(st, fn, x) {
			why := ""
			if r.Panic {
				why = "panics: " + r.Why
			} else {
				shown, text := parts(r.Val)
				why = f(r.St, shown, text)
			}
			p.c.Need(why == "", rule, what, p.c.P.Where(fn.Pos()), "%s", why)
		}
	})
}

// printMethods are the methods of a node that print it.
func (p *printing) printMethods(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		s := f.Type().(*types.Signature)
		if strings.HasSuffix(f.Name(), "String") && s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), stringT) {
			out = append(out, p.c.Method(types.NewPointer(t), f.Name()))
		}
	}
	return out
}

func (p *printing) connectives() {
	c := p.c
	m := &matching{c: c, in: p.in}
	node := c.Type(ast, "Node").Underlying().(*types.Interface)
	seen := map[string]string{}
	scope := c.P.Pkg(ast).Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), node) {
			continue
		}
		t := tn.Type()
		name := shortType(t)
		if name == "ast.ExprNode" {
			continue
		}
		s := t.Underlying().(*types.Struct)
		for _, fn := range p.printMethods(t) {
			st := p.in.NewState()
			obj := st.Alloc("node "+name, t, flow.Zero(t))
			var want []*flow.Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				switch {
				case types.IsInterface(f.Type()):
					x := flow.Sym("operand "+f.Name(), f.Type())
					m.setField(st, obj, f.Name(), x)
					want = append(want, flow.App("print", stringT, x))
				case shortType(f.Type()) == "[]string":
					x := flow.Sym("path", f.Type())
					m.setField(st, obj, f.Name(), x)
					want = append(want, flow.App("path text", stringT, x))
				default:
					flow.Undecided("%s.%s is no operand", name, f.Name())
				}
			}
			p.printed("connectives", name+" "+fn.Name(), st, fn, obj, func(st *flow.State, shown []*flow.Term, text []string) string {
				if shorts(shown) != shorts(want) {
					return fmt.Sprintf("prints %s instead of each operand once and in order", shorts(shown))
				}
				for i, t := range text {
					if t == "" {
						return fmt.Sprintf("there is nothing around operand %d", i)
					}
				}
				form := fn.Name() + strings.Join(text, "\x00")
				if o, ok := seen[form]; ok && o != name {
					return "prints like " + o
				}
				seen[form] = name
				return ""
			})
		}
	}
}

func (p *printing) tests() {
	c := p.c
	t := c.Type(ast, "ExprNode")
	val := c.Type(ast, "Val")
	m := &matching{c: c, in: p.in}
	for _, fn := range p.printMethods(t) {
		for _, op := range operators {
			for n := 0; n <= 3; n++ {
				st := p.in.NewState()
				obj := st.Alloc("test", t, flow.Zero(t))
				path := flow.Sym("path", types.NewSlice(stringT))
				m.setField(st, obj, "Op", c.Const(ast, op))
				m.setField(st, obj, "Field", path)
				var es, vals []*flow.Term
				for i := 0; i < n; i++ {
					x := flow.Sym(fmt.Sprint("operand value ", i), val)
					es = append(es, flow.Elem(x))
					vals = append(vals, flow.App("print", stringT, x))
				}
				m.setField(st, obj, "RVals", flow.List(types.NewSlice(val), es...))
				word, _ := c.Const(ast, op).StrVal()
				p.printed("tests", fmt.Sprintf("test %s with %d values", fn.Name(), n), st, fn, obj, func(st *flow.State, shown []*flow.Term, text []string) string {
					want := append([]*flow.Term{flow.App("path text", stringT, path)}, vals...)
					if shorts(shown) != shorts(want) {
						return fmt.Sprintf("prints %s instead of the path and each value once and in order", shorts(shown))
					}
					k := strings.Count(strings.Join(text[:2], "\x00"), word)
					switch {
					case fn.Name() != "String" && op == "EQ":
						if k > 1 {
							return "prints the operator more than once"
						}
					case k != 1 && !(word == "<" || word == ">" || word == "<=" || word == ">="):
						return fmt.Sprintf("prints the operator %s %d times", word, k)
					case k == 0:
						return fmt.Sprintf("does not print the operator %s", word)
					}
					if name := p.opIn(strings.Join(text[:2], "\x00")); name != op && !(op == "EQ" && name == "") {
						return fmt.Sprintf("the operator %s is printed as %s", op, name)
					}
					for i := 1; i < len(text)-1; i++ {
						if strings.TrimSpace(text[i]) == "" && i > 1 || text[i] == "" {
							return fmt.Sprintf("nothing separates the values %d and %d", i-1, i)
						}
					}
					return ""
				})
			}
		}
	}
}

// opIn is the operator in a text: the longest one there is.
func (p *printing) opIn(text string) string {
	best, name := "", ""
	for n, v := range p.c.StrConsts(ast, p.c.Type(ast, "Op")) {
		if strings.Contains(text, v) && len(v) > len(best) {
			best, name = v, n
		}
	}
	return name
}

func (p *printing) paths() {
	c := p.c
	strs := types.NewSlice(stringT)
	for n := 1; n <= 3; n++ {
		st := p.in.NewState()
		var es, segs []*flow.Term
		for i := 0; i < n; i++ {
			x := flow.Sym(fmt.Sprint("segment ", i), stringT)
			es = append(es, flow.Elem(x))
			segs = append(segs, x)
		}
		p.printed("field paths", fmt.Sprintf("path of %d segments", n), st, p.field, flow.List(strs, es...), func(st *flow.State, shown []*flow.Term, text []string) string {
			if len(shown) != n {
				return fmt.Sprintf("prints %s instead of each segment once", shorts(shown))
			}
			for i, x := range shown {
				if x == flow.App("strconv.Quote", stringT, segs[i]) {
					continue
				}
				if x != segs[i] {
					return fmt.Sprintf("prints %s for segment %d", short(x), i)
				}
				if missing := p.plain(st, segs[i]); missing != "" {
					return fmt.Sprintf("a segment is printed bare although it may contain %q", missing)
				}
			}
			for i, t := range text {
				if (i == 0 || i == n) && t != "" || i > 0 && i < n && t != "." {
					return fmt.Sprintf("%q is printed after segment %d", t, i)
				}
			}
			return ""
		})
	}
	_ = c
}

// plain gives the first character of those that need quotes that a text may
// contain.
func (p *printing) plain(st *flow.State, x *flow.Term) string {
	for _, ch := range ` ."` {
		if p.in.Eval(flow.T(flow.App("strings.Contains", types.Typ[types.Bool], x, flow.Str(string(ch)))), st) != flow.No {
			return string(ch)
		}
	}
	return ""
}

// printedLiterals checks how literals are printed.
func (c *Ctx) printedLiterals() {
	a := c.newActions()
	a.in.Opaque = nil
	a.solve()
	done := map[string]bool{}
	for _, r := range a.g.reachable() {
		r := r
		r.expr.each(func(x *pexpr) {
			if x.kind != "action" {
				return
			}
			rs := a.runs[x]
			if ww, fin := a.g.words(x.kids[0]); fin && len(rs.rets) > 0 {
				for _, w := range ww {
					for _, ret := range a.run(r, x, flow.ToBytes(flow.Str(w))).rets {
						if ret.Panic || ret.from != "" || ret.fails == flow.Yes || a.valName(ret.kind) == "" {
							continue
						}
						done[a.valName(ret.kind)] = true
						got := a.call(ret.St, ret.val, "String")
						c.Need(got == flow.Str(w), "literals", "rule "+r.name, x.where, "%s is printed as %v", w, got)
					}
				}
				return
			}
			for _, ret := range rs.rets {
				if ret.Panic || ret.from != "" || ret.fails == flow.Yes {
					continue
				}
				n := a.valName(ret.kind)
				if n == "" {
					continue
				}
				done[n] = true
				got := a.call(ret.St, ret.val, "String")
				text := flow.ToString(a.matchText(ret.St, ret.cur))
				c.Need(got != nil && a.readable(n, got, text, a.valueOf(ret.St, ret.val), ret), "literals", "rule "+r.name, x.where, "a %s is printed as %v", n, got)
			}
		})
	}
	for n := range tokenShapes {
		c.Need(done[n], "literals", "literal "+n, "", "no literal becomes a %s", n)
	}
	c.Used(a.in)
}

// readable tells whether a literal can be read again from a printed form.
func (a *actions) readable(n string, got, text, val *flow.Term, ret actionRet) bool {
	if got == text {
		return true
	}
	if val == nil {
		return false
	}
	switch n {
	case "IntVal":
		return got == flow.App("decimal", stringT, val) || got == flow.App("decimal", stringT, val, flow.Int(10))
	case "FloatVal":
		if got.Op != "app" || got.Aux != "strconv.FormatFloat" || got.Args[0] != val {
			return false
		}
		prec, ok1 := got.Args[2].IntVal()
		bits, ok2 := got.Args[3].IntVal()
		return ok1 && ok2 && prec == -1 && bits == 64
	case "StringVal":
		return got == flow.App("strconv.Quote", stringT, val)
	case "RegexpVal":
		return got == flow.Concat(flow.Str("/"), flow.App("(*regexp.Regexp).String", stringT, val), flow.Str("/"))
	case "NetVal":
		return got == flow.Concat(text, flow.Str("/32")) || got == flow.App("(net/netip.Prefix).String", stringT, val)
	case "TimeVal":
		layout := "2006-01-02T15:04:05.999999999Z07:00"
		if a.dayOnly(ret.St, ret.val) == flow.True {
			layout = "2006-01-02"
		}
		return got == flow.App("(time.Time).Format", stringT, val, flow.Str(layout))
	}
	return false
}
