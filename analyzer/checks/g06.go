package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["G06"] = G06
	All["G02"] = G02
}

const gram = "internal/grammar"

// runtime is the analysis of the operators of the generated parser.
type runtime struct {
	c      *Ctx
	in     *flow.Interp
	parser types.Type
	self   *ssa.Function // method being analysed
	memo   bool
}

// rtPath is a way through an operator.
type rtPath struct {
	ret   flow.Ret
	p     *flow.Term
	start *flow.Term // savepoint at the beginning
	evs   []rtEvent
	val   *flow.Term
	ok    flow.Tri
}

type rtEvent struct {
	*flow.Event
	kind string
}

func (c *Ctx) newRuntime() *runtime {
	r := &runtime{c: c, in: c.Interp(), parser: c.Type(gram, "parser")}
	r.in.Unroll = 40
	r.in.Hook = r.hook
	return r
}

// isParse tells whether a method parses an expression.
func (r *runtime) isParse(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() != nil && types.Identical(s.Recv().Type(), types.NewPointer(r.parser)) && s.Params().Len() == 1 && s.Results().Len() == 2 &&
		types.IsInterface(s.Results().At(0).Type()) && types.Identical(s.Results().At(1).Type(), types.Typ[types.Bool])
}

func (r *runtime) pt(st *flow.State, p *flow.Term) *flow.Term {
	return flow.FieldNamed(r.in.Load(st, p), "pt", r.parser)
}

func (r *runtime) set(st *flow.State, p *flow.Term, field string, v *flow.Term) {
	(&matching{c: r.c, in: r.in}).setField(st, p, field, v)
}

func (r *runtime) fieldType(name string) types.Type {
	s := r.parser.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	r.c.Missing("field " + name + " of the parser")
	return nil
}

func (r *runtime) offset(pt *flow.Term) *flow.Term {
	t := r.fieldType("pt")
	pos := flow.FieldNamed(pt, "position", t)
	return flow.FieldNamed(pos, "offset", r.posType())
}

func (r *runtime) posType() types.Type { return r.c.Type(gram, "position") }

func (r *runtime) position(pt *flow.Term) *flow.Term {
	return flow.FieldNamed(pt, "position", r.fieldType("pt"))
}

func (r *runtime) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	if call.Fn == nil {
		if len(call.Args) == 2 && strings.HasPrefix(call.Args[1].Aux, "parser") && call.Args[0].Op == "sym" && strings.HasPrefix(call.Args[0].Aux, "code ") {
			// the code of an action
			n := len(st.Events())
			var v *flow.Term
			e := flow.Sym(fmt.Sprintf("error of code %d", n), types.Universe.Lookup("error").Type())
			if call.Sig.Results().Len() == 2 {
				v = flow.Tuple(flow.Sym(fmt.Sprintf("value of code %d %s", n, shortType(call.Sig.Results().At(0).Type())), call.Sig.Results().At(0).Type()), e)
			} else {
				v = e
			}
			st.Emit(&flow.Event{Name: "code", Args: []*flow.Term{in.Load(st, call.Args[1])}, Res: v, Pos: call.Pos})
			return []flow.Ret{{St: st, Val: v}}, true
		}
		return nil, false
	}
	fn := call.Fn
	if fn.Signature.Recv() == nil || !types.Identical(fn.Signature.Recv().Type(), types.NewPointer(r.parser)) || fn == r.self {
		return nil, false
	}
	p := call.Args[0]
	if r.isParse(fn) {
		n := 0
		s := ""
		for _, e := range st.Events() {
			if strings.HasPrefix(e.Name, "parse ") {
				n++
				if e.Res == flow.True {
					s += "+"
				} else {
					s += "-"
				}
			}
		}
		pt := r.pt(st, p)
		var out []flow.Ret
		if n < 3 {
			s1 := st.Clone()
			s1.Emit(&flow.Event{Name: "parse " + fn.Name(), Args: []*flow.Term{call.Args[1], pt}, Res: flow.True, Pos: call.Pos})
			r.set(s1, p, "pt", flow.Sym("after "+s, r.fieldType("pt")))
			out = append(out, flow.Ret{St: s1, Val: flow.Tuple(flow.Sym("value "+s, anyT), flow.True)})
		}
		st.Emit(&flow.Event{Name: "parse " + fn.Name(), Args: []*flow.Term{call.Args[1], pt}, Res: flow.False, Pos: call.Pos})
		return append(out, flow.Ret{St: st, Val: flow.Tuple(flow.Nil, flow.False)}), true
	}
	switch fn.Name() {
	case "in", "out", "print":
		return []flow.Ret{{St: st, Val: flow.Str("")}}, true
	case "failAt", "incChoiceAltCnt":
		return []flow.Ret{{St: st, Val: flow.Tuple()}}, true
	case "read":
		n := 0
		for _, e := range st.Events() {
			if e.Name == "read" {
				n++
			}
		}
		st.Emit(&flow.Event{Name: "read", Args: []*flow.Term{r.pt(st, p)}, Pos: call.Pos})
		r.set(st, p, "pt", flow.Sym(fmt.Sprintf("read %d", n), r.fieldType("pt")))
		return []flow.Ret{{St: st, Val: flow.Tuple()}}, true
	case "cloneState", "restoreState", "pushV", "popV", "pushRecovery", "popRecovery", "addErr", "addErrAt", "setMemoized":
		e := &flow.Event{Name: fn.Name(), Args: call.Args[1:], Pos: call.Pos}
		st.Emit(e)
		v := flow.Tuple()
		if fn.Name() == "cloneState" {
			v = flow.Sym(fmt.Sprintf("state %d", len(st.Events())), fn.Signature.Results().At(0).Type())
		}
		return []flow.Ret{{St: st, Val: v}}, true
	case "getMemoized":
		t := fn.Signature.Results().At(0).Type()
		hit := st.Clone()
		hit.Emit(&flow.Event{Name: "getMemoized", Args: call.Args[1:], Res: flow.True, Pos: call.Pos})
		st.Emit(&flow.Event{Name: "getMemoized", Args: call.Args[1:], Res: flow.False, Pos: call.Pos})
		return []flow.Ret{{St: hit, Val: flow.Tuple(flow.Sym("stored", t), flow.True)}, {St: st, Val: flow.Tuple(flow.Zero(t), flow.False)}}, true
	}
	return nil, false
}

// method is the method of the parser for a type of expression.
func (r *runtime) method(expr string) *ssa.Function {
	t := r.c.Type(gram, expr)
	ms := r.c.P.SSA.MethodSets.MethodSet(types.NewPointer(r.parser))
	var out *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		fn := r.c.P.SSA.MethodValue(ms.At(i))
		if fn == nil || !r.isParse(fn) {
			continue
		}
		if types.Identical(fn.Signature.Params().At(0).Type(), types.NewPointer(t)) {
			if out != nil {
				r.c.Missing("a single method for " + expr)
			}
			out = fn
		}
	}
	if out == nil {
		r.c.Missing("a method for " + expr)
	}
	return out
}

func (r *runtime) named(name string) *ssa.Function {
	return r.c.Method(types.NewPointer(r.parser), name)
}

// begin makes a parser.
func (r *runtime) begin() (*flow.State, *flow.Term) {
	st := r.in.NewState()
	p := st.Alloc("parser", r.parser, flow.Sym("a parser", r.parser))
	r.set(st, p, "debug", flow.False)
	r.set(st, p, "memoize", flow.Bool(r.memo))
	r.set(st, p, "pt", flow.Sym("start", r.fieldType("pt")))
	return st, p
}

// run analyses a method for an expression with the given fields.
func (r *runtime) run(fn *ssa.Function, fields map[string]*flow.Term, prep func(st *flow.State, p *flow.Term)) []rtPath {
	st, p := r.begin()
	t := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
	x := st.Alloc("expr "+shortType(t), t, flow.Sym("an expr "+shortType(t), t))
	for f, v := range fields {
		r.set(st, x, f, v)
	}
	if prep != nil {
		prep(st, p)
	}
	return r.paths(fn, st, p, x)
}

func (r *runtime) paths(fn *ssa.Function, st *flow.State, p, x *flow.Term) []rtPath {
	r.self = fn
	start := r.pt(st, p)
	var out []rtPath
	for _, ret := range r.in.CallFn(st, fn, p, x) {
		ph := rtPath{ret: ret, p: p, start: start}
		for _, e := range ret.St.Events() {
			k := e.Name
			if strings.HasPrefix(k, "parse ") {
				k = "parse"
			}
			ph.evs = append(ph.evs, rtEvent{e, k})
		}
		if !ret.Panic {
			ph.val = ret.St.F.Known(flow.Ext(ret.Val, 0, nil))
			ph.ok = r.in.Eval(flow.T(flow.Ext(ret.Val, 1, nil)), ret.St)
		}
		out = append(out, ph)
	}
	return out
}

func (ph rtPath) only(kind string) []rtEvent {
	var out []rtEvent
	for _, e := range ph.evs {
		if e.kind == kind {
			out = append(out, e)
		}
	}
	return out
}

func (ph rtPath) String() string {
	var out []string
	for _, e := range ph.evs {
		s := e.Name
		if e.Res == flow.True {
			s += " succeeds"
		} else if e.Res == flow.False {
			s += " fails"
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

// G06: the operators of the parser.
func G06(c *Ctx) {
	r := c.newRuntime()
	c.Rule("the method of each operator is analysed on every way through it, with each part it parses either failing without moving or succeeding at a new position; up to three successes and three parts stand for any number, the code comparing counts only with small constants")
	c.Rule("the outcome, the value and the position are those of the operator; the position after a failure is that before it")
	c.Rule("sets of labels are pushed and popped in pairs")
	any2 := types.NewSlice(anyT)
	list := func(n int) (*flow.Term, []*flow.Term) {
		var es, ts []*flow.Term
		for i := 0; i < n; i++ {
			t := flow.Sym(fmt.Sprintf("part %d", i), anyT)
			ts = append(ts, t)
			es = append(es, flow.Elem(t))
		}
		return flow.List(any2, es...), ts
	}
	part := flow.Sym("part", anyT)
	each := r.each
	for n := 0; n <= 3; n++ {
		l, ts := list(n)
		each("seqExpr", "sequence", map[string]*flow.Term{"exprs": l}, nil, func(ph rtPath) string { return r.seq(ph, ts) })
		each("choiceExpr", "choice", map[string]*flow.Term{"alternatives": l}, nil, func(ph rtPath) string { return r.choice(ph, ts) })
	}
	for _, k := range []string{"zeroOrMoreExpr", "oneOrMoreExpr"} {
		each(k, "repetition", map[string]*flow.Term{"expr": part}, nil, func(ph rtPath) string { return r.repeat(ph, part, k == "oneOrMoreExpr") })
	}
	each("zeroOrOneExpr", "option", map[string]*flow.Term{"expr": part}, nil, func(ph rtPath) string {
		if why := r.once(ph, part); why != "" {
			return why
		}
		if ph.ok != flow.Yes {
			return "fails"
		}
		return ""
	})
	for _, k := range []string{"andExpr", "notExpr"} {
		each(k, "lookahead", map[string]*flow.Term{"expr": part}, nil, func(ph rtPath) string {
			ps := ph.only("parse")
			if len(ps) != 1 || ps[0].Args[0] != part || !r.sameOffset(ph, ps[0].Args[1], ph.start) {
				return "does not try its part once at the start"
			}
			if (ps[0].Res == flow.True) != (ph.ok == flow.Yes) != (k == "notExpr") {
				return "the outcome is not that of a lookahead"
			}
			if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), ph.start) {
				return "a lookahead consumes text"
			}
			return ""
		})
	}
	r.labels(each, part)
	r.action(each, part)
	r.refs(each)
	r.recovery(each, part)
	r.literals(each)
	r.classes(each)
	r.anyChar(each)
	r.reading()
	r.dispatch()
	r.outcome()
	c.cutoff("list lengths", r.in, gram)
	c.Used(r.in)
	for _, n := range []string{"sequence", "choice", "repetition", "option", "lookahead", "label", "action", "rule", "recovery", "literal", "class", "any character", "reading", "dispatch"} {
		c.AtLeast(n, 2)
	}
}

// sameOffset decides whether two positions are the same place.
// each analyses the method of an operator.
func (r *runtime) each(name, rule string, fields map[string]*flow.Term, prep func(*flow.State, *flow.Term), f func(ph rtPath) string) {
	c := r.c
	fn := r.method(name)
	c.guard(rule, func() {
		for _, ph := range r.run(fn, fields, prep) {
			why := ""
			switch {
			case ph.ret.Panic:
				why = "panics: " + ph.ret.Why
			case r.hit(ph):
				why = r.recall(ph)
			case ph.ok == flow.Maybe:
				why = "whether it succeeds is not known"
			default:
				why = f(ph)
			}
			if why == "" && ph.ok == flow.No {
				switch {
				case !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), ph.start):
					why = "the position after a failure is not that before it"
				case !r.wholly(r.pt(ph.ret.St, ph.p), ph.start):
					why = "only part of the position is that before the failure"
				case ph.val != flow.Nil:
					why = "a failure has a value: " + short(ph.val)
				}
			}
			if why == "" {
				why = balanced(ph)
			}
			c.Need(why == "", rule, fn.Name(), c.P.Where(fn.Pos()), "%s (when %s)", why, ph)
		}
	})
}

// wholly tells that a position at a known offset was not put together from
// several ones.
func (r *runtime) wholly(pt, start *flow.Term) bool {
	return pt == start || pt.Op == "sym" || r.position(pt) == r.position(start)
}

func (r *runtime) sameOffset(ph rtPath, a, b *flow.Term) bool {
	return r.in.Eval(flow.T(flow.IEq(r.offset(a), r.offset(b))), ph.ret.St) == flow.Yes
}

// balanced checks that what is pushed is popped.
func balanced(ph rtPath) string {
	v, rec := 0, 0
	for _, e := range ph.evs {
		switch e.kind {
		case "pushV":
			v++
		case "popV":
			v--
		case "pushRecovery":
			rec++
		case "popRecovery":
			rec--
		}
		if v < 0 || rec < 0 {
			return "pops more than it has pushed"
		}
	}
	if v != 0 || rec != 0 {
		return "does not pop what it has pushed"
	}
	return ""
}

// after is the position after a number of successes and failures.
func (r *runtime) vals(ph rtPath) (vals []*flow.Term, end *flow.Term) {
	end = ph.start
	s := ""
	for _, e := range ph.only("parse") {
		if e.Res == flow.True {
			vals = append(vals, flow.Sym("value "+s, anyT))
			end = flow.Sym("after "+s, r.fieldType("pt"))
			s += "+"
		} else {
			s += "-"
		}
	}
	return vals, end
}

// valueIs decides whether the value of a path is a list of the given values.
func (r *runtime) valueIs(ph rtPath, vals []*flow.Term) bool {
	v := ph.val
	if v == flow.Nil {
		return len(vals) == 0
	}
	if v.Op == "iface" {
		v = v.Args[0]
	}
	if v == flow.Nil {
		return len(vals) == 0
	}
	var got []*flow.Term
	for _, s := range flow.Segs(r.in.ListOf(ph.ret.St, v)) {
		if s.Op != "seg:e" {
			return false
		}
		got = append(got, s.Args[0])
	}
	return slices.Equal(got, vals)
}

func (r *runtime) seq(ph rtPath, ts []*flow.Term) string {
	ps := ph.only("parse")
	vals, end := r.vals(ph)
	at := ph.start
	for i, e := range ps {
		if i >= len(ts) || e.Args[0] != ts[i] {
			return "does not parse its parts in order"
		}
		if !r.sameOffset(ph, e.Args[1], at) {
			return fmt.Sprintf("part %d is not parsed where the one before ended", i+1)
		}
		if e.Res == flow.False {
			if i != len(ps)-1 || ph.ok == flow.Yes {
				return "goes on after a part has failed"
			}
			return ""
		}
		at = flow.Sym("after "+strings.Repeat("+", i), r.fieldType("pt"))
	}
	if len(ps) != len(ts) || ph.ok != flow.Yes {
		return "the outcome is not that of all parts"
	}
	if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), end) {
		return "the position is not that after the last part"
	}
	if !r.valueIs(ph, vals) {
		return "the value is not the list of values of the parts"
	}
	return ""
}

func (r *runtime) choice(ph rtPath, ts []*flow.Term) string {
	ps := ph.only("parse")
	vals, end := r.vals(ph)
	for i, e := range ps {
		if i >= len(ts) || e.Args[0] != ts[i] {
			return "does not try its alternatives in order"
		}
		if !r.sameOffset(ph, e.Args[1], ph.start) {
			return "an alternative is not tried at the start"
		}
		if e.Res == flow.True {
			if i != len(ps)-1 {
				return "goes on after an alternative has succeeded"
			}
			if ph.ok != flow.Yes || ph.val != vals[0] || !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), end) {
				return "the outcome is not that of the alternative"
			}
			return ""
		}
	}
	if len(ps) != len(ts) {
		return "does not try all alternatives"
	}
	if ph.ok != flow.No {
		return "succeeds without an alternative that does"
	}
	return ""
}

func (r *runtime) repeat(ph rtPath, part *flow.Term, plus bool) string {
	ps := ph.only("parse")
	vals, end := r.vals(ph)
	at := ph.start
	for i, e := range ps {
		if e.Args[0] != part {
			return "parses something else than its part"
		}
		if !r.sameOffset(ph, e.Args[1], at) {
			return "a repetition is not tried where the one before ended"
		}
		if (e.Res == flow.False) != (i == len(ps)-1) {
			return "does not stop at the first failure and only then"
		}
		at = flow.Sym("after "+strings.Repeat("+", i), r.fieldType("pt"))
	}
	if len(ps) == 0 {
		return "does not try its part"
	}
	if want := !plus || len(vals) > 0; want != (ph.ok == flow.Yes) {
		return "the outcome is not that of a repetition"
	}
	if ph.ok == flow.Yes {
		if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), end) {
			return "the position is not that after the last repetition"
		}
		if !r.valueIs(ph, vals) {
			return "the value is not the list of the repetitions"
		}
	}
	return ""
}

// once checks that a part is parsed once at the start, and value and position are that of it.
func (r *runtime) once(ph rtPath, part *flow.Term) string {
	ps := ph.only("parse")
	if len(ps) != 1 || ps[0].Args[0] != part || !r.sameOffset(ph, ps[0].Args[1], ph.start) {
		return "does not parse its part once at the start"
	}
	vals, end := r.vals(ph)
	if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), end) {
		return "the position is not that after its part"
	}
	if len(vals) == 1 && ph.val != vals[0] || len(vals) == 0 && ph.val != flow.Nil {
		return "the value is not that of its part"
	}
	return ""
}

func (r *runtime) same(ph rtPath) string {
	ps := ph.only("parse")
	if (ps[0].Res == flow.True) != (ph.ok == flow.Yes) {
		return "the outcome is not that of its part"
	}
	return ""
}

type eachFn func(name, rule string, fields map[string]*flow.Term, prep func(*flow.State, *flow.Term), f func(ph rtPath) string)

func (r *runtime) labels(each eachFn, part *flow.Term) {
	mt := r.fieldType("vstack").Underlying().(*types.Slice).Elem()
	for _, label := range []string{"", "x"} {
		var set *flow.Term
		each("labeledExpr", "label", map[string]*flow.Term{"expr": part, "label": flow.Str(label)}, func(st *flow.State, p *flow.Term) {
			set = r.in.NewMap(st, "labels", mt)
			r.set(st, p, "vstack", flow.List(r.fieldType("vstack"), flow.Elem(flow.Sym("outer labels", mt)), flow.Elem(set)))
		}, func(ph rtPath) string {
			if why := r.once(ph, part); why != "" {
				return why
			}
			if why := r.same(ph); why != "" {
				return why
			}
			got := r.in.MapGet(ph.ret.St, set, flow.Str("x"))
			vals, _ := r.vals(ph)
			switch {
			case label == "" || ph.ok == flow.No:
				if got != nil {
					return "a label is set that should not be"
				}
			case got != vals[0]:
				return "the label is not set to the value of its part"
			}
			return ""
		})
	}
}

func (r *runtime) action(each eachFn, part *flow.Term) {
	run := func(name string) *flow.Term {
		t := r.c.Type(gram, name).Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "run" {
				return flow.Sym("code "+name, t.Field(i).Type())
			}
		}
		r.c.Missing("the code of " + name)
		return nil
	}
	each("actionExpr", "action", map[string]*flow.Term{"expr": part, "run": run("actionExpr")}, nil, func(ph rtPath) string {
		ps := ph.only("parse")
		if len(ps) != 1 || ps[0].Args[0] != part || !r.sameOffset(ph, ps[0].Args[1], ph.start) {
			return "does not parse its part once at the start"
		}
		if why := r.same(ph); why != "" {
			return why
		}
		_, end := r.vals(ph)
		cs := ph.only("code")
		if ph.ok == flow.No {
			if len(cs) != 0 {
				return "runs the code although its part has failed"
			}
			return ""
		}
		if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), end) {
			return "the position is not that after its part"
		}
		if len(cs) != 1 {
			return "does not run the code once"
		}
		cur := flow.FieldNamed(cs[0].Args[0], "cur", r.parser)
		ct := r.fieldType("cur")
		if flow.FieldNamed(cur, "pos", ct) != r.position(ph.start) {
			return "the code is not given the position of the start"
		}
		data := flow.FieldNamed(cs[0].Args[0], "data", r.parser)
		if want := flow.SliceOf(data, r.offset(ph.start), r.offset(end), data.Typ); flow.FieldNamed(cur, "text", ct) != want {
			return "the code is not given the text of the match"
		}
		if ph.val != flow.Ext(cs[0].Res, 0, nil) {
			return "the value is not that of the code"
		}
		return r.recorded(ph, flow.Ext(cs[0].Res, 1, nil), "addErrAt", r.position(ph.start))
	})
	each("stateCodeExpr", "action", map[string]*flow.Term{"run": run("stateCodeExpr")}, nil, func(ph rtPath) string {
		cs := ph.only("code")
		if len(cs) != 1 || ph.ok != flow.Yes {
			return "does not run the code once and succeed"
		}
		if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), ph.start) {
			return "consumes text"
		}
		return r.recorded(ph, cs[0].Res, "addErr", nil)
	})
	for _, k := range []string{"andCodeExpr", "notCodeExpr"} {
		k := k
		r.forkOK(each, k, run(k))
	}
}

// forkOK checks lookaheads made of code.
func (r *runtime) forkOK(each eachFn, k string, code *flow.Term) {
	fn := r.method(k)
	for _, ph := range r.run(fn, map[string]*flow.Term{"run": code}, nil) {
		cs := ph.only("code")
		why := ""
		if ph.ret.Panic || len(cs) != 1 {
			why = "does not run the code once"
		} else {
			got, want := flow.Ext(ph.ret.Val, 1, nil), flow.Ext(cs[0].Res, 0, nil)
			if k == "notCodeExpr" {
				want = flow.Not(want)
			}
			if got != want {
				why = "the outcome is not that of the code"
			} else {
				why = r.recorded(ph, flow.Ext(cs[0].Res, 1, nil), "addErr", nil)
			}
		}
		r.c.Need(why == "", "action", fn.Name(), r.c.P.Where(fn.Pos()), "%s", why)
	}
}

// recorded checks that an error is recorded if there is one.
func (r *runtime) recorded(ph rtPath, err *flow.Term, how string, pos *flow.Term) string {
	n := 0
	for _, e := range ph.evs {
		if e.kind != "addErr" && e.kind != "addErrAt" {
			continue
		}
		n++
		if e.kind != how || e.Args[0] != err {
			return "records another error than that of the code"
		}
		if pos != nil && e.Args[1] != pos {
			return "records the error at another position"
		}
	}
	switch r.in.Eval(flow.T(flow.Eq(err, flow.Nil)), ph.ret.St) {
	case flow.Yes:
		if n != 0 {
			return "records an error without there being one"
		}
	case flow.No:
		if n != 1 {
			return "an error of the code is not recorded"
		}
	default:
		return "does not look whether the code had an error"
	}
	return ""
}

func (r *runtime) refs(each eachFn) {
	c := r.c
	// a reference
	name := flow.Str("R")
	var known *flow.Term
	each("ruleRefExpr", "rule", map[string]*flow.Term{"name": name}, func(st *flow.State, p *flow.Term) {
		mt := r.fieldType("rules")
		m := r.in.NewMap(st, "rules", mt)
		rt := c.Type(gram, "rule")
		known = st.Alloc("a rule", rt, flow.Sym("content of a rule", rt))
		r.in.MapSet(st, m, name, known)
		r.in.MapSet(st, m, flow.Str("S"), st.Alloc("another rule", rt, flow.Sym("content of another rule", rt)))
		r.set(st, p, "rules", m)
	}, func(ph rtPath) string {
		if why := r.once(ph, known); why != "" {
			return why
		}
		return r.same(ph)
	})
	// rules and expressions, with and without memory
	part := flow.Sym("part", anyT)
	for _, memo := range []bool{false, true} {
		r.memo = memo
		each("rule", "rule", map[string]*flow.Term{"expr": part}, nil, func(ph rtPath) string {
			return r.remembered(ph, part, nil)
		})
	}
	r.memo = false
	// the memory
	get, set := r.named("getMemoized"), r.named("setMemoized")
	c.guard("memory", func() {
		r.memory(get, set)
	})
}

// memory checks that results are found under the expression and position they
// were stored for, and only there.
func (r *runtime) memory(get, set *ssa.Function) {
	c := r.c
	st, p := r.begin()
	mt := r.fieldType("memo")
	t := c.Type(gram, "resultTuple")
	save := r.fieldType("pt")
	node := func(n string) *flow.Term {
		et := c.Type(gram, "seqExpr")
		return flow.MakeIface(st.Alloc(n, et, flow.Sym("content of "+n, et)), types.NewPointer(et))
	}
	a, b := node("node a"), node("node b")
	at := func(n int64) *flow.Term {
		s := st.Alloc(fmt.Sprint("place ", n), save, flow.Sym(fmt.Sprint("place at ", n), save))
		pos := flow.FieldNamed(r.in.Load(st, s), "position", save)
		pp := st.Alloc(fmt.Sprint("position ", n), r.posType(), pos)
		(&matching{c: c, in: r.in}).setField(st, pp, "offset", flow.Int(n))
		(&matching{c: c, in: r.in}).setField(st, s, "position", r.in.Load(st, pp))
		return r.in.Load(st, s)
	}
	p5, p7 := at(5), at(7)
	r.self = nil
	old := r.in.Hook
	r.in.Hook = nil
	defer func() { r.in.Hook = old }()
	for _, prep := range []string{"nil", "empty", "other"} {
		s0 := st.Clone()
		switch prep {
		case "nil":
			r.set(s0, p, "memo", flow.Nil)
		default:
			m := r.in.NewMap(s0, "memory", mt)
			if prep == "other" {
				in := r.in.NewMap(s0, "inner memory", mt.Underlying().(*types.Map).Elem())
				r.in.MapSet(s0, in, b, flow.Sym("stored b", t))
				r.in.MapSet(s0, m, flow.Int(5), in)
			}
			r.set(s0, p, "memo", m)
		}
		tuple := flow.Sym("stored a", t)
		for _, ret := range r.in.CallFn(s0, set, p, p5, a, tuple) {
			if ret.Panic {
				c.Bad("memory", set.Name(), c.P.Where(set.Pos()), "storing a result panics: %s", ret.Why)
				continue
			}
			try := func(at, n *flow.Term, want *flow.Term, what string) {
				s := ret.St.Clone()
				r.set(s, p, "pt", at)
				for _, g := range r.in.CallFn(s, get, p, n) {
					ok := !g.Panic
					if ok {
						hit := r.in.Eval(flow.T(flow.Ext(g.Val, 1, nil)), g.St)
						if want == nil {
							ok = hit == flow.No
						} else {
							ok = hit == flow.Yes && flow.Ext(g.Val, 0, nil) == want
						}
					}
					c.Need(ok, "memory", get.Name(), c.P.Where(get.Pos()), "%s is not answered correctly (memory %s before)", what, prep)
				}
			}
			try(p5, a, tuple, "asking for a stored result")
			try(p7, a, nil, "asking for a result at another position")
			if prep == "other" {
				try(p5, b, flow.Sym("stored b", t), "asking for an earlier result of another expression")
			} else {
				try(p5, b, nil, "asking for the result of another expression")
			}
		}
	}
	c.AtLeast("memory", 6)
}

// hit tells whether a result was found in the memory.
func (r *runtime) hit(ph rtPath) bool {
	gets := ph.only("getMemoized")
	return len(gets) > 0 && gets[0].Res == flow.True
}

// recall checks that what was found in the memory is the outcome.
func (r *runtime) recall(ph rtPath) string {
	if len(ph.evs) != 1 {
		return "parses again what is remembered"
	}
	t := r.c.Type(gram, "resultTuple")
	s := flow.Sym("stored", t)
	if ph.val != flow.FieldNamed(s, "v", t) || flow.Ext(ph.ret.Val, 1, nil) != flow.FieldNamed(s, "b", t) {
		return "the outcome is not the remembered one"
	}
	if !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), flow.FieldNamed(s, "end", t)) {
		return "the position is not the remembered one"
	}
	return ""
}

// remembered checks a rule or expression that is parsed with a memory.
func (r *runtime) remembered(ph rtPath, part *flow.Term, node *flow.Term) string {
	gets, sets := ph.only("getMemoized"), ph.only("setMemoized")
	if r.memo {
		if len(gets) != 1 || gets[0] != ph.evs[0] {
			return "the memory is not asked first"
		}
		if gets[0].Res == flow.True {
			return r.recall(ph)
		}
	}
	if why := r.once(ph, part); why != "" {
		return why
	}
	if why := r.same(ph); why != "" {
		return why
	}
	if r.memo {
		if len(sets) != 1 {
			return "the result is not remembered"
		}
		t := r.c.Type(gram, "resultTuple")
		tup := sets[0].Args[2]
		if !r.sameOffset(ph, sets[0].Args[0], ph.start) || sets[0].Args[1] != gets[0].Args[0] {
			return "the result is remembered for another place or expression"
		}
		if flow.FieldNamed(tup, "v", t) != ph.val || ph.ret.St.F.Known(flow.FieldNamed(tup, "b", t)) != flow.Bool(ph.ok == flow.Yes) || !r.sameOffset(ph, flow.FieldNamed(tup, "end", t), r.pt(ph.ret.St, ph.p)) {
			return "another result is remembered"
		}
	} else if len(sets) != 0 {
		return "remembers without being asked to"
	}
	return ""
}

func (r *runtime) recovery(each eachFn, part *flow.Term) {
	other := flow.Sym("recovery part", anyT)
	labels := flow.List(types.NewSlice(types.Typ[types.String]), flow.Elem(flow.Str("a")), flow.Elem(flow.Str("b")))
	each("recoveryExpr", "recovery", map[string]*flow.Term{"expr": part, "recoverExpr": other, "failureLabel": labels}, nil, func(ph rtPath) string {
		if why := r.once(ph, part); why != "" {
			return why
		}
		if why := r.same(ph); why != "" {
			return why
		}
		ps, qs := ph.only("pushRecovery"), ph.only("popRecovery")
		if len(ps) != 1 || len(qs) != 1 || ps[0].Args[1] != other || r.in.ListOf(ph.ret.St, ps[0].Args[0]) != labels {
			return "does not offer the recovery while its part is parsed"
		}
		order := ""
		for _, e := range ph.evs {
			switch e.kind {
			case "pushRecovery", "parse", "popRecovery":
				order += e.kind[:3]
			}
		}
		if order != "pusparpop" {
			return "does not offer the recovery while its part is parsed"
		}
		return ""
	})
	mt := r.fieldType("recoveryStack").Underlying().(*types.Slice).Elem()
	inner, outer := flow.Sym("inner recovery", anyT), flow.Sym("outer recovery", anyT)
	each("throwExpr", "recovery", map[string]*flow.Term{"label": flow.Str("a")}, func(st *flow.State, p *flow.Term) {
		mk := func(name string, k string, v *flow.Term) *flow.Term {
			m := r.in.NewMap(st, name, mt)
			r.in.MapSet(st, m, flow.Str(k), v)
			return m
		}
		r.set(st, p, "recoveryStack", flow.List(r.fieldType("recoveryStack"), flow.Elem(mk("recovery 0", "a", outer)), flow.Elem(mk("recovery 1", "a", inner)), flow.Elem(mk("recovery 2", "b", part))))
	}, func(ph rtPath) string { return r.choice(ph, []*flow.Term{inner, outer}) })
}

func (r *runtime) rune(pt *flow.Term) *flow.Term {
	return flow.FieldNamed(pt, "rn", r.fieldType("pt"))
}

// readAt is the position after a number of characters.
func (r *runtime) readAt(ph rtPath, n int) *flow.Term {
	if n == 0 {
		return ph.start
	}
	return flow.Sym(fmt.Sprintf("read %d", n-1), r.fieldType("pt"))
}

func (r *runtime) lower(t *flow.Term) *flow.Term {
	return flow.App("unicode.ToLower", types.Typ[types.Rune], t)
}

func (r *runtime) text(ph rtPath, end *flow.Term) *flow.Term {
	data := flow.FieldNamed(r.in.Load(ph.ret.St, ph.p), "data", r.parser)
	return flow.SliceOf(data, r.offset(ph.start), r.offset(end), data.Typ)
}

func (r *runtime) textIs(ph rtPath, end *flow.Term) bool {
	v := ph.val
	if v.Op == "iface" {
		v = v.Args[0]
	}
	return v == r.text(ph, end)
}

func (r *runtime) literals(each eachFn) {
	for _, lit := range []string{"", "x", "xy", "xyz", "é"} {
		for _, fold := range []bool{false, true} {
			each("litMatcher", "literal", map[string]*flow.Term{"val": flow.Str(lit), "ignoreCase": flow.Bool(fold)}, nil, func(ph rtPath) string {
				n := len(ph.only("read"))
				k := 0
				for _, want := range lit {
					cur := r.rune(r.readAt(ph, k))
					if fold {
						cur = r.lower(cur)
					}
					eq := r.in.Eval(flow.T(flow.Eq(cur, flow.Const(constant.MakeInt64(int64(want)), types.Typ[types.Rune]))), ph.ret.St)
					if eq == flow.No {
						if ph.ok == flow.Yes {
							return "succeeds although a character differs"
						}
						return ""
					}
					if eq == flow.Maybe {
						return fmt.Sprintf("character %d is not compared", k+1)
					}
					k++
				}
				if ph.ok != flow.Yes || n != k || !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), r.readAt(ph, k)) {
					return "does not consume the literal"
				}
				if !r.textIs(ph, r.readAt(ph, k)) {
					return "the value is not the text of the match: " + short(ph.val)
				}
				return ""
			})
		}
	}
}

func (r *runtime) eof(ph rtPath) flow.Tri {
	bad := flow.Const(constant.MakeInt64(0xfffd), types.Typ[types.Rune])
	w := flow.FieldNamed(ph.start, "w", r.fieldType("pt"))
	return r.in.Eval(flow.FAnd(flow.T(flow.Eq(r.rune(ph.start), bad)), flow.T(flow.IEq(w, flow.Int(0)))), ph.ret.St)
}

// consumed checks that one character is consumed exactly on success.
func (r *runtime) consumed(ph rtPath) string {
	n := len(ph.only("read"))
	if ph.ok == flow.No {
		return ""
	}
	if n != 1 || !r.sameOffset(ph, r.pt(ph.ret.St, ph.p), r.readAt(ph, 1)) {
		return "does not consume one character"
	}
	if !r.textIs(ph, r.readAt(ph, 1)) {
		return "the value is not the character: " + short(ph.val)
	}
	return ""
}

func (r *runtime) classes(each eachFn) {
	rt := types.Typ[types.Rune]
	runes := types.NewSlice(rt)
	sym := func(n string) *flow.Term { return flow.Sym("char "+n, rt) }
	tab := r.c.Type(gram, "charClassMatcher").Underlying().(*types.Struct)
	var clT types.Type
	for i := 0; i < tab.NumFields(); i++ {
		if tab.Field(i).Name() == "classes" {
			clT = tab.Field(i).Type()
		}
	}
	for _, fold := range []bool{false, true} {
		for _, inv := range []bool{false, true} {
			for n := 0; n <= 2; n++ {
				var cs, rs, cl []*flow.Term
				for i := 0; i < n; i++ {
					cs = append(cs, flow.Elem(sym(fmt.Sprint(i))))
					rs = append(rs, flow.Elem(sym(fmt.Sprint("lo ", i))), flow.Elem(sym(fmt.Sprint("hi ", i))))
					if clT != nil {
						cl = append(cl, flow.Elem(flow.Sym(fmt.Sprint("class ", i), clT.Underlying().(*types.Slice).Elem())))
					}
				}
				f := map[string]*flow.Term{"chars": flow.List(runes, cs...), "ranges": flow.List(runes, rs...), "ignoreCase": flow.Bool(fold), "inverted": flow.Bool(inv)}
				if clT != nil {
					f["classes"] = flow.List(clT, cl...)
				}
				each("charClassMatcher", "class", f, nil, func(ph rtPath) string {
					switch r.eof(ph) {
					case flow.Yes:
						if ph.ok == flow.Yes {
							return "succeeds at the end of the text"
						}
						return ""
					case flow.Maybe:
						return "does not look for the end of the text"
					}
					cur := r.rune(ph.start)
					if fold {
						cur = r.lower(cur)
					}
					var is []*flow.Formula
					for i := 0; i < n; i++ {
						is = append(is, flow.T(flow.IEq(cs[i].Args[0], cur)))
						is = append(is, flow.FAnd(flow.T(flow.Le(rs[2*i].Args[0], cur)), flow.T(flow.Le(cur, rs[2*i+1].Args[0]))))
						if clT != nil {
							is = append(is, flow.T(flow.App("unicode.Is", types.Typ[types.Bool], cl[i].Args[0], cur)))
						}
					}
					m := r.in.Eval(flow.FOr(is...), ph.ret.St)
					if m == flow.Maybe {
						return "does not look at all characters of the class"
					}
					if (m == flow.Yes) == inv {
						if ph.ok == flow.Yes {
							return "succeeds at a character that is not in the class"
						}
						return ""
					}
					if ph.ok != flow.Yes {
						return "fails at a character of the class"
					}
					return r.consumed(ph)
				})
			}
		}
	}
}

func (r *runtime) anyChar(each eachFn) {
	each("anyMatcher", "any character", nil, nil, func(ph rtPath) string {
		switch r.eof(ph) {
		case flow.Yes:
			if ph.ok == flow.Yes {
				return "succeeds at the end of the text"
			}
			return ""
		case flow.Maybe:
			return "does not look for the end of the text"
		}
		if ph.ok != flow.Yes {
			return "fails before the end of the text"
		}
		return r.consumed(ph)
	})
}

// reading checks how the parser goes to the next character.
func (r *runtime) reading() {
	c := r.c
	fn := r.named("read")
	st, p := r.begin()
	pt0 := r.pt(st, p)
	save := r.fieldType("pt")
	w := flow.FieldNamed(pt0, "w", save)
	data := flow.FieldNamed(r.in.Load(st, p), "data", r.parser)
	at := flow.Add(r.offset(pt0), w)
	st.Assume(flow.Le(flow.Int(0), at), true)
	st.Assume(flow.Le(at, flow.Len(data)), true)
	r.self = fn
	for _, ret := range r.in.CallFn(st, fn, p) {
		why := ""
		if ret.Panic {
			why = "panics: " + ret.Why
		} else {
			pt := r.pt(ret.St, p)
			rn := flow.FieldNamed(pt, "rn", save)
			next := flow.App("unicode/utf8.DecodeRune", nil, flow.SliceOf(data, at, flow.Len(data), data.Typ))
			pos := func(x *flow.Term, f string) *flow.Term { return flow.FieldNamed(r.position(x), f, r.posType()) }
			nl := r.in.Eval(flow.T(flow.Eq(rn, flow.Const(constant.MakeInt64('\n'), types.Typ[types.Rune]))), ret.St)
			line, col := flow.Add(pos(pt0, "line"), flow.Int(1)), flow.Int(0)
			if nl == flow.No {
				line, col = pos(pt0, "line"), flow.Add(pos(pt0, "col"), flow.Int(1))
			}
			bad := r.in.Eval(flow.FAnd(flow.T(flow.Eq(rn, flow.Const(constant.MakeInt64(0xfffd), types.Typ[types.Rune]))), flow.T(flow.IEq(flow.FieldNamed(pt, "w", save), flow.Int(1)))), ret.St)
			invalid := r.in.Eval(flow.T(flow.FieldNamed(r.in.Load(ret.St, p), "allowInvalidUTF8", r.parser)), ret.St)
			errs := 0
			for _, e := range ret.St.Events() {
				if e.Name == "addErr" {
					errs++
				}
			}
			switch {
			case r.offset(pt) != at:
				why = "the offset is not that of the next character: " + short(r.offset(pt))
			case rn != flow.Ext(next, 0, types.Typ[types.Rune]) || flow.FieldNamed(pt, "w", save) != flow.Ext(next, 1, types.Typ[types.Int]):
				why = "the character is not the next one: " + short(rn)
			case nl == flow.Maybe || pos(pt, "line") != line || pos(pt, "col") != col:
				why = "the line and column are not those of the next character: " + short(pos(pt, "line")) + ":" + short(pos(pt, "col"))
			case bad == flow.Maybe || bad == flow.Yes && invalid == flow.No && errs != 1 || bad == flow.No && errs != 0:
				why = "text that is no UTF-8 is not reported"
			}
		}
		c.Need(why == "", "reading", fn.Name(), c.P.Where(fn.Pos()), "%s", why)
	}
}

// dispatch checks that each expression is handed to the method for it, and
// that results are remembered.
func (r *runtime) dispatch() {
	c := r.c
	fn := r.named("parseExpr")
	for name := range pegKinds {
		t := c.Type(gram, name)
		for _, memo := range []bool{false, true} {
			r.memo = memo
			st, p := r.begin()
			x := st.Alloc("expr "+name, t, flow.Sym("an expr "+name, t))
			node := flow.MakeIface(x, types.NewPointer(t))
			want := r.method(name)
			for _, ph := range r.paths(fn, st, p, node) {
				if ph.ret.Panic {
					// the limit on the number of expressions
					continue
				}
				why := r.remembered(ph, x, node)
				if ps := ph.only("parse"); why == "" && len(ps) == 1 && ps[0].Name != "parse "+want.Name() {
					why = "is given to " + strings.TrimPrefix(ps[0].Name, "parse ")
				}
				if gets := ph.only("getMemoized"); why == "" && len(gets) == 1 && gets[0].Args[0] != node {
					why = "the result of another expression is looked up"
				}
				c.Need(why == "", "dispatch", fn.Name()+" of "+name, c.P.Where(fn.Pos()), "%s", why)
			}
		}
	}
	r.memo = false
}

// G02: parsing effort.
func G02(c *Ctx) {
	c.Rule("whoever starts the parser has it remember results: on every way to the start the flag is set")
	c.Rule("a parser that remembers asks its memory first, parses only on a miss, and stores every result, failures included, under the expression and the position it started at")
	c.Rule("the number of rules and expressions is fixed, so each position is parsed a bounded number of times")
	r := c.newRuntime()
	parse := r.named("parse")
	reach := map[*ssa.Function]bool{parse: true}
	all := c.P.Funcs
	for more := true; more; {
		more = false
		for _, fn := range all {
			if reach[fn] || !inPkg(fn, gram) {
				continue
			}
			for _, g := range staticCalls(fn) {
				if reach[g] {
					reach[fn] = true
					more = true
				}
			}
		}
	}
	for _, fn := range all {
		if inPkg(fn, gram) || !slices.ContainsFunc(staticCalls(fn), func(g *ssa.Function) bool { return reach[g] }) {
			continue
		}
		c.guard("remembers", func() { c.remembers(fn, parse, r.parser) })
	}
	// the memory works, for rules or for expressions
	sub := func(f func(r *runtime)) []Violation {
		x := NewCtx(c.P, c.ID)
		x.init = c.init
		x.callees = c.callees
		y := x.newRuntime()
		x.guard("memory", func() { f(y) })
		c.Used(y.in)
		for k, n := range x.Count {
			if !x.Info[k] {
				c.Count[k] += n
			}
		}
		return x.Viol
	}
	rules := sub(func(y *runtime) { y.memoRules() })
	exprs := sub(func(y *runtime) { y.dispatch() })
	mem := sub(func(y *runtime) {
		y.memory(y.named("getMemoized"), y.named("setMemoized"))
		y.c.cutoff("list lengths", y.in, gram)
	})
	if len(rules) > 0 && len(exprs) > 0 {
		for _, v := range append(rules, exprs...) {
			c.Bad(v.Rule, v.Construct, v.Where, "%s", v.Message)
		}
	}
	for _, v := range mem {
		c.Bad(v.Rule, v.Construct, v.Where, "%s", v.Message)
	}
	c.AtLeast("remembers", 1)
	c.AtLeast("memory", 6)
	c.AtLeast("rule", 3)
}

func (r *runtime) memoRules() {
	fn := r.method("rule")
	part := flow.Sym("part", anyT)
	r.memo = true
	for _, ph := range r.run(fn, map[string]*flow.Term{"expr": part}, nil) {
		why := ""
		if ph.ret.Panic {
			why = "panics: " + ph.ret.Why
		} else {
			why = r.remembered(ph, part, nil)
		}
		r.c.Need(why == "", "rule", fn.Name(), r.c.P.Where(fn.Pos()), "%s", why)
	}
	r.memo = false
}

// remembers checks that a function starts the parser with its memory on.
func (c *Ctx) remembers(fn, parse *ssa.Function, parser types.Type) {
	in := c.Interp()
	in.Opaque = stringy
	n := 0
	in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn != parse {
			return nil, false
		}
		n++
		m := st.F.Known(flow.FieldNamed(in.Load(st, call.Args[0]), "memoize", parser))
		c.Need(m == flow.True, "remembers", prog.FnName(fn), c.P.Where(fn.Pos()), "starts the parser without remembering results: nested queries take exponential time")
		return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, flow.Sym("error of the parser", types.Universe.Lookup("error").Type()))}}, true
	}
	st := in.NewState()
	var args []*flow.Term
	for _, p := range fn.Params {
		args = append(args, flow.Sym("argument "+p.Name()+" "+shortType(p.Type()), p.Type()))
	}
	in.CallFn(st, fn, args...)
	c.Used(in)
	if n == 0 {
		c.Bad("remembers", prog.FnName(fn), c.P.Where(fn.Pos()), "the start of the parser was not found")
	}
}

func staticCalls(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// outcome checks the result of parsing a text: a failure is an error.
func (r *runtime) outcome() {
	c := r.c
	fn := r.named("parse")
	gt := c.Type(gram, "grammar")
	rt := c.Type(gram, "rule")
	el := c.Type(gram, "errList")
	st, p := r.begin()
	gr := st.Alloc("the grammar", gt, flow.Sym("content of the grammar", gt))
	first := st.Alloc("first rule", rt, flow.Sym("content of the first rule", rt))
	second := st.Alloc("second rule", rt, flow.Sym("content of the second rule", rt))
	r.set(st, first, "name", flow.Str("first"))
	r.set(st, second, "name", flow.Str("second"))
	r.set(st, gr, "rules", flow.List(types.NewSlice(types.NewPointer(rt)), flow.Elem(first), flow.Elem(second)))
	r.set(st, p, "entrypoint", flow.Str("first"))
	r.set(st, p, "recover", flow.True)
	errs := st.Alloc("errors", el, flow.Sym("errors so far", el))
	r.set(st, p, "errs", errs)
	r.self = fn
	r.in.Unroll = 0
	for _, ret := range r.in.CallFn(st, fn, p, gr) {
		why := ""
		var order []string
		ok := false
		recorded := false
		at := flow.Sym("read 0", r.fieldType("pt"))
		for _, e := range ret.St.Events() {
			switch {
			case e.Name == "read":
				order = append(order, "read")
			case strings.HasPrefix(e.Name, "parse "):
				order = append(order, "parse")
				ok = e.Res == flow.True
				if e.Args[0] != first {
					why = "parsing does not start with the first rule"
				}
				if e.Args[1] != at {
					why = "parsing does not start at the first character"
				}
			case e.Name == "addErr" || e.Name == "addErrAt":
				recorded = true
				if e.Name != "addErrAt" || e.Args[1] != flow.FieldNamed(r.in.Load(ret.St, p), "maxFailPos", r.parser) {
					why = "a failure is not reported where parsing got farthest"
				}
			}
		}
		switch {
		case ret.Panic:
			why = "panics: " + ret.Why
		case why != "":
		case strings.Join(order, " ") != "read parse":
			why = "does not parse the text once from its first character"
		default:
			val, err := flow.Ext(ret.Val, 0, nil), flow.Ext(ret.Val, 1, nil)
			none := r.in.Eval(flow.T(flow.IEq(flow.Len(flow.Sym("errors so far", el)), flow.Int(0))), ret.St)
			isNil := r.in.Eval(flow.T(flow.Eq(err, flow.Nil)), ret.St)
			switch {
			case none == flow.Maybe:
				why = "does not look whether errors were recorded"
			case none == flow.No && isNil != flow.No:
				why = "recorded errors are not returned"
			case ok && (recorded || none == flow.Yes && isNil != flow.Yes):
				why = "an error is made up"
			case ok && none == flow.Yes && val != flow.Sym("value ", anyT):
				why = "the value is not that of the first rule"
			case !ok && none == flow.Yes && !recorded:
				why = "a failure without recorded errors is not reported"
			}
		}
		c.Need(why == "", "outcome", fn.Name(), c.P.Where(fn.Pos()), "%s", why)
	}
	r.errors(el)
}

// errors checks how errors are recorded and handed out.
func (r *runtime) errors(el types.Type) {
	c := r.c
	et := types.Universe.Lookup("error").Type()
	pe := c.Type(gram, "parserError")
	add := r.named("addErrAt")
	r.self = add
	r.in.Unroll = 0
	// recording
	st, p := r.begin()
	box := st.Alloc("errors", el, flow.Sym("errors so far", el))
	r.set(st, p, "errs", box)
	err, pos := flow.Sym("an error", et), flow.Sym("a position", r.posType())
	exp := flow.Sym("expected texts", types.NewSlice(types.Typ[types.String]))
	for _, ret := range r.in.CallFn(st, add, p, err, pos, exp) {
		why := ""
		if ret.Panic {
			why = "panics: " + ret.Why
		} else {
			segs := flow.Segs(r.in.ListOf(ret.St, r.in.Load(ret.St, box)))
			if len(segs) != 2 || segs[0].Op != "seg:s" || segs[0].Args[0] != flow.Sym("errors so far", el) || segs[1].Op != "seg:e" || segs[1].Args[0].Op != "iface" {
				why = "the error is not added after the others"
			} else {
				o := r.in.Load(ret.St, segs[1].Args[0].Args[0])
				if flow.FieldNamed(o, "Inner", pe) != err || flow.FieldNamed(o, "pos", pe) != pos {
					why = "another error or position is recorded"
				}
			}
		}
		c.Need(why == "", "errors", add.Name(), c.P.Where(add.Pos()), "%s", why)
	}
	at := r.named("addErr")
	r.self = at
	st, p = r.begin()
	for _, ret := range r.in.CallFn(st, at, p, err) {
		evs := ret.St.Events()
		ok := !ret.Panic && len(evs) == 1 && evs[0].Name == "addErrAt" && evs[0].Args[0] == err && evs[0].Args[1] == r.position(r.pt(ret.St, p))
		c.Need(ok, "errors", at.Name(), c.P.Where(at.Pos()), "the error is not recorded at the current position")
	}
	// handing out
	fn := c.Method(el, "err")
	r.in.Unroll = 40
	for n := 0; n <= 3; n++ {
		st := r.in.NewState()
		var es []*flow.Term
		for i := 0; i < n; i++ {
			e := flow.Sym(fmt.Sprint("error ", i), et)
			st.Assume(flow.Eq(e, flow.Nil), false)
			es = append(es, flow.Elem(e))
		}
		for _, ret := range r.in.CallFn(st, fn, flow.List(el, es...)) {
			why := ""
			switch {
			case ret.Panic:
				why = "panics: " + ret.Why
			case n == 0:
				if ret.Val != flow.Nil {
					why = "no errors are an error"
				}
			case ret.Val.Op != "iface" || !types.Identical(ret.Val.DTyp, el):
				why = "the errors are not returned"
			default:
				segs := flow.Segs(r.in.ListOf(ret.St, ret.Val.Args[0]))
				if len(segs) == 0 || segs[0] != es[0] {
					why = "the first error is not the first one recorded"
				}
			}
			c.Need(why == "", "errors", "errList.err", c.P.Where(fn.Pos()), "%s", why)
		}
	}
	// where parsing got farthest
	far := r.named("failAt")
	r.self = far
	r.in.Unroll = 0
	place := flow.Sym("place of the failure", r.posType())
	get := func(x *flow.Term) *flow.Term { return flow.FieldNamed(x, "maxFailPos", r.parser) }
	off := func(x *flow.Term) *flow.Term { return flow.FieldNamed(x, "offset", r.posType()) }
	want := flow.Sym("wanted text", types.Typ[types.String])
	for _, fail := range []bool{false, true} {
		for _, inverted := range []bool{false, true} {
			st, p := r.begin()
			r.set(st, p, "maxFailInvertExpected", flow.Bool(inverted))
			old := r.in.Load(st, p)
			for _, ret := range r.in.CallFn(st, far, p, flow.Bool(fail), place, want) {
				why := ""
				if ret.Panic {
					why = "panics: " + ret.Why
				} else {
					got := get(r.in.Load(ret.St, p))
					farther := r.in.Eval(flow.T(flow.Lt(off(get(old)), off(place))), ret.St)
					switch {
					case fail == inverted && farther == flow.Yes:
						if got != place {
							why = "a failure farther on is not noted"
						}
					case got != get(old):
						why = "a failure that is no farther replaces the place"
					case fail == inverted && farther != flow.No:
						why = "does not look whether the failure is farther on"
					}
				}
				c.Need(why == "", "errors", far.Name(), c.P.Where(far.Pos()), "%s", why)
			}
		}
	}
	c.AtLeast("errors", 8)
	c.AtLeast("outcome", 3)
}
