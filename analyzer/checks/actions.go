package checks

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

// A kind is what is known about the value of an expression of the grammar.
type kind struct {
	typ   types.Type // dynamic type
	paren bool       // it was enclosed in parentheses
}

func (k kind) String() string {
	s := shortType(k.typ)
	if k.paren {
		s = "(" + s + ")"
	}
	return s
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// An aval is an abstract value of an expression.
type aval struct {
	term *flow.Term
	kind *kind // nil if it is plain text, a list or nothing
}

// actions is the analysis of the actions of the generated parser.
type actions struct {
	c       *Ctx
	g       *peg
	in      *flow.Interp
	cur     types.Type // type with text and position of a match
	kinds   map[*pexpr][]kind
	rawMemo map[string]bool
	null    func(*pexpr) bool
	hook    func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool)
	runs    map[*pexpr]*actionRuns
}

// actionRuns are all ways through the code of an action.
type actionRuns struct {
	rule   *prule
	x      *pexpr
	fn     actionFn
	labels []*pexpr // the labelled expressions, in the order of the text
	rets   []actionRet
}

type actionRet struct {
	flow.Ret
	cur    *flow.Term // object with text and position
	labels map[string]aval
	val    *flow.Term
	err    *flow.Term
	fails  flow.Tri
	from   string // the label whose value is passed on
	kind   *kind
}

func (c *Ctx) newActions() *actions {
	a := &actions{c: c, g: c.generatedGrammar(), in: c.Interp(), kinds: map[*pexpr][]kind{}, runs: map[*pexpr]*actionRuns{}, rawMemo: map[string]bool{}}
	a.null = a.g.nullables()
	a.in.Opaque = stringy
	a.in.Uni.NonNil = func(x *flow.Term) bool { return x.Op == "sym" && strings.HasPrefix(x.Aux, "value ") }
	a.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if a.hook != nil {
			return a.hook(in, st, call)
		}
		return nil, false
	}
	return a
}

// raw reports whether an expression contains no action.
func (a *actions) raw(x *pexpr) bool {
	switch x.kind {
	case "action":
		return false
	case "ref":
		r := a.g.byName[x.str]
		if r == nil {
			return true
		}
		if v, ok := a.rawMemo[x.str]; ok {
			return v
		}
		a.rawMemo[x.str] = true
		v := a.raw(r.expr)
		a.rawMemo[x.str] = v
		return v
	}
	for _, k := range x.kids {
		if !a.raw(k) {
			return false
		}
	}
	return true
}

var anyT = types.NewInterfaceType(nil, nil)

// values gives the values an expression can have.
func (a *actions) values(x *pexpr, name string) []aval {
	bytes := types.NewSlice(types.Typ[types.Byte])
	list := types.NewSlice(anyT)
	switch x.kind {
	case "lit", "class", "any":
		return []aval{{term: flow.MakeIface(flow.Sym(name+" text", bytes), bytes)}}
	case "not", "and", "state", "andcode", "notcode":
		return []aval{{term: flow.Nil}}
	case "throw":
		return nil
	case "label", "recover":
		return a.values(x.kids[0], name)
	case "ref":
		if r := a.g.byName[x.str]; r != nil {
			return a.values(r.expr, name)
		}
		return nil
	case "opt":
		return append([]aval{{term: flow.Nil}}, a.values(x.kids[0], name)...)
	case "choice":
		var out []aval
		seen := map[string]bool{}
		for i, k := range x.kids {
			for _, v := range a.values(k, fmt.Sprintf("%s.%d", name, i)) {
				// the same kind from several alternatives counts once
				s := "?" + v.term.String()
				if v.kind != nil {
					s = v.kind.String()
				}
				if !seen[s] {
					seen[s] = true
					out = append(out, v)
				}
			}
		}
		return out
	case "action":
		var out []aval
		for _, k := range a.kinds[x] {
			k := k
			out = append(out, aval{flow.MakeIface(flow.Sym("value "+name+" "+k.String(), k.typ), k.typ), &k})
		}
		return out
	case "seq":
		out := []aval{{}}
		var segs [][]*flow.Term
		segs = append(segs, nil)
		for i, k := range x.kids {
			vs := a.values(k, fmt.Sprintf("%s[%d]", name, i))
			var next [][]*flow.Term
			for _, s := range segs {
				for _, v := range vs {
					next = append(next, append(slices.Clone(s), flow.Elem(v.term)))
				}
			}
			if len(next) > 64 {
				next = next[:64]
			}
			segs = next
		}
		out = nil
		for _, s := range segs {
			out = append(out, aval{term: flow.MakeIface(flow.List(list, s...), list)})
		}
		return out
	case "star", "plus":
		if a.raw(x.kids[0]) {
			return []aval{{term: flow.MakeIface(flow.Sym(name+" list", list), list)}}
		}
		var out []aval
		lo := 0
		if x.kind == "plus" {
			lo = 1
		}
		for n := lo; n <= 3; n++ {
			var segs []*flow.Term
			ok := true
			for i := 0; i < n; i++ {
				vs := a.values(x.kids[0], fmt.Sprintf("%s#%d", name, i))
				if len(vs) == 0 {
					ok = false
					break
				}
				segs = append(segs, flow.Elem(vs[i%len(vs)].term))
			}
			if ok {
				out = append(out, aval{term: flow.MakeIface(flow.List(list, segs...), list)})
			}
		}
		return out
	}
	return nil
}

// labelled lists the labelled parts of an action in the order of the text.
func labelled(x *pexpr) []*pexpr {
	var out []*pexpr
	b := x.kids[0]
	if b.kind == "label" {
		return []*pexpr{b}
	}
	if b.kind == "seq" {
		for _, k := range b.kids {
			if k.kind == "label" {
				out = append(out, k)
			}
		}
	}
	return out
}

// current makes the object that holds the text and position of a match.
func (a *actions) current(st *flow.State, fn *ssa.Function) *flow.Term {
	p, ok := fn.Params[0].Type().(*types.Pointer)
	if !ok {
		a.c.Missing("the text of a match")
	}
	a.cur = p.Elem()
	return st.Alloc("match", a.cur, flow.Sym("the match", a.cur))
}

// matchText is the text of a match.
func (a *actions) matchText(st *flow.State, cur *flow.Term) *flow.Term {
	return flow.FieldNamed(a.in.Load(st, cur), "text", a.cur)
}

// run analyses an action with the values known so far. The text is nil or the
// text of the match.
func (a *actions) run(r *prule, x *pexpr, text *flow.Term) *actionRuns {
	out := &actionRuns{rule: r, x: x, fn: a.c.action(x), labels: labelled(x)}
	combos := []map[string]aval{{}}
	for _, l := range out.labels {
		var next []map[string]aval
		for _, v := range a.values(l.kids[0], r.name+" "+l.str) {
			for _, m := range combos {
				n := map[string]aval{l.str: v}
				for k, w := range m {
					n[k] = w
				}
				next = append(next, n)
			}
		}
		combos = next
	}
	for _, m := range combos {
		st := a.in.NewState()
		cur := a.current(st, out.fn.fn)
		if text != nil {
			a.setField(st, cur, "text", text)
		} else if !a.null(x.kids[0]) {
			st.Assume(flow.Lt(flow.Int(0), flow.Len(a.matchText(st, cur))), true)
		}
		args := []*flow.Term{cur}
		known := true
		for _, l := range out.fn.labels {
			v, ok := m[l]
			if !ok {
				a.c.Bad("labels", "rule "+r.name, x.where, "the action is given %s, which is no label of it", l)
				known = false
				break
			}
			args = append(args, v.term)
		}
		if !known {
			break
		}
		for _, ret := range a.in.CallFn(st, out.fn.fn, args...) {
			ar := actionRet{Ret: ret, cur: cur, labels: m}
			if !ret.Panic {
				if sig := out.fn.fn.Signature.Results(); sig.Len() == 2 {
					ar.val, ar.err = flow.Ext(ret.Val, 0, nil), flow.Ext(ret.Val, 1, nil)
				} else {
					ar.val, ar.err = flow.Nil, ret.Val
				}
				switch a.in.Eval(flow.T(flow.Eq(ar.err, flow.Nil)), ret.St) {
				case flow.Yes:
					ar.fails = flow.No
				case flow.No:
					ar.fails = flow.Yes
				default:
					ar.fails = flow.Maybe
				}
				for l, v := range m {
					if v.term == ar.val && v.term != flow.Nil {
						ar.from = l
						ar.kind = v.kind
					}
				}
				if ar.kind == nil && ar.val.Op == "iface" {
					ar.kind = &kind{typ: ar.val.DTyp}
				}
			}
			out.rets = append(out.rets, ar)
		}
	}
	return out
}

func (a *actions) setField(st *flow.State, obj *flow.Term, name string, v *flow.Term) {
	(&matching{c: a.c, in: a.in}).setField(st, obj, name, v)
}

// field reads a field of an object that a value points to.
func (a *actions) field(st *flow.State, v *flow.Term, name string) *flow.Term {
	if v.Op == "iface" {
		v = v.Args[0]
	}
	t := v.Typ.Underlying().(*types.Pointer).Elem()
	return flow.FieldNamed(a.in.Load(st, v), name, t)
}

// solve analyses all actions reachable from the first rule until the values
// they can be given are known.
func (a *actions) solve() {
	for round := 0; round < 20; round++ {
		more := false
		a.runs = map[*pexpr]*actionRuns{}
		clear(a.in.Obls)
		for _, r := range a.g.reachable() {
			r := r
			r.expr.each(func(x *pexpr) {
				if x.kind != "action" {
					return
				}
				rs := a.run(r, x, nil)
				a.runs[x] = rs
				for _, ret := range rs.rets {
					if ret.Panic || ret.fails == flow.Yes || ret.kind == nil {
						continue
					}
					k := *ret.kind
					if ret.from != "" && a.parens(x, ret.from) {
						k.paren = true
					}
					if !slices.ContainsFunc(a.kinds[x], func(o kind) bool { return o.paren == k.paren && types.Identical(o.typ, k.typ) }) {
						a.kinds[x] = append(a.kinds[x], k)
						more = true
					}
				}
			})
		}
		if !more {
			a.c.Used(a.in)
			return
		}
	}
	flow.Undecided("the values of the grammar have no fixpoint")
}

// around gives the text before, between and after labels of an action as
// regular expressions: one more than there are labels.
func (a *actions) around(x *pexpr) ([]string, string) {
	b := x.kids[0]
	if b.kind != "seq" {
		b = &pexpr{kind: "seq", kids: []*pexpr{b}}
	}
	out := []string{""}
	for _, k := range b.kids {
		if k.kind == "label" {
			out = append(out, "")
			continue
		}
		if g := a.g.deref(k); g.kind == "not" || g.kind == "and" {
			continue
		}
		s, why := a.g.regex(k)
		if why != "" {
			return nil, why
		}
		out[len(out)-1] += "(?:" + s + ")"
	}
	return out, ""
}

// parens reports whether a label of an action is enclosed in parentheses.
func (a *actions) parens(x *pexpr, label string) bool {
	ls := labelled(x)
	if len(ls) != 1 || ls[0].str != label {
		return false
	}
	t, why := a.around(x)
	if why != "" {
		return false
	}
	l, err1 := sameLanguage("^(?:"+t[0]+")$", `^\([ \n\t\r]*$`)
	r, err2 := sameLanguage("^(?:"+t[1]+")$", `^[ \n\t\r]*\)$`)
	return err1 == nil && err2 == nil && l && r
}

// words lists the texts an expression can match, if they are few.
func (g *peg) words(x *pexpr) ([]string, bool) {
	x = g.deref(x)
	if s, ok := g.charset(x); ok {
		var out []string
		for i := 0; i+1 < len(s); i += 2 {
			for r := s[i]; r <= s[i+1]; r++ {
				if len(out) > 20 {
					return nil, false
				}
				out = append(out, string(r))
			}
		}
		return out, true
	}
	switch x.kind {
	case "lit":
		if x.fold {
			return nil, false
		}
		return []string{x.str}, true
	case "choice":
		var out []string
		for _, k := range x.kids {
			w, ok := g.words(k)
			if !ok {
				return nil, false
			}
			for _, s := range w {
				// what an earlier alternative takes is never seen by a later one
				if !slices.ContainsFunc(out, func(p string) bool { return strings.HasPrefix(s, p) }) {
					out = append(out, s)
				}
			}
		}
		return out, true
	case "opt":
		w, ok := g.words(x.kids[0])
		return append(w, ""), ok
	case "seq":
		out := []string{""}
		for _, k := range x.kids {
			w, ok := g.words(k)
			if !ok {
				return nil, false
			}
			var next []string
			for _, p := range out {
				for _, s := range w {
					next = append(next, p+s)
				}
			}
			out = next
		}
		return out, len(out) <= 50
	}
	return nil, false
}
