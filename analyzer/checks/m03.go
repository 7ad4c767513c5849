package checks

import (
	"go/types"
	"strings"

	"aqlverify/flow"
)

func init() { All["M03"] = M03 }

const (
	reMatch  = "(*regexp.Regexp).MatchString"
	netContn = "(net/netip.Prefix).Contains"
	netOverl = "(net/netip.Prefix).Overlaps"
)

// searches replaces every search with a pattern made from a string literal by
// the condition that the literal is found; how the pattern is made is the
// subject of M12.
func (m *matching) searches() {
	sv := types.NewPointer(m.c.Type(ast, "StringVal"))
	m.hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
		if call.Fn != nil && inPkg(call.Fn, "jsonmatcher") && patternMaker(call.Fn.Signature) &&
			len(call.Fn.FreeVars) == 0 && !fromDocument(call.Args[0]) {
			return []flow.Ret{{St: st, Val: flow.Rec(call.Fn, call.Args)}}, true
		}
		var text *flow.Term
		switch call.Name {
		case reMatch, "(*golang.org/x/text/search.Pattern).IndexString":
			text = call.Args[1]
		case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindString":
			return nil, false
		case "(*regexp.Regexp).Match", "(*golang.org/x/text/search.Pattern).Index":
			text = flow.ToString(in.ListOf(st, call.Args[1]))
		default:
			return nil, false
		}
		lit := m.literalOf(st, call.Args[0])
		if lit == nil || st.F.Decide(flow.IsType(lit, sv)) != flow.Yes {
			return nil, false
		}
		found := flow.App("found", boolT, lit, text)
		if strings.Contains(call.Name, "Match") {
			return []flow.Ret{{St: st, Val: found}}, true
		}
		var out []flow.Ret
		if s := st.Clone(); s.Assume(found, false) {
			out = append(out, flow.Ret{St: s, Val: flow.Tuple(flow.Int(-1), flow.Int(-1))})
		}
		if st.Assume(found, true) {
			i := flow.App("foundat", types.Typ[types.Int], lit, text)
			j := flow.App("foundend", types.Typ[types.Int], lit, text)
			st.Assume(flow.Le(flow.Int(0), i), true)
			st.Assume(flow.Le(i, j), true)
			out = append(out, flow.Ret{St: st, Val: flow.Tuple(i, j)})
		}
		return out, true
	}
}

// fromDocument tells whether a text is one read from the document.
func fromDocument(text *flow.Term) bool {
	return text.Mentions(func(x *flow.Term) bool { return strings.Contains(x.Aux, "jsonparser.") })
}

// patternMaker recognises functions from a text to a pattern or to a property of
// the text.
func patternMaker(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	switch types.TypeString(sig.Results().At(0).Type(), nil) {
	case "*regexp.Regexp", "*golang.org/x/text/search.Pattern", "bool":
		return true
	}
	return false
}

// literalOf returns the literal a pattern was made from.
func (m *matching) literalOf(st *flow.State, pattern *flow.Term) *flow.Term {
	if m.rvals.Op == "list" {
		for _, s := range m.rvals.Args {
			l := s.Args[0]
			p := l
			if l.Op == "iface" {
				p = l.Args[0]
			}
			if pattern.Mentions(func(x *flow.Term) bool { return x == p || x == l }) {
				return l
			}
		}
		return nil
	}
	var found *flow.Term
	pattern.Mentions(func(x *flow.Term) bool {
		if x.Op == "elem" && x.Args[0] == m.rvals {
			found = x
		}
		return found != nil
	})
	if found == nil {
		for _, c := range m.in.Candidates(m.rvals, st) {
			i := c.Args[1]
			if !i.IsConst() && pattern.Mentions(func(x *flow.Term) bool {
				return x == i || i.Mentions(func(y *flow.Term) bool { return x == y && y.Op == "sym" })
			}) {
				return c
			}
		}
	}
	return found
}

// equality is the condition that a literal matches some scalar of the list.
func (m *matching) equality(lit *flow.Term, list *flow.Term, s *valueShape, kinds []string, day int) *flow.Formula {
	var fs []*flow.Formula
	for _, kind := range kinds {
		p := types.NewPointer(m.c.Type(ast, kind))
		if lit.Op == "iface" && !types.Identical(lit.Args[0].Typ, p) {
			continue
		}
		v := m.getter(lit, kind, "Value")
		var r reading
		switch kind {
		case "IntVal", "FloatVal":
			v = m.numLit(lit, kind)
			r = m.number(func(f *flow.Term) *flow.Formula { return flow.T(flow.Ord(f, "==", v, true)) })
		case "BoolVal":
			r = m.boolean(func(b *flow.Term) *flow.Formula { return flow.T(flow.Eq(b, v)) })
		case "StringVal":
			r = m.text(func(t *flow.Term) *flow.Formula { return flow.T(flow.App("found", boolT, lit, t)) })
		case "RegexpVal":
			r = m.text(func(t *flow.Term) *flow.Formula { return flow.T(flow.App(reMatch, boolT, v, t)) })
		case "NetVal":
			r = m.text(func(t *flow.Term) *flow.Formula { return m.network(v, t) })
		case "TimeVal":
			only := m.getter(lit, kind, "DayOnly")
			r = m.instant(func(t *flow.Term) *flow.Formula {
				return flow.FOr(
					flow.FAnd(flow.FNot(flow.T(only)), flow.T(flow.Ord(t, "==", v, false))),
					flow.FAnd(flow.T(only), flow.T(flow.Ord(t, ">=", v, false)), wholeDay(t, v, day)))
			})
		}
		fs = append(fs, flow.FAnd(flow.T(flow.IsType(lit, p)), m.someScalar(list, s, r)))
	}
	return flow.FOr(fs...)
}

// wholeDay is the condition that an instant is before the end of a day, in the
// ways this can be written.
func wholeDay(t, v *flow.Term, variant int) *flow.Formula {
	const day = 24 * 60 * 60 * 1000000000
	switch variant {
	case 0:
		return flow.T(flow.Ord(t, "<=", flow.App("(time.Time).Add", v.Typ, v, flow.Int(day-1)), false))
	default:
		return flow.T(flow.Ord(t, "<", flow.App("(time.Time).Add", v.Typ, v, flow.Int(day)), false))
	}
}

// network is the condition that a text contains an address in the network or a
// network overlapping it.
func (m *matching) network(v, text *flow.Term) *flow.Formula {
	one := func(x *flow.Term) *flow.Formula {
		slash := flow.T(flow.App("strings.Contains", boolT, x, flow.Str("/")))
		pp := flow.App("net/netip.ParsePrefix", nil, x)
		pa := flow.App("net/netip.ParseAddr", nil, x)
		return flow.FOr(
			flow.FAnd(slash, ok(pp, 1), flow.T(flow.Sorted(netOverl, boolT, v, flow.Ext(pp, 0, nil)))),
			flow.FAnd(flow.FNot(slash), ok(pa, 1), flow.T(flow.App(netContn, boolT, v, flow.Ext(pa, 0, nil)))))
	}
	var fs []*flow.Formula
	for _, re := range m.patterns {
		idx := flow.App("(*regexp.Regexp).FindAllStringIndex", types.NewSlice(types.NewSlice(types.Typ[types.Int])), re, text, flow.Int(-1))
		if m.findIndex {
			fs = append(fs, flow.Exists(idx, types.NewSlice(types.Typ[types.Int]), func(p *flow.Term) *flow.Formula {
				return one(flow.SliceOf(text, flow.Item(p, 0, types.Typ[types.Int]), flow.Item(p, 1, types.Typ[types.Int]), stringT))
			}))
			continue
		}
		all := flow.App("(*regexp.Regexp).FindAllString", types.NewSlice(stringT), re, text, flow.Int(-1))
		fs = append(fs, flow.Exists(all, stringT, one))
	}
	return flow.FOr(fs...)
}

// dottedQuads is the pattern of addresses and networks in texts.
const dottedQuads = `(?:\d{1,3}\.){3}\d{1,3}(?:/\d{1,2})?`

var literalKinds = []string{"IntVal", "FloatVal", "BoolVal", "StringVal", "RegexpVal", "NetVal", "TimeVal"}

// equalityTest prepares a matching whose test compares with an arbitrary list of
// literals, or with a single one.
func (c *Ctx) equalityTest(op, kind string) *matching {
	m := c.newMatching()
	if kind == "" {
		l := flow.Sym("literals", types.NewSlice(c.Type(ast, "Val")))
		m.test(c.Const(ast, op), l)
		m.start.Assume(flow.Le(flow.Int(1), flow.Len(l)), true)
		m.in.Uni.NonNil = func(x *flow.Term) bool { return x.Op == "elem" && x.Args[0] == l }
	} else {
		m.test(c.Const(ast, op), m.list(m.literal(kind, "literal")))
	}
	m.searches()
	m.in.OnPure = func(st *flow.State, call *flow.Call, res *flow.Term) {
		if !strings.HasPrefix(call.Name, "(*regexp.Regexp).FindAllString") {
			return
		}
		m.findIndex = call.Name == "(*regexp.Regexp).FindAllStringIndex"
		for _, p := range m.patterns {
			if p == res.Args[0] {
				return
			}
		}
		m.patterns = append(m.patterns, res.Args[0])
	}
	return m
}

func (m *matching) specs(kinds []string) []func(st *flow.State) *flow.Formula {
	var out []func(st *flow.State) *flow.Formula
	for day := 0; day < 3; day++ {
		out = append(out, func(st *flow.State) *flow.Formula {
			l, s, _ := m.denoted(st)
			if m.rvals.Op == "list" {
				return m.equality(m.rvals.Args[0].Args[0], l, s, kinds, day)
			}
			return flow.Exists(m.rvals, m.c.Type(ast, "Val"), func(lit *flow.Term) *flow.Formula {
				return m.equality(lit, l, s, kinds, day)
			})
		})
	}
	return out
}

// M03 checks equality tests.
func M03(c *Ctx) {
	c.Rule("for == and ~ with an arbitrary list of literals of any kinds, on every path through compiling and matching: result true ⇔ some literal matches some scalar of the field by the rule of its kind")
	rule := "equality"
	for _, op := range []string{"EQ", "SIM"} {
		m := c.equalityTest(op, "")
		m.compare(rule, "field "+op+" literals", m.specs(literalKinds)...)
		m.checkPatterns(rule)
	}
	c.AtLeast(rule, 2)
	c.ownField("lookup arguments")
}

// checkPatterns requires the pattern used to find addresses to find all of them.
func (m *matching) checkPatterns(rule string) {
	for _, p := range m.patterns {
		s, ok := patternText(p)
		if !ok {
			m.c.Bad(rule, "network pattern", "", "the pattern %s that finds addresses is not a constant", short(p))
			continue
		}
		same, err := sameLanguage(s, dottedQuads)
		m.c.Need(err == nil && same, "network pattern", "network pattern", "", "the pattern %q does not find exactly dotted quads with an optional prefix length", s)
	}
}

// patternText returns the text of a compiled constant pattern.
func patternText(t *flow.Term) (string, bool) {
	if t.Op == "app" && (t.Aux == "regexp.MustCompile" || t.Aux == "regexp.Compile") {
		return t.Args[0].StrVal()
	}
	if t.Op == "ext" {
		return patternText(t.Args[0])
	}
	return "", false
}
