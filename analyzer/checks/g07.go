package checks

import (
	"go/types"
	"sort"
	"strings"
)

func init() {
	All["G07"] = G07
}

// What stands between two tokens.
const (
	nothing = iota
	blanks  // any number of blanks
	blank   // at least one
	other   // some blanks but not others, or never matching
)

var gapNames = []string{"nothing", "any number of blanks", "at least one blank", "not every kind or number of blanks"}

// after gives what two gaps in a row amount to. The first one takes all blanks.
func after(a, b int) int {
	switch {
	case a == nothing:
		return b
	case b == nothing || b == blanks && a != other:
		return a
	}
	return other
}

// gaps lists what stands between tokens, with a place for each.
type gaps map[int]string

func (g gaps) add(k int, where string) bool {
	if _, ok := g[k]; ok {
		return false
	}
	g[k] = where
	return true
}

// side is what a part of the grammar can begin or end with.
type side map[string]gaps

func (e side) add(token string, k int, where string) bool {
	if e[token] == nil {
		e[token] = gaps{}
	}
	return e[token].add(k, where)
}

// An extent is what matters of a part of the grammar for the tokens beside it.
type extent struct {
	first, last side
	empty       gaps // what it consists of when it has no token
}

func newExtent() *extent { return &extent{side{}, side{}, gaps{}} }

type neighbours struct {
	a     *actions
	rules map[string]*extent
	pairs map[[2]string]gaps
	memo  map[*pexpr]int
	more  bool
}

// token gives the class of the token an action makes, if it makes one.
func (n *neighbours) token(x *pexpr) []string {
	out := map[string]bool{}
	for _, k := range n.a.kinds[x] {
		k := k
		switch {
		case types.Identical(k.typ, n.a.c.Type(ast, "Op")):
			ww, _ := n.a.g.words(x.kids[0])
			for _, w := range ww {
				if w == "exists" || w == "null" {
					out["operator without value"] = true
				} else {
					out["operator"] = true
				}
			}
		case n.a.valName(&k) != "":
			out["value"] = true
		case shortType(k.typ) == "[]string":
			out["field"] = true
		}
	}
	var ss []string
	for s := range out {
		ss = append(ss, s)
	}
	return ss
}

// gap classifies expressions that match blanks only.
func (n *neighbours) gap(x *pexpr) (int, bool) {
	k, ok := n.memo[x]
	if !ok {
		k = -1
		if n.a.raw(x) {
			k = n.blankness(x)
		}
		n.memo[x] = k
	}
	return k, k >= 0
}

func (n *neighbours) blankness(x *pexpr) int {
	re, why := n.a.g.regex(x)
	switch {
	case why != "" || !within(re, `[\x{9}-\x{d}\x{20}\x{85}\x{a0}\x{2000}-\x{200a}\x{2028}\x{2029}\x{3000}]*`):
		return -1
	case equalTo(re, ""):
		return nothing
	case within(ws+"*", re):
		return blanks
	case within(ws+"+", re) && !within("", re):
		return blank
	}
	return other
}

func (n *neighbours) join(a, b *extent) *extent {
	out := newExtent()
	copySide := func(to, from side) {
		for t, gs := range from {
			for k, w := range gs {
				to.add(t, k, w)
			}
		}
	}
	copySide(out.first, a.first)
	copySide(out.last, b.last)
	for k, w := range a.empty {
		for t, gs := range b.first {
			for l := range gs {
				out.first.add(t, after(k, l), w)
			}
		}
		for l := range b.empty {
			out.empty.add(after(k, l), w)
		}
	}
	for l, w := range b.empty {
		for t, gs := range a.last {
			for k := range gs {
				out.last.add(t, after(k, l), w)
			}
		}
	}
	for s, ks := range a.last {
		for t, ls := range b.first {
			for k, v := range ks {
				for l, w := range ls {
					if k == nothing {
						v = w
					}
					p := [2]string{s, t}
					if n.pairs[p] == nil {
						n.pairs[p] = gaps{}
					}
					if n.pairs[p].add(after(k, l), v) {
						n.more = true
					}
				}
			}
		}
	}
	return out
}

func single(tokens []string, where string) *extent {
	s := newExtent()
	for _, t := range tokens {
		s.first.add(t, nothing, where)
		s.last.add(t, nothing, where)
	}
	return s
}

func (n *neighbours) extent(x *pexpr) *extent {
	if k, ok := n.gap(x); ok {
		s := newExtent()
		s.empty.add(k, x.where)
		return s
	}
	if n.a.raw(x) {
		if ww, ok := n.a.g.words(x); ok && !strings.ContainsAny(strings.Join(ww, ""), " \t\r\n") {
			return single(ww, x.where)
		}
	}
	switch x.kind {
	case "and", "not", "state", "andcode", "notcode":
		s := newExtent()
		s.empty.add(nothing, x.where)
		return s
	case "throw":
		return newExtent()
	case "lit", "class", "any":
		re, _ := n.a.g.regex(x)
		return single([]string{re}, x.where)
	case "ref":
		if s := n.rules[x.str]; s != nil {
			return s
		}
		return newExtent()
	case "label", "recover":
		return n.extent(x.kids[0])
	case "action":
		if ts := n.token(x); len(ts) > 0 {
			return single(ts, x.where)
		}
		if len(n.a.kinds[x]) == 0 {
			return newExtent() // it always fails
		}
		return n.extent(x.kids[0])
	case "seq":
		s := newExtent()
		s.empty.add(nothing, x.where)
		for _, k := range x.kids {
			s = n.join(s, n.extent(k))
		}
		return s
	case "choice":
		out := newExtent()
		for _, k := range x.kids {
			n.merge(out, n.extent(k))
		}
		return out
	case "opt", "star", "plus":
		s := n.extent(x.kids[0])
		out := newExtent()
		n.merge(out, s)
		if x.kind != "opt" {
			n.merge(out, n.join(s, s))
		}
		if x.kind != "plus" {
			out.empty.add(nothing, x.where)
		}
		return out
	}
	n.a.c.Missing("the meaning of a " + x.kind)
	return nil
}

func (n *neighbours) merge(to, from *extent) (more bool) {
	for _, p := range [][2]side{{to.first, from.first}, {to.last, from.last}} {
		for t, gs := range p[1] {
			for k, w := range gs {
				if p[0].add(t, k, w) {
					more = true
				}
			}
		}
	}
	for k, w := range from.empty {
		if to.empty.add(k, w) {
			more = true
		}
	}
	return more
}

// G07: blanks and the places of tokens.
func G07(c *Ctx) {
	c.givenText()
	a := c.newActions()
	a.solve()
	c.Rule("for every two tokens that can stand side by side in a query, what the grammar has between them, computed to a fixpoint over all rules: any number of the four kinds of blanks, and at least one beside a word that is a connective")
	c.Rule("a test, a negation and a parenthesis can stand after each connective and parenthesis, and a value after each operator and comma")
	n := &neighbours{a: a, rules: map[string]*extent{}, pairs: map[[2]string]gaps{}, memo: map[*pexpr]int{}}
	rules := a.g.reachable()
	for _, r := range rules {
		n.rules[r.name] = newExtent()
	}
	start := single([]string{"start"}, rules[0].where)
	end := single([]string{"end"}, rules[0].where)
	for n.more = true; n.more; {
		n.more = false
		for _, r := range rules {
			if n.merge(n.rules[r.name], n.extent(r.expr)) {
				n.more = true
			}
		}
		n.join(n.join(start, n.rules[rules[0].name]), end)
	}
	operand := []string{"field", "("}
	operands := append([]string{"NOT", "!"}, operand...)
	want := map[[2]string]int{}
	each := func(from, to []string, k int) {
		for _, s := range from {
			for _, t := range to {
				want[[2]string{s, t}] = k
			}
		}
	}
	closing := []string{"value", ")", "operator without value"}
	each([]string{"start", "("}, operands, blanks)
	each([]string{"AND", "OR"}, operands, blank)
	each([]string{"NOT"}, operand, blank)
	each([]string{"!"}, operand, blanks)
	each([]string{"field"}, []string{":"}, blanks)
	each([]string{":"}, []string{"operator", "operator without value", "value", "("}, blanks)
	each([]string{"operator"}, []string{"value", "("}, blanks)
	each([]string{"(", ","}, []string{"value"}, blanks)
	each([]string{"value"}, []string{","}, blanks)
	each(closing, []string{")", "end"}, blanks)
	each(closing, []string{"AND", "OR"}, blank)
	var ps [][2]string
	for p := range want {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0]+"\x00"+ps[i][1] < ps[j][0]+"\x00"+ps[j][1] })
	for _, p := range ps {
		what := "between " + p[0] + " and " + p[1]
		gs := n.pairs[p]
		if !c.Need(len(gs) > 0, "places", what, rules[0].where, "%s never stands after %s", p[1], p[0]) {
			continue
		}
		for k, where := range gs {
			c.Need(k == want[p], "blanks", what, where, "there has to be %s here, not %s", gapNames[k], gapNames[want[p]])
		}
	}
	c.AtLeast("places", 30)
	c.AtLeast("blanks", 30)
}
