package checks

import (
	"go/types"

	"aqlverify/flow"
)

func (m *matching) numLit(lit *flow.Term, kind string) *flow.Term {
	v := m.getter(lit, kind, "Value")
	if kind == "IntVal" {
		return flow.Conv(v, types.Typ[types.Int64], float64T)
	}
	return v
}

var relOf = map[string]string{"LT": "<", "LTE": "<=", "GT": ">", "GTE": ">="}

func init() { All["M02"] = M02 }

// M02 checks ordering comparisons.
func M02(c *Ctx) {
	c.Rule("for each of <, <=, >, >=, >< and each permitted literal kind, on every path through compiling and matching: result true ⇔ some scalar of the field, read as the literal's kind, is in the relation to the literal")
	rule := "ordering comparison"
	for _, op := range []string{"LT", "LTE", "GT", "GTE"} {
		for _, kind := range []string{"IntVal", "FloatVal"} {
			m := c.newMatching()
			lit := m.literal(kind, "literal")
			m.test(c.Const(ast, op), m.list(lit))
			v := m.numLit(lit, kind)
			m.compare(rule, "field "+op+" "+kind, func(st *flow.State) *flow.Formula {
				l, s, _ := m.denoted(st)
				return m.someScalar(l, s, m.number(func(f *flow.Term) *flow.Formula { return flow.T(flow.Ord(f, relOf[op], v, true)) }))
			})
		}
		m := c.newMatching()
		lit := m.literal("TimeVal", "literal")
		m.test(c.Const(ast, op), m.list(lit))
		v := m.getter(lit, "TimeVal", "Value")
		m.compare(rule, "field "+op+" TimeVal", func(st *flow.State) *flow.Formula {
			l, s, _ := m.denoted(st)
			return m.someScalar(l, s, m.instant(func(t *flow.Term) *flow.Formula { return flow.T(flow.Ord(t, relOf[op], v, false)) }))
		})
	}
	for _, k1 := range []string{"IntVal", "FloatVal"} {
		for _, k2 := range []string{"IntVal", "FloatVal"} {
			m := c.newMatching()
			a, b := m.literal(k1, "low"), m.literal(k2, "high")
			m.test(c.Const(ast, "BET"), m.list(a, b))
			lo, hi := m.numLit(a, k1), m.numLit(b, k2)
			m.compare(rule, "field BET "+k1+" "+k2, func(st *flow.State) *flow.Formula {
				l, s, _ := m.denoted(st)
				return m.someScalar(l, s, m.number(func(f *flow.Term) *flow.Formula {
					return flow.FAnd(flow.T(flow.Ord(f, ">=", lo, true)), flow.T(flow.Ord(f, "<=", hi, true)))
				}))
			})
		}
	}
	m := c.newMatching()
	a, b := m.literal("TimeVal", "low"), m.literal("TimeVal", "high")
	m.test(c.Const(ast, "BET"), m.list(a, b))
	lo, hi := m.getter(a, "TimeVal", "Value"), m.getter(b, "TimeVal", "Value")
	m.compare(rule, "field BET TimeVal TimeVal", func(st *flow.State) *flow.Formula {
		l, s, _ := m.denoted(st)
		return m.someScalar(l, s, m.instant(func(t *flow.Term) *flow.Formula {
			return flow.FAnd(flow.T(flow.Ord(t, ">=", lo, false)), flow.T(flow.Ord(t, "<=", hi, false)))
		}))
	})
	c.AtLeast(rule, 17)
	c.ownField("lookup arguments")
}
