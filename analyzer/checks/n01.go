package checks

import "aqlverify/flow"

func init() { All["N01"] = N01 }

// N01 checks comparisons of integers. It knows one way in which they are not exact.
func N01(c *Ctx) {
	c.Rule("comparison: for each operator that takes integer literals, on every path through compiling and matching, the result is that of comparing the literal with some number of the field, each with no conversion that changes it, other than to a double-precision number as a whole")
	c.Rule("rounding: neither is converted to a double-precision number, which changes integers beyond 2^53")
	c.Assume = append(c.Assume, "Reading the text of a number gives the double-precision number closest to it.")
	rel := map[string]string{"EQ": "=="}
	for k, v := range relOf {
		rel[k] = v
	}
	for _, op := range []string{"EQ", "LT", "LTE", "GT", "GTE", "BET"} {
		what := "field " + op + " integer"
		c.guardAs("comparison", what, func() {
			m := c.newMatching()
			lit := m.literal("IntVal", "literal")
			lits := []*flow.Term{lit}
			if op == "BET" {
				lits = append(lits, m.literal("IntVal", "high"))
			}
			m.test(c.Const(ast, op), m.list(lits...))
			m.searches()
			v := m.numLit(lit, "IntVal")
			spec := func(st *flow.State) *flow.Formula {
				l, s, _ := m.denoted(st)
				return m.someScalar(l, s, m.number(func(f *flow.Term) *flow.Formula {
					if op == "BET" {
						return flow.FAnd(flow.T(flow.Ord(f, ">=", v, true)), flow.T(flow.Ord(f, "<=", m.numLit(lits[1], "IntVal"), true)))
					}
					return flow.T(flow.Ord(f, rel[op], v, true))
				}))
			}
			outs := m.run("comparison", what)
			n, bad, _ := m.agree(outs, spec)
			where := c.P.Where(m.match.Pos())
			if !c.Need(bad == "" && n > 0, "comparison", what, where, "matching %s %s", what, bad) {
				return
			}
			c.Count["paths compared"] += n
			c.Bad("rounding", what, where, "the literal and the number are rounded to double precision before they are compared")
		})
	}
	c.AtLeast("comparison", 6)
}
