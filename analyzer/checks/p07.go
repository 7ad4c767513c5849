package checks

import (
	"go/types"

	"aqlverify/flow"
)

func init() { All["P07"] = p07 }

// A conversion is one right way to make a value of a text.
type conversion struct {
	name string
	val  []*flow.Term // the value, in any of these forms
	err  *flow.Term   // nil if the text denotes such a value
	// when holds if the text is of the form that this conversion is for, nil
	// if it is for all texts.
	when func(st *flow.State) flow.Tri
	day  flow.Tri // whether the value is a day, if there is a difference
}

func p07(c *Ctx) {
	c.givenText()
	c.Rule("conversion: the value of a literal is the result of the conversion of its text that belongs to its kind")
	c.Rule("rejected: a literal is accepted if the conversion succeeded and rejected if it failed")
	c.Rule("kind: the literals of each kind report that kind and no other")
	a := c.newActions()
	a.solve()
	done := map[string]map[string]bool{}
	for _, r := range a.g.reachable() {
		r := r
		r.expr.each(func(x *pexpr) {
			if x.kind == "action" {
				a.conversions(a.runs[x], done)
			}
		})
	}
	for n := range tokenShapes {
		t := types.NewPointer(c.Type(ast, n))
		c.Need(len(done[n]) > 0, "conversion", "literal "+n, a.g.rules[0].where, "no literal becomes a %s", n)
		for _, k := range a.convert(n, flow.Sym("text", types.Typ[types.String])) {
			c.Need(done[n][k.name], "conversion", "literal "+n, a.g.rules[0].where, "no literal is converted as %s", k.name)
		}
		a.kindOf(n, t)
	}
	c.Used(a.in)
	c.AtLeast("conversion", 16)
	c.AtLeast("rejected", 8)
	c.AtLeast("kind", 7)
	c.Assume = append(c.Assume, "The functions of strconv, time, net/netip and regexp convert texts as documented.")
}

var kindConst = map[string]string{
	"IntVal": "TypeInt", "FloatVal": "TypeFloat", "StringVal": "TypeString", "BoolVal": "TypeBool",
	"RegexpVal": "TypeRegex", "NetVal": "TypeNet", "TimeVal": "TypeTime",
}

func (a *actions) kindOf(n string, t types.Type) {
	c := a.c
	st := a.in.NewState()
	fn := c.Method(t, "Type")
	for _, ret := range a.in.CallFn(st, fn, flow.Sym("value "+n, t)) {
		c.Need(!ret.Panic && ret.Val == c.Const(ast, kindConst[n]), "kind", "literal "+n, c.P.Where(fn.Pos()), "the kind of a %s is %s", n, short(ret.Val))
	}
}

func errOf(app *flow.Term) *flow.Term { return flow.Ext(app, 1, nil) }

// convert lists the right conversions of a text to a type of value.
func (a *actions) convert(n string, text *flow.Term) []conversion {
	one := func(name, fn string, args ...*flow.Term) conversion {
		x := flow.App(fn, nil, args...)
		return conversion{name: name, val: []*flow.Term{flow.Ext(x, 0, nil)}, err: errOf(x), day: flow.Maybe}
	}
	is := func(f *flow.Term, want bool) func(*flow.State) flow.Tri {
		return func(st *flow.State) flow.Tri {
			t := a.in.Eval(flow.T(f), st)
			if !want && t == flow.Yes {
				return flow.No
			}
			if !want && t == flow.No {
				return flow.Yes
			}
			return t
		}
	}
	switch n {
	case "IntVal":
		return []conversion{one("integer", "strconv.ParseInt", text, flow.Int(10), flow.Int(64))}
	case "FloatVal":
		return []conversion{one("float", "strconv.ParseFloat", text, flow.Int(64))}
	case "StringVal":
		return []conversion{one("string", "strconv.Unquote", text)}
	case "RegexpVal":
		slash := flow.Str("/")
		str := types.Typ[types.String]
		trim := func(x *flow.Term, fs ...string) *flow.Term {
			for _, f := range fs {
				x = flow.App("strings."+f, str, x, slash)
			}
			return x
		}
		var out []conversion
		for _, inner := range []*flow.Term{
			trim(text, "TrimPrefix", "TrimSuffix"),
			trim(text, "TrimSuffix", "TrimPrefix"),
			flow.SliceOf(text, flow.Int(1), flow.Sub(flow.Len(text), flow.Int(1)), str),
		} {
			out = append(out, one("regular expression", "regexp.Compile", inner))
		}
		return out
	case "NetVal":
		slash := flow.App("strings.Contains", types.Typ[types.Bool], text, flow.Str("/"))
		net := one("network", "net/netip.ParsePrefix", text)
		net.when = is(slash, true)
		net.val = append(net.val, masked(net.val[0]))
		one32 := one("address", "net/netip.ParsePrefix", flow.Concat(text, flow.Str("/32")))
		one32.when = is(slash, false)
		one32.val = append(one32.val, masked(one32.val[0]))
		addr := one("address", "net/netip.ParseAddr", text)
		addr.when = one32.when
		x := addr.val[0]
		addr.val = []*flow.Term{flow.App("net/netip.PrefixFrom", nil, x, flow.Int(32)),
			flow.App("net/netip.PrefixFrom", nil, x, flow.App("(net/netip.Addr).BitLen", nil, x)),
			flow.Ext(flow.App("(net/netip.Addr).Prefix", nil, x, flow.Int(32)), 0, nil)}
		return []conversion{net, one32, addr}
	case "TimeVal":
		short := flow.IEq(flow.Len(text), flow.Int(10))
		var out []conversion
		for _, k := range []struct {
			name, layout string
			day          flow.Tri
		}{{"day", "2006-01-02", flow.Yes}, {"time", "2006-01-02T15:04:05Z07:00", flow.No}, {"time", "2006-01-02T15:04:05.999999999Z07:00", flow.No}} {
			x := one(k.name, "time.Parse", flow.Str(k.layout), text)
			x.day = k.day
			x.when = is(short, k.day == flow.Yes)
			x.val = append(x.val, flow.App("(time.Time).UTC", nil, x.val[0]))
			out = append(out, x)
		}
		return out
	}
	return nil
}

func masked(x *flow.Term) *flow.Term { return flow.App("(net/netip.Prefix).Masked", nil, x) }

// conversions compares an action that makes values of texts with the right
// conversions.
func (a *actions) conversions(rs *actionRuns, done map[string]map[string]bool) {
	c := a.c
	name := "rule " + rs.rule.name
	kind := ""
	for _, ret := range rs.rets {
		if !ret.Panic && ret.from == "" && ret.fails != flow.Yes {
			if n := a.valName(ret.kind); n != "" {
				kind = n
			}
		}
	}
	if kind == "" {
		return
	}
	if done[kind] == nil {
		done[kind] = map[string]bool{}
	}
	if kind == "BoolVal" {
		a.booleans(rs)
		done[kind]["boolean"] = true
		return
	}
	for _, ret := range rs.rets {
		if ret.Panic {
			continue // a matter of other properties
		}
		st := ret.St
		text := flow.ToString(a.matchText(st, ret.cur))
		cs := a.convert(kind, text)
		failed := func(k conversion) bool { return a.in.Eval(flow.T(flow.Eq(k.err, flow.Nil)), st) == flow.No }
		switch ret.fails {
		case flow.Yes:
			ok := false
			all := map[string]bool{}
			for _, k := range cs {
				if failed(k) {
					all[k.name] = true
				}
				if failed(k) && (k.when == nil || k.when(st) == flow.Yes) {
					ok = true
				}
				// text that is no number
				if kind == "FloatVal" && a.in.Eval(flow.T(flow.App("math.IsNaN", types.Typ[types.Bool], k.val[0])), st) == flow.Yes {
					ok = true
				}
			}
			n := map[string]bool{}
			for _, k := range cs {
				n[k.name] = true
			}
			c.Need(ok || len(all) == len(n), "rejected", name, rs.x.where, "a literal is rejected although its text may denote a value of its kind")
		case flow.No:
			got := a.valueOf(st, ret.val)
			if got == nil {
				c.Bad("conversion", name, rs.x.where, "the value of the literal is not known")
				continue
			}
			found := ""
			for _, k := range cs {
				for _, v := range k.val {
					if got == v {
						found = k.name
						c.Need(a.in.Eval(flow.T(flow.Eq(k.err, flow.Nil)), st) == flow.Yes, "rejected", name, rs.x.where, "a literal is accepted although its text may denote no value of its kind: the error of the conversion is not checked")
						if k.day != flow.Maybe {
							d := a.dayOnly(st, ret.val)
							c.Need(a.in.Eval(flow.T(d), st) == k.day, "conversion", name, rs.x.where, "a literal of the form of a %s has %s for whether it is a day", k.name, short(d))
						}
					}
				}
			}
			if c.Need(found != "", "conversion", name, rs.x.where, "the value of the literal is %s", short(got)) {
				done[kind][found] = true
			}
		default:
			c.Bad("rejected", name, rs.x.where, "whether the literal is accepted is not known")
		}
	}
}

// valueOf is the value of a literal.
func (a *actions) valueOf(st *flow.State, v *flow.Term) *flow.Term {
	rets := a.in.CallFn(st.Clone(), a.c.Method(v.DTyp, "Value"), v.Args[0])
	if len(rets) != 1 || rets[0].Panic {
		return nil
	}
	return rets[0].Val
}

func (a *actions) dayOnly(st *flow.State, v *flow.Term) *flow.Term {
	rets := a.in.CallFn(st.Clone(), a.c.Method(v.DTyp, "DayOnly"), v.Args[0])
	if len(rets) != 1 || rets[0].Panic {
		return flow.Nil
	}
	return rets[0].Val
}

// booleans checks each of the texts of booleans.
func (a *actions) booleans(rs *actionRuns) {
	c := a.c
	name := "rule " + rs.rule.name
	ww, fin := a.g.words(rs.x.kids[0])
	if !c.Need(fin, "conversion", name, rs.x.where, "the texts of booleans are not known") {
		return
	}
	for _, w := range ww {
		for _, ret := range a.run(rs.rule, rs.x, flow.ToBytes(flow.Str(w))).rets {
			if ret.Panic {
				continue
			}
			if w != "true" && w != "false" {
				continue // a matter of the grammar
			}
			if !c.Need(ret.fails == flow.No, "rejected", name, rs.x.where, "%s is rejected", w) {
				continue
			}
			got := a.valueOf(ret.St, ret.val)
			c.Need(got == flow.Bool(w == "true"), "conversion", name, rs.x.where, "the value of %s is %v", w, got)
		}
	}
}
