package checks

import (
	"go/types"
	"reflect"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() { All["P10"] = P10 }

// P10 checks the forms of messages and errors.
func P10(c *Ctx) {
	c.Rule("texts: the text of a message shows its kind, its position if it has one, and its message, once each and in this order; that of an error its position and message; kinds are named differently")
	c.Rule("contents: the message and position of a message or an error are those it was made with")
	c.Rule("JSON: the kind of a message is encoded by the name its text has, also when the message is not referred to by a pointer; every other part is encoded under a name of its own")
	c.Rule("positions: the start of a position is at the same place and has the length one; only the position that is none is zero")
	posT := c.Type(ast, "Pos")
	msgT, errT := c.Type("parser", "ParserMessage"), c.Type("internal/grammar", "ParseError")
	kindT := c.Type("parser", "MessageType")
	in := c.Interp()
	text := flow.Sym("message", stringT)
	none := func(st *flow.State) *flow.Term {
		rs := in.CallFn(st, c.Fn(ast, "NoPosition"))
		if len(rs) != 1 || rs[0].Panic {
			flow.Undecided("NoPosition does not simply return a position")
		}
		return rs[0].Val
	}
	some := flow.Sym("position", posT)
	part := func(name string) *flow.Term { return flow.FieldNamed(some, name, posT) }
	placed := func(st *flow.State) {
		for name, least := range map[string]int64{"Line": 1, "Col": 1, "Offset": 0, "Len": 0} {
			st.Assume(flow.Le(flow.Int(least), part(name)), true)
		}
	}
	m := &matching{c: c, in: in}
	// worlds with and without a position
	each := func(f func(st *flow.State, pos *flow.Term, has bool)) {
		st := in.NewState()
		placed(st)
		f(st, some, true)
		st = in.NewState()
		f(st, none(st), false)
	}
	show := func(rule, what string, fn *ssa.Function, st *flow.State, x *flow.Term, has bool) []string {
		where := c.P.Where(fn.Pos())
		var first []string
		for _, r := range in.CallFn(st, fn, x) {
			if r.Panic {
				c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			shown, around := parts(r.Val)
			want := []*flow.Term{text}
			if has {
				want = []*flow.Term{part("Line"), part("Col"), part("Offset"), text}
			}
			same := len(shown) == len(want)
			for i := range want {
				same = same && shownAs(shown[i], want[i])
			}
			c.Need(same, rule, what, where, "shows %s instead of %s", shorts(shown), shorts(want))
			for i := 1; i+1 < len(around) && same; i++ {
				c.Need(around[i] != "", rule, what, where, "shows two parts with nothing between them")
			}
			first = append(first, around[0])
		}
		return first
	}
	kinds := []string{"MsgHint", "MsgWarning", "MsgError"}
	names := map[string]string{}
	rule := "texts"
	c.guard(rule, func() {
		for _, k := range kinds {
			each(func(st *flow.State, pos *flow.Term, has bool) {
				obj := st.Alloc("message "+k, msgT, flow.Zero(msgT))
				m.setField(st, obj, "Position", pos)
				m.setField(st, obj, "Msg", text)
				m.setField(st, obj, "Type", c.Const("parser", k))
				for _, t := range show(rule, k+placeName(has), c.Method(types.NewPointer(msgT), "String"), st, obj, has) {
					name, _, _ := strings.Cut(t, " ")
					name = strings.TrimSuffix(name, ":")
					names[k] = name
					c.Need(name != "", rule, k, "", "the kind is not shown")
				}
			})
		}
		for i, k := range kinds {
			for _, l := range kinds[:i] {
				c.Need(names[k] != names[l], rule, k, "", "messages of the kinds %s and %s look the same", k, l)
			}
		}
		each(func(st *flow.State, pos *flow.Term, has bool) {
			obj := st.Alloc("error", errT, flow.Zero(errT))
			m.setField(st, obj, "Position", pos)
			m.setField(st, obj, "Msg", text)
			fn := c.Method(types.NewPointer(errT), "Error")
			if has {
				show(rule, "error"+placeName(has), fn, st, obj, has)
				return
			}
			for _, r := range in.CallFn(st, fn, obj) {
				n := 0
				if !r.Panic {
					shown, _ := parts(r.Val)
					for _, x := range shown {
						if shownAs(x, text) {
							n++
						}
					}
				}
				c.Need(n == 1, rule, "error"+placeName(has), c.P.Where(fn.Pos()), "the message is shown %d times", n)
			}
		})
	})
	c.AtLeast(rule, 10)

	rule = "contents"
	c.guard(rule, func() {
		for _, t := range []types.Type{msgT, errT} {
			each(func(st *flow.State, pos *flow.Term, has bool) {
				obj := st.Alloc("made "+types.TypeString(t, nil), t, flow.Zero(t))
				m.setField(st, obj, "Position", pos)
				m.setField(st, obj, "Msg", text)
				for name, want := range map[string]*flow.Term{"Message": text, "Pos": pos} {
					fn := c.Method(types.NewPointer(t), name)
					for _, r := range in.CallFn(st.Clone(), fn, obj) {
						c.Need(!r.Panic && r.St.F.Decide(flow.Eq(r.Val, want)) == flow.Yes, rule, types.TypeString(t, nil)+"."+name+placeName(has), c.P.Where(fn.Pos()), "gives %s instead of %s", short(r.Val), short(want))
					}
				}
			})
		}
	})
	c.AtLeast(rule, 8)

	rule = "JSON"
	c.guard(rule, func() {
		ms := c.P.SSA.MethodSets.MethodSet(kindT)
		var enc *ssa.Function
		for _, n := range []string{"MarshalJSON", "MarshalText"} {
			if s := ms.Lookup(nil, n); s != nil && enc == nil {
				enc = c.P.SSA.MethodValue(s)
			}
		}
		where := c.P.Where(c.P.Pkg("parser").Type("MessageType").Pos())
		c.Need(enc != nil, rule, "kinds", where, "the kind of a message that is not referred to by a pointer is encoded as a number")
		ptr := c.P.SSA.MethodSets.MethodSet(types.NewPointer(kindT))
		for _, n := range []string{"MarshalJSON", "MarshalText"} {
			if s := ptr.Lookup(nil, n); s != nil && enc == nil {
				enc = c.P.SSA.MethodValue(s)
			}
		}
		if enc == nil {
			return
		}
		for _, k := range kinds {
			st := in.NewState()
			v := c.Const("parser", k)
			if _, ok := enc.Signature.Recv().Type().(*types.Pointer); ok {
				obj := st.Alloc("kind "+k, kindT, v)
				v = obj
			}
			for _, r := range in.CallFn(st, enc, v) {
				want := flow.Str(names[k])
				got, err := flow.Ext(r.Val, 0, nil), flow.Ext(r.Val, 1, nil)
				// the encoding of a text always succeeds
				ok := false
				if !r.Panic {
					if enc.Name() == "MarshalJSON" {
						ok = got.Mentions(func(x *flow.Term) bool {
							return x.Op == "app" && strings.HasSuffix(x.Aux, "json.Marshal") && len(x.Args) == 1 && (x.Args[0] == want || x.Args[0].Op == "iface" && x.Args[0].Args[0] == want)
						}) || got.Mentions(func(x *flow.Term) bool { s, ok := x.StrVal(); return ok && s == `"`+names[k]+`"` })
					} else {
						ok = err == flow.Nil && got.Mentions(func(x *flow.Term) bool { return x == want })
					}
				}
				c.Need(ok, rule, k, c.P.Where(enc.Pos()), "is encoded as %s, not by its name %q", short(got), names[k])
			}
		}
	})
	c.AtLeast(rule, 4)
	rule = "JSON names"
	for _, t := range []types.Type{msgT, errT, posT} {
		s := t.Underlying().(*types.Struct)
		seen := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			name, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			key := strings.ToLower(name)
			c.Need(name != "-" && !seen[key], rule, types.TypeString(t, nil)+"."+f.Name(), c.P.Where(f.Pos()), "is not encoded, or under the name of another part (%s)", name)
			seen[key] = true
		}
	}
	c.AtLeast(rule, 10)

	rule = "positions"
	c.guard(rule, func() {
		start, zero := c.Method(posT, "Start"), c.Method(posT, "IsZero")
		each(func(st *flow.State, pos *flow.Term, has bool) {
			for _, r := range in.CallFn(st.Clone(), start, pos) {
				ok := !r.Panic
				for _, f := range []string{"Line", "Col", "Offset", "Len"} {
					want := flow.FieldNamed(pos, f, posT)
					if has && f == "Len" {
						want = flow.Int(1)
					}
					ok = ok && r.St.F.Decide(flow.IEq(flow.FieldNamed(r.Val, f, posT), want)) == flow.Yes
				}
				c.Need(ok, rule, "start"+placeName(has), c.P.Where(start.Pos()), "is %s", short(r.Val))
			}
			for _, r := range in.CallFn(st.Clone(), zero, pos) {
				v := r.Val
				c.Need(!r.Panic && (has && r.St.F.Decide(v) == flow.No || !has && r.St.F.Decide(v) == flow.Yes), rule, "zero"+placeName(has), c.P.Where(zero.Pos()), "is %s", short(v))
			}
		})
	})
	c.AtLeast(rule, 4)
	c.Used(in)
	c.Assume = append(c.Assume, "a position is either none or has a line and a column from 1 and an offset from 0 (P06)")
}

func placeName(has bool) string {
	if has {
		return " with a position"
	}
	return " without a position"
}

// shownAs tells whether a part of a text is the decimal or plain form of x.
func shownAs(part, x *flow.Term) bool {
	for part != x {
		if part.Op != "app" || len(part.Args) == 0 {
			return false
		}
		switch {
		case part.Aux == "decimal" || part.Aux == "fmt:%d" || part.Aux == "fmt:%s" || part.Aux == "fmt:%v" || part.Aux == "strconv.Itoa" || part.Aux == "itoa":
		case part.Aux == "strconv.FormatInt" && len(part.Args) == 2 && part.Args[1] == flow.Int(10):
		default:
			return false
		}
		part = part.Args[0]
	}
	return true
}
