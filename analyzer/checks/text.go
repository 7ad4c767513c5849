package checks

import (
	"go/types"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

// readers make a reader of a text or of another reader, without changing what is
// read.
var readers = map[string]bool{
	"strings.NewReader": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true,
	"bufio.NewReader": true, "bufio.NewReaderSize": true, "strings.Clone": true, "bytes.Clone": true,
}

// reads lets readers be made and read as a whole, which may fail unless they read
// from memory.
func reads(st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	switch {
	case readers[call.Name]:
		return []flow.Ret{{St: st, Val: flow.App(call.Name, call.Sig.Results().At(0).Type(), call.Args[0])}}, true
	case call.Name == "io.ReadAll" || call.Name == "io/ioutil.ReadAll":
		bytesT := call.Sig.Results().At(0).Type()
		out := []flow.Ret{{St: st, Val: flow.Tuple(flow.App("all of", bytesT, call.Args[0]), flow.Nil)}}
		if from := readFrom(call.Args[0]); from.Typ == nil || types.IsInterface(from.Typ) {
			s2 := st.Clone()
			e := flow.Sym("error of reading", errorT)
			s2.Assume(flow.Eq(e, flow.Nil), false)
			s2.Emit(&flow.Event{Name: "reading fails", Pos: call.Pos})
			out = append(out, flow.Ret{St: s2, Val: flow.Tuple(flow.App("part of", bytesT, call.Args[0]), e)})
		}
		return out, true
	}
	return nil, false
}

// sameText tells whether what is read from a term is exactly a text.
func sameText(x, text *flow.Term) bool { return readFrom(x) == readFrom(text) }

// readFrom returns what is read from a term.
func readFrom(x *flow.Term) *flow.Term {
	for x.Op == "iface" || x.Op == "app" && (readers[x.Aux] || x.Aux == "all of" || x.Aux == "tobytes" || x.Aux == "tostring") {
		x = x.Args[0]
	}
	return x
}

// givenText checks that the grammar is applied to exactly the query, whichever
// way parsing starts.
func (c *Ctx) givenText() {
	rule := "text of the query"
	c.Rule("on every path from each way to start parsing, the grammar is applied to exactly the text given, unless reading it fails")
	c.guard(rule, func() {
		entries := []*ssa.Function{c.Fn("parser", "ParseQuery"), c.Fn("jsonmatcher", "NewMatcher")}
		if f := c.P.Func("parser", "ParseQueryReader"); f != nil {
			entries = append(entries, f)
		}
		for _, entry := range entries {
			p := c.newParsing()
			p.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
				if inPkg(call.Fn, gram) {
					switch sig := call.Fn.Signature; {
					case call.Fn.Name() == "newParser":
						st.Emit(&flow.Event{Name: "grammar", Args: call.Args, Pos: call.Pos})
						return []flow.Ret{{St: st, Val: flow.App("parser of the grammar", sig.Results().At(0).Type())}}, true
					case sig.Recv() != nil && sig.Results().Len() == 2:
						// whatever it finds
						e := flow.Sym("error of the grammar", errorT)
						st.Assume(flow.Eq(e, flow.Nil), false)
						return []flow.Ret{{St: st, Val: flow.Tuple(flow.Nil, e)}}, true
					case sig.Recv() == nil && sig.Results().Len() == 1 && !strings.HasPrefix(call.Fn.Name(), "Parse"):
						return []flow.Ret{{St: st, Val: flow.App(call.Name, sig.Results().At(0).Type(), call.Args...)}}, true
					}
				}
				return reads(st, call)
			}
			text := flow.Sym("query", entry.Params[0].Type())
			args := []*flow.Term{text}
			for range entry.Params[1:] {
				args = append(args, flow.Nil)
			}
			what, where := prog.FnName(entry), c.P.Where(entry.Pos())
			for _, r := range p.in.CallFn(p.in.NewState(), entry, args...) {
				if r.Panic {
					continue // P03
				}
				parsed, failed := false, false
				for _, e := range allEvents(r.St) {
					switch e.Name {
					case "reading fails":
						failed = true
					case "grammar":
						for _, a := range e.Args {
							if s, ok := a.Typ.(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
								c.Need(sameText(a, text), rule, what, c.P.Where(e.Pos), "the grammar is applied to %s instead of the query", short(a))
								parsed = true
							}
						}
					}
				}
				c.Need(parsed || failed, rule, what, where, "does not parse the text it is given")
			}
			c.Used(p.in)
		}
	})
	c.AtLeast(rule, 3)
}
