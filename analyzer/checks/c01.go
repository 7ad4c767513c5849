package checks

import (
	"fmt"
	"go/types"
	"path/filepath"
	"slices"
	"strings"

	"aqlverify/flow"
)

func init() { All["C01"] = C01 }

// command is a command line tool being run with some arguments.
type command struct {
	c    *Ctx
	in   *flow.Interp
	pkg  string
	what string
	args []*flow.Term
	errs int
	rets []flow.Ret
}

const (
	stdout = "output"
	stderr = "message"
)

// run analyses the tool. Every call of a function of another package that can fail
// fails on a path of its own.
func (c *Ctx) tool(pkg, what string, args ...*flow.Term) *command {
	t := &command{c: c, in: c.Interp(), pkg: pkg, what: what, args: args}
	in := t.in
	in.Unroll = 16
	in.Opaque = stringy
	in.Uni.NonNil = func(x *flow.Term) bool { return x.Op == "sym" && x.Typ != nil && types.Identical(x.Typ, errorT) }
	in.Hook = t.hook
	main := c.Fn(pkg, "main")
	st := in.NewState()
	os := c.P.SSA.ImportedPackage("os")
	if os == nil {
		c.Missing("package os in " + pkg)
	}
	var segs []*flow.Term
	for _, a := range args {
		segs = append(segs, flow.Elem(a))
	}
	st.Store(in.Global(os.Var("Args")), flow.List(types.NewSlice(stringT), segs...))
	t.rets = in.CallFn(st, main)
	c.Used(in)
	return t
}

// writer tells what is written to.
func (t *command) writer(w *flow.Term) string {
	kind := ""
	w.Mentions(func(x *flow.Term) bool {
		for _, g := range []struct{ name, kind string }{{"Stdout", stdout}, {"Stderr", stderr}} {
			if strings.Contains(x.Op+" "+x.Aux, "os."+g.name) {
				kind = g.kind
			}
		}
		return kind != ""
	})
	return kind
}

func (t *command) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	if call.Fn == nil || inPkg(call.Fn, t.pkg) || strings.HasSuffix(call.Name, "$bound") {
		return nil, false
	}
	emit := func(kind string, args ...*flow.Term) {
		var vs []*flow.Term
		for _, a := range args {
			if _, ok := a.StrVal(); !ok && a.Op != "sym" {
				a = in.ListOf(st, a)
			}
			vs = append(vs, a)
		}
		st.Emit(&flow.Event{Name: kind, Args: vs, Pos: call.Pos})
	}
	res := call.Sig.Results()
	// result is what the call returns when it does not fail.
	result := func() *flow.Term {
		var vs []*flow.Term
		for i := 0; i < res.Len(); i++ {
			typ := res.At(i).Type()
			switch {
			case types.Identical(typ, errorT):
				vs = append(vs, flow.Nil)
			default:
				vs = append(vs, flow.Sym(fmt.Sprintf("result %d of %s, call %d", i, call.Name, len(allEvents(st))), typ))
			}
		}
		switch len(vs) {
		case 0:
			return nil
		case 1:
			return vs[0]
		}
		return flow.Tuple(vs...)
	}
	done := func() ([]flow.Ret, bool) { return []flow.Ret{{St: st, Val: result()}}, true }
	n := call.Name
	method := call.Fn.Name()
	switch {
	case n == "path/filepath.Ext":
		if s, ok := call.Args[0].StrVal(); ok {
			return []flow.Ret{{St: st, Val: flow.Str(filepath.Ext(s))}}, true
		}
		return nil, false
	case n == "fmt.Print" || n == "fmt.Println" || n == "fmt.Printf":
		emit(stdout, call.Args...)
		return done()
	case n == "log.Print" || n == "log.Println" || n == "log.Printf":
		emit(stderr, call.Args...)
		return done()
	case strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || strings.HasPrefix(n, "(*os.File).Write"):
		if k := t.writer(call.Args[0]); k != "" {
			emit(k, call.Args[1:]...)
			return done()
		}
		flow.Undecided("what %s writes to is not known", n)
	case strings.HasPrefix(n, "log.Set") || strings.HasPrefix(n, "(*log.Logger)."):
		if strings.HasPrefix(n, "log.SetOutput") {
			flow.Undecided("messages are redirected")
		}
		return done()
	}
	if t.c.P.InRepo(call.Fn) && method == "Messages" {
		typ := res.At(0).Type()
		return []flow.Ret{{St: st, Val: flow.List(typ, flow.Elem(flow.Sym("a message", typ.Underlying().(*types.Slice).Elem())))}}, true
	}
	fallible := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errorT)
	if fallible && !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "errors.") && method != "Close" {
		var out []flow.Ret
		if !hasFailed(st) {
			bad := st.Clone()
			t.errs++
			err := flow.Sym(fmt.Sprintf("failure %d of %s", t.errs, n), errorT)
			bad.Emit(&flow.Event{Name: failed, Args: []*flow.Term{flow.Str(n)}, Res: err, Pos: call.Pos})
			var vs []*flow.Term
			for i := 0; i < res.Len()-1; i++ {
				vs = append(vs, flow.Zero(res.At(i).Type()))
			}
			v := err
			if len(vs) > 0 {
				v = flow.Tuple(append(vs, err)...)
			}
			out = append(out, flow.Ret{St: bad, Val: v})
		}
		args := append([]*flow.Term(nil), call.Args...)
		if method == "Encode" && strings.HasPrefix(n, "(*encoding/json.Encoder)") {
			k := t.writer(args[0])
			if k == "" {
				flow.Undecided("what %s writes to is not known", n)
			}
			emit(k, args[1:]...)
		}
		v := result()
		st.Emit(&flow.Event{Name: "done " + n, Args: args, Res: v, Pos: call.Pos})
		return append(out, flow.Ret{St: st, Val: v}), true
	}
	if t.c.P.InRepo(call.Fn) {
		v := result()
		st.Emit(&flow.Event{Name: "done " + n, Args: append([]*flow.Term(nil), call.Args...), Res: v, Pos: call.Pos})
		return []flow.Ret{{St: st, Val: v}}, true
	}
	if n == "encoding/json.NewEncoder" {
		return []flow.Ret{{St: st, Val: flow.App(n, res.At(0).Type(), call.Args...)}}, true
	}
	if strings.HasPrefix(n, "(*encoding/json.Encoder).") {
		return done()
	}
	return nil, false
}

// exit tells how a path ends.
func (t *command) exit(r flow.Ret) (bad bool, message bool, how string) {
	if !r.Panic {
		return false, false, "returns"
	}
	if r.Why != "exit" {
		return true, stops(r), r.Why
	}
	evs := allEvents(r.St)
	e := evs[len(evs)-1]
	if e.Name != "os.Exit" {
		return true, len(e.Args) > 0 && len(flow.Segs(e.Args[len(e.Args)-1])) > 0 || len(e.Args) > 1, e.Name
	}
	after := !hasFailed(r.St)
	for _, e := range evs {
		if e.Name == failed {
			after = true
		}
		if e.Name == stderr && after {
			message = true
		}
	}
	k, ok := e.Args[0].IntVal()
	if !ok {
		flow.Undecided("the exit status is not known")
	}
	return k != 0, message, "os.Exit"
}

// at is the position of the last event of a path.
func (t *command) at(r flow.Ret) string {
	if r.Panic {
		return t.c.P.Where(r.Pos)
	}
	return t.c.P.Where(t.c.Fn(t.pkg, "main").Pos())
}

// failures checks the paths on which a call fails.
func (t *command) failures() {
	for _, r := range t.rets {
		call := failedCall(r.St)
		if call == "" {
			continue
		}
		what := filepath.Base(t.pkg) + " " + t.what + " " + call
		bad, msg, how := t.exit(r)
		t.c.Need(bad, "failures", what, t.at(r), "after the failure of %s the tool exits with success: %s", call, how)
		t.c.Need(!bad || msg, "failures", what+" message", t.at(r), "after the failure of %s the tool stops without a message: %s", call, how)
		after := false
		for _, e := range allEvents(r.St) {
			if e.Name == failed {
				after = true
			}
			if after {
				t.c.Need(e.Name != stdout, "failures", what+" output", t.c.P.Where(e.Pos), "after the failure of %s something is printed", call)
			}
		}
	}
}

// successes calls f on the paths on which nothing fails and reports those that
// should not end as they do.
func (t *command) successes(usage bool, f func(r flow.Ret)) {
	n := 0
	for _, r := range t.rets {
		if hasFailed(r.St) {
			continue
		}
		n++
		bad, msg, how := t.exit(r)
		what := filepath.Base(t.pkg) + " " + t.what
		if usage {
			t.c.Need(bad && msg, "arguments", what, t.at(r), "the tool does not stop with a message but %s", how)
			for _, e := range allEvents(r.St) {
				t.c.Need(e.Name != stdout, "arguments", what, t.c.P.Where(e.Pos), "something is printed")
			}
			continue
		}
		if t.c.Need(!bad, "success", what, t.at(r), "the tool stops with %s though nothing has failed", how) {
			f(r)
		}
	}
	t.c.Need(n > 0, "success", filepath.Base(t.pkg)+" "+t.what, t.c.P.Where(t.c.Fn(t.pkg, "main").Pos()), "there is no way to succeed")
}

func values(v *flow.Term) []*flow.Term {
	if v == nil {
		return nil
	}
	if v.Op == "tuple" {
		return v.Args
	}
	return []*flow.Term{v}
}

func mentions(t, x *flow.Term) bool { return t.Mentions(func(y *flow.Term) bool { return y == x }) }

func C01(c *Ctx) {
	c.Rule("failures: for every call of another package that can fail and is made by the tools, on the path on which it fails the tool stops with a message and a non-zero status and prints nothing more")
	c.Rule("arguments: with the wrong number of arguments, or a file name whose extension is not that of a known format, the tool stops in the same way")
	c.Rule("success: on all other paths the tool ends with success")
	c.Rule("result: it has then matched what was read from the file with the query (which is read from a file if its name says so) and printed the result and the statistics there are; or drawn the query and written it in the format of the extension to the file named")
	arg := func(i int) *flow.Term { return flow.Sym(fmt.Sprintf("argument %d", i), stringT) }
	const at, ag = "cmd/aqltest", "cmd/aqlgraph"
	for n := 1; n <= 5; n++ {
		c.guardAs("failures", fmt.Sprintf("aqltest with %d arguments", n-1), func() {
			var as []*flow.Term
			for i := 0; i < n; i++ {
				as = append(as, arg(i))
			}
			t := c.tool(at, fmt.Sprintf("with %d arguments", n-1), as...)
			t.failures()
			t.successes(n != 3, t.matched)
		})
	}
	name := func(s string) []*flow.Term { return []*flow.Term{arg(0), arg(1), flow.Str(s)} }
	for _, g := range []struct {
		what   string
		args   []*flow.Term
		usage  bool
		method string
	}{
		{"without arguments", []*flow.Term{arg(0)}, true, ""},
		{"with a query", []*flow.Term{arg(0), arg(1)}, false, "OutputSVG"},
		{"with an SVG file", name("a/query.svg"), false, "OutputSVG"},
		{"with an SVG file in upper case", name("query.SVG"), false, "OutputSVG"},
		{"with a DOT file", name("query.dot"), false, "OutputDOT"},
		{"with a DOT file in mixed case", name("a.svg/query.svg.Dot"), false, "OutputDOT"},
		{"with a PNG file", name("query.png"), true, ""},
		{"with a file without extension", name("query"), true, ""},
		{"with a file without a dot before the extension", name("querysvg"), true, ""},
		{"with a file in an SVG directory", name("a.svg/query"), true, ""},
		{"with a file whose extension only starts with one", name("query.svgz"), true, ""},
		{"with a file name", []*flow.Term{arg(0), arg(1), arg(2)}, false, "?"},
	} {
		c.guardAs("failures", "aqlgraph "+g.what, func() {
			t := c.tool(ag, g.what, g.args...)
			t.failures()
			if g.method == "?" {
				// which format it is depends on the name
				return
			}
			t.successes(g.usage, func(r flow.Ret) { t.drawn(r, g.method) })
		})
	}
	c.AtLeast("failures", 30)
	c.AtLeast("success", 8)
	c.AtLeast("arguments", 5)
	c.AtLeast("result", 8)
}

// matched checks what the tool has done when it succeeds.
func (t *command) matched(r flow.Ret) {
	c := t.c
	where := c.P.Where(c.Fn(t.pkg, "main").Pos())
	need := func(ok bool, what, format string, args ...any) {
		c.Need(ok, "result", "aqltest "+what, where, format, args...)
	}
	read := map[*flow.Term]*flow.Term{} // content -> name
	var result, query, doc *flow.Term
	var printed []*flow.Term
	var stats []*flow.Term
	for _, e := range allEvents(r.St) {
		call := strings.TrimPrefix(e.Name, "done ")
		switch {
		case e.Name == stdout:
			printed = append(printed, e.Args...)
		case call == "os.ReadFile" || call == "io/ioutil.ReadFile" || call == "os.Open":
			read[values(e.Res)[0]] = e.Args[0]
		case call == "io.ReadAll" || call == "io/ioutil.ReadAll":
			for v, n := range read {
				if mentions(e.Args[0], v) {
					read[values(e.Res)[0]] = n
				}
			}
		case strings.HasSuffix(call, "jsonmatcher.NewMatcher"):
			query = e.Args[0]
		case strings.HasSuffix(call, "jsonmatcher.Matcher).Match"):
			result, doc = values(e.Res)[0], e.Args[1]
		case strings.HasSuffix(call, "jsonmatcher.Matcher).Stats"):
			if r.St.F.Decide(flow.Eq(values(e.Res)[0], flow.Nil)) != flow.Yes {
				stats = values(e.Res)
			}
		case strings.HasPrefix(call, "encoding/json.Marshal"):
			if slices.ContainsFunc(stats, func(s *flow.Term) bool { return mentions(e.Args[0], s) }) {
				stats = values(e.Res)[:1]
			}
		}
	}
	if query == nil || result == nil {
		need(false, "match", "the tool succeeds without matching")
		return
	}
	from := func(t *flow.Term) *flow.Term { return read[contentOf(t)] }
	arg := t.args[1]
	isFile := flow.App("strings.HasSuffix", boolT, arg, flow.Str(".aql"))
	switch r.St.F.Decide(isFile) {
	case flow.Yes:
		need(from(query) == arg, "query file", "the query is %s, not the content of the file named", short(query))
	case flow.No:
		need(query == arg, "query", "the query is %s, not the one given", short(query))
	default:
		need(query == arg || from(query) == arg, "query", "the query is %s", short(query))
	}
	need(from(doc) == t.args[2], "document", "what is matched is %s, not the content of the file named", short(doc))
	shows := func(x *flow.Term) bool {
		return slices.ContainsFunc(printed, func(p *flow.Term) bool { return prints(p, x) })
	}
	need(shows(result) || decidedPrint(r.St, printed, result), "print", "the result is not printed but %s", shorts(printed))
	for _, s := range stats {
		need(shows(s), "statistics", "there are statistics that are not printed")
	}
}

// contentOf undoes conversions between texts and bytes, and copying.
func contentOf(t *flow.Term) *flow.Term {
	for {
		switch {
		case t.Op == "list" && len(t.Args) == 1 && t.Args[0].Op == "seg:s":
			t = t.Args[0].Args[0]
		case len(t.Args) == 1 && (t.Op == "concat" || t.Op == "app" && (t.Aux == "tostring" || t.Aux == "tobytes")):
			t = t.Args[0]
		default:
			return t
		}
	}
}

// prints reports whether a value is part of what is printed, as it is.
func prints(p, x *flow.Term) bool {
	if p == x {
		return true
	}
	switch {
	case p.Op == "list" || strings.HasPrefix(p.Op, "seg:") || p.Op == "iface" || p.Op == "concat":
	case p.Op == "app" && (strings.HasPrefix(p.Aux, "fmt.") || p.Aux == "string" || p.Aux == "bytes"):
	default:
		return x.Typ != nil && types.Identical(x.Typ.Underlying(), types.NewSlice(types.Typ[types.Byte])) && mentions(p, x)
	}
	return slices.ContainsFunc(p.Args, func(a *flow.Term) bool { return prints(a, x) })
}

// decidedPrint reports whether a path prints the text of the result it is on.
func decidedPrint(st *flow.State, printed []*flow.Term, result *flow.Term) bool {
	text := ""
	switch st.F.Decide(result) {
	case flow.Yes:
		text = "true"
	case flow.No:
		text = "false"
	default:
		return false
	}
	return slices.ContainsFunc(printed, func(p *flow.Term) bool {
		return p.Mentions(func(t *flow.Term) bool {
			s, ok := t.StrVal()
			return ok && strings.TrimSpace(s) == text
		})
	})
}

// drawn checks what the tool has done when it succeeds.
func (t *command) drawn(r flow.Ret, method string) {
	c := t.c
	where := c.P.Where(c.Fn(t.pkg, "main").Pos())
	var graph, query *flow.Term
	outs := 0
	for _, e := range allEvents(r.St) {
		call := strings.TrimPrefix(e.Name, "done ")
		switch {
		case strings.HasSuffix(call, "aqlgraph.QueryGraph"):
			graph, query = values(e.Res)[0], e.Args[0]
		case strings.Contains(call, "aqlgraph.Graph).Output"):
			outs++
			c.Need(strings.HasSuffix(call, "."+method), "result", "aqlgraph "+t.what, c.P.Where(e.Pos), "the graph is written by %s", call)
			c.Need(e.Args[0] == graph, "result", "aqlgraph "+t.what+" graph", c.P.Where(e.Pos), "what is written is %s", short(e.Args[0]))
			if len(t.args) > 2 {
				c.Need(e.Args[1] == t.args[2], "result", "aqlgraph "+t.what+" file", c.P.Where(e.Pos), "the graph is written to %s", short(e.Args[1]))
			} else {
				_, ok := e.Args[1].StrVal()
				c.Need(ok, "result", "aqlgraph "+t.what+" file", c.P.Where(e.Pos), "the graph is written to %s", short(e.Args[1]))
			}
		}
	}
	c.Need(outs == 1, "result", "aqlgraph "+t.what+" count", where, "the graph is written %d times", outs)
	if query == nil {
		c.Bad("result", "aqlgraph "+t.what+" query", where, "no graph is drawn")
		return
	}
	c.Need(query == t.args[1], "result", "aqlgraph "+t.what+" query", where, "the graph is that of %s", short(query))
}
