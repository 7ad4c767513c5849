package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() { All["W01"] = W01 }

const srv = "wasm/aqlparse/server"

// serving is the server after it has started.
type serving struct {
	c        *Ctx
	in       *flow.Interp
	handlers []handler
	stores   []*flow.Term // file systems requests are served from
	request  []*flow.Term
	started  []*flow.State
	n        int
}

type handler struct {
	st    *flow.State
	value *flow.Term
	where string
}

// openers are functions that open a file and where they take its name.
var openers = map[string]int{
	"os.Open": 0, "os.OpenFile": 0, "os.Create": 0, "os.ReadFile": 0, "io/ioutil.ReadFile": 0, "os.WriteFile": 0,
	"net/http.ServeFile": 2, "os.ReadDir": 0, "os.Remove": 0,
}

// handles are those whose result has to be closed.
var fileHandles = []string{"os.Open", "os.OpenFile", "os.Create"}

func (s *serving) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	n := call.Name
	if call.Fn == nil {
		switch {
		case strings.HasSuffix(n, "http.Handler).ServeHTTP"), strings.HasSuffix(n, "http.ResponseWriter).WriteHeader"):
			return []flow.Ret{{St: st}}, true
		case strings.HasSuffix(n, ").Close"):
			st.Emit(&flow.Event{Name: "closed", Args: []*flow.Term{call.Args[0]}, Pos: call.Pos})
			return []flow.Ret{{St: st, Val: flow.Nil}}, true
		}
		return nil, false
	}
	if inPkg(call.Fn, srv) || strings.HasSuffix(n, "$bound") {
		return nil, false
	}
	res := call.Sig.Results()
	one := func(v *flow.Term) ([]flow.Ret, bool) { return []flow.Ret{{St: st, Val: v}}, true }
	emit := func(name string, v *flow.Term, args ...*flow.Term) {
		st.Emit(&flow.Event{Name: name, Args: args, Res: v, Pos: call.Pos})
	}
	term := func(t types.Type) *flow.Term { return flow.App(n, t, call.Args...) }
	switch {
	case n == "net/http.HandleFunc" || n == "net/http.Handle":
		s.handlers = append(s.handlers, handler{st, call.Args[1], s.c.P.Where(call.Pos)})
		return one(nil)
	case strings.HasSuffix(n, "http.ServeMux).HandleFunc") || strings.HasSuffix(n, "http.ServeMux).Handle"):
		s.handlers = append(s.handlers, handler{st, call.Args[2], s.c.P.Where(call.Pos)})
		return one(nil)
	case n == "net/http.FS":
		s.stores = append(s.stores, call.Args[0])
		return one(term(res.At(0).Type()))
	case n == "net/http.FileServer" || n == "net/http.FileServerFS" || n == "net/http.StripPrefix":
		if n != "net/http.StripPrefix" {
			s.served(call)
		}
		return one(term(res.At(0).Type()))
	case strings.HasPrefix(n, "net/http.ListenAndServe") || strings.HasSuffix(n, "http.Server).ListenAndServe"):
		s.started = append(s.started, st.Clone())
		return one(flow.Sym("failure of the server", errorT))
	case strings.HasPrefix(n, "log.") && !strings.HasPrefix(n, "log.Fatal") && !strings.HasPrefix(n, "log.Panic"):
		if res.Len() == 0 {
			return one(nil)
		}
		return nil, false
	case strings.HasPrefix(n, "path/filepath.") || strings.HasPrefix(n, "path."):
		switch call.Fn.Name() {
		case "Join":
			return one(flow.App(n, stringT, in.ListOf(st, call.Args[0])))
		case "Base", "Clean", "Dir":
			return one(term(stringT))
		}
	case n == "(*os.File).Close" || n == "(io.Closer).Close":
		emit("closed", nil, call.Args[0])
		return one(flow.Nil)
	}
	if i, ok := openers[n]; ok {
		s.n++
		emit("opened "+n, nil, call.Args[i])
	}
	fallible := res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errorT)
	if !fallible || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "errors.") {
		if n == "net/http.ServeContent" || n == "net/http.ServeFile" || n == "net/http.Error" || n == "net/http.NotFound" || n == "net/http.Redirect" {
			return one(nil)
		}
		return nil, false
	}
	var out []flow.Ret
	if !hasFailed(st) {
		bad := st.Clone()
		err := flow.Sym("failure of "+n, errorT)
		bad.Emit(&flow.Event{Name: failed, Args: []*flow.Term{flow.Str(n)}, Res: err, Pos: call.Pos})
		var vs []*flow.Term
		for i := 0; i < res.Len()-1; i++ {
			vs = append(vs, flow.Zero(res.At(i).Type()))
		}
		v := err
		if len(vs) > 0 {
			v = flow.Tuple(append(vs, err)...)
		}
		out = append(out, flow.Ret{St: bad, Val: v})
	}
	var vs []*flow.Term
	for i := 0; i < res.Len()-1; i++ {
		t := res.At(i).Type()
		switch {
		case n == "path/filepath.Abs":
			vs = append(vs, term(t))
		default:
			vs = append(vs, flow.Sym(fmt.Sprintf("result %d of %s, call %d", i, n, len(allEvents(st))), t))
		}
	}
	for _, h := range fileHandles {
		if n == h {
			emit("handle", vs[0], call.Args[0])
		}
	}
	v := flow.Nil
	if len(vs) > 0 {
		v = flow.Tuple(append(vs, flow.Nil)...)
	}
	return append(out, flow.Ret{St: st, Val: v}), true
}

// served checks what a file server serves from.
func (s *serving) served(call *flow.Call) {
	c := s.c
	a := call.Args[0]
	if a.Op == "app" && a.Aux == "net/http.FS" {
		c.Ok("file system")
		return
	}
	if call.Fn.Name() == "FileServerFS" {
		s.stores = append(s.stores, a)
		c.Ok("file system")
		return
	}
	if a.Op == "iface" && a.DTyp != nil && s.c.P.SSA.LookupMethod(a.DTyp, nil, "Open") != nil && s.own(a.DTyp) {
		s.stores = append(s.stores, a)
		c.Ok("file system")
		return
	}
	c.Bad("file system", "file server", c.P.Where(call.Pos), "files are served from %s, which opens whatever is requested", short(a))
}

func (s *serving) own(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), srv)
}

func (s *serving) fromRequest(t *flow.Term) bool {
	return t.Mentions(func(x *flow.Term) bool { return has(s.request, x) })
}

// fixedName reports whether a name is that of one file, whatever the request is: a
// constant, possibly in a directory that was given at start-up.
func (s *serving) fixedName(t *flow.Term) bool {
	if s.fromRequest(t) {
		return false
	}
	last := t
	for {
		switch {
		case last.Op == "app" && strings.HasSuffix(last.Aux, ".Join"):
			segs := flow.Segs(last.Args[0])
			if len(segs) == 0 || segs[len(segs)-1].Op != "seg:e" {
				return false
			}
			last = segs[len(segs)-1].Args[0]
			continue
		case last.Op == "app" && (strings.HasSuffix(last.Aux, ".Abs") || strings.HasSuffix(last.Aux, ".Clean")):
			last = last.Args[0]
			continue
		case last.Op == "concat":
			last = last.Args[len(last.Args)-1]
			continue
		}
		break
	}
	k, ok := last.StrVal()
	return ok && strings.Trim(k, "/.") != ""
}

func W01(c *Ctx) {
	c.Rule("file system: the file server serves only from a file system of the program's own")
	c.Rule("names: for every request and every state the server can be in after starting, each file it opens is, by name, one that was registered at start-up, the index page, or the empty name, which no file has; nothing that comes from the request is part of a name, and requests do not change what is registered")
	c.Rule("files: on every path of a handler, also those on which something fails, each file that was opened is closed, unless it is what the file system hands over, which is not closed")
	s := &serving{c: c, in: c.Interp()}
	in := s.in
	in.Unroll = 16
	in.Unwind = true
	in.Hook = s.hook
	in.Uni.NonNil = func(x *flow.Term) bool {
		if x.Op != "sym" || x.Typ == nil {
			return false
		}
		_, ptr := x.Typ.Underlying().(*types.Pointer)
		return ptr || types.Identical(x.Typ, errorT)
	}
	c.guard("names", func() {
		st := in.NewState()
		os := c.P.SSA.ImportedPackage("os")
		if os == nil {
			c.Missing("package os")
		}
		args := flow.List(types.NewSlice(stringT), flow.Elem(flow.Sym("argument 0", stringT)), flow.Elem(flow.Sym("argument 1", stringT)))
		st.Store(in.Global(os.Var("Args")), args)
		in.CallFn(st, c.Fn(srv, "main"))
		started := s.started
		if len(started) == 0 {
			flow.Undecided("the server is never started")
		}
		for _, st := range started {
			s.serve(st)
		}
	})
	c.Used(in)
	c.AtLeast("file system", 1)
	c.AtLeast("names", 3)
	c.AtLeast("files", 3)
}

// serve analyses requests to a server that has started.
func (s *serving) serve(st *flow.State) {
	c, in := s.c, s.in
	seen := map[*flow.Term]bool{}
	for _, h := range s.handlers {
		v := h.value
		if seen[v] {
			continue
		}
		seen[v] = true
		if v.Op == "iface" {
			v = v.Args[0]
		}
		var fn *ssa.Function
		switch {
		case v.Fn != nil:
			fn = v.Fn
		case v.Op == "app" && strings.HasPrefix(v.Aux, "net/http."):
			continue // a file server
		case h.value.Op == "iface" && s.own(h.value.DTyp):
			fn = c.Method(h.value.DTyp, "ServeHTTP")
		default:
			flow.Undecided("a handler is not understood: %s", short(h.value))
		}
		start := st.Clone()
		sig := fn.Signature
		np := sig.Params().Len()
		w := flow.Sym("response", sig.Params().At(np-2).Type())
		r := flow.Sym("request", sig.Params().At(np-1).Type())
		s.request = []*flow.Term{w, r}
		var rs []flow.Ret
		if v.Fn != nil {
			rs = in.CallValue(start, v, []*flow.Term{w, r}, &flow.Call{In: fn})
		} else {
			rs = in.CallFn(start, fn, v, w, r)
		}
		s.ended("the handler", st, rs, false)
	}
	n := 0
	seen = map[*flow.Term]bool{}
	for _, x := range s.stores {
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Op != "iface" || !s.own(x.DTyp) {
			c.Bad("file system", "file server", c.P.Where(c.Fn(srv, "main").Pos()), "files are served from %s, which opens whatever is requested", short(x))
			continue
		}
		fn := c.Method(x.DTyp, "Open")
		name := flow.Sym("requested name", stringT)
		s.request = []*flow.Term{name}
		rs := in.CallFn(st.Clone(), fn, x.Args[0], name)
		s.ended("opening a file", st, rs, true)
		n++
	}
	c.Need(n > 0, "file system", "file server", c.P.Where(c.Fn(srv, "main").Pos()), "no files are served")
}

// registered are the values in the maps and objects of the server when it has
// started.
func (s *serving) registered(st *flow.State) (out []*flow.Term) {
	for _, v := range st.Contents() {
		for v.Op == "mapupd" {
			if !has(out, v.Args[2]) {
				out = append(out, v.Args[2])
			}
			v = v.Args[0]
		}
	}
	return out
}

// ended checks the paths of serving a request.
func (s *serving) ended(what string, before *flow.State, rs []flow.Ret, hands bool) {
	c := s.c
	listed := s.registered(before)
	skip := len(allEvents(before))
	for _, r := range rs {
		open := map[*flow.Term]string{}
		var shut []*flow.Term
		for _, e := range allEvents(r.St)[skip:] {
			where := c.P.Where(e.Pos)
			switch {
			case strings.HasPrefix(e.Name, "opened "):
				name := e.Args[0]
				ok := name == flow.Str("") || has(listed, name) && !s.fromRequest(name) || !hands && s.fixedName(name)
				c.Need(ok, "names", what+" "+strings.TrimPrefix(e.Name, "opened "), where, "the name of the file opened is %s, which is not a registered one", short(name))
			case e.Name == "handle":
				open[e.Res] = where
			case e.Name == "closed":
				shut = append(shut, e.Args[0])
			}
		}
		for _, l := range s.registered(r.St) {
			c.Need(has(listed, l), "names", what+" registers", c.P.Where(r.Pos), "a request registers %s", short(l))
		}
		for f, where := range open {
			handed := hands && !r.Panic && r.Val.Mentions(func(x *flow.Term) bool { return x == f })
			closed := false
			for _, x := range shut {
				if mentions(x, f) {
					closed = true
				}
			}
			c.Need(closed || handed, "files", what, where, "the file opened here stays open on a path that ends %s", ending(c, r))
			c.Need(!closed || !handed, "files", what+" handed over", where, "the file opened here is closed before it is handed over")
		}
	}
}

func ending(c *Ctx, r flow.Ret) string {
	if r.Panic {
		return "with a panic at " + c.P.Where(r.Pos)
	}
	return "normally"
}
