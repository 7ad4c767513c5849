package checks

import (
	"go/types"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() { All["M09"] = M09 }

// M09 checks that matching writes nothing that is shared.
func M09(c *Ctx) {
	c.Rule("for every kind of node, on every path through matching and reading statistics: every store goes to an object created in the same call; every other effect is an atomic operation on a counter that the statistics report, or a library function that only reads its arguments; no goroutine is started and nothing is sent")
	rule := "effects of matching"
	c.acceptedTests(func(m *matching, what string) {
		c.guard(rule, func() {
			for _, r := range m.compile(rule, what) {
				mt := flow.Ext(r.Val, 0, nil)
				counts := map[*flow.Term]bool{}
				for _, k := range m.reports(rule, what, r.St.Clone(), mt) {
					counts[k.checked], counts[k.matched] = true, true
				}
				old := r.St.Objects()
				before := map[*flow.Event]bool{}
				for _, e := range allEvents(r.St) {
					before[e] = true
				}
				n := 0
				m.in.OnStore = func(st *flow.State, addr, v *flow.Term) {
					root := flow.RootOf(addr)
					n++
					c.Need(created(root, old), rule, what, c.P.Where(m.match.Pos()),
						"matching %s writes %s, which was not created by the call", what, short(addr))
				}
				check := func(fn *ssa.Function, args ...*flow.Term) {
					for _, q := range m.in.CallFn(r.St.Clone(), fn, args...) {
						if q.Panic {
							continue // M08
						}
						for _, e := range allEvents(q.St) {
							if before[e] {
								continue
							}
							c.sharedEvent(rule, what, e, counts, old)
						}
					}
				}
				check(m.match, mt, m.doc)
				check(m.stats, mt)
				m.in.OnStore = nil
			}
			c.sharedReads(rule, what, m)
			c.sharedAppends("appends", m.in)
			c.Used(m.in)
		})
	})
	c.Rule("every append and copy while matching goes to a slice made by the same call, so that it cannot write behind the end of a shared one")
	c.AtLeast(rule, 100)

	c.Rule("finding values writes only objects created in the same call")
	c.either("effects of finding values", func() {
		r := c.resolution()
		m := c.newMatching()
		bytes := types.NewSlice(types.Typ[types.Byte])
		rule := "effects of finding values"
		for _, f := range append([]*ssa.Function{r.walk}, r.entries...) {
			in := c.Interp()
			in.Opaque = func(g *ssa.Function) bool { return g == r.walk && g != f }
			var p *flow.Term
			for _, x := range f.Params {
				if paramKind(x.Type()) == "path" {
					p = flow.Sym("rest of the path", x.Type())
				}
			}
			st := in.NewState()
			st.Assume(flow.Le(flow.Int(1), flow.Len(p)), true)
			old := st.Objects()
			in.OnStore = func(st *flow.State, addr, v *flow.Term) {
				root := flow.RootOf(addr)
				c.Need(created(root, old), rule, prog.FnName(f), c.P.Where(f.Pos()), "writes %s, which was not created by the call", short(addr))
			}
			for _, q := range in.CallFn(st, f, resolverArgs(f, p, flow.Sym("value", bytes), flow.Sym("kind of value", m.vt))...) {
				for _, e := range allEvents(q.St) {
					c.sharedEvent(rule, prog.FnName(f), e, nil, old)
				}
			}
			mm := &matching{c: c, in: in}
			c.sharedReads(rule, prog.FnName(f), mm)
			c.sharedAppends("appends", in)
			c.Used(in)
		}
		c.AtLeast(rule, 1)
	}, func() {
		rule := "effects of finding values"
		c.limitedLookups(func(l *lookup, st *flow.State, rs func() []flow.Ret) {
			what := prog.FnName(l.entry)
			old := st.Objects()
			l.in.OnStore = func(st *flow.State, addr, v *flow.Term) {
				c.Need(created(flow.RootOf(addr), old), rule, what, c.P.Where(l.entry.Pos()), "writes %s, which was not created by the call", short(addr))
			}
			for _, q := range rs() {
				for _, e := range allEvents(q.St) {
					c.sharedEvent(rule, what, e, nil, old)
				}
			}
			c.sharedReads(rule, what, &matching{c: c, in: l.in})
			c.sharedAppends("appends", l.in)
		})
		c.AtLeast(rule, 1)
	})
	c.Assume = append(c.Assume, "library functions that the analysis takes for pure do not write what their arguments refer to and may be called concurrently (regexp, search, jsonparser, time, netip, strconv, strings)")
}

// sharedEvent checks an effect other than a store.
func (c *Ctx) sharedEvent(rule, what string, e *flow.Event, counts, old map[*flow.Term]bool) {
	where := c.P.Where(e.Pos)
	switch {
	case strings.HasPrefix(e.Name, "rec ") || e.Name == "outcome" || e.Name == "report":
		c.Ok(rule)
	case strings.HasPrefix(e.Name, "(*go.uber.org/atomic.") || strings.HasPrefix(e.Name, "(*sync/atomic.") || strings.HasPrefix(e.Name, "sync/atomic."):
		root := flow.RootOf(e.Args[0])
		own := created(root, old)
		c.Need(own || counts[e.Args[0]], rule, what+" "+e.Name, where, "matching %s changes %s, which is no counter of the statistics", what, short(e.Args[0]))
	case e.Name == "go" || strings.HasPrefix(e.Name, "go "):
		c.Bad(rule, what, where, "matching %s starts a goroutine: %s", what, e.Name)
	case e.Name == "send" || e.Name == "receive" || e.Name == "select":
		c.Bad(rule, what, where, "matching %s uses a channel: %s", what, e.Name)
	default:
		// a method of an object created by the call, or nothing shared passed
		shared := ""
		for _, a := range e.Args {
			a.Mentions(func(x *flow.Term) bool {
				switch {
				case x.Op == "obj" && !created(x, old), x.Op == "glob":
					shared = short(x)
				case x.Op == "sym" && x.Typ != nil && refers(x.Typ):
					shared = short(x)
				}
				return shared != ""
			})
		}
		c.Need(shared == "", rule, what+" "+e.Name, where, "matching %s calls %s with %s, which is shared", what, e.Name, shared)
	}
}

// created tells whether an object was created by the call.
func created(root *flow.Term, old map[*flow.Term]bool) bool {
	if root.Op == "&map" && len(root.Args) == 1 {
		root = root.Args[0]
	}
	return root.Op == "obj" && !root.In(old)
}

// refers tells whether values of a type refer to memory.
func refers(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// sharedReads checks that package variables read while matching never change.
func (c *Ctx) sharedReads(rule, what string, m *matching) {
	writes := c.globalWrites()
	for fn := range m.in.Funcs {
		if !c.P.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !prog.InModule(g.Pkg.Pkg.Path()) {
						continue
					}
					w := writes[g]
					c.Need(w == "", rule, prog.FnName(fn)+" "+g.Name(), c.P.Where(i.Pos()), "%s uses the variable %s, which is changed by %s", prog.FnName(fn), g.Name(), w)
				}
			}
		}
	}
}

// globalWrites returns the package variables that are written, or whose address
// is used, after initialisation, with the function that does.
func (c *Ctx) globalWrites() map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for _, fn := range c.P.Funcs {
		if fn.Name() == "init" && fn.Parent() == nil || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g, ok := rootGlobal(x.Addr); ok {
						out[g] = prog.FnName(fn)
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := rootGlobal(u.X); ok {
							out[g] = prog.FnName(fn)
						}
					}
				}
			}
		}
	}
	return out
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil, false
		}
	}
}

// sharedAppends checks that appends only extend slices made by the call.
func (c *Ctx) sharedAppends(rule string, in *flow.Interp) {
	o := &owned{c: c, funcs: in.Funcs, seen: map[ssa.Value]bool{}}
	for fn := range in.Funcs {
		if !c.P.InRepo(fn) || !inPkg(fn, "jsonmatcher") || c.compileOnly(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				name, into := appends(x)
				if into == nil {
					continue
				}
				k := "append " + c.P.Where(i.Pos())
				if c.seen[k] {
					continue
				}
				c.seen[k] = true
				o.seen = map[ssa.Value]bool{}
				c.Need(o.fresh(into), rule, prog.FnName(fn), c.P.Where(i.Pos()), "%s extends a slice that was not made by the call", name)
			}
		}
	}
}

// appends returns the slice that a call extends or fills, nil if there is none.
func appends(x *ssa.Call) (string, ssa.Value) {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" || bi.Name() == "copy" {
			return bi.Name(), x.Call.Args[0]
		}
		return "", nil
	}
	f := x.Call.StaticCallee()
	if f == nil || f.Pkg == nil || prog.InModule(f.Pkg.Pkg.Path()) || !strings.HasPrefix(f.Name(), "Append") {
		return "", nil
	}
	for _, a := range x.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			return f.Name(), a
		}
	}
	return "", nil
}

// compileOnly tells whether a function is not used while matching.
func (c *Ctx) compileOnly(fn *ssa.Function) bool {
	if c.matchOnly == nil {
		mt := c.Type("jsonmatcher", "Matcher")
		c.matchOnly = map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if c.matchOnly[f] {
				return
			}
			c.matchOnly[f] = true
			for _, x := range c.calls()[f] {
				if x.fn != nil {
					visit(x.fn)
					continue
				}
				name := x.name[strings.LastIndex(x.name, ".")+1:]
				for _, g := range c.P.Funcs {
					if g.Signature.Recv() != nil && g.Name() == name {
						visit(g)
					}
				}
			}
		}
		visit(c.Method(mt, "Match"))
		visit(c.Method(mt, "Stats"))
	}
	return !c.matchOnly[fn]
}

// owned follows slices to where they were made.
type owned struct {
	c     *Ctx
	funcs map[*ssa.Function]bool
	seen  map[ssa.Value]bool
}

func (o *owned) fresh(v ssa.Value) bool {
	if o.seen[v] {
		return true
	}
	o.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if x.Max != nil {
			return true
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			return o.local(a)
		}
		return o.fresh(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !o.fresh(e) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return o.fresh(x.X)
	case *ssa.Convert:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.Extract:
		return o.result(x.Tuple, x.Index)
	case *ssa.Call:
		return o.result(x, 0)
	case *ssa.UnOp:
		return o.cell(x.X)
	case *ssa.Parameter:
		return o.param(x)
	}
	return false
}

func (o *owned) local(a *ssa.Alloc) bool { return true }

// result looks at what a call returns.
func (o *owned) result(v ssa.Value, i int) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() == "append" && o.fresh(call.Call.Args[0])
	}
	fn := call.Call.StaticCallee()
	if fn == nil {
		return false
	}
	if !o.c.P.InRepo(fn) {
		return !strings.HasPrefix(fn.String(), jp)
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !o.fresh(r.Results[i]) {
			return false
		}
	}
	return true
}

// cell looks at everything stored in a variable or a field of a local object.
func (o *owned) cell(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return o.stores(a, -1)
	case *ssa.FreeVar:
		if b := o.binding(a); b != nil {
			return o.cell(b)
		}
	case *ssa.Parameter:
		if o.seen[a] {
			return true
		}
		o.seen[a] = true
		ok, n := true, 0
		o.args(a, func(arg ssa.Value) {
			n++
			ok = ok && o.cell(arg)
		})
		return ok && n > 0
	case *ssa.UnOp:
		// a pointer in a variable
		var v ssa.Value = a.X
		if f, ok := v.(*ssa.FreeVar); ok {
			v = o.binding(f)
		}
		l, ok := v.(*ssa.Alloc)
		if !ok || o.seen[l] {
			return ok
		}
		o.seen[l] = true
		n := 0
		for _, r := range *l.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != l {
					return false
				}
				n++
				if !o.cell(r.Val) {
					return false
				}
			case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
			default:
				return false
			}
		}
		return n > 0
	case *ssa.FieldAddr:
		switch base := a.X.(type) {
		case *ssa.Alloc:
			return o.stores(base, a.Field)
		case *ssa.Parameter, *ssa.UnOp, *ssa.FreeVar:
			return o.object(base, a.Field)
		}
	}
	return false
}

// object looks at a field of an object reached through a pointer.
func (o *owned) object(v ssa.Value, field int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return o.stores(x, field)
	case *ssa.FreeVar:
		if b := o.binding(x); b != nil {
			return o.object(b, field)
		}
	case *ssa.Parameter:
		ok := true
		n := 0
		o.args(x, func(a ssa.Value) {
			n++
			ok = ok && o.object(a, field)
		})
		return ok && n > 0
	}
	return false
}

func (o *owned) stores(a *ssa.Alloc, field int) bool {
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					if field < 0 {
						ok = ok && o.fresh(r.Val)
					} else {
						ok = ok && o.whole(r.Val, field)
					}
				}
			case *ssa.FieldAddr:
				if r.Field == field && r.Referrers() != nil {
					for _, s := range *r.Referrers() {
						if s, isS := s.(*ssa.Store); isS && s.Addr == r {
							ok = ok && o.fresh(s.Val)
						}
					}
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for k, b := range r.Bindings {
					if b == v {
						visit(fn.FreeVars[k])
					}
				}
			}
		}
	}
	visit(a)
	return ok
}

// whole looks at a field of a struct that is stored as a whole.
func (o *owned) whole(v ssa.Value, field int) bool {
	if l, ok := v.(*ssa.UnOp); ok {
		if a, ok := l.X.(*ssa.Alloc); ok {
			return o.stores(a, field)
		}
	}
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (o *owned) binding(f *ssa.FreeVar) ssa.Value {
	fn := f.Parent()
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn {
				for k, v := range fn.FreeVars {
					if v == f {
						return m.Bindings[k]
					}
				}
			}
		}
	}
	return nil
}

// args calls f for every argument passed for a parameter.
func (o *owned) args(p *ssa.Parameter, f func(ssa.Value)) {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	for g := range o.funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok && x.Common().StaticCallee() == fn && idx < len(x.Common().Args) {
					f(x.Common().Args[idx])
				}
			}
		}
	}
}

func (o *owned) param(p *ssa.Parameter) bool {
	ok := true
	n := 0
	o.args(p, func(a ssa.Value) {
		n++
		ok = ok && o.fresh(a)
	})
	return ok && n > 0
}
