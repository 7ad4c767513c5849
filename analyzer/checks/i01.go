package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["I01"] = I01
	All["I02"] = I02
}

// libraries are the packages a program can import.
var libraries = []string{"parser", "parser/ast", "parser/fmtmsg", "jsonmatcher", "sampler", "aqlgraph"}

// I01 checks that calls on separate objects do not influence each other.
func I01(c *Ctx) {
	c.Rule("references to package variables are followed through assignments, fields, elements, calls and closures in everything that the exported functions use; nothing reached through them is written outside initialisation, unless the variable is only ever used with a lock held")
	rule := "writes to shared memory"
	r := c.newReach(c.libraryFuncs())
	for _, fn := range r.order {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						r.add(g, r.source(g, g.RelString(nil)))
						c.Ok("uses of package variables")
					}
				}
			}
		}
	}
	r.solve()
	locked := map[*source]bool{}
	for _, w := range r.writes() {
		for s := range w.src {
			g := s.v.(*ssa.Global)
			if _, ok := locked[s]; !ok {
				locked[s] = r.lockedGlobal(g)
			}
			c.Need(locked[s] || w.grows && r.full(g), rule, prog.FnName(w.fn)+" "+g.RelString(nil), c.P.Where(w.pos),
				"%s while other calls may use it: %s is reached from the package variable %s", w.what, w.target, g.RelString(nil))
		}
	}
	c.AtLeast("uses of package variables", 20)
	c.stores(rule, r)
	c.AtLeast(rule, 100)

	c.Rule("nothing that the exported functions use reads the time, the environment, random numbers or the local time zone, or changes settings of the process")
	for _, fn := range r.order {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					what := ""
					switch x := (*op).(type) {
					case *ssa.Function:
						what = ambient(x.String())
						if !c.P.InRepo(x) {
							c.Ok("library functions used")
						}
					case *ssa.Global:
						what = ambient(x.RelString(nil))
					}
					if what != "" {
						c.Bad("surroundings", prog.FnName(fn)+" "+(*op).String(), c.P.Where(i.Pos()), "%s uses %s, which %s", prog.FnName(fn), (*op).String(), what)
					}
				}
			}
		}
	}
	c.AtLeast("library functions used", 60)
	c.reached(r)
	c.Assume = append(c.Assume, "library functions other than those listed in the analysis only read the package variables passed to them and may be called concurrently")
}

// I02 checks that reading does not modify.
func I02(c *Ctx) {
	c.Rule("nothing reached through a tree, literal, position, message, document, printer or sampler that is passed to a function which only reads it is written: references are followed through assignments, fields, elements, calls and closures")
	rule := "writes through arguments"
	r := c.newReach(c.libraryFuncs())
	n := 0
	for _, fn := range r.order {
		if inPkg(fn, "internal/grammar") {
			continue
		}
		for i, p := range fn.Params {
			if why := c.readOnly(fn, i, p); why != "" {
				r.add(p, r.source(p, why))
				c.Ok("arguments that are only read")
				n++
			}
		}
	}
	r.solve()
	for _, w := range r.writes() {
		var names []string
		var at []string
		for s := range w.src {
			if _, ok := s.v.(*ssa.Parameter); ok {
				names = append(names, s.name)
				at = append(at, prog.FnName(s.v.Parent()))
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		sort.Strings(at)
		c.Bad(rule, prog.FnName(w.fn)+" "+w.target, c.P.Where(w.pos), "%s: %s is part of %s passed to %s", w.what, w.target, names[0], at[0])
	}
	c.stores(rule, r)
	c.AtLeast("arguments that are only read", 60)
	c.AtLeast(rule, 100)
	c.reached(r)
	c.Assume = append(c.Assume, "library functions other than those listed in the analysis only read what is passed to them", "visitors given by the caller do not modify the tree")
}

// stores counts the instructions that were looked at.
func (c *Ctx) stores(rule string, r *reach) {
	for _, fn := range r.order {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
					c.Ok(rule)
				}
			}
		}
	}
}

// reached lists the functions that were looked at.
func (c *Ctx) reached(r *reach) {
	for _, fn := range r.order {
		if c.P.InRepo(fn) {
			c.Fns[prog.FnName(fn)] = true
		}
	}
}

// readOnly tells what a parameter is that its function must not modify.
func (c *Ctx) readOnly(fn *ssa.Function, i int, p *ssa.Parameter) string {
	if !refers(p.Type()) {
		return ""
	}
	recv := fn.Signature.Recv() != nil && i == 0
	named := func(t types.Type) (string, string) {
		for {
			switch x := t.(type) {
			case *types.Pointer:
				t = x.Elem()
				continue
			case *types.Slice:
				t = x.Elem()
				continue
			case *types.Named:
				if x.Obj().Pkg() != nil && prog.InModule(x.Obj().Pkg().Path()) {
					return strings.TrimPrefix(strings.TrimPrefix(x.Obj().Pkg().Path(), prog.Module), "/"), x.Obj().Name()
				}
			}
			return "", ""
		}
	}
	exported := fn.Object() != nil && fn.Object().Exported()
	switch pkg, name := named(p.Type()); {
	case pkg == "parser/ast" && (exported || !inPkg(fn, "parser/ast")):
		// what is not exported there may help to make new literals
		return "a query tree"
	case exported && pkg == "parser" && (name == "ParserMessage" || name == "Positioned"), exported && pkg == "internal/grammar" && name == "ParseError":
		return "a message"
	case pkg == "parser/fmtmsg" && recv && exported && (name == "Printer" || name == "Formatter"):
		return "a " + strings.ToLower(name)
	case pkg == "parser/fmtmsg" && name == "Message":
		return "a message"
	case pkg == "sampler" && recv && exported && (fn.Name() == "Keys" || fn.Name() == "KeysAtThreshold" || fn.Name() == "Scanned"):
		return "a sampler that is read"
	}
	if s, ok := p.Type().Underlying().(*types.Slice); ok && exported && !recv {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.String) {
			return "the slice " + p.Name()
		}
	}
	return ""
}

// libraryFuncs returns the exported functions and methods of the libraries,
// including those that templates call.
func (c *Ctx) libraryFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, p := range libraries {
		pkg := c.P.Pkg(p)
		if pkg == nil {
			c.Missing("package " + p)
		}
		for _, n := range pkg.Pkg.Scope().Names() {
			o := pkg.Pkg.Scope().Lookup(n)
			switch o := o.(type) {
			case *types.Func:
				if o.Exported() {
					out = append(out, c.P.SSA.FuncValue(o))
				}
			case *types.TypeName:
				for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
					ms := c.P.SSA.MethodSets.MethodSet(t)
					for k := 0; k < ms.Len(); k++ {
						if f := c.P.SSA.MethodValue(ms.At(k)); f != nil && ms.At(k).Obj().Exported() && c.P.InRepo(f) {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		c.Missing("exported functions")
	}
	return out
}

// reach follows references to memory that must not be written.
type reach struct {
	c       *Ctx
	order   []*ssa.Function
	in      map[*ssa.Function]bool
	vals    map[ssa.Value]map[*source]bool
	cells   map[string]map[*source]bool
	results map[*ssa.Function][]map[*source]bool
	sources map[ssa.Value]*source
	bound   map[*ssa.FreeVar][]ssa.Value
	named   map[string][]*ssa.Function // functions used as values, by signature
	initial map[string]bool            // types of the values initialisation puts in interfaces
	changed bool
}

type source struct {
	v    ssa.Value
	name string
}

// write is an instruction that writes protected memory.
type write struct {
	fn     *ssa.Function
	pos    token.Pos
	what   string
	target string
	grows  bool // extends a slice
	src    map[*source]bool
}

func (c *Ctx) newReach(roots []*ssa.Function) *reach {
	r := &reach{c: c, in: map[*ssa.Function]bool{}, vals: map[ssa.Value]map[*source]bool{}, cells: map[string]map[*source]bool{},
		results: map[*ssa.Function][]map[*source]bool{}, sources: map[ssa.Value]*source{}, bound: map[*ssa.FreeVar][]ssa.Value{}, named: map[string][]*ssa.Function{}}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || r.in[fn] || fn.Blocks == nil {
			return
		}
		if !c.P.InRepo(fn) && fn.Synthetic == "" {
			return
		}
		r.in[fn] = true
		r.order = append(r.order, fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok && x.Common().IsInvoke() {
					for _, g := range r.implementations(x.Common()) {
						visit(g)
					}
				}
				if m, ok := i.(*ssa.MakeClosure); ok {
					f := m.Fn.(*ssa.Function)
					for k, v := range f.FreeVars {
						r.bound[v] = append(r.bound[v], m.Bindings[k])
					}
				}
				var callee ssa.Value
				if x, ok := i.(ssa.CallInstruction); ok && !x.Common().IsInvoke() {
					callee = x.Common().Value
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if ssa.Value(f) != callee {
							k := sigKey(f.Signature)
							r.named[k] = append(r.named[k], f)
						}
						visit(f)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	r.initial = c.initialTypes()
	// functions kept in package variables
	for _, p := range c.P.Pkgs {
		if pkg := c.P.SSA.Package(p.Types); pkg != nil && prog.InModule(pkg.Pkg.Path()) && pkg.Pkg.Name() != "main" {
			if f := pkg.Func("init"); f != nil {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						for _, op := range i.Operands(nil) {
							if op == nil || *op == nil {
								continue
							}
							g, _ := (*op).(*ssa.Function)
							if g == nil || !c.P.InRepo(g) && g.Synthetic == "" || strings.HasPrefix(g.Name(), "init") {
								continue
							}
							if x, ok := i.(ssa.CallInstruction); ok && x.Common().StaticCallee() == g {
								continue
							}
							k := sigKey(g.Signature)
							r.named[k] = append(r.named[k], g)
							visit(g)
						}
					}
				}
			}
		}
	}
	return r
}

// initialTypes returns the types of values that initialisation converts to interfaces.
func (c *Ctx) initialTypes() map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.MakeInterface); ok {
					out[types.TypeString(x.X.Type(), nil)] = true
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && c.P.InRepo(f) {
						if x, ok := i.(ssa.CallInstruction); ok && x.Common().StaticCallee() == f || f.Parent() != nil {
							visit(f)
						}
					}
				}
			}
		}
	}
	for _, p := range c.P.Pkgs {
		if pkg := c.P.SSA.Package(p.Types); pkg != nil && prog.InModule(pkg.Pkg.Path()) {
			visit(pkg.Func("init"))
		}
	}
	return out
}

// sigKey describes a signature without the names of its parameters.
func sigKey(s *types.Signature) string {
	var sb strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			sb.WriteString(types.TypeString(t.At(i).Type(), nil) + ",")
		}
		sb.WriteString(";")
	}
	return sb.String()
}

// implementations returns the methods of the module a call may reach.
func (r *reach) implementations(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range r.c.P.Implementers(it) {
		if f := r.c.P.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// callees returns the functions of the module a call may reach and whether it
// may reach others.
func (r *reach) callees(x ssa.CallInstruction) (fns []*ssa.Function, ext string) {
	cc := x.Common()
	if cc.IsInvoke() {
		return r.implementations(cc), "invoke " + cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		if r.in[f] {
			return []*ssa.Function{f}, ""
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		return nil, f.String()
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, ""
	}
	return r.named[sigKey(cc.Signature())], ""
}

func (r *reach) source(v ssa.Value, name string) map[*source]bool {
	s := r.sources[v]
	if s == nil {
		s = &source{v, name}
		r.sources[v] = s
	}
	return map[*source]bool{s: true}
}

func (r *reach) add(v ssa.Value, src map[*source]bool) {
	if len(src) == 0 {
		return
	}
	if _, ok := v.(*ssa.Global); !ok && !holds(v.Type(), nil) {
		return
	}
	m := r.vals[v]
	if m == nil {
		m = map[*source]bool{}
		r.vals[v] = m
	}
	r.merge(m, src)
}

func (r *reach) merge(m, src map[*source]bool) {
	for s := range src {
		if !m[s] {
			m[s] = true
			r.changed = true
		}
	}
}

func (r *reach) addCell(k string, src map[*source]bool) {
	if len(src) == 0 {
		return
	}
	m := r.cells[k]
	if m == nil {
		m = map[*source]bool{}
		r.cells[k] = m
	}
	r.merge(m, src)
}

// holds tells whether values of a type contain references to memory that can be written.
func holds(t types.Type, seen map[types.Type]bool) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time", "net/netip.Addr", "net/netip.Prefix", "time.Duration":
			return false
		}
	}
	if seen[t] {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		s := map[types.Type]bool{t: true}
		for k := range seen {
			s[k] = true
		}
		for i := 0; i < x.NumFields(); i++ {
			if holds(x.Field(i).Type(), s) {
				return true
			}
		}
		return false
	case *types.Array:
		return holds(x.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if holds(x.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// cell names the place an address denotes.
func (r *reach) cell(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("field %d of %s", x.Field, types.TypeString(x.X.Type(), nil))
	case *ssa.IndexAddr:
		return "element of " + types.TypeString(x.X.Type(), nil)
	case *ssa.FreeVar:
		if b := r.bound[x]; len(b) == 1 {
			return r.cell(b[0])
		}
	case *ssa.Alloc:
		if _, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok && !r.escapes(x) {
			return fmt.Sprintf("variable %p", x)
		}
	}
	return "target of " + types.TypeString(addr.Type(), nil)
}

// escapes tells whether the address of a variable is used other than to read,
// write or capture it.
func (r *reach) escapes(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, i := range *v.Referrers() {
		switch x := i.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		default:
			return true
		}
	}
	return false
}

// structCells are the places of the fields of a struct that is stored or loaded
// as a whole.
func structCells(t types.Type) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if holds(s.Field(i).Type(), nil) {
			out = append(out, fmt.Sprintf("field %d of %s", i, types.TypeString(types.NewPointer(t), nil)))
		}
	}
	return out
}

func (r *reach) solve() {
	for r.changed = true; r.changed; {
		r.changed = false
		for _, fn := range r.order {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					r.step(fn, i)
				}
			}
		}
	}
}

func (r *reach) step(fn *ssa.Function, i ssa.Instruction) {
	from := func(v ssa.Value, xs ...ssa.Value) {
		for _, x := range xs {
			if x != nil {
				r.add(v, r.vals[x])
			}
		}
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			from(x, x.X)
			r.add(x, r.cells[r.cell(x.X)])
			for _, k := range structCells(x.Type()) {
				r.add(x, r.cells[k])
			}
		} else if x.Op == token.ARROW {
			from(x, x.X)
			r.add(x, r.cells["sent "+types.TypeString(x.X.Type(), nil)])
		}
	case *ssa.FieldAddr:
		from(x, x.X)
	case *ssa.IndexAddr:
		from(x, x.X)
	case *ssa.Field:
		from(x, x.X)
	case *ssa.Index:
		from(x, x.X)
	case *ssa.Lookup:
		from(x, x.X)
		r.add(x, r.cells["value of "+types.TypeString(x.X.Type(), nil)])
	case *ssa.Slice:
		from(x, x.X)
	case *ssa.SliceToArrayPointer:
		from(x, x.X)
	case *ssa.Phi:
		from(x, x.Edges...)
	case *ssa.ChangeType:
		from(x, x.X)
	case *ssa.Convert:
		if holds(x.X.Type(), nil) {
			from(x, x.X)
		}
	case *ssa.ChangeInterface:
		from(x, x.X)
	case *ssa.MakeInterface:
		from(x, x.X)
	case *ssa.TypeAssert:
		if x.CommaOk && !holds(x.AssertedType, nil) {
			return
		}
		src := r.vals[x.X]
		if _, ok := x.AssertedType.Underlying().(*types.Interface); !ok {
			src = r.held(src, x.AssertedType)
		}
		r.add(x, src)
	case *ssa.Range:
		from(x, x.X)
	case *ssa.Next:
		from(x, x.Iter)
		if rg, ok := x.Iter.(*ssa.Range); ok {
			r.add(x, r.cells["value of "+types.TypeString(rg.X.Type(), nil)])
			r.add(x, r.cells["key of "+types.TypeString(rg.X.Type(), nil)])
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			fns, ext := r.callees(call)
			for _, f := range fns {
				if rs := r.results[f]; x.Index < len(rs) {
					r.add(x, rs[x.Index])
				}
			}
			if ext != "" && len(fns) == 0 {
				r.add(x, r.alias(ext, x.Type(), call.Common()))
			}
			return
		}
		from(x, x.Tuple)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for k, v := range f.FreeVars {
			from(v, x.Bindings[k])
		}
	case *ssa.Store:
		if src := r.vals[x.Val]; len(src) > 0 {
			r.addCell(r.cell(x.Addr), src)
			for _, k := range structCells(x.Val.Type()) {
				r.addCell(k, src)
			}
		}
	case *ssa.MapUpdate:
		t := types.TypeString(x.Map.Type(), nil)
		r.addCell("value of "+t, r.vals[x.Value])
		r.addCell("key of "+t, r.vals[x.Key])
	case *ssa.Send:
		r.addCell("sent "+types.TypeString(x.Chan.Type(), nil), r.vals[x.X])
	case *ssa.Return:
		for len(r.results[fn]) < len(x.Results) {
			r.results[fn] = append(r.results[fn], map[*source]bool{})
		}
		for k, v := range x.Results {
			r.merge(r.results[fn][k], r.vals[v])
		}
	case ssa.CallInstruction:
		cc := x.Common()
		v, _ := i.(*ssa.Call)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if v == nil {
				return
			}
			switch b.Name() {
			case "append":
				from(v, cc.Args[0])
				if len(cc.Args) > 1 {
					// the elements are copied
					src := r.cells["element of "+types.TypeString(cc.Args[1].Type(), nil)]
					if s, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && holds(s.Elem(), nil) {
						k := "element of " + types.TypeString(v.Type(), nil)
						r.addCell(k, src)
						r.addCell(k, r.vals[cc.Args[1]])
					}
					if sl, ok := cc.Args[1].(*ssa.Slice); ok {
						r.addCell("element of "+types.TypeString(v.Type(), nil), r.cells["element of "+types.TypeString(sl.X.Type(), nil)])
					}
				}
			}
			return
		}
		fns, ext := r.callees(x)
		for _, f := range fns {
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			for k, a := range args {
				if k < len(f.Params) {
					src := r.vals[a]
					if k == 0 && cc.IsInvoke() {
						src = r.held(src, f.Params[0].Type())
					}
					r.add(f.Params[k], src)
				}
			}
			if v != nil && len(r.results[f]) == 1 {
				r.add(v, r.results[f][0])
			}
		}
		if v != nil && ext != "" && len(fns) == 0 {
			if _, tuple := v.Type().(*types.Tuple); !tuple {
				r.add(v, r.alias(ext, v.Type(), cc))
			}
		}
	}
}

// held leaves out variables of the module in which no value of a type is put by
// initialisation. Nothing else puts values there, which is what I01 shows.
func (r *reach) held(src map[*source]bool, t types.Type) map[*source]bool {
	out := map[*source]bool{}
	for s := range src {
		if g, ok := s.v.(*ssa.Global); ok && g.Pkg != nil && prog.InModule(g.Pkg.Pkg.Path()) && !r.initial[types.TypeString(t, nil)] {
			continue
		}
		out[s] = true
	}
	return out
}

// alias returns what the result of a library function may refer to.
func (r *reach) alias(name string, t types.Type, cc *ssa.CallCommon) map[*source]bool {
	if strings.Contains(name, ".Clone") || strings.HasPrefix(name, "bytes.To") || strings.HasPrefix(name, "bytes.Repeat") || strings.HasPrefix(name, "bytes.Replace") || strings.HasPrefix(name, "bytes.Join") || strings.HasPrefix(name, "bytes.Map") {
		return nil
	}
	out := map[*source]bool{}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, a := range args {
		if types.Identical(a.Type(), t) || types.Identical(a.Type().Underlying(), t.Underlying()) {
			for s := range r.vals[a] {
				out[s] = true
			}
		}
	}
	// library functions that hand out parts of the document
	if strings.Contains(name, jp) {
		for _, a := range args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok {
				if _, ok := t.Underlying().(*types.Slice); ok {
					for s := range r.vals[a] {
						out[s] = true
					}
				}
			}
		}
	}
	return out
}

// writes returns the instructions that write protected memory.
func (r *reach) writes() []write {
	var out []write
	for _, fn := range r.order {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				out = append(out, r.write(fn, i)...)
			}
		}
	}
	return out
}

func (r *reach) write(fn *ssa.Function, i ssa.Instruction) []write {
	one := func(what string, v ssa.Value, grows bool) []write {
		if len(r.vals[v]) == 0 || r.once(fn) {
			return nil
		}
		return []write{{fn, i.Pos(), prog.FnName(fn) + " " + what, described(v), grows, r.vals[v]}}
	}
	switch x := i.(type) {
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.Alloc); ok {
			return nil
		}
		if f, ok := x.Addr.(*ssa.FreeVar); ok {
			for _, b := range r.bound[f] {
				if _, ok := b.(*ssa.Alloc); ok {
					return nil
				}
			}
		}
		if r.private(x.Addr) {
			return nil
		}
		return one("writes", x.Addr, false)
	case *ssa.MapUpdate:
		return one("changes a map", x.Map, false)
	case *ssa.Send:
		return one("sends", x.Chan, false)
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if s, ok := cc.Args[0].(*ssa.Slice); ok && s.Max != nil {
					return nil
				}
				if len(cc.Args) < 2 {
					return nil
				}
				return one("appends", cc.Args[0], true)
			case "copy", "delete", "clear":
				return one("calls "+b.Name(), cc.Args[0], false)
			case "close":
				return one("closes", cc.Args[0], false)
			}
			return nil
		}
		fns, ext := r.callees(x)
		if ext == "" || cc.IsInvoke() && len(fns) > 0 {
			return nil
		}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		var out []write
		for k, a := range args {
			if len(r.vals[a]) == 0 || !refers(a.Type()) || readsArg(ext, k, a, cc) {
				continue
			}
			out = append(out, one("passes it to "+strings.TrimPrefix(ext, "invoke ")+", which may change it", a, false)...)
		}
		return out
	}
	return nil
}

// private tells whether an address is within a local variable.
func (r *reach) private(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			a = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// once tells whether a function only runs under sync.Once.
func (r *reach) once(fn *ssa.Function) bool {
	if fn.Name() == "init" && fn.Synthetic != "" {
		return true
	}
	uses := 0
	for _, g := range r.order {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				x, isCall := i.(ssa.CallInstruction)
				for _, op := range i.Operands(nil) {
					if op == nil || *op != ssa.Value(fn) {
						continue
					}
					uses++
					if isCall && x.Common().StaticCallee() != nil && strings.HasPrefix(x.Common().StaticCallee().String(), "(*sync.Once).Do") {
						continue
					}
					mc, ok := i.(*ssa.MakeClosure)
					if !ok || !onlyOnce(mc) {
						return false
					}
				}
			}
		}
	}
	return uses > 0
}

func onlyOnce(m *ssa.MakeClosure) bool {
	for _, i := range *m.Referrers() {
		x, ok := i.(ssa.CallInstruction)
		if !ok || x.Common().StaticCallee() == nil || !strings.HasPrefix(x.Common().StaticCallee().String(), "(*sync.Once).Do") {
			return false
		}
	}
	return len(*m.Referrers()) > 0
}

// full tells whether a variable always holds a slice without room to grow: it is
// only set in initialisation, to a literal.
func (r *reach) full(g *ssa.Global) bool {
	n := 0
	for _, fn := range r.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						s, ok := x.Val.(*ssa.Slice)
						if !ok || x.Addr != ssa.Value(g) || s.Low != nil || s.High != nil || s.Max != nil {
							return false
						}
						if _, ok := s.X.(*ssa.Alloc); !ok {
							return false
						}
						n++
					default:
						return false
					}
				}
			}
		}
	}
	if n == 0 {
		// set in the synthetic initialiser
		for _, p := range []*ssa.Package{g.Pkg} {
			f := p.Func("init")
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(*ssa.Store); ok && x.Addr == ssa.Value(g) {
						s, ok := x.Val.(*ssa.Slice)
						if !ok || s.Low != nil || s.High != nil || s.Max != nil {
							return false
						}
						if _, ok := s.X.(*ssa.Alloc); !ok {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n == 1
}

// lockedGlobal tells whether a variable is only used with a lock held.
func (r *reach) lockedGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !prog.InModule(g.Pkg.Pkg.Path()) {
		return false
	}
	any := false
	for _, fn := range r.order {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					if fa, ok := i.(*ssa.FieldAddr); ok && isMutex(fa.Type()) {
						continue
					}
					if !heldAt(r.c, fn, i, map[*ssa.Function]bool{}) {
						return false
					}
					any = true
				}
			}
		}
	}
	return any
}

// described names a value.
func described(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if s, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return "the field " + s.Field(x.Field).Name() + " of a " + types.TypeString(x.X.Type().Underlying().(*types.Pointer).Elem(), shortPkg)
		}
	case *ssa.IndexAddr:
		return "an element of a " + types.TypeString(x.X.Type(), shortPkg)
	case *ssa.Global:
		return x.RelString(nil)
	}
	return "a " + types.TypeString(v.Type(), shortPkg)
}

func shortPkg(p *types.Package) string { return p.Name() }

// readsArg tells whether a library function only reads an argument, or
// synchronises its use of it.
func readsArg(name string, k int, a ssa.Value, cc *ssa.CallCommon) bool {
	if m, ok := strings.CutPrefix(name, "invoke "); ok {
		if k > 0 {
			return true
		}
		switch m[strings.LastIndex(m, ".")+1:] {
		case "Error", "String", "Unwrap", "Is", "As", "Execute", "Len", "Less", "Kind", "Elem", "Name":
			return true
		}
		return false
	}
	if g, ok := a.(*ssa.UnOp); ok {
		if g, ok := g.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			return true // standard output
		}
	}
	if mi, ok := a.(*ssa.MakeInterface); ok {
		if g, ok := mi.X.(*ssa.UnOp); ok {
			if g, ok := g.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				return true
			}
		}
	}
	if _, ok := a.Type().Underlying().(*types.Signature); ok {
		return true
	}
	method := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(name, "(") {
		if k > 0 {
			// an argument of a method
			switch {
			case strings.HasSuffix(method, "Append") || strings.HasPrefix(method, "Read") || strings.HasPrefix(method, "Decode") || strings.HasPrefix(method, "Expand"):
				return false
			}
			return true
		}
		for _, p := range []string{"(*sync.", "(*sync/atomic.", "(*go.uber.org/atomic.", "(*time.Location)", "(*golang.org/x/text/search.", "(*strings.Replacer)", "(golang.org/x/text", "(*regexp/syntax.", "(*github.com/goccy/go-graphviz"} {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		switch {
		case strings.HasPrefix(name, "(*regexp.Regexp)"):
			return method != "Longest" && method != "UnmarshalText"
		case strings.HasPrefix(name, "(*text/template.Template)"), strings.HasPrefix(name, "(*html/template.Template)"):
			return strings.HasPrefix(method, "Execute") || method == "Name" || method == "Lookup" || method == "DefinedTemplates"
		case strings.HasPrefix(name, "(*"):
			return false
		}
		// a method of a value: nothing to say about slices and maps
		return strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "(net/netip.") || strings.HasPrefix(name, "(reflect.")
	}
	pkg := name[:strings.LastIndex(name, ".")]
	switch pkg {
	case "sort":
		return strings.HasPrefix(method, "Search") || strings.Contains(method, "AreSorted") || strings.Contains(method, "IsSorted") || method == "Find"
	case "slices", "maps", "golang.org/x/exp/slices", "golang.org/x/exp/maps":
		if k > 0 {
			return true
		}
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact", "Copy", "Append"} {
			if strings.HasPrefix(method, p) {
				return false
			}
		}
		return true
	case "encoding/json":
		return !(method == "Unmarshal" && k == 1) && !((method == "Compact" || method == "Indent" || method == "HTMLEscape") && k == 0)
	case "fmt":
		if strings.Contains(method, "scan") || strings.Contains(method, "Scan") {
			return k == 0
		}
		return !((strings.HasPrefix(method, "Fprint") || strings.HasPrefix(method, "Append")) && k == 0)
	case "io":
		return k > 0
	case "strconv", "unicode/utf8":
		return !(strings.HasPrefix(method, "Append") || method == "EncodeRune")
	case "encoding/binary", "math/rand", "reflect", "unsafe", "log":
		return false
	}
	return true
}

// ambient tells what a function or variable of a library depends on besides its
// arguments.
func ambient(name string) string {
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.Sleep", "time.AfterFunc":
		return "depends on the time"
	case "time.Local", "(time.Time).Local", "time.LoadLocation", "github.com/araddon/dateparse.ParseLocal", "github.com/araddon/dateparse.MustParse", "time.Unix", "time.UnixMilli", "time.UnixMicro":
		if strings.HasPrefix(name, "time.Unix") {
			return "" // an instant
		}
		return "depends on the local time zone"
	}
	for _, p := range []string{"math/rand", "crypto/rand", "hash/maphash", "(*math/rand", "(*crypto/rand"} {
		if strings.HasPrefix(name, p) {
			return "is random"
		}
	}
	switch {
	case strings.HasPrefix(name, "os.Getenv"), strings.HasPrefix(name, "os.LookupEnv"), strings.HasPrefix(name, "os.Environ"), name == "os.Getwd", name == "os.Hostname", name == "os.Args", name == "os.Getpid", strings.HasPrefix(name, "os.ExpandEnv"),
		strings.HasPrefix(name, "os/user."), strings.HasPrefix(name, "runtime.Num"), name == "runtime.GOMAXPROCS", name == "runtime.Caller", name == "runtime.ReadMemStats":
		return "depends on the environment"
	case strings.HasPrefix(name, "os.Setenv"), strings.HasPrefix(name, "os.Unsetenv"), name == "os.Chdir", strings.HasPrefix(name, "log.Set"), name == "runtime/debug.SetGCPercent", name == "runtime/debug.SetMaxStack", strings.HasPrefix(name, "flag."), strings.HasPrefix(name, "net/http.Handle"):
		return "changes a setting of the whole process"
	}
	return ""
}
