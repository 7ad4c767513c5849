package checks

import (
	"fmt"
	"go/types"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() { All["M13"] = M13 }

// fieldStats is the analysis of the statistics of a field.
type fieldStats struct {
	c            *Ctx
	in           *flow.Interp
	typ, list    types.Type
	mark, encode *ssa.Function
	add, get     *ssa.Function
	keys         []*flow.Term // of the object that is recorded
	before       *flow.Term
}

// M13 checks the statistics of fields.
func M13(c *Ctx) {
	c.Rule("records: for values of every kind, in an array or not, recorded in new statistics after any number of recordings: nothing panics, the recording is counted once and each value once under the name of its kind; an example is the text of a string, the digits of a number or at most ten keys of an object")
	c.Rule("examples: after any number of examples up to 25, a list gives exactly the latest ten")
	c.Rule("locks: examples are only used while the lock of their list is held, and counters are never copied")
	f := &fieldStats{c: c, in: c.Interp(), typ: c.Type("jsonmatcher", "FieldStats"), list: c.Type("jsonmatcher", "ExampleList")}
	f.in.Unroll = 40
	f.before = flow.Sym("recordings before", types.Typ[types.Int64])
	f.find()
	f.in.Hook = f.hook
	kinds := []string{"String", "Number", "Object", "Array", "Boolean", "Null"}
	rule := "records"
	c.guard(rule, func() {
		for _, inArray := range []bool{false, true} {
			for _, k := range kinds {
				n := 0
				if k == "Object" {
					n = 3
				}
				f.recorded(rule, inArray, n, k)
			}
			for _, n := range []int{0, 1, 10, 11, 13} {
				f.recorded(rule, inArray, n, "Object")
			}
			f.recorded(rule, inArray, 0, "String", "Number")
			f.recorded(rule, inArray, 0, "Null", "String", "Null")
			f.recorded(rule, inArray, 0)
		}
	})
	c.AtLeast(rule, 60)
	rule = "examples"
	c.guard(rule, func() {
		for n := 0; n <= 25; n++ {
			f.examples(rule, n)
		}
	})
	c.AtLeast(rule, 26)
	f.locks("locks")
	c.AtLeast("locks", 4)
	c.Used(f.in)
	c.Assume = append(c.Assume, "jsonparser.ObjectEach visits every member once, in order, and stops at the first error")
}

// find finds the functions by what they take and return.
func (f *fieldStats) find() {
	c := f.c
	pick := func(t types.Type, what string, is func(s *types.Signature) bool) *ssa.Function {
		ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(t))
		var out *ssa.Function
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i).Obj().Type().(*types.Signature); is(s) {
				if out != nil {
					flow.Undecided("several methods of %s %s", t, what)
				}
				out = c.P.SSA.MethodValue(ms.At(i))
			}
		}
		if out == nil {
			c.Missing(types.TypeString(t, nil) + ": a method that " + what)
		}
		return out
	}
	f.mark = pick(f.typ, "records values", func(s *types.Signature) bool {
		return s.Params().Len() > 0 && valueStruct(s.Params().At(0).Type()) != nil
	})
	f.encode = pick(f.typ, "encodes", func(s *types.Signature) bool {
		return s.Params().Len() == 0 && s.Results().Len() == 2 && types.Identical(s.Results().At(1).Type(), errorT)
	})
	f.add = pick(f.list, "adds an example", func(s *types.Signature) bool {
		return s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), stringT) && s.Results().Len() == 0
	})
	f.get = pick(f.list, "gives the examples", func(s *types.Signature) bool {
		return s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), types.NewSlice(stringT))
	})
}

// valueStruct returns the type of the values in a slice of found values.
func valueStruct(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	st, ok := s.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(types.TypeString(st.Field(i).Type(), nil), "jsonparser.ValueType") {
			return st
		}
	}
	return nil
}

func (f *fieldStats) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	switch {
	case call.Fn != nil && call.Fn == f.add:
		st.Emit(&flow.Event{Name: "kept", Args: call.Args[:1], Pos: call.Pos})
		return nil, false
	case strings.HasPrefix(call.Name, "(*go.uber.org/atomic.Int64).") || strings.HasPrefix(call.Name, "(*sync/atomic.Int64)."):
		one := strings.HasSuffix(call.Name, ".Inc") || strings.HasSuffix(call.Name, ".Add") && len(call.Args) == 2 && call.Args[1] == flow.Int(1)
		if !one && !strings.HasSuffix(call.Name, ".Load") {
			return nil, false
		}
		if one {
			st.Emit(&flow.Event{Name: "count", Args: call.Args[:1], Pos: call.Pos})
		}
		n := f.counted(st, call.Args[0])
		return []flow.Ret{{St: st, Val: n}}, true
	case strings.HasSuffix(call.Name, "json.Marshal"):
		st.Emit(&flow.Event{Name: "encoded", Args: call.Args, Pos: call.Pos})
		return []flow.Ret{{St: st, Val: flow.Tuple(flow.Sym("encoding", types.NewSlice(types.Typ[types.Byte])), flow.Nil)}}, true
	case strings.HasSuffix(call.Name, "jsonparser.ParseString"):
		s2 := st.Clone()
		e := flow.Sym("no string", errorT)
		s2.Assume(flow.Eq(e, flow.Nil), false)
		return []flow.Ret{
			{St: st, Val: flow.Tuple(flow.App("unescaped", stringT, in.ListOf(st, call.Args[0])), flow.Nil)},
			{St: s2, Val: flow.Tuple(flow.Str(""), e)},
		}, true
	case strings.HasSuffix(call.Name, "jsonparser.ObjectEach"):
		cb := call.Args[1]
		if cb.Fn == nil {
			flow.Undecided("callback of %s is not a function of the program", call.Name)
		}
		sts := []*flow.State{st}
		var out []flow.Ret
		for _, k := range f.keys {
			args := []*flow.Term{k, flow.Sym("value of "+k.Aux, k.Typ), flow.Sym("type of "+k.Aux, cb.Fn.Signature.Params().At(2).Type()), flow.Sym("offset", types.Typ[types.Int])}
			var next []*flow.State
			for _, st := range sts {
				for _, r := range in.CallValue(st, cb, args, call) {
					if r.Panic {
						out = append(out, r)
						continue
					}
					if s2 := r.St.Clone(); s2.Assume(flow.Eq(r.Val, flow.Nil), false) {
						out = append(out, flow.Ret{St: s2, Val: r.Val})
					}
					if r.St.Assume(flow.Eq(r.Val, flow.Nil), true) {
						next = append(next, r.St)
					}
				}
			}
			sts = next
		}
		for _, st := range sts {
			out = append(out, flow.Ret{St: st, Val: flow.Nil})
		}
		return out, true
	}
	return nil, false
}

// counted is the value of a counter.
func (f *fieldStats) counted(st *flow.State, addr *flow.Term) *flow.Term {
	n := int64(0)
	for _, e := range allEvents(st) {
		if e.Name == "count" && e.Args[0] == addr {
			n++
		}
	}
	if strings.Contains(addr.Aux, "TimesSampled") {
		return flow.Add(f.before, flow.Int(n))
	}
	return flow.Int(n)
}

// recorded records values of the kinds in new statistics and encodes them.
func (f *fieldStats) recorded(rule string, inArray bool, nkeys int, kinds ...string) {
	c, in := f.c, f.in
	what := strings.Join(kinds, " ")
	if what == "" {
		what = "nothing"
	}
	if nkeys > 0 {
		what += fmt.Sprintf(" with %d keys", nkeys)
	}
	if inArray {
		what += " in an array"
	}
	where := c.P.Where(f.mark.Pos())
	bytes := types.NewSlice(types.Typ[types.Byte])
	f.keys = nil
	for i := 0; i < nkeys; i++ {
		f.keys = append(f.keys, flow.Sym(fmt.Sprintf("key %d", i), bytes))
	}
	st := in.NewState()
	st.Assume(flow.Le(flow.Int(0), f.before), true)
	for i, k := range kinds {
		if k == "Number" {
			st.Assume(flow.Lt(flow.Int(0), flow.Len(flow.Sym(fmt.Sprintf("data %d", i), bytes))), true)
		}
	}
	mk := c.Fn("jsonmatcher", "NewFieldStats")
	made := in.CallFn(st, mk, flow.Sym("expected", mk.Params[0].Type()))
	sliceT := f.mark.Signature.Params().At(0).Type()
	vs := valueStruct(sliceT)
	elemT := sliceT.Underlying().(*types.Slice).Elem()
	var segs, datas []*flow.Term
	for i, k := range kinds {
		d := flow.Sym(fmt.Sprintf("data %d", i), bytes)
		datas = append(datas, d)
		v := flow.Zero(elemT)
		tmp := in.NewState()
		obj := tmp.Alloc("value", elemT, v)
		for j := 0; j < vs.NumFields(); j++ {
			switch t := vs.Field(j).Type(); {
			case types.Identical(t, bytes):
				in.SetField(tmp, obj, j, d)
			case strings.HasSuffix(types.TypeString(t, nil), "jsonparser.ValueType"):
				kc, ok := t.(*types.Named).Obj().Pkg().Scope().Lookup(k).(*types.Const)
				if !ok {
					c.Missing("jsonparser." + k)
				}
				in.SetField(tmp, obj, j, flow.Const(kc.Val(), t))
			}
		}
		segs = append(segs, flow.Elem(in.Load(tmp, obj)))
	}
	examples := map[bool]int{}
	for _, r := range made {
		if r.Panic {
			c.Bad(rule, what, c.P.Where(r.Pos), "making statistics can panic: %s", r.Why)
			continue
		}
		obj := r.Val
		args := []*flow.Term{obj, flow.List(sliceT, segs...)}
		ps := f.mark.Signature.Params()
		for i := 1; i < ps.Len(); i++ {
			if b, ok := ps.At(i).Type().(*types.Basic); ok && b.Kind() == types.Bool {
				args = append(args, flow.Bool(inArray))
			} else {
				args = append(args, flow.Sym("argument "+ps.At(i).Name(), ps.At(i).Type()))
			}
		}
		for _, q := range in.CallFn(r.St, f.mark, args...) {
			if q.Panic {
				c.Bad(rule, what, c.P.Where(q.Pos), "recording can panic: %s", q.Why)
				continue
			}
			for _, e := range in.CallFn(q.St, f.encode, obj) {
				if e.Panic {
					c.Bad(rule, what, c.P.Where(e.Pos), "encoding can panic: %s", e.Why)
					continue
				}
				why := f.report(e.St, obj, kinds, datas, inArray, examples)
				c.Need(why == "", rule, what, where, "%s", why)
			}
		}
	}
	if len(kinds) == 1 && (kinds[0] == "String" || kinds[0] == "Number" || kinds[0] == "Object") {
		c.Need(examples[true] > 0, rule, what, where, "no example is ever kept")
	}
}

func plain(t *flow.Term) *flow.Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// report compares what is encoded with what was recorded.
func (f *fieldStats) report(st *flow.State, obj *flow.Term, kinds []string, datas []*flow.Term, inArray bool, examples map[bool]int) string {
	var enc *flow.Term
	kept, given := 0, 0
	for _, e := range allEvents(st) {
		switch e.Name {
		case "encoded":
			enc = plain(e.Args[0])
		case "kept":
			kept++
		}
	}
	if enc == nil {
		return "nothing is encoded"
	}
	out := entries(f.in, st, enc)
	if got := plain(out["times_seen"]); got == nil || st.F.Decide(flow.IEq(got, flow.Add(f.before, flow.Int(1)))) != flow.Yes {
		return fmt.Sprintf("the recording is counted as %s", short(got))
	}
	want := map[string][]int{}
	for i, k := range kinds {
		name := strings.ToLower(k)
		if inArray {
			name += " (in array)"
		}
		want[name] = append(want[name], i)
	}
	enced := map[string]*flow.Term{}
	if m := plain(out["encountered"]); m != nil {
		enced = entries(f.in, st, m)
	}
	if len(enced) != len(want) {
		return fmt.Sprintf("values of %d kinds are reported as %d kinds", len(want), len(enced))
	}
	for name, is := range want {
		m := plain(enced[name])
		if m == nil {
			return "no values are reported as " + name
		}
		em := entries(f.in, st, m)
		if got := plain(em["times_seen"]); got != flow.Int(int64(len(is))) {
			return fmt.Sprintf("%d values of the kind %s are counted as %s", len(is), name, short(got))
		}
		ex := plain(em["examples"])
		if ex == nil {
			return "the examples are not reported"
		}
		es := flow.Segs(f.in.ListOf(st, ex))
		if len(es) > len(is) {
			return fmt.Sprintf("%d values of the kind %s give %d examples", len(is), name, len(es))
		}
		for n, e := range es {
			if e.Op != "seg:e" {
				return "the examples are " + short(ex)
			}
			examples[true]++
			given++
			t := e.Args[0]
			if why := f.example(st, t, kinds[is[n]], datas[is[n]]); why != "" {
				return why
			}
		}
	}
	if given < kept {
		return fmt.Sprintf("%d examples are kept and %d are given", kept, given)
	}
	return ""
}

// example compares an example with the value it was made of.
func (f *fieldStats) example(st *flow.State, t *flow.Term, kind string, data *flow.Term) string {
	if s, ok := t.StrVal(); ok && s == "" {
		return "an example is empty"
	}
	switch kind {
	case "String":
		text := flow.App("unescaped", stringT, data)
		if t == text {
			if st.F.Decide(flow.Lt(flow.Int(0), flow.Len(text))) != flow.Yes && st.F.Decide(flow.Eq(text, flow.Str(""))) != flow.No {
				return "an example can be empty"
			}
			return ""
		}
		if _, ok := t.StrVal(); ok {
			// in place of a text that is empty or cannot be read
			if st.F.Decide(flow.IEq(flow.Len(text), flow.Int(0))) == flow.Yes || st.F.Decide(flow.Eq(text, flow.Str(""))) == flow.Yes || st.F.Decide(flow.Eq(flow.Sym("no string", errorT), flow.Nil)) == flow.No {
				return ""
			}
		}
		return "the example of a string is " + short(t)
	case "Number":
		if t != flow.ToString(data) {
			return "the example of a number is " + short(t)
		}
	case "Object":
		shown, _ := parts(t)
		n := 0
		for _, k := range f.keys {
			if n < len(shown) && shown[n] == flow.App("unescaped", stringT, k) {
				n++
			}
		}
		if n != len(shown) {
			return "the example of an object shows " + shorts(shown)
		}
		if n > 10 {
			return fmt.Sprintf("the example of an object has %d keys", n)
		}
		// keys that cannot be read have a text in their place
		bad := 0
		for i, k := range f.keys {
			if i < 10 && !t.Mentions(func(x *flow.Term) bool { return x == flow.App("unescaped", stringT, k) }) {
				bad++
			}
		}
		if bad > 0 && st.F.Decide(flow.Eq(flow.Sym("no string", errorT), flow.Nil)) != flow.No {
			return fmt.Sprintf("the example of an object with %d keys has only %d of the first 10", len(f.keys), n)
		}
	}
	return ""
}

// examples adds examples to a new list.
func (f *fieldStats) examples(rule string, n int) {
	c, in := f.c, f.in
	what := fmt.Sprintf("%d examples", n)
	st := in.NewState()
	obj := st.Alloc("examples", f.list, flow.Zero(f.list))
	sts := []*flow.State{st}
	var want []*flow.Term
	for i := 0; i < n; i++ {
		x := flow.Sym(fmt.Sprintf("example %d", i), stringT)
		want = append(want, x)
		var next []*flow.State
		for _, st := range sts {
			st.Assume(flow.Eq(x, flow.Str("")), false)
			for _, r := range in.CallFn(st, f.add, obj, x) {
				if r.Panic {
					c.Bad(rule, what, c.P.Where(r.Pos), "adding an example can panic: %s", r.Why)
					continue
				}
				next = append(next, r.St)
			}
		}
		sts = next
	}
	if len(want) > 10 {
		want = want[len(want)-10:]
	}
	for _, st := range sts {
		for _, r := range in.CallFn(st, f.get, obj) {
			if r.Panic {
				c.Bad(rule, what, c.P.Where(r.Pos), "can panic: %s", r.Why)
				continue
			}
			segs := flow.Segs(in.ListOf(r.St, r.Val))
			same := len(segs) == len(want)
			for _, w := range want {
				k := 0
				for _, s := range segs {
					if s.Op == "seg:e" && s.Args[0] == w {
						k++
					}
				}
				same = same && k == 1
			}
			c.Need(same, rule, what, c.P.Where(f.get.Pos()), "the examples are %s, not the latest %d", short(in.ListOf(r.St, r.Val)), len(want))
		}
	}
}

// locks checks uses of the parts of a list of examples, and copies of counters.
func (f *fieldStats) locks(rule string) {
	c := f.c
	shared := func(t types.Type) bool { return containsSync(t, map[types.Type]bool{}) }
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, "jsonmatcher") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "*" && shared(x.Type()) {
						if _, local := x.X.(*ssa.Alloc); local || len(*x.Referrers()) == 0 {
							continue
						}
						c.Bad(rule, fn.String()+" copies", c.P.Where(x.Pos()), "a counter or lock is copied while it can be used by others")
					}
				case *ssa.FieldAddr:
					p, ok := x.X.Type().Underlying().(*types.Pointer)
					if !ok || !types.Identical(p.Elem(), f.list) {
						continue
					}
					if ft := x.Type().Underlying().(*types.Pointer).Elem(); isMutex(ft) {
						continue
					}
					if a, ok := x.X.(*ssa.Alloc); ok && a.Parent() == fn {
						continue // being made
					}
					c.Need(heldAt(c, fn, i, map[*ssa.Function]bool{}), rule, fn.Name()+" "+x.String(), c.P.Where(x.Pos()), "a part of a list of examples is used without its lock")
				}
			}
		}
	}
}

func isMutex(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func containsSync(t types.Type, busy map[types.Type]bool) bool {
	if busy[t] {
		return false
	}
	busy[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "go.uber.org/atomic":
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if containsSync(u.Field(i).Type(), busy) {
				return true
			}
		}
	case *types.Array:
		return containsSync(u.Elem(), busy)
	}
	return false
}

// heldAt tells whether a lock is held at an instruction: it was taken before
// and is released at the end of the function, or every caller holds it.
func heldAt(c *Ctx, fn *ssa.Function, at ssa.Instruction, busy map[*ssa.Function]bool) bool {
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
		return false
	}
	reaches := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() && before(a, b) {
			return true
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			for _, s := range x.Succs {
				if s == b.Block() {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if walk(s) {
						return true
					}
				}
			}
			return false
		}
		return walk(a.Block())
	}
	var locked ssa.Instruction
	var unlocks []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				if callee := call.Call.StaticCallee(); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync" {
					switch callee.Name() {
					case "Lock", "RLock":
						if before(i, at) {
							locked = i
						}
					case "Unlock", "RUnlock":
						unlocks = append(unlocks, i)
					}
				}
			}
		}
	}
	if locked != nil {
		for _, u := range unlocks {
			if reaches(locked, u) && reaches(u, at) && !(before(u, locked) && !reaches(locked, u)) {
				return false
			}
		}
		return true
	}
	if busy[fn] || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	busy[fn] = true
	n := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if call.Common().StaticCallee() == fn {
					n++
					if _, plain := i.(*ssa.Call); !plain || !heldAt(c, g, i, busy) {
						return false
					}
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(fn) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}
