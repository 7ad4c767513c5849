package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ret is one way a call can end.
type Ret struct {
	St    *State
	Val   *Term // a tuple for several results
	Panic bool
	Why   string
	Pos   token.Pos
}

// Call describes a call being analysed.
type Call struct {
	Fn   *ssa.Function // nil for calls through unknown interfaces and functions
	Name string
	Args []*Term // receiver first
	Sig  *types.Signature
	Pos  token.Pos
	In   *ssa.Function
	// ArgTypes are the static types of Args.
	ArgTypes []types.Type
	common   *ssa.CallCommon
}

// Obligation is a place that can panic, and whether it was shown that it cannot.
type Obligation struct {
	Kind   string
	Fn     *ssa.Function
	Pos    token.Pos
	Detail string
	Proven bool
	Times  int
}

// Interp analyses functions.
type Interp struct {
	Prog    *ssa.Program
	Uni     *Universe
	Repo    func(*ssa.Function) bool // functions to enter
	Globals map[*Term]*Term
	GHeap   map[*Term]*Term

	assigned map[*ssa.CallCommon]bool

	// Hook may handle a call. Returning false leaves it to the default.
	Hook func(in *Interp, st *State, c *Call) ([]Ret, bool)
	// Opaque functions are represented by a rec term instead of being entered.
	Opaque func(fn *ssa.Function) bool
	// Pure tells which functions outside the program have no effect.
	Pure func(name string) bool
	// OnPure sees every pure call outside the program.
	OnPure  func(st *State, c *Call, res *Term)
	OnStore func(st *State, addr, v *Term)
	// OnPanic sees every possible panic of a library call.
	Obls map[string]*Obligation

	// Unroll, if set, lets all loops be followed iteration by iteration; a loop
	// that takes more is not decided.
	Unroll int
	// Lemmas makes conditions that follow from what is known facts of their own.
	Lemmas bool
	// Unwind makes deferred calls when a function panics.
	Unwind bool
	// Recurse follows recursive calls instead of leaving their results unknown,
	// for data of limited depth.
	Recurse bool
	// Limits, if set, collects the comparisons with constants.
	Limits map[*ssa.BinOp]*Limit

	Steps     int
	MaxSteps  int
	Calls     int
	Forks     int
	Funcs     map[*ssa.Function]bool
	stack     []*ssa.Function
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	comps     map[string]*comp
	Trace     func(format string, args ...any)
	impls     map[string][]types.Type
	constMeth map[string]bool
	AllTypes  []types.Type // all named types of the program, for implementers
}

type undecided struct{ msg string }

// Undecided aborts the analysis: the property is not decided.
func Undecided(format string, args ...any) { panic(undecided{fmt.Sprintf(format, args...)}) }

// AsUndecided converts a recovered value.
func AsUndecided(r any) (string, bool) {
	u, ok := r.(undecided)
	return u.msg, ok
}

// New returns an interpreter.
func New(prog *ssa.Program, repo func(*ssa.Function) bool) *Interp {
	return &Interp{
		Prog: prog, Repo: repo, MaxSteps: 4_000_000,
		Obls: map[string]*Obligation{}, Funcs: map[*ssa.Function]bool{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		comps: map[string]*comp{}, GHeap: map[*Term]*Term{},
		Pure: DefaultPure,
	}
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []*deferred
	unroll map[*ssa.BasicBlock]int
}

type deferred struct {
	call *Call
	fnv  *Term
	bi   *ssa.Builtin
}

func (fr *frame) fork() *frame {
	return &frame{fn: fr.fn, env: cp(fr.env), defers: append([]*deferred(nil), fr.defers...), unroll: cp(fr.unroll)}
}

type endKind int

const (
	endReturn endKind = iota
	endPanic
	endBack
	endExit
)

type end struct {
	kind endKind
	st   *State
	val  *Term
	fr   *frame
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	why  string
	pos  token.Pos
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// CallFn analyses a call of fn.
func (in *Interp) CallFn(st *State, fn *ssa.Function, args ...*Term) []Ret {
	return in.enter(st, fn, args, nil)
}

func (in *Interp) enter(st *State, fn *ssa.Function, args, bind []*Term) []Ret {
	if len(in.stack) > 60 {
		Undecided("call depth exceeded in %s", fn)
	}
	if fn.Blocks == nil {
		Undecided("no body for %s", fn)
	}
	in.Calls++
	in.Funcs[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	ends := in.run(fr, fn.Blocks[0], 0, st, nil)
	if in.Unwind {
		for i, e := range ends {
			if e.kind == endPanic && e.why != "exit" {
				ends[i].st = in.unwind(e)
			}
		}
	}
	return in.merge(ends)
}

// unwind makes the deferred calls of a function that panics.
func (in *Interp) unwind(e end) *State {
	st := e.st
	for i := len(e.fr.defers) - 1; i >= 0; i-- {
		d := e.fr.defers[i]
		rs := in.dispatch(st, d.call, d.fnv, d.bi, e.fr)
		if len(rs) != 1 || rs[0].Panic {
			Undecided("a deferred call in %s has more than one outcome", e.fr.fn)
		}
		st = rs[0].St
	}
	return st
}

// merge turns path ends into results, joining those that only differ in a fact
// that does not matter.
func (in *Interp) merge(ends []end) []Ret {
	var out []Ret
	seen := map[string]int{}
	for _, e := range ends {
		r := Ret{St: e.st, Val: e.val, Panic: e.kind == endPanic, Why: e.why, Pos: e.pos}
		if r.Panic {
			out = append(out, r)
			continue
		}
		k := obsKey(r) + "|" + e.st.F.key()
		if _, ok := seen[k]; ok {
			continue
		}
		seen[k] = len(out)
		out = append(out, r)
	}
	return joinRets(out)
}

func obsKey(r Ret) string {
	var sb strings.Builder
	if r.Val != nil {
		sb.WriteString(itoa(r.Val.id))
	}
	fmt.Fprintf(&sb, "|%p|", r.St.evs)
	for _, l := range r.St.runs {
		fmt.Fprintf(&sb, "%p.%p,", l.L, l.Exit)
	}
	sb.WriteString("|")
	for _, i := range r.St.insts {
		fmt.Fprintf(&sb, "%d.%p,", i.By.id, i.T)
	}
	sb.WriteString(r.St.key())
	return sb.String()
}

// joinRets merges pairs of results that are equal except for one fact in which
// they are complementary.
func joinRets(rs []Ret) []Ret {
	if len(rs) < 2 || len(rs) > 400 {
		return rs
	}
	for changed := true; changed; {
		changed = false
		byObs := map[string][]int{}
		for i, r := range rs {
			if !r.Panic {
				byObs[obsKey(r)] = append(byObs[obsKey(r)], i)
			}
		}
		drop := map[int]bool{}
		var keys []string
		for k := range byObs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			ix := byObs[k]
			for a := 0; a < len(ix); a++ {
				for b := a + 1; b < len(ix); b++ {
					i, j := ix[a], ix[b]
					if drop[i] || drop[j] {
						continue
					}
					if f := joinFacts(rs[i].St.F, rs[j].St.F); f != nil {
						rs[i].St.F = f
						drop[j] = true
						changed = true
					}
				}
			}
		}
		if changed {
			var out []Ret
			for i, r := range rs {
				if !drop[i] {
					out = append(out, r)
				}
			}
			rs = out
		}
	}
	return rs
}

// joinFacts returns the exact union of two fact sets if it can be expressed.
func joinFacts(a, b *Facts) *Facts {
	ea, eb := a.entries(), b.entries()
	ka, kb := map[string]entry{}, map[string]entry{}
	for _, e := range ea {
		ka[e.key] = e
	}
	for _, e := range eb {
		kb[e.key] = e
	}
	var da, db []entry
	for k, e := range ka {
		if _, ok := kb[k]; !ok {
			da = append(da, e)
		}
	}
	for k, e := range kb {
		if _, ok := ka[k]; !ok {
			db = append(db, e)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) != 1 || len(db) != 1 {
		return nil
	}
	x, y := da[0], db[0]
	if x.t != y.t {
		return nil
	}
	f := a.clone()
	switch {
	case x.kind == "atom" && y.kind == "atom":
		delete(f.atoms, x.t)
		return f
	case x.kind == "eq" && y.kind == "ne" && x.u == y.u && len(b.ne[y.t]) == 1:
		delete(f.eq, x.t)
		return f
	case x.kind == "ne" && y.kind == "eq" && x.u == y.u && len(a.ne[x.t]) == 1:
		delete(f.ne, x.t)
		return f
	case x.kind == "ord" && y.kind == "ord" && x.u == y.u:
		p := pair{x.t, x.u}
		f.ord[p] = a.ord[p] | b.ord[p]
		return f
	}
	return nil
}

func (in *Interp) posOf(i ssa.Instruction, fr *frame) token.Pos {
	if p := i.Pos(); p.IsValid() {
		return p
	}
	return fr.fn.Pos()
}

// oblige records that a condition must hold for an instruction not to panic.
// The path continues on the assumption that it holds.
func (in *Interp) oblige(st *State, kind string, fn *ssa.Function, pos token.Pos, cond *Term, detail string) (ok bool) {
	d := st.F.Decide(cond)
	if d == Maybe && in.ofEvery(st, cond) {
		d = Yes
	}
	key := kind + "|" + fn.String() + "|" + in.Prog.Fset.Position(pos).String()
	o := in.Obls[key]
	if o == nil {
		o = &Obligation{Kind: kind, Fn: fn, Pos: pos, Proven: true}
		in.Obls[key] = o
	}
	o.Times++
	if d != Yes && o.Proven {
		o.Proven = false
		o.Detail = fmt.Sprintf("%s: cannot show %s given %s", detail, cond, st.F)
	}
	if d == No {
		return false
	}
	return st.F.Assume(cond, true)
}

// ofEvery tells whether a condition on an element of a list is known to hold of
// every element of which as much is known as of that one.
func (in *Interp) ofEvery(st *State, cond *Term) bool {
	if len(st.runs) == 0 {
		return false
	}
	var e *Term
	cond.Mentions(func(x *Term) bool {
		if x.Op == "elem" && x.Args[0].Op != "list" {
			e = x
		}
		return e != nil
	})
	if e == nil {
		return false
	}
	return in.Eval(Exists(e.Args[0], e.Typ, func(x *Term) *Formula {
		sub := newSubst(map[*Term]*Term{e: x})
		fs := []*Formula{FNot(T(sub.term(cond)))}
		if d, ok := st.F.dyn[e]; ok {
			if d.is != nil {
				fs = append(fs, T(IsType(x, d.is)))
			}
			for _, n := range d.not {
				fs = append(fs, FNot(T(IsType(x, n))))
			}
		}
		return FAnd(fs...)
	}), st) == No
}

func (in *Interp) eval(fr *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Zero(v.Type())
		}
		return Const(v.Value, v.Type())
	case *ssa.Global:
		return mk("glob", v.String(), v.Type())
	case *ssa.Function:
		t := mk("fn", v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	Undecided("value %s of %s has no abstract value", v.Name(), fr.fn)
	return nil
}

// run executes from instruction i of block b.
func (in *Interp) run(fr *frame, b *ssa.BasicBlock, i int, st *State, ctx *loopCtx) []end {
	for {
		next, s2, ends, done := in.block(fr, b, i, st, ctx)
		if done {
			return ends
		}
		st = s2
		// single successor
		r, nb := in.enterBlock(fr, b, next, st, ctx)
		if nb == nil {
			return r
		}
		b, i = nb, 0
		i = countPhis(b)
	}
}

func countPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, x := range b.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// enterBlock moves along an edge. It returns the block to continue with, or the
// ends if the edge was handled as a whole.
func (in *Interp) enterBlock(fr *frame, from, to *ssa.BasicBlock, st *State, ctx *loopCtx) ([]end, *ssa.BasicBlock) {
	if ctx != nil {
		if to == ctx.header {
			return []end{{kind: endBack, st: st, fr: fr, from: from, to: to}}, nil
		}
		if !ctx.blocks[to] {
			return []end{{kind: endExit, st: st, fr: fr, from: from, to: to}}, nil
		}
	}
	if body := in.loopsOf(fr.fn)[to]; body != nil {
		if in.Unroll > 0 {
			if fr.unroll[to]++; fr.unroll[to] > in.Unroll {
				Undecided("loop in %s takes more than %d iterations", fr.fn, in.Unroll)
			}
		} else if !in.unrollable(fr, from, to, st, body) {
			return in.execLoop(fr, from, to, body, st, ctx), nil
		}
	}
	in.setPhis(fr, from, to)
	return nil, to
}

func (in *Interp) setPhis(fr *frame, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	vals := []*Term{}
	var phis []*ssa.Phi
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.eval(fr, p.Edges[pi]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

// alt is a possible value with the state it belongs to.
type alt struct {
	st *State
	v  *Term
}

// block executes the instructions of b from i. If control leaves to a single
// successor it is returned, otherwise all ends of the paths from here.
func (in *Interp) block(fr *frame, b *ssa.BasicBlock, i int, st *State, ctx *loopCtx) (*ssa.BasicBlock, *State, []end, bool) {
	for ; i < len(b.Instrs); i++ {
		in.Steps++
		if in.Steps > in.MaxSteps {
			Undecided("analysis budget exceeded in %s", fr.fn)
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Jump:
			return b.Succs[0], st, nil, false
		case *ssa.If:
			c := in.eval(fr, x.Cond)
			switch st.F.Decide(c) {
			case Yes:
				in.lemma(st, c, true)
				return b.Succs[0], st, nil, false
			case No:
				in.lemma(st, c, false)
				return b.Succs[1], st, nil, false
			}
			in.Forks++
			var ends []end
			for k, v := range []bool{true, false} {
				s2 := st.Clone()
				if !s2.Assume(c, v) {
					continue
				}
				f2 := fr.fork()
				r, nb := in.enterBlock(f2, b, b.Succs[k], s2, ctx)
				if nb != nil {
					r = in.run(f2, nb, countPhis(nb), s2, ctx)
				}
				ends = append(ends, r...)
			}
			return nil, nil, ends, true
		case *ssa.Return:
			var vals []*Term
			for _, r := range x.Results {
				vals = append(vals, in.eval(fr, r))
			}
			var v *Term
			if len(vals) == 1 {
				v = vals[0]
			} else {
				v = mk("tuple", "", nil, vals...)
			}
			return nil, nil, []end{{kind: endReturn, st: st, val: v, fr: fr}}, true
		case *ssa.Panic:
			return nil, nil, []end{{kind: endPanic, st: st, fr: fr, why: "panic(" + in.eval(fr, x.X).String() + ")", pos: in.posOf(x, fr)}}, true
		}
		alts, panics := in.instr(fr, b.Instrs[i], st)
		val, isVal := b.Instrs[i].(ssa.Value)
		if len(alts) == 1 && len(panics) == 0 {
			st = alts[0].st
			if isVal {
				fr.env[val] = alts[0].v
			}
			continue
		}
		ends := panics
		for k, a := range alts {
			f2 := fr
			if k < len(alts)-1 {
				f2 = fr.fork()
			}
			if isVal {
				f2.env[val] = a.v
			}
			next, s2, es, done := in.block(f2, b, i+1, a.st, ctx)
			if !done {
				r, nb := in.enterBlock(f2, b, next, s2, ctx)
				if nb != nil {
					r = in.run(f2, nb, countPhis(nb), s2, ctx)
				}
				es = r
			}
			ends = append(ends, es...)
		}
		return nil, nil, ends, true
	}
	Undecided("block without end in %s", fr.fn)
	return nil, nil, nil, true
}

func one(st *State, v *Term) ([]alt, []end) { return []alt{{st, v}}, nil }

func (in *Interp) instr(fr *frame, instr ssa.Instruction, st *State) ([]alt, []end) {
	ev := func(v ssa.Value) *Term { return in.eval(fr, v) }
	pos := in.posOf(instr, fr)
	panicEnd := func(why string) ([]alt, []end) {
		return nil, []end{{kind: endPanic, st: st, fr: fr, why: why, pos: pos}}
	}
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		t := ptrElem(x.Type())
		name := fr.fn.String() + "." + x.Name()
		return one(st, st.Alloc(name, t, Zero(t)))
	case *ssa.BinOp:
		return in.binop(fr, st, x, ev(x.X), ev(x.Y))
	case *ssa.UnOp:
		v := ev(x.X)
		switch x.Op {
		case token.MUL:
			if r := in.nilCheck(st, fr, v, pos, "load"); !r {
				return panicEnd("nil dereference")
			}
			as := in.loadAlts(st, v)
			for _, a := range as {
				learn(a.st, a.v)
			}
			return as, nil
		case token.NOT:
			return one(st, Not(v))
		case token.SUB:
			if isInt(x.Type()) {
				return one(st, linComb(v, -1, nil, 0))
			}
			if v.Op == "const" {
				return one(st, Const(constant.UnaryOp(token.SUB, v.Val, 0), x.Type()))
			}
			return one(st, App("neg", x.Type(), v))
		case token.XOR:
			return one(st, App("compl", x.Type(), v))
		case token.ARROW:
			st.Emit(&Event{Name: "receive", Args: []*Term{v}, Pos: pos})
			return one(st, newSym("received", x.Type()))
		}
	case *ssa.ChangeType:
		return one(st, ev(x.X))
	case *ssa.ChangeInterface:
		return one(st, ev(x.X))
	case *ssa.Convert:
		return one(st, in.convert(st, ev(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return one(st, in.convert(st, ev(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return one(st, MakeIface(ev(x.X), x.X.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ev(b))
		}
		t := mk("clos", fn.String(), fn.Type(), bs...)
		t.Fn = fn
		return one(st, t)
	case *ssa.MakeMap:
		return one(st, in.newMap(st, fr.fn.String()+"."+x.Name(), x.Type()))
	case *ssa.MakeChan:
		return one(st, newSym("chan", x.Type()))
	case *ssa.MakeSlice:
		n := ev(x.Len)
		et := elemType(x.Type())
		if !in.oblige(st, "makeslice", fr.fn, pos, Le(Int(0), n), "make with negative length") {
			return panicEnd("make with negative length")
		}
		if n == Int(0) {
			return one(st, mk("list", "", x.Type()))
		}
		var content *Term
		at := types.Type(types.NewArray(et, 1<<30))
		if k, ok := n.IntVal(); ok && k <= 256 {
			at = types.NewArray(et, k)
			content = Zero(at)
		} else {
			content = mk("zarr", typeKey(at), at, n)
		}
		o := st.Alloc(fr.fn.String()+"."+x.Name(), at, content)
		return one(st, mk("sref", "", x.Type(), o, Int(0), n))
	case *ssa.Slice:
		return in.sliceOp(fr, st, x, pos)
	case *ssa.SliceToArrayPointer:
		return one(st, App("slice2arr", x.Type(), in.ListOf(st, ev(x.X))))
	case *ssa.FieldAddr:
		base := ev(x.X)
		if r := in.nilCheck(st, fr, base, pos, "field"); !r {
			return panicEnd("nil dereference")
		}
		return one(st, fieldAddr(base, x.Field, x.Type(), x.X.Type()))
	case *ssa.Field:
		return one(st, Field(ev(x.X), x.Field, x.X.Type()))
	case *ssa.IndexAddr:
		base, i := ev(x.X), ev(x.Index)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n, _ := arrayLen(p.Elem())
			if !in.oblige(st, "index", fr.fn, pos, and(Le(Int(0), i), Lt(i, Int(n))), "array index") {
				return panicEnd("index out of range")
			}
			return one(st, mk("&idx", "", x.Type(), base, i))
		}
		if !in.oblige(st, "index", fr.fn, pos, and(Le(Int(0), i), Lt(i, Len(base))), "index "+i.String()+" of "+base.String()) {
			return panicEnd("index out of range")
		}
		if base.Op == "sref" && base.Args[1] == Int(0) {
			if c := in.load(st, base.Args[0]); c.Op == "list" {
				base = c
			}
		}
		if base.Op == "sref" {
			return one(st, mk("&idx", "", x.Type(), base.Args[0], Add(base.Args[1], i)))
		}
		return one(st, mk("&elem", "", x.Type(), base, i))
	case *ssa.Index:
		base, i := ev(x.X), ev(x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if !in.oblige(st, "index", fr.fn, pos, and(Le(Int(0), i), Lt(i, Len(base))), "string index") {
				return panicEnd("index out of range")
			}
			return one(st, stringAt(base, i))
		}
		n, _ := arrayLenOf(x.X.Type())
		if n >= 0 {
			in.oblige(st, "index", fr.fn, pos, and(Le(Int(0), i), Lt(i, Int(n))), "array index")
		}
		return one(st, index(base, i, x.X.Type()))
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			base, i := ev(x.X), ev(x.Index)
			if !in.oblige(st, "index", fr.fn, pos, and(Le(Int(0), i), Lt(i, Len(base))), "string index") {
				return panicEnd("index out of range")
			}
			return one(st, stringAt(base, i))
		}
		return in.mapLookup(st, ev(x.X), ev(x.Index), x), nil
	case *ssa.MapUpdate:
		m := ev(x.Map)
		if st.F.Known(m).Op == "nil" {
			return panicEnd("assignment to entry in nil map")
		}
		in.mapUpdate(st, m, ev(x.Key), ev(x.Value))
		return one(st, nil)
	case *ssa.TypeAssert:
		return in.typeAssert(fr, st, x, ev(x.X), pos)
	case *ssa.Extract:
		return one(st, Ext(ev(x.Tuple), x.Index, x.Type()))
	case *ssa.Store:
		a := ev(x.Addr)
		if r := in.nilCheck(st, fr, a, pos, "store"); !r {
			return panicEnd("nil dereference")
		}
		in.store(st, a, ev(x.Val))
		return one(st, nil)
	case *ssa.Range:
		t := mk("range", "", nil, in.rangeTarget(st, ev(x.X)))
		t.Typ = x.X.Type()
		if _, ok := t.Args[0].StrVal(); ok && in.Unroll > 0 {
			t = st.Alloc("range", types.Typ[types.Int], Int(0))
			t = mk("range", "", x.X.Type(), in.rangeTarget(st, ev(x.X)), t)
		}
		if rs, texts, ok := chars(t.Args[0]); ok && isString(t.Typ) && in.Unroll > 0 && t.Args[0].Op != "const" {
			at := Int(0)
			var es []*Term
			for i, r := range rs {
				es = append(es, tuple(at, r))
				at = Add(at, Len(texts[i]))
			}
			pos := st.Alloc("range", types.Typ[types.Int], Int(0))
			return one(st, mk("range", "", x.X.Type(), mk("entries", "", nil, es...), pos))
		}
		if isMap(t.Typ) && in.Unroll > 0 {
			if alts, ok := in.knownRange(st, t); ok {
				return alts, nil
			}
		}
		return one(st, t)
	case *ssa.Next:
		return in.next(st, x, ev(x.Iter)), nil
	case *ssa.Call:
		rets := in.callCommon(fr, st, x.Common(), pos)
		var alts []alt
		var ends []end
		for _, r := range rets {
			if r.Panic {
				ends = append(ends, end{kind: endPanic, st: r.St, fr: fr, why: r.Why, pos: r.Pos})
			} else {
				alts = append(alts, alt{r.St, r.Val})
			}
		}
		return alts, ends
	case *ssa.Defer:
		c, fv, bi := in.prepCall(fr, st, x.Common(), pos)
		fr.defers = append(fr.defers, &deferred{c, fv, bi})
		return one(st, nil)
	case *ssa.RunDefers:
		sts := []*State{st}
		var ends []end
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			var nsts []*State
			for _, s := range sts {
				for _, r := range in.dispatch(s, d.call, d.fnv, d.bi, fr) {
					if r.Panic {
						ends = append(ends, end{kind: endPanic, st: r.St, fr: fr, why: r.Why, pos: r.Pos})
					} else {
						nsts = append(nsts, r.St)
					}
				}
			}
			sts = nsts
		}
		var alts []alt
		for _, s := range sts {
			alts = append(alts, alt{s, nil})
		}
		return alts, ends
	case *ssa.Go:
		c, _, _ := in.prepCall(fr, st, x.Common(), pos)
		st.Emit(&Event{Name: "go " + c.Name, Args: c.Args, Pos: pos})
		return one(st, nil)
	case *ssa.Send:
		st.Emit(&Event{Name: "send", Args: []*Term{ev(x.Chan), ev(x.X)}, Pos: pos})
		return one(st, nil)
	case *ssa.Select:
		st.Emit(&Event{Name: "select", Pos: pos})
		return one(st, newSym("selected", x.Type()))
	}
	Undecided("unsupported instruction %T in %s", instr, fr.fn)
	return nil, nil
}

func and(a, b *Term) *Term {
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False || b == False {
		return False
	}
	return mk("and", "", types.Typ[types.Bool], a, b)
}

// And and Or combine conditions for use in properties.
func And(cs ...*Term) *Term {
	r := True
	for _, c := range cs {
		r = and(r, c)
	}
	return r
}

func Or(cs ...*Term) *Term {
	var out []*Term
	for _, c := range cs {
		if c == True {
			return True
		}
		if c != False {
			out = append(out, c)
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", types.Typ[types.Bool], out...)
}

// learn adds what is known about results of library functions.
func learn(st *State, v *Term) {
	if v == nil || v.Op != "elem" || v.Args[0].Op != "elem" {
		return
	}
	if c := v.Args[0].Args[0]; isFindIndex(c) {
		// the bounds of a match
		lo, hi := mk("elem", "", v.Typ, v.Args[0], Int(0)), mk("elem", "", v.Typ, v.Args[0], Int(1))
		st.Assume(Le(Int(0), lo), true)
		st.Assume(Le(lo, hi), true)
		st.Assume(Le(hi, Len(c.Args[1])), true)
	}
}

func isFindIndex(c *Term) bool {
	return c.Op == "app" && (c.Aux == "(*regexp.Regexp).FindAllStringIndex" || c.Aux == "(*regexp.Regexp).FindAllIndex")
}

func stringAt(s, i *Term) *Term {
	if v, ok := s.StrVal(); ok {
		if n, ok := i.IntVal(); ok && n >= 0 && n < int64(len(v)) {
			return Const(constant.MakeInt64(int64(v[n])), types.Typ[types.Byte])
		}
	}
	if s.Op == "app" && s.Aux == "tostring" {
		s = s.Args[0]
	}
	if k, ok := i.IntVal(); ok && (s.Op == "concat" || s.Op == "app" && s.Aux == "asciichar") {
		if _, texts, ok := chars(s); ok {
			for _, t := range texts {
				if k == 0 && t.Op == "app" && t.Aux == "asciichar" {
					return t.Args[0]
				}
				n, ok := Len(t).IntVal()
				if k == 0 || ok && k < n {
					return stringAt(t, Int(k))
				}
				if !ok {
					break
				}
				k -= n
			}
		}
	}
	return mk("elem", "", types.Typ[types.Byte], s, i)
}

// itemOf is an element of a list, or of the bytes of a text.
func itemOf(list, i *Term) *Term {
	if list.Op == "app" && list.Aux == "tobytes" {
		return stringAt(list.Args[0], i)
	}
	return mk("elem", "", elemType(list.Typ), list, i)
}

func fieldAddr(base *Term, i int, typ, baseTyp types.Type) *Term {
	st := structOf(ptrElem(baseTyp))
	return mk("&fld", itoa(i)+":"+st.Field(i).Name(), typ, base)
}

// nilCheck refuses addresses that are nil, and requires results of calls that
// can fail to be used only after the failure was excluded.
func (in *Interp) nilCheck(st *State, fr *frame, p *Term, pos token.Pos, what string) bool {
	k := st.F.Known(p)
	if k.Op == "nil" {
		return false
	}
	if p.Op == "ext" && p.Args[0].Typ != nil {
		if tup, ok := p.Args[0].Typ.(*types.Tuple); ok && tup.Len() > 1 {
			last := tup.At(tup.Len() - 1).Type()
			if types.Identical(last, types.Universe.Lookup("error").Type()) {
				e := Ext(p.Args[0], tup.Len()-1, last)
				if st.F.Decide(Eq(e, Nil)) != Yes && st.F.Decide(Eq(p, Nil)) != No {
					in.oblige(st, "nil", fr.fn, pos, Eq(e, Nil), "result used before its error was checked")
				}
			}
		}
	}
	return true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) binop(fr *frame, st *State, x *ssa.BinOp, a, b *Term) ([]alt, []end) {
	in.noteLimit(fr, x, a, b)
	v := in.binval(st, x.Op, a, b, x.X.Type(), x.Type())
	if v == nil {
		Undecided("unsupported operation %s in %s", x, fr.fn)
	}
	if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.X.Type()) {
		in.oblige(st, "divide", fr.fn, x.Pos(), Not(IEq(b, Int(0))), "division")
	}
	return one(st, v)
}

// sameFields decides whether structs are equal by their fields, if these are
// known well enough.
func (in *Interp) sameFields(st *State, s *types.Struct, a, b, c *Term) *Term {
	all := true
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch st.F.Decide(in.binval(st, token.EQL, Field(a, i, s), Field(b, i, s), t, types.Typ[types.Bool])) {
		case No:
			return False
		case Maybe:
			all = false
		}
	}
	if all {
		return True
	}
	return c
}

// lemma records a condition that follows from what is known, to make it easier
// to use.
func (in *Interp) lemma(st *State, c *Term, v bool) {
	if !in.Lemmas || c.Op == "const" {
		return
	}
	if !v {
		c = Not(c)
	}
	if c.Op == "ile" {
		st.F.addUB(c.Args[0], 0)
	}
}

func (in *Interp) binval(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		var c *Term
		switch {
		case isInt(xt):
			a, b = unInt(a), unInt(b)
			switch op {
			case token.EQL, token.NEQ:
				c = IEq(a, b)
				if isEnumLike(a) && b.IsConst() || isEnumLike(b) && a.IsConst() {
					c = Eq(a, b)
				}
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Lt(b, a)
			case token.GEQ:
				return Le(b, a)
			}
		case isFloat(xt):
			m := map[token.Token]int{token.EQL: ordEQ, token.NEQ: ordLT | ordGT | ordUN, token.LSS: ordLT, token.LEQ: ordLT | ordEQ, token.GTR: ordGT, token.GEQ: ordGT | ordEQ}[op]
			return mkOrd(a, b, m, true)
		case isString(xt) && op != token.EQL && op != token.NEQ:
			m := map[token.Token]int{token.LSS: ordLT, token.LEQ: ordLT | ordEQ, token.GTR: ordGT, token.GEQ: ordGT | ordEQ}[op]
			return mkOrd(a, b, m, false)
		default:
			if a.Op == "list" || a.Op == "sref" {
				a = in.nilable(a)
			}
			// comparing a value with an interface
			c = Eq(a, b)
			if s, ok := xt.Underlying().(*types.Struct); ok && !c.IsConst() {
				c = in.sameFields(st, s, a, b, c)
			}
		}
		if op == token.NEQ {
			return Not(c)
		}
		return c
	case token.ADD:
		if isInt(rt) {
			return Add(a, b)
		}
		if isString(rt) {
			return Concat(a, b)
		}
	case token.SUB:
		if isInt(rt) {
			return Sub(a, b)
		}
	case token.MUL:
		if isInt(rt) {
			if n, ok := a.IntVal(); ok {
				return linComb(b, n, nil, 0)
			}
			if n, ok := b.IntVal(); ok {
				return linComb(a, n, nil, 0)
			}
		}
	}
	if a.Op == "const" && b.Op == "const" {
		switch op {
		case token.SHL, token.SHR:
			n, _ := b.IntVal()
			return Const(constant.Shift(a.Val, op, uint(n)), rt)
		case token.QUO, token.REM:
			if isInt(rt) {
				if n, _ := b.IntVal(); n != 0 {
					o := op
					if op == token.QUO {
						o = token.QUO_ASSIGN
					}
					return Const(constant.BinaryOp(a.Val, o, b.Val), rt)
				}
				return App("bin"+op.String(), rt, a, b)
			}
		}
		if a.Val.Kind() == b.Val.Kind() || isNum(a) && isNum(b) {
			if op == token.QUO {
				if constant.Sign(b.Val) == 0 {
					return App("bin"+op.String(), rt, a, b)
				}
			}
			return Const(constant.BinaryOp(a.Val, op, b.Val), rt)
		}
	}
	if op == token.QUO && isInt(rt) {
		// integer halves and the like: bounds are added when used
		r := App("bin"+op.String(), rt, a, b)
		if n, ok := b.IntVal(); ok && n > 0 {
			if st.F.Decide(Le(Int(0), a)) == Yes {
				st.Assume(Le(Int(0), r), true)
				st.Assume(Le(linComb(r, n, nil, 0), a), true)
				st.Assume(Le(Sub(a, Int(n-1)), linComb(r, n, nil, 0)), true)
			}
		}
		return r
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return App("bin"+op.String(), rt, a, b)
}

// isEnumLike terms are compared with constants by value sets instead of bounds.
func isEnumLike(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	if t.Op == "const" || t.Op == "lin" {
		return false
	}
	n, ok := t.Typ.(*types.Named)
	return ok && n.Obj().Pkg() != nil && isInt(t.Typ)
}

func unInt(t *Term) *Term { return t }

func (in *Interp) nilable(t *Term) *Term { return t }

func basicSize(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type) *Term {
	switch {
	case isInt(from) && isInt(to):
		fb, fu := basicSize(from)
		tb, tu := basicSize(to)
		if v.Op == "const" {
			return Const(v.Val, to)
		}
		if fu == tu && tb >= fb || fu && tb > fb {
			return v
		}
		return App("conv:"+typeKey(to.Underlying()), to, v)
	case isInt(from) && isFloat(to) || isFloat(from) && isFloat(to):
		if v.Op == "const" {
			return Const(constant.ToFloat(v.Val), to)
		}
		if isFloat(from) && typeKey(from.Underlying()) == typeKey(to.Underlying()) {
			return v
		}
		return App("conv:"+typeKey(to.Underlying()), to, v)
	case isString(from) && isString(to):
		return v
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return ToString(in.ListOf(st, v))
			}
			if v.Op == "app" && v.Aux == "runes" {
				return v.Args[0]
			}
			return App("runestring", to, in.ListOf(st, v))
		}
		if isInt(from) {
			if n, ok := v.IntVal(); ok {
				return Str(string(rune(n)))
			}
			return App("runechar", to, v)
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return ToBytes(v)
			}
			if rs, _, ok := chars(v); ok && len(rs) > 0 {
				var segs []*Term
				for _, r := range rs {
					segs = append(segs, segE(r))
				}
				return mk("list", "", to, segs...)
			}
			return App("runes", to, v)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return App("conv:"+typeKey(to), to, v)
}

func (in *Interp) sliceOp(fr *frame, st *State, x *ssa.Slice, pos token.Pos) ([]alt, []end) {
	base := in.eval(fr, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = in.eval(fr, x.Low)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n, _ := arrayLen(p.Elem())
		hi := Int(n)
		if x.High != nil {
			hi = in.eval(fr, x.High)
		}
		in.oblige(st, "slice", fr.fn, pos, and(and(Le(Int(0), lo), Le(lo, hi)), Le(hi, Int(n))), "slice of array")
		return one(st, mk("sref", "", x.Type(), base, lo, hi))
	}
	n := Len(base)
	hi := n
	if x.High != nil {
		hi = in.eval(fr, x.High)
	}
	if x.Low != nil || x.High != nil {
		limit := n
		if base.Op == "app" || base.Op == "sym" || base.Op == "deref" || base.Op == "fld" {
			// slices may be extended up to their capacity, but nothing here relies on it
			limit = n
		}
		if !in.oblige(st, "slice", fr.fn, pos, And(Le(Int(0), lo), Le(lo, hi), Le(hi, limit)), "slice "+base.String()+"["+lo.String()+":"+hi.String()+"]") {
			return nil, []end{{kind: endPanic, st: st, fr: fr, why: "slice bounds out of range", pos: pos}}
		}
	}
	return one(st, SliceOf(base, lo, hi, x.Type()))
}

// SliceOf is base[lo:hi].
func SliceOf(base, lo, hi *Term, typ types.Type) *Term {
	if lo == Int(0) && hi == Len(base) {
		return base
	}
	if s, ok := base.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h, ok2 := hi.IntVal()
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return Str(s[l:h])
		}
	}
	switch base.Op {
	case "sref":
		return mk("sref", "", typ, base.Args[0], Add(base.Args[1], lo), Add(base.Args[1], hi))
	case "slice":
		return SliceOf(base.Args[0], Add(base.Args[1], lo), Add(base.Args[1], hi), typ)
	case "list":
		l, ok1 := lo.IntVal()
		if ok1 && hi == Len(base) {
			all := true
			for i := int64(0); i < l; i++ {
				if i >= int64(len(base.Args)) || base.Args[i].Op != "seg:e" {
					all = false
				}
			}
			if all {
				return List(base.Typ, base.Args[l:]...)
			}
		}
		h, ok2 := hi.IntVal()
		if ok1 && ok2 && h <= int64(len(base.Args)) {
			all := true
			for i := int64(0); i < h; i++ {
				if base.Args[i].Op != "seg:e" {
					all = false
				}
			}
			if all {
				return mk("list", "", base.Typ, base.Args[l:h]...)
			}
		}
	case "concat":
		// cut constant text off the front
		if n, ok := lo.IntVal(); ok && hi == Len(base) {
			if s, ok := base.Args[0].StrVal(); ok && int64(len(s)) >= n {
				parts := append([]*Term{Str(s[n:])}, base.Args[1:]...)
				return Concat(parts...)
			}
		}
	}
	return mk("slice", "", typ, base, lo, hi)
}

func (in *Interp) typeAssert(fr *frame, st *State, x *ssa.TypeAssert, v *Term, pos token.Pos) ([]alt, []end) {
	isT := IsType(v, x.AssertedType)
	val := func() *Term {
		if types.IsInterface(x.AssertedType) {
			return v
		}
		return IfaceVal(v, x.AssertedType)
	}
	if !x.CommaOk {
		if !in.oblige(st, "typeassert", fr.fn, pos, isT, "type assertion") {
			return nil, []end{{kind: endPanic, st: st, fr: fr, why: "type assertion fails", pos: pos}}
		}
		return one(st, val())
	}
	var alts []alt
	mkT := func(ok bool) *Term {
		if ok {
			return mk("tuple", "", nil, val(), True)
		}
		return mk("tuple", "", nil, Zero(x.AssertedType), False)
	}
	switch st.F.Decide(isT) {
	case Yes:
		return one(st, mkT(true))
	case No:
		return one(st, mkT(false))
	}
	in.Forks++
	for _, b := range []bool{true, false} {
		s2 := st.Clone()
		if s2.Assume(isT, b) {
			if b {
				s2.Assume(Eq(v, Nil), false)
			}
			alts = append(alts, alt{s2, mkT(b)})
		}
	}
	return alts, nil
}

// loadAlts reads an address, choosing an element when it points into a list
// made of several parts.
func (in *Interp) loadAlts(st *State, addr *Term) []alt {
	if _, ok := st.heap[addr]; !ok && addr.Op == "&elem" && (addr.Args[0].Op == "list" || addr.Args[0].Op == "arr") {
		return in.elemAlts(st, addr.Args[0], addr.Args[1])
	}
	if c := root(addr); c.Op == "&elem" && (c.Args[0].Op == "list" || c.Args[0].Op == "arr") {
		if _, ok := st.heap[c]; !ok {
			var out []alt
			for _, a := range in.elemAlts(st, c.Args[0], c.Args[1]) {
				a.st.heap[c] = a.v
				v := in.load(a.st, addr)
				delete(a.st.heap, c)
				out = append(out, alt{a.st, v})
			}
			return out
		}
	}
	if addr.Op == "&idx" {
		// element of an array that is known but not which
		c := in.load(st, addr.Args[0])
		if c.Op == "array" {
			if _, ok := addr.Args[1].IntVal(); !ok && len(c.Args) <= 16 {
				var out []alt
				for i, e := range c.Args {
					s2 := st.Clone()
					if s2.Assume(IEq(addr.Args[1], Int(int64(i))), true) {
						out = append(out, alt{s2, e})
					}
				}
				return out
			}
		}
	}
	return []alt{{st, in.load(st, addr)}}
}

// elemAlts returns the possible values of element i of a list.
func (in *Interp) elemAlts(st *State, list, i *Term) []alt {
	p := pair{list, i}
	if v, ok := st.choice[p]; ok {
		return []alt{{st, v}}
	}
	if list.Op != "list" {
		return []alt{{st, itemOf(list, i)}}
	}
	if n, ok := i.IntVal(); ok {
		k := int64(0)
		for _, s := range list.Args {
			if s.Op != "seg:e" {
				break
			}
			if k == n {
				return []alt{{st, s.Args[0]}}
			}
			k++
		}
	}
	by := i
	if cs, _ := i.lin(); len(cs) == 1 {
		by = cs[0].t
	}
	var out []alt
	var walk func(st *State, s *Term)
	walk = func(st *State, s *Term) {
		switch s.Op {
		case "seg:e":
			out = append(out, alt{st, s.Args[0]})
		case "seg:s":
			y := s.Args[0]
			if y.Op == "list" {
				for _, q := range y.Args {
					walk(st.Clone(), q)
				}
				return
			}
			j := newSym("j", types.Typ[types.Int])
			st.Assume(Le(Int(0), j), true)
			st.Assume(Lt(j, Len(y)), true)
			v := mk("elem", "", elemType(y.Typ), y, j)
			out = append(out, alt{st, v})
		case "seg:c":
			for _, ia := range in.instantiate(st, s, by) {
				for _, d := range ia.segs {
					walk(ia.st.Clone(), d)
				}
			}
		default:
			Undecided("unknown part %s of a list", s)
		}
	}
	pos := int64(0)
	exact := true
	for _, s := range list.Args {
		s2 := st.Clone()
		if exact && s.Op == "seg:e" {
			// this element has a known position
			if !s2.Assume(IEq(i, Int(pos)), true) {
				pos++
				continue
			}
			pos++
		} else {
			exact = false
			if !s2.Assume(Le(Int(pos), i), true) {
				continue
			}
		}
		walk(s2, s)
	}
	for k := range out {
		out[k].st.choice[p] = out[k].v
	}
	return out
}

// ---- calls

func (in *Interp) prepCall(fr *frame, st *State, cc *ssa.CallCommon, pos token.Pos) (*Call, *Term, *ssa.Builtin) {
	c := &Call{Sig: cc.Signature(), Pos: pos, In: fr.fn}
	var fv *Term
	if cc.IsInvoke() {
		recv := in.eval(fr, cc.Value)
		c.Args = append(c.Args, recv)
		c.ArgTypes = append(c.ArgTypes, cc.Value.Type())
		c.Name = "invoke " + cc.Method.FullName()
		fv = mk("method", cc.Method.FullName(), nil, recv)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.Name = b.Name()
		c.common = cc
		for _, a := range cc.Args {
			c.Args = append(c.Args, in.eval(fr, a))
			c.ArgTypes = append(c.ArgTypes, a.Type())
		}
		return c, nil, b
	} else {
		fv = in.eval(fr, cc.Value)
		if fv.Fn != nil {
			c.Fn = fv.Fn
			c.Name = fv.Fn.String()
		} else {
			c.Name = "dynamic"
		}
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, in.eval(fr, a))
		c.ArgTypes = append(c.ArgTypes, a.Type())
	}
	if cc.IsInvoke() {
		c.Fn = nil
	}
	return c, fv, nil
}

func (in *Interp) callCommon(fr *frame, st *State, cc *ssa.CallCommon, pos token.Pos) []Ret {
	c, fv, bi := in.prepCall(fr, st, cc, pos)
	return in.dispatch(st, c, fv, bi, fr)
}

func (in *Interp) dispatch(st *State, c *Call, fv *Term, bi *ssa.Builtin, fr *frame) []Ret {
	if bi != nil {
		return in.builtin(st, c, fr)
	}
	if fv.Op == "method" {
		recv := st.F.Known(c.Args[0])
		if recv.Op == "nil" {
			return []Ret{{St: st, Panic: true, Why: "method call on nil interface", Pos: c.Pos}}
		}
		if in.Hook != nil {
			if r, ok := in.Hook(in, st, c); ok {
				return r
			}
		}
		dyn := recv.DTyp
		if recv.Op != "iface" {
			dyn = st.F.dyn[recv].is
		}
		if dyn != nil {
			return in.invokeOn(st, c, recv, dyn)
		}
		// all implementations return constants: decide by type
		if ts := st.F.DynTypes(recv); len(ts) > 0 && in.constMethod(c, ts) {
			var out []Ret
			for _, t := range ts {
				s2 := st.Clone()
				if s2.Assume(IsType(recv, t), true) {
					s2.Assume(Eq(recv, Nil), false)
					out = append(out, in.invokeOn(s2, c, recv, t)...)
				}
			}
			return out
		}
		return in.external(st, c)
	}
	if fv.Fn != nil {
		c.Fn = fv.Fn
		return in.callKnown(st, c, fv)
	}
	if k := st.F.Known(fv); k.Op == "nil" {
		return []Ret{{St: st, Panic: true, Why: "call of nil function", Pos: c.Pos}}
	}
	c.Args = append([]*Term{fv}, c.Args...)
	c.ArgTypes = append([]types.Type{nil}, c.ArgTypes...)
	if in.Hook != nil {
		if r, ok := in.Hook(in, st, c); ok {
			return r
		}
	}
	return in.external(st, c)
}

func (in *Interp) method(t types.Type, full string) *ssa.Function {
	name := full[strings.LastIndex(full, ".")+1:]
	ms := in.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (in *Interp) invokeOn(st *State, c *Call, recv *Term, dyn types.Type) []Ret {
	fn := in.method(dyn, c.Name)
	if fn == nil {
		Undecided("no method %s on %s", c.Name, dyn)
	}
	args := append([]*Term{IfaceVal(recv, dyn)}, c.Args[1:]...)
	c2 := &Call{Fn: fn, Name: fn.String(), Args: args, Sig: c.Sig, Pos: c.Pos, In: c.In, ArgTypes: c.ArgTypes}
	return in.callKnown(st, c2, nil)
}

// constMethod reports whether all given implementations of a method return
// constants without looking at anything.
func (in *Interp) constMethod(c *Call, ts []types.Type) bool {
	for _, t := range ts {
		if fn := in.method(t, c.Name); fn == nil || !in.constFn(fn) {
			return false
		}
	}
	return true
}

// constFn reports whether a function returns a constant, or what such a
// function returns, and does nothing else.
func (in *Interp) constFn(fn *ssa.Function) bool {
	if fn.Blocks == nil || fn.Signature.Results().Len() == 0 {
		return false
	}
	k := fn.String()
	if v, ok := in.constMeth[k]; ok {
		return v
	}
	if in.constMeth == nil {
		in.constMeth = map[string]bool{}
	}
	in.constMeth[k] = false // recursive functions are none
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Return:
				for _, r := range i.Results {
					switch r.(type) {
					case *ssa.Const, *ssa.Call:
					default:
						return false
					}
				}
			case *ssa.Call:
				callee := i.Call.StaticCallee()
				if callee == nil || !in.Repo(callee) || !in.constFn(callee) {
					return false
				}
			case *ssa.DebugRef, *ssa.Jump:
			default:
				return false
			}
		}
	}
	in.constMeth[k] = true
	return true
}

func (in *Interp) callKnown(st *State, c *Call, fv *Term) []Ret {
	fn := c.Fn
	if fn.Origin() != nil && fn.Blocks == nil {
		// uninstantiated generic
		c.Name = fn.Origin().String()
	}
	if in.Hook != nil {
		if r, ok := in.Hook(in, st, c); ok {
			return r
		}
	}
	if r, ok := in.model(st, c); ok {
		return r
	}
	if fn.Blocks != nil && (in.Repo(fn) || fn.Synthetic != "" && fn.Pkg == nil || isWrapper(fn) || inlineStd(fn)) {
		rec := false
		for _, f := range in.stack {
			if f == fn {
				rec = true
			}
		}
		if rec && !in.Recurse || in.Opaque != nil && in.Opaque(fn) {
			var args []*Term
			for i, a := range c.Args {
				_ = i
				args = append(args, in.ListOf(st, a))
			}
			if fv != nil {
				args = append(args, fv.Args...)
			}
			v := recTerm(fn, c.Sig, args)
			st.Emit(&Event{Name: "rec " + fn.String(), Args: args, Res: v, Pos: c.Pos})
			return []Ret{{St: st, Val: v}}
		}
		var bind []*Term
		if fv != nil && fv.Op == "clos" {
			bind = fv.Args
		}
		return in.enter(st, fn, c.Args, bind)
	}
	return in.external(st, c)
}

func recTerm(fn *ssa.Function, sig *types.Signature, args []*Term) *Term {
	return mk("rec", fn.String(), resType(sig), args...)
}

func isWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")
}

func inlineStd(fn *ssa.Function) bool {
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if g := o.Origin(); g != nil {
		o = g
	}
	if o.Pkg == nil {
		return false
	}
	switch o.Pkg.Pkg.Path() {
	case "slices", "maps", "cmp":
		return true
	}
	return false
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// external handles a call out of the analysed program.
func (in *Interp) external(st *State, c *Call) []Ret {
	if r, ok := in.model(st, c); ok {
		return r
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.ListOf(st, a))
	}
	typ := resType(c.Sig)
	if in.Pure(c.Name) {
		v := App(c.Name, typ, args...)
		if in.OnPure != nil {
			in.OnPure(st, c, v)
		}
		return []Ret{{St: st, Val: v}}
	}
	// contents of objects handed out are unknown afterwards
	ev := &Event{Name: c.Name, Args: args, Pos: c.Pos}
	for _, a := range c.Args {
		in.havocArg(st, a, c.Name, args)
	}
	if typ != nil {
		ev.Res = newSym(c.Name, typ)
	}
	st.Emit(ev)
	return []Ret{{St: st, Val: ev.Res}}
}

func (in *Interp) havocArg(st *State, a *Term, name string, args []*Term) {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Op != "obj" && a.Op != "&fld" && a.Op != "&idx" {
		return
	}
	old := in.load(st, a)
	in.store(st, a, mk("after", name, ptrElem(a.Typ), append([]*Term{old}, args...)...))
}

// Conv is a numeric conversion.
func Conv(v *Term, from, to types.Type) *Term { return (&Interp{}).convert(nil, v, from, to) }
