package flow

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	modeExact = iota
	modeIndex
	modeAcc
	modeFill
	modeMono // an integer that only grows or only falls, by varying constants
	modeHavoc
)

// slot is something a loop changes from one iteration to the next: a variable
// or a part of the memory.
type slot struct {
	key   string
	phi   int
	addr  *Term
	path  []int
	typ   types.Type
	mode  int
	init  *Term
	step  int64
	sym   *Term // index or unknown value at the start of an iteration
	non   *Term // some value that is not nil
	acc   *Term
	inv   []*Term // upper bounds that hold whenever the loop is at its start
	name  string
	tried bool
}

// Loop is one activation of a loop.
type Loop struct {
	ID     string
	Fn     *ssa.Function
	Pos    token.Pos
	serial int
	slots  []*slot
	Parts  []*Part
	Trans  []*Trans
	entry  *State
	List   *Term // list of a callback loop
	in     *Interp
}

// Part is a set of states at the start of an iteration.
type Part struct {
	id   int
	vals []*Term
	st   *State
	key  string
}

// Trans is a path through one iteration.
type Trans struct {
	L        *Loop
	From, To *Part // To is nil if the loop is left
	St       *State
	Vals     []*Term
	Delta    map[int][]*Term
	Evs      []*Event
	key      string
}

// LoopRun is a loop on a path, with the path on which it was left.
type LoopRun struct {
	L    *Loop
	Exit *Trans
}

type comp struct {
	l    *Loop
	slot int
}

// bodyEnd is the end of a path through an iteration.
type bodyEnd struct {
	back bool
	st   *State
	phis []*Term
	e    end
}

type loopExit struct {
	e    end
	st   *State
	tran *Trans
}

func (in *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	in.loops[fn] = out
	return out
}

// unrollable reports whether the next iteration, or that there is none, is
// determined by constants.
func (in *Interp) unrollable(fr *frame, from, to *ssa.BasicBlock, st *State, body map[*ssa.BasicBlock]bool) bool {
	f2 := fr.fork()
	in.setPhis(f2, from, to)
	for _, x := range to.Instrs[countPhis(to):] {
		switch x := x.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			v := in.binval(st, x.Op, in.eval(f2, x.X), in.eval(f2, x.Y), x.X.Type(), x.Type())
			f2.env[x] = v
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			f2.env[x] = in.lenOf(st, in.eval(f2, x.Call.Args[0]))
		case *ssa.Field:
			f2.env[x] = Field(in.eval(f2, x.X), x.Field, x.X.Type())
		case *ssa.FieldAddr:
			f2.env[x] = fieldAddr(in.eval(f2, x.X), x.Field, x.Type(), x.X.Type())
		case *ssa.UnOp:
			if x.Op == token.NOT {
				f2.env[x] = Not(in.eval(f2, x.X))
				continue
			}
			if x.Op == token.MUL {
				f2.env[x] = in.load(st, in.eval(f2, x.X))
				continue
			}
			return false
		case *ssa.If:
			c := in.eval(f2, x.Cond)
			d := st.F.Decide(c)
			inBody := body[to.Succs[0]]
			if body[to.Succs[0]] == body[to.Succs[1]] {
				return false
			}
			if d == Maybe {
				return false
			}
			if (d == Yes) != inBody {
				return true // leaves the loop
			}
			if c.Op != "const" {
				if c.Op != "ile" {
					return false
				}
				_, a := st.F.ub(c.Args[0])
				_, b := st.F.lb(c.Args[0])
				if !a || !b {
					return false
				}
			}
			if fr.unroll[to] > 80 {
				return false
			}
			fr.unroll[to]++
			return true
		default:
			return false
		}
	}
	return false
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, x := range b.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (in *Interp) execLoop(fr *frame, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, ctx *loopCtx) []end {
	phis := phisOf(to)
	pi := predIndex(from, to)
	init := make([]*Term, len(phis))
	typs := make([]types.Type, len(phis))
	names := make([]string, len(phis))
	for i, p := range phis {
		init[i] = in.eval(fr, p.Edges[pi])
		typs[i] = p.Type()
		names[i] = p.Comment
	}
	lctx := &loopCtx{header: to, blocks: body}
	pos := token.NoPos
	for _, x := range to.Instrs {
		if x.Pos().IsValid() {
			pos = x.Pos()
			break
		}
	}
	l := in.newLoop(fr.fn, pos, st)
	exits := in.fix(l, init, typs, names, func(s *State, vals []*Term) []bodyEnd {
		f2 := fr.fork()
		for i, p := range phis {
			f2.env[p] = vals[i]
		}
		var out []bodyEnd
		for _, e := range in.run(f2, to, len(phis), s, lctx) {
			if e.kind == endBack {
				bi := predIndex(e.from, to)
				var ps []*Term
				for _, p := range phis {
					ps = append(ps, in.eval(e.fr, p.Edges[bi]))
				}
				out = append(out, bodyEnd{back: true, st: e.st, phis: ps})
				continue
			}
			out = append(out, bodyEnd{st: e.st, e: e})
		}
		return out
	})
	var ends []end
	for _, x := range exits {
		e := x.e
		e.st = x.st
		if e.kind != endExit {
			ends = append(ends, e)
			continue
		}
		f2 := e.fr.fork()
		r, nb := in.enterBlock(f2, e.from, e.to, x.st, ctx)
		if nb != nil {
			r = in.run(f2, nb, countPhis(nb), x.st, ctx)
		}
		ends = append(ends, r...)
	}
	return ends
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// loopSeq numbers loop activations over all analyses: objects are named after
// the activation they are created in.
var loopSeq int

func (in *Interp) newLoop(fn *ssa.Function, pos token.Pos, st *State) *Loop {
	loopSeq++
	return &Loop{ID: fmt.Sprintf("L%d", loopSeq), Fn: fn, Pos: pos, serial: terms.serial, entry: st.Clone(), in: in}
}

// callbackLoop analyses a library call that calls cb for every element of list.
// cb returns whether to go on.
func (in *Interp) callbackLoop(st *State, fn *ssa.Function, pos token.Pos, list *Term, cb func(*State, *Term) []bodyEnd) []loopExit {
	l := in.newLoop(fn, pos, st)
	l.List = list
	return in.fix(l, []*Term{Int(0)}, []types.Type{types.Typ[types.Int]}, []string{"i"}, func(s *State, vals []*Term) []bodyEnd {
		i := vals[0]
		more := Lt(i, Len(list))
		var out []bodyEnd
		if s2 := s.Clone(); s2.Assume(more, false) {
			out = append(out, bodyEnd{st: s2, e: end{kind: endExit, st: s2}})
		}
		if s.Assume(more, true) {
			for _, b := range cb(s, i) {
				if b.back {
					b.phis = []*Term{Add(i, Int(1))}
				}
				out = append(out, b)
			}
		}
		return out
	})
}

func leaf(c *Term, path []int, typ types.Type) *Term {
	for _, i := range path {
		if structOf(typ) != nil {
			c = Field(c, i, typ)
			typ = structOf(typ).Field(i).Type()
		} else {
			c = index(c, Int(int64(i)), typ)
			typ = elemType(typ)
		}
	}
	return c
}

func setLeaf(c *Term, path []int, typ types.Type, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	i := path[0]
	if s := structOf(typ); s != nil {
		return setField(c, i, setLeaf(Field(c, i, typ), path[1:], s.Field(i).Type(), v), typ)
	}
	return setIndex(c, Int(int64(i)), setLeaf(index(c, Int(int64(i)), typ), path[1:], elemType(typ), v), typ)
}

// diffLeaves calls f for every part in which two contents differ.
func diffLeaves(a, b *Term, typ types.Type, path []int, f func(path []int, typ types.Type)) {
	if a == b {
		return
	}
	if s := structOf(typ); s != nil && (a.Op == "struct" || b.Op == "struct") && a.Op != "buf" && b.Op != "buf" && a.Op != "after" && b.Op != "after" {
		for i := 0; i < s.NumFields(); i++ {
			diffLeaves(Field(a, i, typ), Field(b, i, typ), s.Field(i).Type(), append(append([]int(nil), path...), i), f)
		}
		return
	}
	if n, e := arrayLenOf(typ); n >= 0 && n <= 64 && a.Op == "array" && b.Op == "array" {
		for i := int64(0); i < n; i++ {
			diffLeaves(index(a, Int(i), typ), index(b, Int(i), typ), e, append(append([]int(nil), path...), int(i)), f)
		}
		return
	}
	f(path, typ)
}

func bornObj(a *Term, serial int) bool {
	return a.serial > serial
}

func (l *Loop) headVal(s *slot, exact *Term) *Term {
	switch s.mode {
	case modeIndex, modeMono, modeHavoc:
		return s.sym
	case modeAcc, modeFill:
		return s.acc
	}
	return exact
}

// fix runs the body of a loop until all states that can arise at the start of
// an iteration are covered, and returns the ways to leave.
func (in *Interp) fix(l *Loop, init []*Term, typs []types.Type, names []string, body func(*State, []*Term) []bodyEnd) []loopExit {
	nphi := len(init)
	for i := range init {
		l.slots = append(l.slots, &slot{key: "phi" + itoa(i), phi: i, typ: typs[i], init: init[i], name: names[i]})
	}
	dropLearned := false
	for round := 0; ; round++ {
		if round > 60 {
			Undecided("loop in %s does not stabilise", l.Fn)
		}
		exits, again := in.fixRound(l, nphi, body, &dropLearned)
		if !again {
			return exits
		}
	}
}

func (l *Loop) header(F *Facts, vals []*Term) *State {
	st := l.entry.Clone()
	st.F = F.clone()
	st.scope = l.ID
	for i, s := range l.slots {
		if s.phi < 0 {
			t := ptrElem(s.addr.Typ)
			if s.addr.Op == "&map" {
				st.heap[s.addr] = vals[i]
				continue
			}
			st.heap[s.addr] = setLeaf(l.in.load(st, s.addr), s.path, t, vals[i])
		}
		switch s.mode {
		case modeIndex, modeMono:
			if s.step > 0 {
				st.F.Assume(Le(s.init, s.sym), true)
			} else {
				st.F.Assume(Le(s.sym, s.init), true)
			}
			for _, c := range s.inv {
				st.F.Assume(c, true)
			}
		case modeExact:
			if s.non != nil && vals[i] == s.non {
				st.F.Assume(Eq(s.non, Nil), false)
			}
		}
	}
	return st
}

func (in *Interp) fixRound(l *Loop, nphi int, body func(*State, []*Term) []bodyEnd, dropLearned *bool) ([]loopExit, bool) {
	l.Parts, l.Trans = nil, nil
	parts := map[string]*Part{}
	var exits []loopExit
	addPart := func(F *Facts, vals []*Term) *Part {
		if *dropLearned {
			F = l.entry.F
		}
		var sb strings.Builder
		for _, v := range vals {
			sb.WriteString(itoa(v.id) + ",")
		}
		k := sb.String() + F.key()
		if p, ok := parts[k]; ok {
			return p
		}
		p := &Part{id: len(l.Parts), vals: vals, key: k}
		p.st = l.header(F, vals)
		parts[k] = p
		l.Parts = append(l.Parts, p)
		return p
	}
	var first []*Term
	for _, s := range l.slots {
		first = append(first, l.headVal(s, s.init))
	}
	addPart(l.entry.F, first)
	seenTrans := map[string]bool{}
	for pi := 0; pi < len(l.Parts); pi++ {
		p := l.Parts[pi]
		if len(l.Parts) > 40 {
			if !*dropLearned {
				*dropLearned = true
				return nil, true
			}
			// give up on the exact values that vary most
			best, n := -1, 0
			for i, s := range l.slots {
				if s.mode == modeExact {
					vs := map[*Term]bool{}
					for _, q := range l.Parts {
						vs[q.vals[i]] = true
					}
					if len(vs) > n {
						best, n = i, len(vs)
					}
				}
			}
			if best < 0 {
				Undecided("too many states in the loop of %s", l.Fn)
			}
			in.makeHavoc(l, l.slots[best])
			return nil, true
		}
		for _, e := range body(p.st.Clone(), p.vals[:nphi]) {
			if !e.back {
				tr := &Trans{L: l, From: p, St: e.st, Evs: e.st.evs.since(l.entry.evs)}
				exits = append(exits, loopExit{e: e.e, st: e.st, tran: tr})
				continue
			}
			// memory changed in this iteration
			newSlot := false
			var addrs []*Term
			for a := range e.st.heap {
				addrs = append(addrs, a)
			}
			sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
			for _, a := range addrs {
				c := e.st.heap[a]
				if a.serial > l.serial {
					continue // created in this iteration
				}
				old := in.load(p.st, a)
				t := ptrElem(a.Typ)
				if a.Op == "&map" {
					t = a.Typ
				}
				diffLeaves(old, c, t, nil, func(path []int, typ types.Type) {
					k := fmt.Sprintf("%d%v", a.id, path)
					for _, s := range l.slots {
						if s.key == k {
							return
						}
						if s.phi < 0 && s.addr == a && (hasPrefix(s.path, path) || hasPrefix(path, s.path)) {
							if len(path) < len(s.path) {
								// a larger part changes: use that
								s.path = path
								s.key = k
								s.typ = typ
								s.mode = modeExact
								s.init = leaf(in.load(l.entry, a), path, t)
								newSlot = true
							}
							return
						}
					}
					l.slots = append(l.slots, &slot{key: k, phi: -1, addr: a, path: path, typ: typ, init: leaf(in.load(l.entry, a), path, t), name: a.String()})
					newSlot = true
				})
			}
			if newSlot {
				return nil, true
			}
			vals := make([]*Term, len(l.slots))
			for i, s := range l.slots {
				if s.phi >= 0 {
					vals[i] = e.phis[s.phi]
				} else {
					t := ptrElem(s.addr.Typ)
					vals[i] = leaf(in.load(e.st, s.addr), s.path, t)
				}
			}
			type alt struct {
				st   *State
				vals []*Term
			}
			alts := []alt{{e.st, append([]*Term(nil), vals...)}}
			tr0 := &Trans{L: l, From: p, Vals: vals, Delta: map[int][]*Term{}}
			for i, s := range l.slots {
				v := vals[i]
				hv := p.vals[i]
				switch s.mode {
				case modeIndex:
					d := Sub(v, hv)
					if n, ok := d.IntVal(); !ok || n != s.step {
						if ok && n*s.step > 0 {
							s.mode, s.inv = modeMono, nil
							s.sym = newSym("m", s.typ)
						} else {
							in.makeHavoc(l, s)
						}
						return nil, true
					}
					if in.indexInvariant(l, s, e.st, v) {
						return nil, true
					}
					for k := range alts {
						alts[k].vals[i] = s.sym
					}
				case modeMono:
					if n, ok := Sub(v, hv).IntVal(); !ok || n*s.step <= 0 {
						in.makeHavoc(l, s)
						return nil, true
					}
					for k := range alts {
						alts[k].vals[i] = s.sym
					}
				case modeHavoc:
					for k := range alts {
						alts[k].vals[i] = s.sym
					}
				case modeAcc:
					d, ok := accDelta(hv, v)
					if !ok {
						in.makeHavoc(l, s)
						return nil, true
					}
					tr0.Delta[i] = d
					for k := range alts {
						alts[k].vals[i] = s.acc
					}
				case modeFill:
					if v.Op != "upd" || v.Args[0] != hv || v.Args[1] != hv.Args[1] {
						in.makeHavoc(l, s)
						return nil, true
					}
					tr0.Delta[i] = []*Term{segE(v.Args[2])}
					for k := range alts {
						alts[k].vals[i] = s.acc
					}
				default:
					if v == hv {
						continue
					}
					if v.Op == "upd" && v.Args[0] == hv && hv == s.init && hv.Op == "zarr" && l.counts(v.Args[1]) {
						in.makeFill(l, s, v.Args[1])
						return nil, true
					}
					if isInt(s.typ) {
						d := Sub(v, hv)
						if n, ok := d.IntVal(); ok && n != 0 && s.phi >= 0 {
							s.mode, s.step = modeIndex, n
							s.sym = newSym("i", s.typ)
							return nil, true
						}
					}
					if d, ok := accDelta(hv, v); ok && len(d) > 0 && hv == s.init {
						in.makeAcc(l, s)
						return nil, true
					}
					// values that can be told apart
					var next []alt
					for _, a := range alts {
						v := a.st.F.Known(a.vals[i])
						if v.IsConst() && v.Op != "nil" || v.serial <= l.serial && (v.Op != "nil") {
							a.vals[i] = v
							next = append(next, a)
							continue
						}
						b, isB := s.typ.Underlying().(*types.Basic)
						switch {
						case isB && b.Info()&types.IsBoolean != 0:
							for _, bv := range []bool{true, false} {
								s2 := a.st.Clone()
								if s2.Assume(v, bv) {
									vs := append([]*Term(nil), a.vals...)
									vs[i] = Bool(bv)
									next = append(next, alt{s2, vs})
								}
							}
						case nilable(s.typ):
							for _, isNil := range []bool{true, false} {
								s2 := a.st.Clone()
								if s2.Assume(Eq(v, Nil), isNil) {
									vs := append([]*Term(nil), a.vals...)
									if isNil {
										vs[i] = Nil
									} else {
										if s.non == nil {
											s.non = newSym(s.name+"≠nil", s.typ)
										}
										vs[i] = s.non
									}
									next = append(next, alt{s2, vs})
								}
							}
						default:
							in.makeHavoc(l, s)
							return nil, true
						}
					}
					alts = next
				}
			}
			for _, a := range alts {
				to := addPart(a.st.F.keep(l.serial), a.vals)
				tr := &Trans{L: l, From: p, To: to, St: a.st, Vals: vals, Delta: tr0.Delta, Evs: a.st.evs.since(l.entry.evs)}
				k := tr.ident()
				if seenTrans[k] {
					continue
				}
				seenTrans[k] = true
				l.Trans = append(l.Trans, tr)
			}
		}
	}
	for k := range exits {
		x := &exits[k]
		st := x.st
		st.scope = l.entry.scope
		evs := x.tran.Evs
		run := &LoopRun{L: l, Exit: x.tran}
		st.evs = l.entry.evs
		st.Emit(&Event{Name: "loop", Run: run, Pos: l.Pos})
		for _, ev := range evs {
			st.evs = &evList{st.evs, ev, st.evs.len() + 1}
		}
		st.runs = append(append([]*LoopRun(nil), st.runs...), run)
		for _, s := range l.slots {
			if c := st.heap[s.addr]; s.mode == modeFill && c == s.acc {
				// all elements have been set
				if n := Len(s.init); st.F.Decide(Le(n, c.Args[1])) == Yes {
					st.heap[s.addr] = c.Args[0]
					st.Assume(IEq(Len(c.Args[0]), n), true)
				}
			}
		}
		x.tran.St = st.Clone()
	}
	return exits, false
}

func (t *Trans) ident() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d>%d|%s|", t.From.id, t.To.id, t.St.F.key())
	for _, v := range t.Vals {
		sb.WriteString(itoa(v.id) + ",")
	}
	for _, e := range t.Evs {
		fmt.Fprintf(&sb, "%p", e)
	}
	sb.WriteString(t.St.key())
	return sb.String()
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func hasPrefix(a, p []int) bool {
	if len(p) > len(a) {
		return false
	}
	for i := range p {
		if a[i] != p[i] {
			return false
		}
	}
	return true
}

func (in *Interp) makeHavoc(l *Loop, s *slot) {
	s.mode = modeHavoc
	s.sym = newSym("any:"+s.name, s.typ)
}

func (in *Interp) makeAcc(l *Loop, s *slot) {
	s.mode = modeAcc
	k := l.ID + "/" + s.key
	i := 0
	for j, x := range l.slots {
		if x == s {
			i = j
		}
	}
	in.comps[k] = &comp{l, i}
	terms.serial++
	if isMap(s.typ) {
		s.acc = mk("mapacc", k, s.typ, s.init).withSerial(terms.serial)
		return
	}
	if isString(s.typ) || s.init.Op == "buf" || isBufType(s.typ) {
		c := mk("cacc", k, types.Typ[types.String]).withSerial(terms.serial)
		if isString(s.typ) {
			s.acc = Concat(s.init, c)
		} else {
			s.acc = mk("buf", "", s.typ, Concat(bufText(s.init), c))
		}
		return
	}
	seg := mk("seg:c", k, nil).withSerial(terms.serial)
	segs := append(append([]*Term(nil), Segs(s.init)...), seg)
	s.acc = List(s.typ, segs...)
}

// counts tells whether a term runs through 0, 1, 2, …
func (l *Loop) counts(x *Term) bool {
	for _, s := range l.slots {
		if s.mode == modeIndex && s.step == 1 {
			if d := Sub(x, s.sym); d.Op == "const" && l.entry.F.Decide(IEq(Add(s.init, d), Int(0))) == Yes {
				return true
			}
		}
	}
	return false
}

// makeFill treats the content of an array as filled from the start up to x.
func (in *Interp) makeFill(l *Loop, s *slot, x *Term) {
	s.mode = modeFill
	k := l.ID + "/" + s.key
	for j, y := range l.slots {
		if y == s {
			in.comps[k] = &comp{l, j}
		}
	}
	terms.serial++
	seg := mk("seg:c", k, nil).withSerial(terms.serial)
	s.acc = mk("fill", k, s.typ, mk("list", "", types.NewSlice(elemType(s.typ)), seg), x)
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isBufType(t types.Type) bool {
	k := typeKey(t)
	return k == "bytes.Buffer" || k == "strings.Builder"
}

// bufText is the text in a bytes.Buffer or strings.Builder.
func bufText(c *Term) *Term {
	switch c.Op {
	case "buf":
		return c.Args[0]
	case "struct":
		return Str("")
	}
	return App("buftext", types.Typ[types.String], c)
}

// accDelta returns what was added at the end of a list, text or map.
func accDelta(old, new *Term) ([]*Term, bool) {
	if old == new {
		return nil, true
	}
	if isSlice(new.Typ) && new.Op != "list" && new.Op != "nil" && (old.Op == "nil" || old.Op == "list" && len(old.Args) == 0) {
		return []*Term{segS(new)}, true
	}
	switch {
	case new.Op == "buf":
		d, ok := accDelta(bufText(old), new.Args[0])
		return d, ok
	case new.Op == "list" && (old.Op == "list" || old.Op == "nil" || old.Op != "const"):
		os := Segs(old)
		if len(os) > len(new.Args) {
			return nil, false
		}
		for i, s := range os {
			if new.Args[i] != s {
				return nil, false
			}
		}
		return new.Args[len(os):], true
	case new.Op == "concat" || new.Op == "const" && isStrConst(new) && isStrConst(old):
		parts := func(t *Term) []*Term {
			if t.Op == "concat" {
				return t.Args
			}
			if s, ok := t.StrVal(); ok && s == "" {
				return nil
			}
			return []*Term{t}
		}
		os, ns := parts(old), parts(new)
		if len(os) > len(ns) {
			return nil, false
		}
		for i, s := range os {
			if ns[i] != s {
				a, ok1 := s.StrVal()
				b, ok2 := ns[i].StrVal()
				if ok1 && ok2 && i == len(os)-1 && strings.HasPrefix(b, a) {
					return append([]*Term{Str(b[len(a):])}, ns[i+1:]...), true
				}
				return nil, false
			}
		}
		return ns[len(os):], true
	case new.Op == "mapupd" || new.Op == "mapdel":
		var d []*Term
		for new != old {
			if new.Op != "mapupd" && new.Op != "mapdel" {
				return nil, false
			}
			d = append([]*Term{new}, d...)
			new = new.Args[0]
		}
		return d, true
	}
	return nil, false
}

func isStrConst(t *Term) bool { _, ok := t.StrVal(); return ok }

// indexInvariant finds upper bounds of an index from what is known when it is
// stepped. It reports whether the bounds changed.
func (in *Interp) indexInvariant(l *Loop, s *slot, st *State, v *Term) bool {
	if s.step != 1 {
		return false
	}
	if !s.tried {
		s.tried = true
		var forms []*Term
		for f := range st.F.ints {
			forms = append(forms, f)
		}
		sort.Slice(forms, func(i, j int) bool { return forms[i].id < forms[j].id })
		for _, f := range forms {
			cs, _ := f.lin()
			if len(cs) != 2 && len(cs) != 1 {
				continue
			}
			ci := -1
			old := true
			for i, c := range cs {
				if c.t == s.sym && (c.c == 1 || c.c == -1) {
					ci = i
				} else if c.t.serial > l.serial {
					old = false
				}
			}
			if ci < 0 || !old {
				continue
			}
			b := st.F.ints[f]
			x, h, ok := f, b.hi, b.hasH
			if cs[ci].c < 0 {
				x, h, ok = linComb(f, -1, nil, 0), -b.lo, b.hasL
			}
			if !ok {
				continue
			}
			// x <= h, so x <= h+1 after the step
			inv := Le(x, Int(h+1))
			if l.entry.F.Decide(Subst(inv, map[*Term]*Term{s.sym: s.init})) == Yes {
				s.inv = append(s.inv, inv)
			}
		}
		return len(s.inv) > 0
	}
	for i, c := range s.inv {
		if st.F.Decide(Subst(c, map[*Term]*Term{s.sym: v})) != Yes {
			s.inv = append(append([]*Term(nil), s.inv[:i]...), s.inv[i+1:]...)
			return true
		}
	}
	return false
}

// ---- elements of lists built by loops

type instAlt struct {
	st   *State
	segs []*Term
}

func pairsOf(seg *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for i := 0; i+1 < len(seg.Args); i += 2 {
		m[seg.Args[i]] = seg.Args[i+1]
	}
	return m
}

// instantiate returns the ways an element of a list built by a loop came about.
func (in *Interp) instantiate(st *State, seg, by *Term) []instAlt {
	c := in.comps[seg.Aux]
	if c == nil {
		Undecided("unknown list part %s", seg)
	}
	var out []instAlt
	for _, t := range c.l.Trans {
		d := t.Delta[c.slot]
		if len(d) == 0 {
			continue
		}
		s2 := st.Clone()
		sub := pairsOf(seg)
		if !in.replay(s2, t, sub) {
			continue
		}
		m := newSubst(sub)
		var segs []*Term
		for _, x := range d {
			segs = append(segs, m.term(x))
		}
		s2.insts = append(s2.insts, inst{By: by, L: c.l, Sub: sub, T: t})
		out = append(out, instAlt{s2, segs})
	}
	return out
}

// replay adds what is known on a path through an iteration to another state,
// under new names for everything that was created in it.
func (in *Interp) replay(st *State, t *Trans, sub map[*Term]*Term) bool {
	l := t.L
	ren := func(x *Term) {
		if x.serial <= l.serial {
			return
		}
		if x.Op == "sym" {
			if _, ok := sub[x]; !ok {
				sub[x] = newSym(x.Aux, x.Typ)
			}
		}
		if x.Op == "obj" {
			if _, ok := sub[x]; !ok {
				terms.serial++
				o := mk("obj", x.Aux+"~"+itoa(terms.serial), x.Typ)
				o.serial = terms.serial
				sub[x] = o
			}
		}
	}
	visit := func(x *Term) { x.Mentions(func(y *Term) bool { ren(y); return false }) }
	es := t.St.F.entries()
	for _, e := range es {
		visit(e.t)
		if e.u != nil {
			visit(e.u)
		}
	}
	var objs []*Term
	for a := range t.St.heap {
		if a.serial > l.serial {
			objs = append(objs, a)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, a := range objs {
		visit(a)
		visit(t.St.heap[a])
	}
	for i := 0; i < len(l.slots); i++ {
		for _, d := range t.Delta[i] {
			visit(d)
		}
	}
	m := newSubst(sub)
	if !m.facts(st.F, t.St.F) {
		return false
	}
	for _, a := range objs {
		st.heap[m.term(a)] = m.term(t.St.heap[a])
	}
	return true
}

// ---- substitution

type substitution struct {
	sub  map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(sub map[*Term]*Term) *substitution {
	return &substitution{sub: sub, memo: map[*Term]*Term{}}
}

// Subst replaces terms in t.
func Subst(t *Term, sub map[*Term]*Term) *Term { return newSubst(sub).term(t) }

func (m *substitution) term(t *Term) *Term {
	if r, ok := m.sub[t]; ok {
		return r
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	r := t
	if t.Op == "seg:c" || t.Op == "cacc" || t.Op == "mapacc" {
		// remember the renaming for when the list is looked into
		args := append([]*Term(nil), t.Args...)
		base := 0
		if t.Op == "mapacc" {
			base = 1
			args[0] = m.term(args[0])
		}
		for i := base + 1; i < len(args); i += 2 {
			args[i] = m.term(args[i])
		}
		have := map[*Term]bool{}
		for i := base; i+1 < len(args); i += 2 {
			have[args[i]] = true
		}
		var ks []*Term
		for k := range m.sub {
			if !have[k] {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			args = append(args, k, m.sub[k])
		}
		r = mk(t.Op, t.Aux, t.Typ, args...)
		if r.serial < t.serial {
			r.serial = t.serial
		}
	} else if len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = m.term(a)
			same = same && args[i] == a
		}
		if !same {
			r = rebuild(t, args)
		}
	}
	m.memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		cs, k := t.lin()
		r := Int(k)
		for i, c := range cs {
			r = linComb(r, 1, args[i], c.c)
		}
		return r
	case "ile":
		return Le(args[0], Int(0))
	case "ieq":
		return IEq(args[0], Int(0))
	case "ord":
		return mkOrd(args[0], args[1], t.mask(), t.partial())
	case "eq":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "istype":
		return IsType(args[0], t.DTyp)
	case "iface":
		return MakeIface(args[0], t.DTyp)
	case "ifval":
		return IfaceVal(args[0], t.DTyp)
	case "fld":
		if args[0].Op == "struct" {
			return args[0].Args[fieldIndex(t.Aux)]
		}
	case "struct":
		return mkStruct(t.Typ, args)
	case "list":
		if len(args) == 0 {
			return t
		}
		return List(t.Typ, args...)
	case "len":
		return Len(args[0])
	case "concat":
		return Concat(args...)
	case "slice":
		return SliceOf(args[0], args[1], args[2], t.Typ)
	case "app":
		switch t.Aux {
		case "tostring":
			return ToString(args[0])
		case "tobytes":
			return ToBytes(args[0])
		}
	case "ext":
		return Ext(args[0], atoi(t.Aux), t.Typ)
	}
	r := mk(t.Op, t.Aux, t.Typ, args...)
	r.Fn, r.DTyp, r.Val = t.Fn, t.DTyp, t.Val
	return r
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// facts adds the renamed facts of g to f.
func (m *substitution) facts(f, g *Facts) bool {
	ok := true
	add := func(c *Term, v bool) { ok = ok && f.Assume(c, v) }
	for _, e := range g.entries() {
		if !ok {
			return false
		}
		switch e.kind {
		case "atom":
			add(m.term(e.t), g.atoms[e.t])
		case "eq":
			add(Eq(m.term(e.t), m.term(e.u)), true)
		case "ne":
			add(Eq(m.term(e.t), m.term(e.u)), false)
		case "ord":
			k := g.ord[pair{e.t, e.u}]
			add(mkOrd(m.term(e.t), m.term(e.u), k, g.partialPair(e.t)), true)
		case "int":
			b := g.ints[e.t]
			x := m.term(e.t)
			if b.hasL {
				add(Le(Int(b.lo), x), true)
			}
			if b.hasH {
				add(Le(x, Int(b.hi)), true)
			}
		case "ine":
			add(IEq(m.term(e.t), Int(0)), false)
		case "dyn":
			d := g.dyn[e.t]
			x := m.term(e.t)
			if d.is != nil {
				add(IsType(x, d.is), true)
			}
			for _, n := range d.not {
				add(IsType(x, n), false)
			}
		}
	}
	return ok
}

func (f *Facts) partialPair(t *Term) bool {
	return t.Typ != nil && isFloat(t.Typ)
}
