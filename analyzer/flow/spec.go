package flow

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Formula is a property of a state.
type Formula struct {
	kind string
	t    *Term
	sub  []*Formula
	list *Term
	v    *Term
}

// T is the formula that a condition holds.
func T(t *Term) *Formula { return &Formula{kind: "term", t: t} }

// FNot, FAnd and FOr combine formulas.
func FNot(f *Formula) *Formula     { return &Formula{kind: "not", sub: []*Formula{f}} }
func FAnd(fs ...*Formula) *Formula { return &Formula{kind: "and", sub: fs} }
func FOr(fs ...*Formula) *Formula  { return &Formula{kind: "or", sub: fs} }

var boundVars int

// Exists is the formula that some element of a list satisfies body.
func Exists(list *Term, typ types.Type, body func(x *Term) *Formula) *Formula {
	boundVars++
	v := Sym(fmt.Sprintf("∃%d", boundVars), typ)
	return &Formula{kind: "exists", list: list, v: v, sub: []*Formula{body(v)}}
}

func (f *Formula) subst(m *substitution) *Formula {
	g := *f
	if f.t != nil {
		g.t = m.term(f.t)
	}
	if f.list != nil {
		g.list = m.term(f.list)
	}
	g.sub = nil
	for _, s := range f.sub {
		g.sub = append(g.sub, s.subst(m))
	}
	return &g
}

func (f *Formula) String() string {
	switch f.kind {
	case "term":
		return f.t.String()
	case "not":
		return "not(" + f.sub[0].String() + ")"
	case "exists":
		return "exists " + f.v.String() + " in " + f.list.String() + ": " + f.sub[0].String()
	}
	var ss []string
	for _, s := range f.sub {
		ss = append(ss, s.String())
	}
	return "(" + strings.Join(ss, " "+f.kind+" ") + ")"
}

// Eval evaluates a formula on the state at the end of a path.
func (in *Interp) Eval(f *Formula, st *State) Tri {
	return (&evaluator{in: in}).eval(f, st, []*State{st})
}

type evaluator struct {
	in    *Interp
	depth int
	outer int
}

func (ev *evaluator) eval(f *Formula, st *State, stack []*State) Tri {
	switch f.kind {
	case "term":
		return st.F.Decide(f.t)
	case "not":
		return ev.eval(f.sub[0], st, stack).Not()
	case "and":
		r := Yes
		for _, s := range f.sub {
			switch ev.eval(s, st, stack) {
			case No:
				return No
			case Maybe:
				r = Maybe
			}
		}
		return r
	case "or":
		r := No
		for _, s := range f.sub {
			switch ev.eval(s, st, stack) {
			case Yes:
				return Yes
			case Maybe:
				r = Maybe
			}
		}
		return r
	}
	return ev.exists(f, st, stack)
}

func (f *Formula) with(x *Term) *Formula {
	return f.sub[0].subst(newSubst(map[*Term]*Term{f.v: x}))
}

func (ev *evaluator) exists(f *Formula, st *State, stack []*State) Tri {
	ev.depth++
	defer func() { ev.depth-- }()
	if ev.depth > 12 {
		return Maybe
	}
	b := st.F.Known(f.list)
	if b.Op == "nil" || st.F.Decide(Le(Len(b), Int(0))) == Yes {
		return No
	}
	if b.Op == "list" {
		all := No
		for _, s := range b.Args {
			r := Maybe
			switch s.Op {
			case "seg:e":
				r = ev.eval(f.with(s.Args[0]), st, stack)
			case "seg:s":
				g := *f
				g.list = s.Args[0]
				r = ev.exists(&g, st, stack)
			}
			if r == Yes {
				return Yes
			}
			if r == Maybe {
				all = Maybe
			}
		}
		return all
	}
	// false for whatever the element is
	if ev.eval(f.sub[0], st, stack) == No {
		return No
	}
	for _, c := range ev.candidates(b, st) {
		if ev.eval(f.with(c), st, stack) == Yes {
			return Yes
		}
	}
	for i := len(st.runs) - 1; i >= 0; i-- {
		r := st.runs[i]
		if e, complete, ok := r.ranges(b); ok {
			switch ev.runStatus(r, e, f, stack) {
			case Yes:
				return Yes
			case No:
				if complete {
					return No
				}
			}
		}
	}
	if ev.outer == 0 {
		ev.outer++
		defer func() { ev.outer-- }()
		for i := len(st.runs) - 1; i >= 0; i-- {
			if ev.passed(st.runs[i], f, stack) {
				return Yes
			}
		}
	}
	return Maybe
}

// passed tells whether f is known to hold in some iteration on every way through
// a loop to where it was left.
func (ev *evaluator) passed(r *LoopRun, f *Formula, stack []*State) bool {
	l := r.L
	holds := map[*Trans]bool{}
	any := false
	reach := l.reach(r.Exit.From)
	for _, t := range l.Trans {
		if !reach[t.To] {
			continue
		}
		for _, c := range ev.candidates(f.list, t.St) {
			if ev.eval(f.with(c), t.St, append(stack, t.St)) == Yes {
				holds[t] = true
				any = true
				break
			}
		}
	}
	if !any || len(l.Parts) == 0 {
		return false
	}
	// the exit must not be reachable without such an iteration
	seen := map[*Part]bool{l.Parts[0]: true}
	work := []*Part{l.Parts[0]}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p == r.Exit.From {
			return false
		}
		for _, t := range l.Trans {
			if t.From == p && !holds[t] && !seen[t.To] {
				seen[t.To] = true
				work = append(work, t.To)
			}
		}
	}
	return true
}

// candidates are the elements of a list that something is known about.
func (ev *evaluator) candidates(b *Term, st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	visit := func(t *Term) {
		t.Mentions(func(x *Term) bool {
			if x.Op == "elem" && x.Args[0] == b && !seen[x] {
				seen[x] = true
				i := x.Args[1]
				if st.F.Decide(Le(Int(0), i)) == Yes && st.F.Decide(Lt(i, Len(b))) == Yes {
					out = append(out, x)
				}
			}
			return false
		})
	}
	for _, e := range st.F.entries() {
		visit(e.t)
		if e.u != nil {
			visit(e.u)
		}
	}
	for _, v := range st.choice {
		visit(v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// ranges reports whether a loop visits the elements of b one by one, and all of
// them when it was left on this path. It returns the index of the element
// visited by an iteration.
func (r *LoopRun) ranges(b *Term) (e *Term, complete, ok bool) {
	return r.L.ranges(b, r.Exit)
}

func (l *Loop) ranges(b *Term, exit *Trans) (e *Term, complete, ok bool) {
	for _, s := range l.slots {
		if s.mode != modeIndex {
			continue
		}
		for _, k := range []int64{0, 1, -1} {
			x := Add(s.sym, Int(k))
			x0 := Add(s.init, Int(k))
			switch s.step {
			case 1:
				if l.entry.F.Decide(IEq(x0, Int(0))) != Yes {
					continue
				}
				// the index is known to be below the length in every iteration
				if !l.visits(b, x) {
					continue
				}
				return x, exit != nil && exit.St.F.Decide(Le(Len(b), x)) == Yes, true
			case -1:
				if l.entry.F.Decide(IEq(x0, Sub(Len(b), Int(1)))) != Yes || !l.visits(b, x) {
					continue
				}
				return x, exit != nil && exit.St.F.Decide(Lt(x, Int(0))) == Yes, true
			}
		}
	}
	return nil, false, false
}

func (l *Loop) visits(b, x *Term) bool {
	for _, t := range l.Trans {
		if t.St.F.Decide(Lt(x, Len(b))) != Yes || t.St.F.Decide(Le(Int(0), x)) != Yes {
			return false
		}
	}
	return true
}

// reach returns the parts from which p can be reached.
func (l *Loop) reach(p *Part) map[*Part]bool {
	m := map[*Part]bool{p: true}
	for changed := true; changed; {
		changed = false
		for _, t := range l.Trans {
			if m[t.To] && !m[t.From] {
				m[t.From] = true
				changed = true
			}
		}
	}
	return m
}

// runStatus tells whether an element satisfying f was met before the loop was
// left on this path.
func (ev *evaluator) runStatus(r *LoopRun, e *Term, f *Formula, stack []*State) Tri {
	l := r.L
	if len(l.Parts) == 0 {
		return Maybe
	}
	reach := l.reach(r.Exit.From)
	label := map[*Trans]Tri{}
	x := mk("elem", "", elemType(f.list.Typ), f.list, e)
	for _, t := range l.Trans {
		if !reach[t.To] {
			continue
		}
		g := f.with(x)
		v := ev.eval(g, t.St, append(stack, t.St))
		if v == Maybe {
			v = ev.advance(t, g, stack)
		}
		label[t] = v
	}
	type node struct {
		p *Part
		s Tri
	}
	seen := map[node]bool{}
	work := []node{{l.Parts[0], No}}
	seen[work[0]] = true
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range l.Trans {
			if t.From != n.p || !reach[t.To] {
				continue
			}
			s := n.s
			if s != Yes {
				switch label[t] {
				case Yes:
					s = Yes
				case Maybe:
					s = Maybe
				}
			}
			m := node{t.To, s}
			if !seen[m] {
				seen[m] = true
				work = append(work, m)
			}
		}
	}
	res := Tri(-1)
	for n := range seen {
		if n.p != r.Exit.From {
			continue
		}
		if res == Tri(-1) {
			res = n.s
		} else if res != n.s {
			res = Maybe
		}
	}
	if res == Tri(-1) {
		return Maybe
	}
	return res
}

// advance follows an element that an iteration put into a list to the loops
// that take it out again, and evaluates g there.
func (ev *evaluator) advance(t *Trans, g *Formula, stack []*State) Tri {
	for i, d := range t.Delta {
		// only a single element is certainly taken out again
		single := false
		for _, x := range d {
			single = single || x.Op == "seg:e"
		}
		if !single {
			continue
		}
		key := t.L.ID + "/" + t.L.slots[i].key
		for si := len(stack) - 1; si >= 0; si-- {
			st := stack[si]
			for ri := len(st.runs) - 1; ri >= 0; ri-- {
				r := st.runs[ri]
				if r.L == t.L {
					continue
				}
				if v, ok := ev.consumed(r, key, t, g, append(stack, st)); ok {
					return v
				}
			}
		}
	}
	return Maybe
}

// consumed evaluates g in all iterations of a loop that look at the elements
// added by t. It answers No if g is false in all of them.
func (ev *evaluator) consumed(r *LoopRun, key string, t *Trans, g *Formula, stack []*State) (Tri, bool) {
	l := r.L
	// the list it goes through
	var list *Term
	for _, u := range l.Trans {
		for p := range u.St.choice {
			if p.a.Mentions(func(x *Term) bool { return x.Op == "seg:c" && x.Aux == key }) || ev.contains(p.a, key, 0) {
				if _, complete, ok := l.ranges(p.a, r.Exit); ok && complete {
					list = p.a
				}
			}
		}
	}
	if list == nil {
		return Maybe, false
	}
	reach := l.reach(r.Exit.From)
	for _, u := range l.Trans {
		if !reach[u.To] {
			continue
		}
		for _, in := range u.St.insts {
			if in.T != t {
				continue
			}
			h := g.subst(newSubst(in.Sub))
			v := ev.eval(h, u.St, append(stack, u.St))
			if v == Maybe {
				v = ev.advance(u, h, stack)
			}
			if v != No {
				return Maybe, true
			}
		}
	}
	return No, true
}

// contains reports whether elements added under key end up in a list.
func (ev *evaluator) contains(list *Term, key string, depth int) bool {
	if depth > 6 {
		return false
	}
	found := false
	list.Mentions(func(x *Term) bool {
		if x.Op == "seg:c" {
			if x.Aux == key {
				found = true
				return true
			}
			c := ev.in.comps[x.Aux]
			if c == nil {
				return false
			}
			for _, t := range c.l.Trans {
				for _, d := range t.Delta[c.slot] {
					if ev.contains(d, key, depth+1) {
						found = true
						return true
					}
				}
			}
		}
		return false
	})
	return found
}

// Candidates are the elements of a list that something is known about.
func (in *Interp) Candidates(list *Term, st *State) []*Term {
	return (&evaluator{in: in}).candidates(list, st)
}

// Addition is what an iteration of a loop over a list adds to another list.
type Addition struct {
	St   *State
	Elem *Term
	Add  []*Term
}

// Comprehension describes a list that a loop over the list src has built. It
// reports whether the loop visited all of src on this path.
func (in *Interp) Comprehension(st *State, seg, src *Term) (out []Addition, complete bool) {
	c := in.comps[seg.Aux]
	if c == nil {
		return nil, false
	}
	var run *LoopRun
	for _, r := range st.runs {
		if r.L == c.l {
			run = r
		}
	}
	if run == nil {
		return nil, false
	}
	x, complete, ok := run.ranges(src)
	if !ok {
		return in.staged(st, run, c, src)
	}
	for _, t := range c.l.Trans {
		out = append(out, Addition{St: t.St, Elem: mk("elem", "", elemType(src.Typ), src, x), Add: t.Delta[c.slot]})
	}
	return out, complete
}

// staged describes a list built by a loop over a list that was itself built by a
// loop over src, one element at a time.
func (in *Interp) staged(st *State, run *LoopRun, c *comp, src *Term) (out []Addition, complete bool) {
	var mid *Term
	for _, t := range c.l.Trans {
		for p := range t.St.choice {
			if l := p.a; l.Op == "list" && len(l.Args) == 1 && l.Args[0].Op == "seg:c" && (mid == nil || l.id < mid.id) {
				if _, _, ok := run.ranges(l); ok {
					mid = l
				}
			}
		}
	}
	if mid == nil {
		return nil, false
	}
	x, all, _ := run.ranges(mid)
	inner, allInner := in.Comprehension(st, mid.Args[0], src)
	ic := in.comps[mid.Args[0].Aux]
	if inner == nil || ic == nil {
		return nil, false
	}
	var xi *Term
	for _, a := range inner {
		if len(a.Add) > 1 || len(a.Add) == 1 && a.Add[0].Op != "seg:e" {
			return nil, false
		}
		if len(a.Add) == 0 {
			out = append(out, a)
		}
		xi = a.Elem
	}
	by := x
	if cs, _ := x.lin(); len(cs) == 1 {
		by = cs[0].t
	}
	for _, t := range c.l.Trans {
		found := false
		for _, i := range t.St.insts {
			if i.L == ic.l && i.By == by {
				out = append(out, Addition{St: t.St, Elem: newSubst(i.Sub).term(xi), Add: t.Delta[c.slot]})
				found = true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return out, all && allInner
}

// Reachable returns the contents of all objects that can be reached from a value.
func (in *Interp) Reachable(st *State, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		out = append(out, t)
		t.Mentions(func(x *Term) bool {
			if x.Op == "obj" && !seen[x] {
				seen[x] = true
				if c, ok := st.heap[x]; ok {
					add(c)
				}
			}
			return false
		})
	}
	add(v)
	return out
}

// Pieces returns the texts a text is composed of.
func (in *Interp) Pieces(st *State, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "concat":
			for _, a := range t.Args {
				add(a)
			}
		case t.Op == "cacc" && in.comps[t.Aux] != nil:
			c := in.comps[t.Aux]
			for _, tr := range c.l.Trans {
				for _, d := range tr.Delta[c.slot] {
					add(d)
				}
			}
		default:
			out = append(out, t)
		}
	}
	add(t)
	return out
}

// Objects returns the objects that exist in a state, including those created in
// loops on the way.
func (st *State) Objects() map[*Term]bool {
	out := map[*Term]bool{}
	var add func(s *State)
	seen := map[*Loop]bool{}
	add = func(s *State) {
		for a := range s.heap {
			out[a] = true
		}
		for _, r := range s.runs {
			if seen[r.L] {
				continue
			}
			seen[r.L] = true
			for _, t := range r.L.Trans {
				add(t.St)
			}
		}
	}
	add(st)
	return out
}

// In tells whether an object, or the object it is a copy of, is in a set.
func (t *Term) In(set map[*Term]bool) bool {
	if i := strings.Index(t.Aux, "~"); i >= 0 {
		return set[mk("obj", t.Aux[:i], t.Typ)]
	}
	return set[t]
}
