package flow

import (
	"golang.org/x/tools/go/ssa"

	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func itoa(n int) string { return strconv.Itoa(n) }

// Event is an observable effect on a path: a call into code outside the
// analysed program, a call the property asked to record, or a whole loop.
type Event struct {
	Name string
	Args []*Term
	Res  *Term
	Pos  token.Pos
	Run  *LoopRun
	F    *Facts // what was known when it happened
	St   *State // the state when it happened
}

type evList struct {
	prev *evList
	ev   *Event
	n    int
}

func (l *evList) len() int {
	if l == nil {
		return 0
	}
	return l.n
}

func (l *evList) since(base *evList) []*Event {
	n := l.len() - base.len()
	if n < 0 {
		n = 0
	}
	out := make([]*Event, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = l.ev
		l = l.prev
	}
	return out
}

type inst struct {
	By  *Term // index symbol of the loop that asked for an element
	L   *Loop // loop that built the list
	Sub map[*Term]*Term
	T   *Trans
}

// State is the abstract state on a path.
type State struct {
	heap   map[*Term]*Term
	F      *Facts
	evs    *evList
	runs   []*LoopRun
	allocs map[string]int
	choice map[pair]*Term
	insts  []inst
	scope  string
	fork   map[string]bool // which way an undetermined model call went
}

// NewState returns an empty state.
func (in *Interp) NewState() *State {
	return &State{heap: map[*Term]*Term{}, F: newFacts(in.Uni), allocs: map[string]int{}, choice: map[pair]*Term{}}
}

// Clone copies a state.
func (s *State) Clone() *State {
	return &State{
		heap: cp(s.heap), F: s.F.clone(), evs: s.evs,
		runs:   append([]*LoopRun(nil), s.runs...),
		allocs: cp(s.allocs), choice: cp(s.choice), insts: append([]inst(nil), s.insts...), scope: s.scope,
	}
}

// Events returns the events of the path.
func (s *State) Events() []*Event { return s.evs.since(nil) }

// Emit appends an event.
func (s *State) Emit(e *Event) {
	e.F = s.F
	s.evs = &evList{s.evs, e, s.evs.len() + 1}
}

// Assume adds a fact and reports whether the path is still possible.
func (s *State) Assume(c *Term, v bool) bool { return s.F.Assume(c, v) }

// Alloc creates a new object and returns its address.
func (s *State) Alloc(name string, typ types.Type, content *Term) *Term {
	key := name
	if s.scope != "" {
		key += "@" + s.scope
	}
	s.allocs[key]++
	if n := s.allocs[key]; n > 1 {
		key += "#" + itoa(n)
	}
	o := mk("obj", key, types.NewPointer(typ))
	if o.serial == 0 {
		terms.serial++
		o.serial = terms.serial
	}
	s.heap[o] = content
	return o
}

// Contents returns the contents of all objects.
func (s *State) Contents() []*Term {
	var out []*Term
	for _, v := range s.heap {
		out = append(out, v)
	}
	return out
}

// Store sets the content of an address directly.
func (s *State) Store(addr, v *Term) { s.heap[addr] = v }

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// load reads an address that has a single possible content.
func (in *Interp) load(st *State, addr *Term) *Term {
	if c, ok := st.heap[addr]; ok {
		return c
	}
	if c, ok := in.GHeap[addr]; ok {
		return c
	}
	switch addr.Op {
	case "&fld":
		base := addr.Args[0]
		typ := ptrElem(base.Typ)
		i := fieldIndex(addr.Aux)
		return Field(in.load(st, base), i, typ)
	case "&idx":
		base := addr.Args[0]
		return index(in.load(st, base), addr.Args[1], ptrElem(base.Typ))
	case "&elem":
		return itemOf(addr.Args[0], addr.Args[1])
	case "glob":
		if in.Globals != nil {
			if c, ok := in.Globals[addr]; ok {
				return c
			}
		}
		return mk("deref", "", ptrElem(addr.Typ), addr)
	}
	return mk("deref", "", ptrElem(addr.Typ), addr)
}

func fieldIndex(aux string) int {
	n, _ := strconv.Atoi(aux[:strings.Index(aux, ":")])
	return n
}

func (in *Interp) store(st *State, addr, v *Term) {
	switch addr.Op {
	case "&fld":
		base := addr.Args[0]
		in.store(st, base, setField(in.load(st, base), fieldIndex(addr.Aux), v, ptrElem(base.Typ)))
		return
	case "&idx":
		base := addr.Args[0]
		in.store(st, base, setIndex(in.load(st, base), addr.Args[1], v, ptrElem(base.Typ)))
		return
	}
	if in.OnStore != nil {
		in.OnStore(st, addr, v)
	}
	st.heap[addr] = v
}

func root(addr *Term) *Term {
	for addr.Op == "&fld" || addr.Op == "&idx" {
		addr = addr.Args[0]
	}
	return addr
}

// Load reads through an address in a final state.
func (in *Interp) Load(st *State, addr *Term) *Term { return in.load(st, addr) }

// ListOf returns the content of a slice as a list.
func (in *Interp) ListOf(st *State, s *Term) *Term {
	switch s.Op {
	case "sref":
		c := in.load(st, s.Args[0])
		lo, ok1 := s.Args[1].IntVal()
		hi, ok2 := s.Args[2].IntVal()
		if ok1 && ok2 {
			segs := []*Term{}
			at := ptrElem(s.Args[0].Typ)
			for i := lo; i < hi; i++ {
				segs = append(segs, segE(index(c, Int(i), at)))
			}
			if len(segs) == 0 {
				return mk("list", "", s.Typ)
			}
			return List(s.Typ, segs...)
		}
		if c.Op == "list" && s.Args[1] == Int(0) && Len(c) == s.Args[2] {
			return c
		}
		// filled by a loop over all indexes
		return mk("arr", "", s.Typ, c, s.Args[1], s.Args[2])
	case "nil":
		return mk("list", "", s.Typ)
	}
	return s
}

// Segs returns the segments of a list term.
func Segs(l *Term) []*Term {
	if l.Op == "nil" {
		return nil
	}
	if l.Op != "list" {
		return []*Term{segS(l)}
	}
	return l.Args
}

// key identifies everything observable in the state.
func (s *State) key() string {
	var ks []string
	for a, v := range s.heap {
		ks = append(ks, itoa(a.id)+":"+itoa(v.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *State) String() string {
	var ss []string
	for a, v := range s.heap {
		ss = append(ss, a.String()+" -> "+v.String())
	}
	sort.Strings(ss)
	return "heap: " + strings.Join(ss, "\n      ") + "\nfacts: " + s.F.String()
}

// SetField assigns a field of an object.
func (in *Interp) SetField(st *State, obj *Term, i int, v *Term) {
	in.store(st, obj, setField(in.load(st, obj), i, v, ptrElem(obj.Typ)))
}

// Elem makes a segment of one element.
func Elem(t *Term) *Term { return segE(t) }

// Global is the address of a package variable.
func (in *Interp) Global(g *ssa.Global) *Term { return mk("glob", g.String(), g.Type()) }
