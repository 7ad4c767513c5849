package flow

import (
	"go/types"
	"sort"
	"strings"
)

// Tri is a three-valued answer.
type Tri int

const (
	Maybe Tri = iota
	Yes
	No
)

func (t Tri) String() string { return [...]string{"maybe", "yes", "no"}[t] }

func tri(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

func (t Tri) Not() Tri {
	switch t {
	case Yes:
		return No
	case No:
		return Yes
	}
	return Maybe
}

type pair struct{ a, b *Term }

type bound struct {
	lo, hi     int64
	hasL, hasH bool
}

type tyFact struct {
	is  types.Type // known dynamic type, or nil
	not []types.Type
}

// Facts is what is known on a path. All of it is about immutable terms.
type Facts struct {
	atoms map[*Term]bool
	eq    map[*Term]*Term // equal to this constant
	ne    map[*Term][]*Term
	ord   map[pair]int // remaining orderings of a pair
	ints  map[*Term]bound
	ine   map[*Term]bool // linear forms known not to be zero
	dyn   map[*Term]tyFact
	uni   *Universe
}

// Universe supplies the closed sets of dynamic types.
type Universe struct {
	// Domain returns the possible dynamic types of a non-nil value of an interface
	// type, or nil if it is open.
	Domain func(x *Term) []types.Type
	// NonNil reports interface and pointer terms that are known never to be nil.
	NonNil func(x *Term) bool
	// Number reports floating point terms that are known not to be NaN.
	Number func(x *Term) bool
}

func newFacts(u *Universe) *Facts {
	return &Facts{
		atoms: map[*Term]bool{}, eq: map[*Term]*Term{}, ne: map[*Term][]*Term{},
		ord: map[pair]int{}, ints: map[*Term]bound{}, ine: map[*Term]bool{}, dyn: map[*Term]tyFact{}, uni: u,
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m)+4)
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (f *Facts) clone() *Facts {
	return &Facts{
		atoms: cp(f.atoms), eq: cp(f.eq), ne: cp(f.ne), ord: cp(f.ord),
		ints: cp(f.ints), ine: cp(f.ine), dyn: cp(f.dyn), uni: f.uni,
	}
}

// Known returns the constant a term is known to be equal to, or the term.
func (f *Facts) Known(t *Term) *Term {
	if t.IsConst() {
		return t
	}
	if c, ok := f.eq[t]; ok {
		return c
	}
	if b, ok := f.atoms[t]; ok {
		return Bool(b)
	}
	if b, ok := f.ints[t]; ok && b.hasL && b.hasH && b.lo == b.hi {
		return Int(b.lo)
	}
	if t.Op == "lin" {
		if n, ok := f.ub(t); ok {
			if l, ok := f.lb(t); ok && l == n {
				return Int(n)
			}
		}
	}
	return t
}

// Decide evaluates a condition.
func (f *Facts) Decide(c *Term) Tri {
	switch c.Op {
	case "const":
		v, _ := c.BoolVal()
		return tri(v)
	case "not":
		return f.Decide(c.Args[0]).Not()
	case "and":
		r := Yes
		for _, a := range c.Args {
			switch f.Decide(a) {
			case No:
				return No
			case Maybe:
				r = Maybe
			}
		}
		return r
	case "or":
		r := No
		for _, a := range c.Args {
			switch f.Decide(a) {
			case Yes:
				return Yes
			case Maybe:
				r = Maybe
			}
		}
		return r
	case "eq":
		a, b := f.Known(c.Args[0]), f.Known(c.Args[1])
		if a != c.Args[0] || b != c.Args[1] {
			if a == c.Args[0] && b.IsConst() {
				for _, n := range f.ne[a] {
					if n == b {
						return No
					}
				}
			}
			e := Eq(a, b)
			if e != c {
				return f.Decide(e)
			}
		}
		if b.IsConst() {
			for _, n := range f.ne[a] {
				if n == b {
					return No
				}
			}
			if s, ok := b.StrVal(); ok && s == "" && !a.IsConst() {
				if d := f.Decide(IEq(Len(a), Int(0))); d != Maybe {
					return d
				}
			}
			if b.Op == "nil" {
				if d, ok := f.dyn[a]; ok && d.is != nil {
					return No
				}
				if f.uni != nil && f.uni.NonNil != nil && f.uni.NonNil(a) {
					return No
				}
			}
		} else {
			// one may be a constant the other is not
			for _, n := range f.ne[a] {
				if n == b {
					return No
				}
			}
		}
		if v, ok := f.atoms[c]; ok {
			return tri(v)
		}
		return Maybe
	case "ord":
		k := f.orders(c)
		if k&^c.mask() == 0 {
			return Yes
		}
		if k&c.mask() == 0 {
			return No
		}
		return Maybe
	case "ile":
		if u, ok := f.ub(c.Args[0]); ok && u <= 0 {
			return Yes
		}
		if l, ok := f.lb(c.Args[0]); ok && l > 0 {
			return No
		}
		return Maybe
	case "ieq":
		x := c.Args[0]
		u, okU := f.ub(x)
		l, okL := f.lb(x)
		if okU && okL && u == 0 && l == 0 {
			return Yes
		}
		if okU && u < 0 || okL && l > 0 || f.ine[x] {
			return No
		}
		return Maybe
	case "istype":
		return f.isType(c.Args[0], c.DTyp)
	}
	if v, ok := f.atoms[c]; ok {
		return tri(v)
	}
	if k, ok := f.eq[c]; ok {
		if v, ok := k.BoolVal(); ok {
			return tri(v)
		}
	}
	return Maybe
}

// orders returns the possible orderings of the operands of a comparison.
func (f *Facts) orders(c *Term) int {
	k, ok := f.ord[pair{c.Args[0], c.Args[1]}]
	if !ok {
		k = ordLT | ordEQ | ordGT
		if c.partial() {
			k |= ordUN
		}
	}
	if k&ordUN != 0 && f.isNumber(c.Args[0]) && f.isNumber(c.Args[1]) {
		k &^= ordUN
	}
	return k
}

// isNumber reports floating point terms that are not NaN.
func (f *Facts) isNumber(t *Term) bool {
	if t.Op == "const" {
		return true
	}
	if t.Op == "app" && strings.HasPrefix(t.Aux, "conv:float") && t.Args[0].Typ != nil && isInt(t.Args[0].Typ) {
		return true
	}
	if f.uni != nil && f.uni.Number != nil && f.uni.Number(t) {
		return true
	}
	for p, k := range f.ord {
		if k&ordUN == 0 && (p.a == t || p.b == t) {
			return true
		}
	}
	return false
}

func (f *Facts) domain(x *Term) []types.Type {
	if f.uni == nil || f.uni.Domain == nil {
		return nil
	}
	return f.uni.Domain(x)
}

// DynTypes returns the possible dynamic types of x if they form a closed set.
func (f *Facts) DynTypes(x *Term) []types.Type {
	if x.Op == "iface" {
		return []types.Type{x.DTyp}
	}
	d := f.dyn[x]
	if d.is != nil {
		return []types.Type{d.is}
	}
	var out []types.Type
	for _, t := range f.domain(x) {
		ex := false
		for _, n := range d.not {
			ex = ex || types.Identical(n, t)
		}
		if !ex {
			out = append(out, t)
		}
	}
	return out
}

func (f *Facts) isType(x *Term, t types.Type) Tri {
	if k, ok := f.eq[x]; ok && k.Op == "nil" {
		return No
	}
	match := func(c types.Type) bool {
		if types.IsInterface(t) {
			return types.Implements(c, t.Underlying().(*types.Interface))
		}
		return types.Identical(c, t)
	}
	d := f.dyn[x]
	if d.is != nil {
		return tri(match(d.is))
	}
	for _, n := range d.not {
		if types.Identical(n, t) {
			return No
		}
	}
	if ts := f.DynTypes(x); len(ts) > 0 {
		all, none := true, true
		for _, c := range ts {
			if match(c) {
				none = false
			} else {
				all = false
			}
		}
		if none {
			return No
		}
		if all && f.Decide(mk("eq", "", types.Typ[types.Bool], x, Nil)) == No {
			return Yes
		}
	} else if f.domain(x) != nil {
		return No
	}
	if types.IsInterface(t) && x.Typ != nil && types.IsInterface(x.Typ) &&
		types.Implements(x.Typ, t.Underlying().(*types.Interface)) && f.Decide(mk("eq", "", types.Typ[types.Bool], x, Nil)) == No {
		return Yes
	}
	return Maybe
}

// Assume adds a condition and reports whether it is possible.
func (f *Facts) Assume(c *Term, v bool) bool {
	switch f.Decide(c) {
	case Yes:
		return v
	case No:
		return !v
	}
	if !v {
		switch c.Op {
		case "ord", "ile":
			return f.Assume(Not(c), true)
		case "not":
			return f.Assume(c.Args[0], true)
		}
	}
	switch c.Op {
	case "not":
		return f.Assume(c.Args[0], false)
	case "and":
		if v {
			for _, a := range c.Args {
				if !f.Assume(a, true) {
					return false
				}
			}
			return true
		}
		// all but one known true: the rest is false
		var rest []*Term
		for _, a := range c.Args {
			if f.Decide(a) == Maybe {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return f.Assume(rest[0], false)
		}
		f.atoms[c] = false
		return true
	case "or":
		if !v {
			for _, a := range c.Args {
				if !f.Assume(a, false) {
					return false
				}
			}
			return true
		}
		var rest []*Term
		for _, a := range c.Args {
			if f.Decide(a) == Maybe {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return f.Assume(rest[0], true)
		}
		f.atoms[c] = true
		return true
	case "eq":
		a, b := f.Known(c.Args[0]), f.Known(c.Args[1])
		if !v && a == c.Args[0] && b.IsConst() {
			f.ne[a] = append(append([]*Term(nil), f.ne[a]...), b)
			return true
		}
		if a != c.Args[0] || b != c.Args[1] {
			if e := Eq(a, b); e != c {
				return f.Assume(e, v)
			}
		}
		if b.IsConst() {
			if v {
				f.eq[a] = b
			} else {
				f.ne[a] = append(append([]*Term(nil), f.ne[a]...), b)
			}
			return true
		}
		f.atoms[c] = v
		return true
	case "ord":
		f.ord[pair{c.Args[0], c.Args[1]}] = f.orders(c) & c.mask()
		return true
	case "ile":
		return f.addUB(c.Args[0], 0)
	case "ieq":
		if v {
			x := c.Args[0]
			return f.addUB(x, 0) && f.addUB(linComb(x, -1, nil, 0), 0)
		}
		f.ine[c.Args[0]] = true
		// sharpen bounds
		if u, ok := f.ub(c.Args[0]); ok && u == 0 {
			return f.addUB(c.Args[0], -1)
		}
		if l, ok := f.lb(c.Args[0]); ok && l == 0 {
			return f.addUB(linComb(c.Args[0], -1, nil, 0), -1)
		}
		return true
	case "istype":
		x := c.Args[0]
		d := f.dyn[x]
		if v {
			if types.IsInterface(c.DTyp) {
				f.atoms[c] = true
				return true
			}
			f.dyn[x] = tyFact{is: c.DTyp}
			delete(f.eq, x)
			return true
		}
		if types.IsInterface(c.DTyp) {
			f.atoms[c] = false
			return true
		}
		f.dyn[x] = tyFact{not: append(append([]types.Type(nil), d.not...), c.DTyp)}
		if ts := f.DynTypes(x); len(ts) == 0 && f.domain(x) != nil && f.Decide(mk("eq", "", types.Typ[types.Bool], x, Nil)) == No {
			return false
		}
		return true
	}
	f.atoms[c] = v
	return true
}

// ---- integer bounds

// split returns a linear form without its constant, sign normalised, and the
// way back: x = sign*form + k.
func split(x *Term) (form *Term, sign, k int64) {
	cs, k := x.lin()
	if len(cs) == 0 {
		return nil, 1, k
	}
	m := map[*Term]int64{}
	sign = 1
	if cs[0].c < 0 {
		sign = -1
	}
	for _, c := range cs {
		m[c.t] = c.c * sign
	}
	return mkLin(m, 0), sign, k
}

func (f *Facts) addUB(x *Term, hi int64) bool {
	form, sign, k := split(x)
	if form == nil {
		return k <= hi
	}
	b := f.ints[form]
	if sign > 0 {
		n := hi - k
		if !b.hasH || n < b.hi {
			b.hi, b.hasH = n, true
		}
	} else {
		n := k - hi
		if !b.hasL || n > b.lo {
			b.lo, b.hasL = n, true
		}
	}
	// sharpen with disequalities
	for i := 0; i < 3; i++ {
		if b.hasH && f.ine[shiftForm(form, -b.hi)] {
			b.hi--
		}
		if b.hasL && f.ine[shiftForm(form, -b.lo)] {
			b.lo++
		}
	}
	f.ints[form] = b
	if b.hasL && b.hasH && b.lo > b.hi {
		return false
	}
	if l, ok := f.lb(form); ok && b.hasH && l > b.hi {
		return false
	}
	if u, ok := f.ub(form); ok && b.hasL && u < b.lo {
		return false
	}
	return true
}

func shiftForm(form *Term, k int64) *Term {
	t := Add(form, Int(k))
	cs, _ := t.lin()
	if len(cs) > 0 && cs[0].c < 0 {
		t = linComb(t, -1, nil, 0)
	}
	return t
}

func (f *Facts) lb(x *Term) (int64, bool) {
	n, ok := f.ub(linComb(x, -1, nil, 0))
	return -n, ok
}

func (f *Facts) ub(x *Term) (int64, bool) {
	return f.ubRec(x, 3, map[*Term]bool{})
}

// Consistent looks for a contradiction among the bounds more thoroughly than is
// done on every step.
func (f *Facts) Consistent() bool {
	for g, b := range f.ints {
		if u, ok := f.ubRec(g, 4, map[*Term]bool{}); ok && b.hasL && u < b.lo {
			return false
		}
		if u, ok := f.ubRec(linComb(g, -1, nil, 0), 4, map[*Term]bool{}); ok && b.hasH && -u > b.hi {
			return false
		}
	}
	return true
}

func atomLB(t *Term) (int64, bool) {
	if t.Op == "len" {
		return 0, true
	}
	if t.Op == "app" {
		switch t.Aux {
		case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount", "strings.Count", "bytes.Count", "cap":
			return 0, true
		case "strings.Index", "strings.IndexByte", "strings.IndexAny", "strings.LastIndex", "bytes.Index":
			return -1, true
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return 0, true
		}
	}
	return 0, false
}

func (f *Facts) ubRec(x *Term, depth int, busy map[*Term]bool) (best int64, found bool) {
	cs, k := x.lin()
	if len(cs) == 0 {
		return k, true
	}
	take := func(n int64) {
		if !found || n < best {
			best, found = n, true
		}
	}
	form, sign, _ := split(x)
	if b, ok := f.ints[form]; ok {
		if sign > 0 && b.hasH {
			take(b.hi + k)
		}
		if sign < 0 && b.hasL {
			take(-b.lo + k)
		}
	}
	// implied bounds of single atoms
	if len(cs) == 1 && cs[0].c < 0 {
		if lo, ok := atomLB(cs[0].t); ok {
			take(cs[0].c*lo + k)
		}
	}
	// number of characters is at most the number of bytes
	if len(cs) == 2 {
		if n, ok := runesLeBytes(cs); ok {
			take(n + k)
		}
	}
	if depth == 0 || busy[form] {
		return
	}
	busy[form] = true
	defer delete(busy, form)
	type cand struct {
		t *Term // t <= n
		n int64
	}
	var cands []cand
	for g, b := range f.ints {
		if g == form {
			continue
		}
		if b.hasH {
			cands = append(cands, cand{g, b.hi})
		}
		if b.hasL {
			cands = append(cands, cand{linComb(g, -1, nil, 0), -b.lo})
		}
	}
	for _, c := range cs {
		if c.c < 0 {
			if lo, ok := atomLB(c.t); ok {
				cands = append(cands, cand{mkLin(map[*Term]int64{c.t: -1}, 0), -lo})
			}
		}
		if c.c > 0 {
			if b := runeParent(c.t); b != nil {
				cands = append(cands, cand{Sub(c.t, Len(b)), 0})
			}
		}
	}
	for _, c := range cands {
		// the candidate must remove something of x
		hit := false
		ccs, _ := c.t.lin()
		for _, cc := range ccs {
			for _, xc := range cs {
				if cc.t == xc.t && (cc.c > 0) == (xc.c > 0) {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		rest := Sub(x, c.t)
		if rs, rk := rest.lin(); len(rs) > len(cs) {
			// too much of a detour, unless it is a fact
			g, sign, _ := split(rest)
			if b, ok := f.ints[g]; ok && sign > 0 && b.hasH {
				take(b.hi + rk + c.n)
			} else if ok && sign < 0 && b.hasL {
				take(-b.lo + rk + c.n)
			}
			continue
		}
		if n, ok := f.ubRec(rest, depth-1, busy); ok {
			take(n + c.n)
		}
	}
	return
}

// runeParent returns s for the number of characters of s.
func runeParent(t *Term) *Term {
	if t.Op == "app" && (t.Aux == "unicode/utf8.RuneCountInString" || t.Aux == "unicode/utf8.RuneCount") {
		return t.Args[0]
	}
	if t.Op == "len" && t.Args[0].Op == "app" && t.Args[0].Aux == "runes" {
		return t.Args[0].Args[0]
	}
	return nil
}

func runesLeBytes(cs []coef) (int64, bool) {
	for i := 0; i < 2; i++ {
		a, b := cs[i], cs[1-i]
		if a.c == 1 && b.c == -1 && b.t.Op == "len" {
			if p := runeParent(a.t); p != nil && p == b.t.Args[0] {
				return 0, true
			}
			// characters of a prefix
			if p := runeParent(a.t); p != nil && p.Op == "slice" {
				if q := runeParent(b.t); q != nil && q == p.Args[0] {
					return 0, true
				}
			}
		}
	}
	return 0, false
}

// ---- printing and comparison

// entries lists the facts as sorted strings with the age of their newest symbol.
type entry struct {
	key    string
	serial int
	text   string
	kind   string
	t, u   *Term
}

func (f *Facts) entries() []entry {
	var out []entry
	for t, v := range f.atoms {
		s := t.String()
		if !v {
			s = "!" + s
		}
		out = append(out, entry{kind: "atom", t: t, serial: t.serial, text: s, key: "a" + itoa(t.id) + b01(v)})
	}
	for t, c := range f.eq {
		out = append(out, entry{kind: "eq", t: t, u: c, serial: max(t.serial, c.serial), text: t.String() + "=" + c.String(), key: "e" + itoa(t.id) + "=" + itoa(c.id)})
	}
	for t, cs := range f.ne {
		for _, c := range cs {
			out = append(out, entry{kind: "ne", t: t, u: c, serial: max(t.serial, c.serial), text: t.String() + "≠" + c.String(), key: "n" + itoa(t.id) + "=" + itoa(c.id)})
		}
	}
	for p, m := range f.ord {
		out = append(out, entry{kind: "ord", t: p.a, u: p.b, serial: max(p.a.serial, p.b.serial), text: p.a.String() + maskString(m) + p.b.String(), key: "o" + itoa(p.a.id) + "," + itoa(p.b.id) + ":" + itoa(m)})
	}
	for t, b := range f.ints {
		s, k := "", ""
		if b.hasL {
			s += itoa(int(b.lo)) + "<="
			k += "L" + itoa(int(b.lo))
		}
		s += t.String()
		if b.hasH {
			s += "<=" + itoa(int(b.hi))
			k += "H" + itoa(int(b.hi))
		}
		out = append(out, entry{kind: "int", t: t, serial: t.serial, text: s, key: "i" + itoa(t.id) + k})
	}
	for t := range f.ine {
		out = append(out, entry{kind: "ine", t: t, serial: t.serial, text: t.String() + "≠0", key: "x" + itoa(t.id)})
	}
	for t, d := range f.dyn {
		s := ""
		if d.is != nil {
			s = "is " + typeKey(d.is)
		} else {
			var ns []string
			for _, n := range d.not {
				ns = append(ns, shortName(typeKey(n)))
			}
			sort.Strings(ns)
			s = "is not " + strings.Join(ns, ",")
		}
		out = append(out, entry{kind: "dyn", t: t, serial: t.serial, text: t.String() + " " + shortName(s), key: "d" + itoa(t.id) + s})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// Comparison is a known relation of two numbers: A is less than, equal to or
// greater than B where that is not excluded.
type Comparison struct {
	A, B           *Term
	LT, EQ, GT, UN bool
}

// Comparisons lists what is known of the order of numbers.
func (f *Facts) Comparisons() []Comparison {
	var out []Comparison
	for p, m := range f.ord {
		out = append(out, Comparison{p.a, p.b, m&ordLT != 0, m&ordEQ != 0, m&ordGT != 0, m&ordUN != 0})
	}
	for t, b := range f.ints {
		if b.hasL {
			out = append(out, Comparison{A: t, B: Int(b.lo), EQ: true, GT: true})
		}
		if b.hasH {
			out = append(out, Comparison{A: t, B: Int(b.hi), EQ: true, LT: true})
		}
	}
	return out
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// keep returns the facts that only mention symbols not newer than serial.
func (f *Facts) keep(serial int) *Facts {
	o := newFacts(f.uni)
	for t, v := range f.atoms {
		if t.serial <= serial {
			o.atoms[t] = v
		}
	}
	for t, v := range f.eq {
		if t.serial <= serial && v.serial <= serial {
			o.eq[t] = v
		}
	}
	for t, v := range f.ne {
		if t.serial <= serial {
			var ns []*Term
			for _, n := range v {
				if n.serial <= serial {
					ns = append(ns, n)
				}
			}
			if len(ns) > 0 {
				o.ne[t] = ns
			}
		}
	}
	for p, v := range f.ord {
		if p.a.serial <= serial && p.b.serial <= serial {
			o.ord[p] = v
		}
	}
	for t, v := range f.ints {
		if t.serial <= serial {
			o.ints[t] = v
		}
	}
	for t, v := range f.ine {
		if t.serial <= serial {
			o.ine[t] = v
		}
	}
	for t, v := range f.dyn {
		if t.serial <= serial {
			o.dyn[t] = v
		}
	}
	return o
}

func (f *Facts) key() string {
	var sb strings.Builder
	for _, e := range f.entries() {
		sb.WriteString(e.key)
		sb.WriteByte(';')
	}
	return sb.String()
}

func (f *Facts) String() string {
	var ss []string
	for _, e := range f.entries() {
		ss = append(ss, e.text)
	}
	sort.Strings(ss)
	return strings.Join(ss, ", ")
}

// Atoms calls g for every condition that is known to hold or not to hold.
func (f *Facts) Atoms(g func(t *Term, v bool)) {
	for t, v := range f.atoms {
		g(t, v)
	}
}
