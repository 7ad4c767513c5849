package flow

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = []string{
	"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "errors.", "path/filepath.",
	"regexp.", "(*regexp.Regexp).", "regexp/syntax.", "(*regexp/syntax.Regexp).",
	"time.Parse", "time.Date", "time.Unix", "(time.Time).", "(time.Duration).", "(time.Month).", "(*time.ParseError).",
	"net/netip.", "(net/netip.Prefix).", "(net/netip.Addr).",
	"encoding/json.Valid", "encoding/json.Marshal",
	"github.com/araddon/dateparse.",
	"golang.org/x/text/language.", "golang.org/x/text/search.", "(*golang.org/x/text/search.Matcher).", "(*golang.org/x/text/search.Pattern).", "(golang.org/x/text/language.Tag).",
	"fmt.Sprint", "fmt.Errorf", "fmt.Append",
	"bytes.Contains", "bytes.Index", "bytes.Has", "bytes.Equal", "bytes.Trim", "bytes.To", "bytes.Count", "bytes.Split", "bytes.Fields", "bytes.Runes", "bytes.LastIndex", "bytes.Compare", "bytes.Title", "bytes.Replace",
	"invoke (error).Error", "invoke (fmt.Stringer).String",
	"html.", "html/template.HTMLEscape", "text/template.HTMLEscape",
	"github.com/buger/jsonparser.Get", "github.com/buger/jsonparser.Parse", "(github.com/buger/jsonparser.ValueType).String", "github.com/buger/jsonparser.Unescape",
	"slices.", "maps.", "cmp.",
}

// DefaultPure tells which functions have results that only depend on their
// arguments and no other effect.
func DefaultPure(name string) bool {
	if f, ok := strings.CutPrefix(name, "slices."); ok {
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact", "Grow"} {
			if strings.HasPrefix(f, p) {
				return false
			}
		}
	}
	switch name {
	case "(*regexp.Regexp).Longest", "(*regexp.Regexp).UnmarshalText", "unicode/utf8.EncodeRune":
		return false
	}
	if f, ok := strings.CutPrefix(name, "maps."); ok && (strings.HasPrefix(f, "Copy") || strings.HasPrefix(f, "Delete") || strings.HasPrefix(f, "Insert")) {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func rets(st *State, v *Term) []Ret { return []Ret{{St: st, Val: v}} }

func tuple(ts ...*Term) *Term { return mk("tuple", "", nil, ts...) }

// Tuple combines several results.
func Tuple(ts ...*Term) *Term { return tuple(ts...) }

func (in *Interp) lenOf(st *State, v *Term) *Term {
	if v.Op == "mapref" {
		return mapLen(in.mapContent(st, v))
	}
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Map); ok {
			return mapLen(in.mapContent(st, v))
		}
	}
	return Len(st.F.Known(v))
}

func mapLen(c *Term) *Term {
	n := int64(0)
	keys := map[*Term]bool{}
	for x := c; ; x = x.Args[0] {
		if x.Op == "mapempty" {
			return Int(n)
		}
		if x.Op != "mapupd" || !distinct(x.Args[1]) {
			break
		}
		if !keys[x.Args[1]] {
			keys[x.Args[1]] = true
			n++
		}
	}
	return mk("len", "", types.Typ[types.Int], c)
}

// distinct tells whether a key is different from all other such keys.
func distinct(k *Term) bool {
	return k.IsConst() || k.Op == "obj" || k.Op == "iface" && distinct(k.Args[0])
}

// elems tells whether a list consists of single elements.
func elems(l *Term) bool {
	if l.Op != "list" || len(l.Args) == 0 {
		return false
	}
	for _, s := range l.Args {
		if s.Op != "seg:e" {
			return false
		}
	}
	return true
}

// written tells whether elements of the slice a call returns are assigned in the
// function that calls.
func (in *Interp) written(fn *ssa.Function, cc *ssa.CallCommon) bool {
	if w, ok := in.assigned[cc]; ok {
		return w
	}
	if in.assigned == nil {
		in.assigned = map[*ssa.CallCommon]bool{}
	}
	w := false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, i := range *v.Referrers() {
			switch x := i.(type) {
			case *ssa.Phi:
				visit(x)
			case *ssa.Slice:
				visit(x)
			case *ssa.ChangeType:
				visit(x)
			case *ssa.IndexAddr:
				for _, y := range *x.Referrers() {
					if s, ok := y.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
						w = true
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Call); ok && &x.Call == cc {
				visit(x)
			}
		}
	}
	in.assigned[cc] = w
	return w
}

func (in *Interp) builtin(st *State, c *Call, fr *frame) []Ret {
	a := c.Args
	switch c.Name {
	case "len":
		return rets(st, in.lenOf(st, a[0]))
	case "cap":
		if a[0].Op == "sref" {
			return rets(st, App("cap", types.Typ[types.Int], a[0].Args[0]))
		}
		return rets(st, App("cap", types.Typ[types.Int], a[0]))
	case "append":
		typ := c.Sig.Results().At(0).Type()
		s := in.ListOf(st, st.F.Known(a[0]))
		if len(a) == 1 {
			return rets(st, a[0])
		}
		y := a[1]
		if isString(c.ArgTypes[1]) {
			y = ToBytes(y)
		}
		y = in.ListOf(st, st.F.Known(y))
		segs := append(append([]*Term(nil), listSegs(s)...), listSegs(y)...)
		if len(segs) == 0 {
			return rets(st, s)
		}
		l := List(typ, segs...)
		if et := typ.Underlying().(*types.Slice).Elem(); c.common != nil && len(l.Args) <= 64 && elems(l) && in.written(fr.fn, c.common) {
			at := types.NewArray(et, int64(len(l.Args)))
			var vs []*Term
			for _, e := range l.Args {
				vs = append(vs, e.Args[0])
			}
			o := st.Alloc(fr.fn.String()+".append", at, mk("array", typeKey(at), at, vs...))
			return rets(st, mk("sref", "", typ, o, Int(0), Int(int64(len(vs)))))
		}
		return rets(st, l)
	case "copy":
		st.Emit(&Event{Name: "copy", Args: []*Term{a[0], in.ListOf(st, a[1])}, Pos: c.Pos})
		if src := in.ListOf(st, a[1]); a[0].Op == "sref" && a[0].Args[1] == Int(0) && a[0].Args[2] == Len(src) && (src.Op != "list" || elems(src)) {
			if src.Op == "list" && len(src.Args) <= 64 {
				for i, e := range src.Args {
					in.store(st, mk("&idx", "", types.NewPointer(e.Args[0].Typ), a[0].Args[0], Int(int64(i))), e.Args[0])
				}
				return rets(st, Len(src))
			}
		}
		if a[0].Op == "sref" {
			in.store(st, a[0].Args[0], mk("after", "copy", ptrElem(a[0].Args[0].Typ), in.load(st, a[0].Args[0]), a[0], in.ListOf(st, a[1])))
		}
		return rets(st, newSym("copied", types.Typ[types.Int]))
	case "delete":
		in.setMap(st, a[0], mk("mapdel", "", nil, in.mapContent(st, a[0]), a[1]))
		return rets(st, nil)
	case "clear":
		if isMap(c.ArgTypes[0]) {
			in.setMap(st, a[0], mk("mapempty", "", nil))
			return rets(st, nil)
		}
	case "min", "max":
		alts := []Ret{{St: st, Val: a[0]}}
		for _, y := range a[1:] {
			var next []Ret
			for _, r := range alts {
				x := r.Val
				if !isInt(c.ArgTypes[0]) {
					next = append(next, Ret{St: r.St, Val: App(c.Name, x.Typ, x, y)})
					continue
				}
				for _, le := range []bool{true, false} {
					s2 := r.St.Clone()
					if !s2.Assume(Le(x, y), le) {
						continue
					}
					v := y
					if le == (c.Name == "min") {
						v = x
					}
					next = append(next, Ret{St: s2, Val: v})
				}
			}
			alts = next
		}
		return alts
	case "print", "println":
		st.Emit(&Event{Name: c.Name, Args: a, Pos: c.Pos})
		return rets(st, nil)
	case "recover":
		return rets(st, Nil)
	case "ssa:wrapnilchk":
		return rets(st, a[0])
	case "close":
		st.Emit(&Event{Name: "close", Args: a, Pos: c.Pos})
		return rets(st, nil)
	}
	Undecided("unsupported builtin %s in %s", c.Name, fr.fn)
	return nil
}

func listSegs(l *Term) []*Term {
	if l.Op == "list" {
		return l.Args
	}
	if l.Op == "nil" {
		return nil
	}
	return []*Term{segS(l)}
}

// ---- maps

func (in *Interp) newMap(st *State, name string, typ types.Type) *Term {
	o := st.Alloc(name, typ, mk("mapempty", "", nil))
	return mk("mapref", "", typ, o)
}

func mapAddr(m *Term) *Term {
	if m.Op == "mapref" {
		return m.Args[0]
	}
	return mk("&map", "", m.Typ, m)
}

func (in *Interp) mapContent(st *State, m *Term) *Term {
	m = st.F.Known(m)
	if m.Op == "nil" {
		return mk("mapempty", "", nil)
	}
	a := mapAddr(m)
	if c, ok := st.heap[a]; ok {
		return c
	}
	if c, ok := in.GHeap[a]; ok {
		return c
	}
	return mk("deref", "", m.Typ, a)
}

// MapContent returns what is in a map.
func (in *Interp) MapContent(st *State, m *Term) *Term { return in.mapContent(st, m) }

func (in *Interp) setMap(st *State, m, c *Term) {
	a := mapAddr(m)
	if in.OnStore != nil {
		in.OnStore(st, a, c)
	}
	st.heap[a] = c
}

func (in *Interp) mapUpdate(st *State, m, k, v *Term) {
	in.setMap(st, m, mk("mapupd", "", nil, in.mapContent(st, m), k, v))
}

func (in *Interp) mapLookup(st *State, m, k *Term, x *ssa.Lookup) []alt {
	var et types.Type
	var zero *Term
	if x.CommaOk {
		et = x.Type().(*types.Tuple).At(0).Type()
	} else {
		et = x.Type()
	}
	zero = Zero(et)
	res := func(st *State, v *Term, ok *Term) alt {
		if x.CommaOk {
			return alt{st, tuple(v, ok)}
		}
		return alt{st, v}
	}
	var out []alt
	var walk func(st *State, c *Term)
	walk = func(st *State, c *Term) {
		switch c.Op {
		case "mapempty":
			out = append(out, res(st, zero, False))
		case "mapupd", "mapdel":
			e := Eq(k, c.Args[1])
			hit := func(st *State) {
				if c.Op == "mapdel" {
					out = append(out, res(st, zero, False))
				} else {
					out = append(out, res(st, c.Args[2], True))
				}
			}
			switch st.F.Decide(e) {
			case Yes:
				hit(st)
			case No:
				walk(st, c.Args[0])
			default:
				s2 := st.Clone()
				if s2.Assume(e, true) {
					hit(s2)
				}
				s3 := st.Clone()
				if s3.Assume(e, false) {
					walk(s3, c.Args[0])
				}
			}
		default:
			v := mk("mapget", "", et, c, k)
			if !x.CommaOk {
				out = append(out, alt{st, v})
				return
			}
			ok := mk("mapin", "", types.Typ[types.Bool], c, k)
			for _, b := range []bool{true, false} {
				s2 := st.Clone()
				if s2.Assume(ok, b) {
					if b {
						out = append(out, res(s2, v, True))
					} else {
						out = append(out, res(s2, zero, False))
					}
				}
			}
		}
	}
	walk(st, in.mapContent(st, m))
	return out
}

func (in *Interp) rangeTarget(st *State, v *Term) *Term {
	if v.Op == "mapref" || isMap(v.Typ) {
		return in.mapContent(st, v)
	}
	return v
}

// knownRange starts to range over a map whose keys are known. Keys that may be
// equal are taken to be equal on one path and different on another.
func (in *Interp) knownRange(st *State, rng *Term) ([]alt, bool) {
	var ups []*Term
	for c := rng.Args[0]; c.Op != "mapempty"; c = c.Args[0] {
		if c.Op != "mapupd" && c.Op != "mapdel" {
			return nil, false
		}
		ups = append(ups, c)
	}
	type part struct {
		st   *State
		keys []*Term // those seen so far, also the deleted ones
		out  []*Term
	}
	ps := []part{{st: st}}
	for _, u := range ups {
		var next []part
		for _, p := range ps {
			k := u.Args[1]
			open := p.st
			for _, o := range p.keys {
				e := Eq(k, o)
				d := open.F.Decide(e)
				if d != No {
					s2 := open.Clone()
					if s2.Assume(e, true) {
						next = append(next, part{s2, p.keys, p.out})
					}
				}
				if d == Yes {
					open = nil
					break
				}
				s3 := open.Clone()
				if !s3.Assume(e, false) {
					open = nil
					break
				}
				open = s3
			}
			if open == nil {
				continue
			}
			q := part{open, append(append([]*Term(nil), p.keys...), k), p.out}
			if u.Op == "mapupd" {
				q.out = append(append([]*Term(nil), p.out...), tuple(k, u.Args[2]))
			}
			next = append(next, q)
		}
		ps = next
	}
	var alts []alt
	for _, p := range ps {
		at := p.st.Alloc("range", types.Typ[types.Int], Int(0))
		alts = append(alts, alt{p.st, mk("range", "", rng.Typ, mk("entries", "", nil, p.out...), at)})
	}
	return alts, true
}

func (in *Interp) next(st *State, x *ssa.Next, iter *Term) []alt {
	target := iter.Args[0]
	if target.Op == "entries" {
		kt, et := types.Type(types.Typ[types.Int]), types.Type(types.Typ[types.Rune])
		if mt, ok := iter.Typ.Underlying().(*types.Map); ok {
			kt, et = mt.Key(), mt.Elem()
		}
		n, _ := in.load(st, iter.Args[1]).IntVal()
		if int(n) == len(target.Args) {
			return []alt{{st, tuple(False, Zero(kt), Zero(et))}}
		}
		in.store(st, iter.Args[1], Int(n+1))
		e := target.Args[n]
		return []alt{{st, tuple(True, e.Args[0], e.Args[1])}}
	}
	if len(iter.Args) == 2 {
		s, _ := target.StrVal()
		n, _ := in.load(st, iter.Args[1]).IntVal()
		for i, r := range s[n:] {
			if i == 0 {
				in.store(st, iter.Args[1], Int(n+int64(utf8.RuneLen(r))))
				return []alt{{st, tuple(True, Int(n), Const(constant.MakeInt64(int64(r)), types.Typ[types.Rune]))}}
			}
		}
		return []alt{{st, tuple(False, Int(0), Const(constant.MakeInt64(0), types.Typ[types.Rune]))}}
	}
	tup := x.Type().(*types.Tuple)
	it := newSym("it", types.Typ[types.Int])
	more := mk("more", "", types.Typ[types.Bool], target, it)
	var k, v *Term
	if x.IsString {
		k = it
		v = mk("runeat", "", types.Typ[types.Rune], target, it)
	} else {
		kt := tup.At(1).Type()
		if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
			if mt, ok := iter.Typ.Underlying().(*types.Map); ok {
				kt = mt.Key()
			}
		}
		k = mk("mapkey", "", kt, target, it)
		var vt types.Type
		if mt, ok := iter.Typ.Underlying().(*types.Map); ok {
			vt = mt.Elem()
		}
		v = mk("mapget", "", vt, target, k)
	}
	var out []alt
	if target.Op != "mapempty" {
		s2 := st.Clone()
		s2.Assume(more, true)
		if x.IsString {
			s2.Assume(Le(Int(0), it), true)
			s2.Assume(Lt(it, Len(target)), true)
		}
		out = append(out, alt{s2, tuple(True, k, v)})
	}
	st.Assume(more, false)
	out = append(out, alt{st, tuple(False, k, v)})
	return out
}

// ---- library functions

func (in *Interp) model(st *State, c *Call) ([]Ret, bool) {
	a := c.Args
	n := c.Name
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*strings.Builder)."):
		return in.bufferModel(st, c)
	case strings.HasPrefix(n, "(*go.uber.org/atomic.") || strings.HasPrefix(n, "(*sync/atomic."):
		ev := &Event{Name: n, Args: a, Pos: c.Pos}
		if t := resType(c.Sig); t != nil {
			ev.Res = newSym(n[strings.LastIndex(n, ".")+1:], t)
		}
		st.Emit(ev)
		return rets(st, ev.Res), true
	}
	switch n {
	case "(time.Time).Before":
		return rets(st, Ord(a[0], "<", a[1], false)), true
	case "(time.Time).After":
		return rets(st, Ord(a[0], ">", a[1], false)), true
	case "(time.Time).Equal":
		return rets(st, Ord(a[0], "==", a[1], false)), true
	case "(time.Time).Add":
		if x := a[0]; x.Op == "app" && x.Aux == n {
			if d := Add(x.Args[1], a[1]); d.Op == "const" {
				return rets(st, App(n, x.Typ, x.Args[0], d)), true
			}
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		sub := a[1]
		if n != "strings.Index" {
			k, ok := a[1].IntVal()
			if !ok || k < 0 || k > 127 {
				return nil, false
			}
			sub = Str(string(rune(k)))
		}
		if _, ok := a[0].StrVal(); ok {
			return nil, false
		}
		if at, ok := in.charIndex(st, a[0], sub); ok && Len(sub) == Int(1) {
			if n == "strings.ContainsRune" {
				return rets(st, Not(Lt(at, Int(0)))), true
			}
			return rets(st, at), true
		}
		has := App("strings.Contains", types.Typ[types.Bool], a[0], sub)
		if n == "strings.ContainsRune" {
			return rets(st, has), true
		}
		var out []Ret
		if s2 := st.Clone(); s2.Assume(has, true) {
			at := App("strings.Index", types.Typ[types.Int], a[0], sub)
			s2.Assume(Le(Int(0), at), true)
			s2.Assume(Le(Add(at, Len(sub)), Len(a[0])), true)
			out = append(out, Ret{St: s2, Val: at})
		}
		if s2 := st.Clone(); s2.Assume(has, false) {
			out = append(out, Ret{St: s2, Val: Int(-1)})
		}
		return out, true
	case "(net/netip.Prefix).Overlaps":
		// symmetric
		x, y := a[0], a[1]
		if x.id > y.id {
			x, y = y, x
		}
		return rets(st, App(n, types.Typ[types.Bool], x, y)), true
	case "(time.Time).Compare":
		var out []Ret
		for i, r := range []string{"<", "==", ">"} {
			s2 := st.Clone()
			if s2.Assume(Ord(a[0], r, a[1], false), true) {
				out = append(out, Ret{St: s2, Val: Int(int64(i - 1))})
			}
		}
		return out, true
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		x := in.asText(st, a[0])
		if s, ok := x.StrVal(); ok {
			return rets(st, Int(int64(utf8.RuneCountInString(s)))), true
		}
		return rets(st, Len(App("runes", types.NewSlice(types.Typ[types.Rune]), x))), true
	case "fmt.Sprintf":
		return rets(st, in.sprintf(st, a[0], a[1])), true
	case "fmt.Sprint":
		// no spaces are added between operands of which one is a string
		if l := in.ListOf(st, a[0]); l.Op == "list" && len(l.Args) > 0 {
			texts := true
			for _, s := range l.Args {
				if s.Op != "seg:e" || s.Args[0].Op != "iface" || !types.Identical(s.Args[0].DTyp, types.Typ[types.String]) {
					texts = false
				}
			}
			if texts || len(l.Args) == 1 && l.Args[0].Op == "seg:e" {
				return rets(st, in.sprintf(st, Str(strings.Repeat("%v", len(l.Args))), a[0])), true
			}
		}
	case "fmt.Sprintln":
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if w := bufAddr(a[0]); w != nil {
			var s *Term
			switch n {
			case "fmt.Fprintf":
				s = in.sprintf(st, a[1], a[2])
			case "io.WriteString":
				s = a[1]
			default:
				s = App(strings.Replace(n, "Fp", "Sp", 1), types.Typ[types.String], in.ListOf(st, a[1]))
			}
			in.store(st, w, mk("buf", "", ptrElem(w.Typ), Concat(bufText(in.load(st, w)), s)))
			return rets(st, tuple(Len(s), Nil)), true
		}
	case "errors.As":
		p := a[1]
		if p.Op == "iface" {
			p = p.Args[0]
		}
		et := ptrElem(p.Typ)
		var out []Ret
		ok := App("errors.As", types.Typ[types.Bool], a[0], mk("type", typeKey(et), nil))
		for _, b := range []bool{true, false} {
			s2 := st.Clone()
			if !s2.Assume(ok, b) {
				continue
			}
			if b {
				if !s2.Assume(Eq(a[0], Nil), false) {
					continue
				}
				v := App("errors.As!", et, a[0], mk("type", typeKey(et), nil))
				s2.Assume(Eq(v, Nil), false)
				in.store(s2, p, v)
			}
			out = append(out, Ret{St: s2, Val: Bool(b)})
		}
		return out, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		var args []*Term
		for _, x := range a {
			args = append(args, in.ListOf(st, x))
		}
		st.Emit(&Event{Name: n, Args: args, Pos: c.Pos})
		return []Ret{{St: st, Panic: true, Why: "exit", Pos: c.Pos}}, true
	case "github.com/buger/jsonparser.ArrayEach":
		return in.arrayEach(st, c), true
	case "github.com/buger/jsonparser.ObjectEach":
		return in.objectEach(st, c), true
	case "bytes.HasPrefix", "bytes.HasSuffix":
		x := in.asText(st, a[0])
		c2 := *c
		c2.Name = "strings" + n[len("bytes"):]
		c2.Args = []*Term{x, in.asText(st, a[1])}
		if r, ok := in.model(st, &c2); ok {
			return r, true
		}
		return rets(st, App(c2.Name, types.Typ[types.Bool], c2.Args...)), true
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.ToUpper", "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		if len(a) == 1 {
			if s, ok := a[0].StrVal(); ok {
				if n == "strings.ToLower" {
					return rets(st, Str(strings.ToLower(s))), true
				}
				return rets(st, Str(strings.ToUpper(s))), true
			}
			return nil, false
		}
		s, ok1 := a[0].StrVal()
		t, ok2 := a[1].StrVal()
		if !ok1 && ok2 && len(t) == 1 && a[0].Op != "concat" && (n == "strings.HasPrefix" || n == "strings.HasSuffix") {
			// the first or last byte
			size := Len(a[0])
			at := Int(0)
			if n == "strings.HasSuffix" {
				at = Sub(size, Int(1))
			}
			var out []Ret
			if s2 := st.Clone(); s2.Assume(Le(size, Int(0)), true) {
				out = append(out, Ret{St: s2, Val: False})
			}
			if st.Assume(Le(Int(1), size), true) {
				eq := Eq(stringAt(a[0], at), Const(constant.MakeInt64(int64(t[0])), types.Typ[types.Byte]))
				for _, v := range []bool{true, false} {
					if s2 := st.Clone(); s2.Assume(eq, v) {
						out = append(out, Ret{St: s2, Val: Bool(v)})
					}
				}
			}
			return out, true
		}
		if ok1 && ok2 {
			switch n {
			case "strings.TrimPrefix":
				return rets(st, Str(strings.TrimPrefix(s, t))), true
			case "strings.TrimSuffix":
				return rets(st, Str(strings.TrimSuffix(s, t))), true
			case "strings.Contains":
				return rets(st, Bool(strings.Contains(s, t))), true
			case "strings.HasPrefix":
				return rets(st, Bool(strings.HasPrefix(s, t))), true
			case "strings.HasSuffix":
				return rets(st, Bool(strings.HasSuffix(s, t))), true
			case "strings.EqualFold":
				return rets(st, Bool(strings.EqualFold(s, t))), true
			}
		}
	case "strings.IndexAny", "bytes.IndexAny", "strings.ContainsAny", "bytes.ContainsAny":
		if at, ok := in.charIndex(st, in.asText(st, a[0]), a[1]); ok {
			if strings.HasSuffix(n, "ContainsAny") {
				return rets(st, Not(Lt(at, Int(0)))), true
			}
			return rets(st, at), true
		}
		set, ok := a[1].StrVal()
		if !ok || len(set) == 0 || len(set) > 4 || !isASCII(set) {
			return nil, false
		}
		x := in.asText(st, a[0])
		var out []Ret
		none := st
		for _, ch := range set {
			has := App("strings.Contains", types.Typ[types.Bool], x, Str(string(ch)))
			if s2 := none.Clone(); s2.Assume(has, true) {
				at := App("strings.IndexAny", types.Typ[types.Int], x, a[1])
				s2.Assume(Le(Int(0), at), true)
				s2.Assume(Lt(at, Len(x)), true)
				if strings.HasSuffix(n, "ContainsAny") {
					at = True
				}
				out = append(out, Ret{St: s2, Val: at})
			}
			s2 := none.Clone()
			if !s2.Assume(has, false) {
				return out, true
			}
			none = s2
		}
		at := Int(-1)
		if strings.HasSuffix(n, "ContainsAny") {
			at = False
		}
		return append(out, Ret{St: none, Val: at}), true
	case "bytes.Contains":
		return rets(st, App("strings.Contains", types.Typ[types.Bool], in.asText(st, a[0]), in.asText(st, a[1]))), true
	case "strconv.FormatBool":
		var out []Ret
		for _, b := range []bool{true, false} {
			if s2 := st.Clone(); s2.Assume(a[0], b) {
				out = append(out, Ret{St: s2, Val: Str(strconv.FormatBool(b))})
			}
		}
		return out, true
	case "strconv.ParseBool":
		if s, ok := a[0].StrVal(); ok {
			if b, err := strconv.ParseBool(s); err == nil {
				return rets(st, Tuple(Bool(b), Nil)), true
			}
		}
	case "strconv.Itoa", "strconv.FormatInt":
		if k, ok := a[0].IntVal(); ok && (len(a) == 1 || a[1] == Int(10)) {
			return rets(st, Str(strconv.FormatInt(k, 10))), true
		}
		return rets(st, App("decimal", types.Typ[types.String], a...)), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		t := ptrElem(c.Sig.Results().At(0).Type())
		s := a[0]
		if n == "bytes.NewBuffer" {
			s = ToString(in.ListOf(st, s))
		}
		return rets(st, st.Alloc(n, t, mk("buf", "", t, s))), true
	case "strings.Join":
		// joining a list of known length
		if l := in.ListOf(st, a[0]); l.Op == "list" {
			var parts []*Term
			for i, s := range l.Args {
				if s.Op != "seg:e" {
					return nil, false
				}
				if i > 0 {
					parts = append(parts, a[1])
				}
				parts = append(parts, s.Args[0])
			}
			return rets(st, Concat(parts...)), true
		}
	case "bytes.Equal":
		return rets(st, Eq(ToString(in.ListOf(st, a[0])), ToString(in.ListOf(st, a[1])))), true
	case "errors.Is":
		return rets(st, Eq(a[0], a[1])), true
	}
	return nil, false
}

func bufAddr(w *Term) *Term {
	if w.Op == "iface" {
		w = w.Args[0]
	}
	if t := ptrElem(w.Typ); t != nil && isBufType(t) {
		return w
	}
	return nil
}

func (in *Interp) bufferModel(st *State, c *Call) ([]Ret, bool) {
	a := c.Args
	m := c.Name[strings.LastIndex(c.Name, ".")+1:]
	p := a[0]
	typ := ptrElem(p.Typ)
	if typ == nil {
		return nil, false
	}
	text := bufText(in.load(st, p))
	set := func(s *Term) { in.store(st, p, mk("buf", "", typ, s)) }
	switch m {
	case "WriteString":
		set(Concat(text, a[1]))
		return rets(st, tuple(Len(a[1]), Nil)), true
	case "Write":
		s := ToString(in.ListOf(st, a[1]))
		set(Concat(text, s))
		return rets(st, tuple(Len(s), Nil)), true
	case "WriteRune":
		var s *Term
		if k, ok := a[1].IntVal(); ok {
			s = Str(string(rune(k)))
		} else {
			s = App("runechar", types.Typ[types.String], a[1])
		}
		set(Concat(text, s))
		return rets(st, tuple(Len(s), Nil)), true
	case "WriteByte":
		var s *Term
		if k, ok := a[1].IntVal(); ok {
			s = Str(string([]byte{byte(k)}))
		} else {
			s = App("bytechar", types.Typ[types.String], a[1])
		}
		set(Concat(text, s))
		return rets(st, Nil), true
	case "String":
		return rets(st, text), true
	case "Bytes":
		return rets(st, ToBytes(text)), true
	case "Len":
		return rets(st, Len(text)), true
	case "Reset":
		set(Str(""))
		return rets(st, nil), true
	case "Grow":
		return rets(st, nil), true
	case "Truncate":
		if a[1] == Int(0) {
			set(Str(""))
			return rets(st, nil), true
		}
		parts := []*Term{text}
		if text.Op == "concat" {
			parts = text.Args
		}
		n := Int(0)
		for i := 0; i <= len(parts); i++ {
			if Sub(n, a[1]) == Int(0) {
				set(Concat(parts[:i]...))
				return rets(st, nil), true
			}
			if i < len(parts) {
				n = Add(n, Len(parts[i]))
			}
		}
		set(App("truncate", types.Typ[types.String], text, a[1]))
		return rets(st, nil), true
	}
	return nil, false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// sprintf expands a constant format.
func (in *Interp) sprintf(st *State, format, args *Term) *Term {
	l := in.ListOf(st, args)
	fall := App("fmt.Sprintf", types.Typ[types.String], format, l)
	f, ok := format.StrVal()
	if !ok || l.Op != "list" && l.Op != "nil" {
		return fall
	}
	var vals []*Term
	for _, s := range l.Args {
		if s.Op != "seg:e" {
			return fall
		}
		vals = append(vals, s.Args[0])
	}
	var parts []*Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, Str(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return fall
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			parts = append(parts, Str("%"))
			continue
		}
		if k >= len(vals) {
			return fall
		}
		v := vals[k]
		k++
		parts = append(parts, fmtVerb(verb, v))
	}
	if k != len(vals) {
		return fall
	}
	return Concat(parts...)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// asText is a text given as a string or as bytes.
func (in *Interp) asText(st *State, x *Term) *Term {
	if x.Typ != nil && isString(x.Typ) {
		return x
	}
	return ToString(in.ListOf(st, x))
}

// charIndex finds the first of a set of characters in a text of which the
// characters are known well enough.
func (in *Interp) charIndex(st *State, x, set *Term) (*Term, bool) {
	cs, ok := set.StrVal()
	if !ok || x.Op == "const" {
		return nil, false
	}
	rs, texts, ok := chars(x)
	if !ok {
		return nil, false
	}
	at := Int(0)
	for i, r := range rs {
		for _, ch := range cs {
			switch st.F.Decide(IEq(r, Int(int64(ch)))) {
			case Yes:
				return at, true
			case Maybe:
				return nil, false
			}
		}
		at = Add(at, Len(texts[i]))
	}
	return Int(-1), true
}

func fmtVerb(verb string, v *Term) *Term {
	if v.Op == "iface" {
		t := v.DTyp
		x := v.Args[0]
		plain := !hasMethod(t, "String") && !hasMethod(t, "Error") && !hasMethod(t, "Format")
		if plain && isString(t) && (verb == "%s" || verb == "%v") {
			return x
		}
		if plain && isInt(t) && (verb == "%d" || verb == "%v") {
			if n, ok := x.IntVal(); ok {
				return Str(strconv.FormatInt(n, 10))
			}
			return App("decimal", types.Typ[types.String], x)
		}
		if verb == "%q" && plain && isString(t) {
			return App("strconv.Quote", types.Typ[types.String], x)
		}
	}
	return App("fmt:"+verb, types.Typ[types.String], v)
}

// JSONArray is the list of the elements of a JSON array, JSONData and JSONType
// are the text and the kind of an element.
func JSONArray(data *Term) *Term {
	t := mk("app", "json.array", nil, data)
	return t
}

func jsonArg(t *Term) *Term { return t }

var bytesType = types.NewSlice(types.Typ[types.Byte])

func JSONData(e *Term) *Term { return App("json.data", bytesType, e) }

func JSONType(e *Term, typ types.Type) *Term { return App("json.type", typ, e) }

func (in *Interp) arrayEach(st *State, c *Call) []Ret {
	data := in.ListOf(st, c.Args[0])
	cb := c.Args[1]
	if cb.Fn == nil {
		Undecided("callback of ArrayEach in %s is not a function of the program", c.In)
	}
	if l := in.ListOf(st, c.Args[len(c.Args)-1]); len(c.Args) > 2 && Len(l) != Int(0) {
		data = App("json.get", bytesType, data, l)
	}
	list := JSONArray(data)
	vt := cb.Fn.Signature.Params().At(1).Type()
	errOf := App("json.arrayerr", types.Universe.Lookup("error").Type(), data)
	exits := in.callbackLoop(st, c.In, c.Pos, list, func(s *State, i *Term) []bodyEnd {
		e := mk("elem", "", nil, list, i)
		args := []*Term{JSONData(e), JSONType(e, vt), App("json.off", types.Typ[types.Int], e), Nil}
		var out []bodyEnd
		for _, r := range in.callValue(s, cb, args, c) {
			if r.Panic {
				out = append(out, bodyEnd{st: r.St, e: end{kind: endPanic, st: r.St, why: r.Why, pos: r.Pos}})
			} else {
				out = append(out, bodyEnd{back: true, st: r.St})
			}
		}
		return out
	})
	return in.eachRets(exits, func(x loopExit) *Term {
		return tuple(App("json.offset", types.Typ[types.Int], data), errOf)
	})
}

func (in *Interp) objectEach(st *State, c *Call) []Ret {
	data := in.ListOf(st, c.Args[0])
	cb := c.Args[1]
	if cb.Fn == nil {
		Undecided("callback of ObjectEach in %s is not a function of the program", c.In)
	}
	if l := in.ListOf(st, c.Args[len(c.Args)-1]); len(c.Args) > 2 && Len(l) != Int(0) {
		data = App("json.get", bytesType, data, l)
	}
	list := mk("app", "json.object", nil, data)
	vt := cb.Fn.Signature.Params().At(2).Type()
	errOf := App("json.objecterr", types.Universe.Lookup("error").Type(), data)
	exits := in.callbackLoop(st, c.In, c.Pos, list, func(s *State, i *Term) []bodyEnd {
		e := mk("elem", "", nil, list, i)
		args := []*Term{App("json.key", bytesType, e), JSONData(e), JSONType(e, vt), App("json.off", types.Typ[types.Int], e)}
		var out []bodyEnd
		for _, r := range in.callValue(s, cb, args, c) {
			if r.Panic {
				out = append(out, bodyEnd{st: r.St, e: end{kind: endPanic, st: r.St, why: r.Why, pos: r.Pos}})
				continue
			}
			// an error ends the iteration
			err := r.Val
			s2 := r.St.Clone()
			if s2.Assume(Eq(err, Nil), false) {
				out = append(out, bodyEnd{st: s2, e: end{kind: endExit, st: s2, val: err}})
			}
			if r.St.Assume(Eq(err, Nil), true) {
				out = append(out, bodyEnd{back: true, st: r.St})
			}
		}
		return out
	})
	return in.eachRets(exits, func(x loopExit) *Term {
		if x.e.val != nil {
			return x.e.val
		}
		return errOf
	})
}

func (in *Interp) eachRets(exits []loopExit, val func(loopExit) *Term) []Ret {
	var out []Ret
	for _, x := range exits {
		if x.e.kind == endPanic {
			out = append(out, Ret{St: x.st, Panic: true, Why: x.e.why, Pos: x.e.pos})
			continue
		}
		out = append(out, Ret{St: x.st, Val: val(x)})
	}
	return out
}

// CallValue calls a function value from a model of a library function.
func (in *Interp) CallValue(st *State, fv *Term, args []*Term, at *Call) []Ret {
	if fv.Fn == nil {
		Undecided("callback in %s is not a function of the program", at.In)
	}
	return in.callValue(st, fv, args, at)
}

// callValue calls a function value.
func (in *Interp) callValue(st *State, fv *Term, args []*Term, at *Call) []Ret {
	c := &Call{Fn: fv.Fn, Name: fv.Fn.String(), Args: args, Sig: fv.Fn.Signature, Pos: at.Pos, In: at.In}
	for i := 0; i < fv.Fn.Signature.Params().Len(); i++ {
		c.ArgTypes = append(c.ArgTypes, fv.Fn.Signature.Params().At(i).Type())
	}
	return in.callKnown(st, c, fv)
}

// Global evaluates initialisers.

// InitGlobals computes the values package variables are given when the program
// starts. Variables that are assigned later are left unknown.
func (in *Interp) InitGlobals(pkgs []*ssa.Package, all map[*ssa.Function]bool) {
	in.Globals = map[*Term]*Term{}
	written := map[*ssa.Global]bool{}
	rootGlobal := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return nil
			}
		}
	}
	for fn := range all {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var g *ssa.Global
				switch i := i.(type) {
				case *ssa.Store:
					g = rootGlobal(i.Addr)
				case *ssa.MapUpdate:
					g = rootGlobal(i.Map)
				}
				if g != nil {
					written[g] = true
				}
			}
		}
	}
	for _, p := range pkgs {
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		sub := New(in.Prog, in.Repo)
		sub.Globals = in.Globals
		sub.Hook = func(i2 *Interp, st *State, c *Call) ([]Ret, bool) {
			if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Synthetic != "" {
				return rets(st, nil), true
			}
			if c.Fn != nil && in.Hook != nil {
				return in.Hook(i2, st, c)
			}
			return nil, false
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := AsUndecided(r); !ok {
						panic(r)
					}
				}
			}()
			st := sub.NewState()
			// the guard is not set
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					st.heap[mk("glob", g.String(), g.Type())] = Zero(ptrElem(g.Type()))
				}
			}
			rs := sub.CallFn(st, fn)
			if len(rs) == 0 {
				return
			}
			// keep what all paths agree on
			for _, m := range p.Members {
				g, ok := m.(*ssa.Global)
				if !ok || written[g] {
					continue
				}
				a := mk("glob", g.String(), g.Type())
				v := rs[0].St.heap[a]
				for _, r := range rs {
					if r.St.heap[a] != v {
						v = nil
					}
				}
				if v != nil {
					in.Globals[a] = v
				}
			}
			for a, v := range rs[0].St.heap {
				if a.Op != "glob" {
					in.GHeap[a] = v
				}
			}
		}()
	}
}

// Sprintf is the text fmt.Sprintf gives.
func (in *Interp) Sprintf(st *State, format, args *Term) *Term { return in.sprintf(st, format, args) }

// NewMap makes an empty map.
func (in *Interp) NewMap(st *State, name string, typ types.Type) *Term {
	return in.newMap(st, name, typ)
}

// MapSet stores a value in a map.
func (in *Interp) MapSet(st *State, m, k, v *Term) { in.mapUpdate(st, m, k, v) }

// MapGet returns the value stored in a map for a key, or nil if there is none.
func (in *Interp) MapGet(st *State, m, k *Term) *Term {
	for c := in.mapContent(st, m); ; c = c.Args[0] {
		switch c.Op {
		case "mapempty":
			return nil
		case "mapupd", "mapdel":
			switch st.F.Decide(Eq(k, c.Args[1])) {
			case Yes:
				if c.Op == "mapdel" {
					return nil
				}
				return c.Args[2]
			case Maybe:
				return mk("mapget", "", nil, c, k)
			}
		default:
			return mk("mapget", "", nil, c, k)
		}
	}
}

// Write adds a text to a writer in memory.
func (in *Interp) Write(st *State, w, text *Term) bool {
	p := bufAddr(w)
	if p == nil {
		return false
	}
	in.store(st, p, mk("buf", "", ptrElem(p.Typ), Concat(bufText(in.load(st, p)), text)))
	return true
}
