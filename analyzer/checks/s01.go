package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"aqlverify/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	All["S01"] = s01
	All["S02"] = s02
	All["S03"] = s03
	All["S04"] = s04
}

const smp = "sampler"

// jdoc is a JSON value of which the shape is known and the keys are not.
type jdoc struct {
	kind string // name of the type in jsonparser
	keys []*flow.Term
	kids []*jdoc
	bad  bool // the parser fails after the parts listed
	data *flow.Term
}

// docOf reads a shape: {a:s,b:[n]} is an object with two members, the letters
// s n b 0 stand for a string, number, boolean and null, and ! after an object or
// array for a syntax error at its end. At ? there is a malformed value: the parser
// fails there and does not pass it on.
func docOf(text string) *jdoc {
	i := 0
	n := 0
	var value func() *jdoc
	value = func() *jdoc {
		n++
		d := &jdoc{data: flow.Sym(fmt.Sprintf("document %s part %d", text, n), types.NewSlice(types.Typ[types.Byte]))}
		ch := text[i]
		i++
		if ch != '{' && ch != '[' {
			d.kind = map[byte]string{'s': "String", 'n': "Number", 'b': "Boolean", '0': "Null"}[ch]
			return d
		}
		d.kind = "Array"
		end := byte(']')
		if ch == '{' {
			d.kind, end = "Object", '}'
		}
		for text[i] != end {
			if text[i] == ',' {
				i++
			}
			if ch == '{' {
				d.keys = append(d.keys, flow.Sym("key "+text[i:i+1], stringT))
				i += 2
			}
			d.kids = append(d.kids, value())
		}
		for j, k := range d.kids {
			if k.kind == "" {
				d.kids, d.bad = d.kids[:j], true
				break
			}
		}
		i++
		if i < len(text) && text[i] == '!' {
			d.bad = true
			i++
		}
		return d
	}
	return value()
}

// visit lists the paths to scalars in the order of the document, and the depth
// at which each failure is met.
func (d *jdoc) visit(segs []*flow.Term, scalars func([]*flow.Term), fails func(depth int)) {
	switch d.kind {
	case "Object":
		for i, k := range d.kids {
			k.visit(append(append([]*flow.Term(nil), segs...), d.keys[i]), scalars, fails)
		}
	case "Array":
		for _, k := range d.kids {
			if k.kind != "Array" {
				k.visit(segs, scalars, fails)
			}
		}
	default:
		if len(segs) > 0 {
			scalars(segs)
		}
		return
	}
	if d.bad {
		fails(len(segs))
	}
}

func (d *jdoc) each(f func(*jdoc)) {
	f(d)
	for _, k := range d.kids {
		k.each(f)
	}
}

// sampling is the analysis of the sampler.
type sampling struct {
	c     *Ctx
	in    *flow.Interp
	docs  map[*flow.Term]*jdoc
	typ   types.Type
	depth *flow.Term
	keys  []*flow.Term
}

func newSampling(c *Ctx) *sampling {
	s := &sampling{c: c, in: c.Interp(), docs: map[*flow.Term]*jdoc{}, typ: c.Type(smp, "Sampler"), depth: flow.Sym("depth limit", types.Typ[types.Int])}
	s.in.Unroll = 40
	s.in.Recurse = true
	s.in.Uni.NonNil = func(x *flow.Term) bool {
		return x.Op == "sym" && strings.HasPrefix(x.Aux, "syntax error")
	}
	s.in.Hook = s.hook
	return s
}

// hook goes through the parts of the documents.
func (s *sampling) hook(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
	object := strings.HasSuffix(call.Name, "jsonparser.ObjectEach")
	if !object && !strings.HasSuffix(call.Name, "jsonparser.ArrayEach") {
		return nil, false
	}
	if len(call.Args) > 2 && flow.Len(in.ListOf(st, call.Args[2])) != flow.Int(0) {
		flow.Undecided("%s is given keys", call.Name)
	}
	data := in.ListOf(st, call.Args[0])
	d := s.docs[data]
	if d == nil {
		flow.Undecided("%s is given %s, which is not a part of the document", call.Name, short(data))
	}
	if (d.kind == "Object") != object || d.kind != "Object" && d.kind != "Array" {
		flow.Undecided("%s is given a value of type %s", call.Name, d.kind)
	}
	cb := call.Args[1]
	if cb.Fn == nil {
		flow.Undecided("callback of %s is not a function of the program", call.Name)
	}
	params := cb.Fn.Signature.Params()
	at := 1
	if object {
		at = 2
	}
	res := func(err *flow.Term) *flow.Term {
		if object {
			return err
		}
		return flow.Tuple(flow.Sym("offset", types.Typ[types.Int]), err)
	}
	sts := []*flow.State{st}
	var out []flow.Ret
	for i, k := range d.kids {
		args := []*flow.Term{k.data, s.valueType(k.kind, params.At(at).Type()), flow.Sym("offset", types.Typ[types.Int])}
		if object {
			args = append([]*flow.Term{flow.ToBytes(d.keys[i])}, args...)
		} else {
			args = append(args, flow.Nil)
		}
		var next []*flow.State
		for _, st := range sts {
			for _, r := range in.CallValue(st, cb, args, call) {
				if r.Panic {
					out = append(out, r)
					continue
				}
				if object {
					if s2 := r.St.Clone(); s2.Assume(flow.Eq(r.Val, flow.Nil), false) {
						out = append(out, flow.Ret{St: s2, Val: res(r.Val)})
					}
					if !r.St.Assume(flow.Eq(r.Val, flow.Nil), true) {
						continue
					}
				}
				next = append(next, r.St)
			}
		}
		sts = next
	}
	for _, st := range sts {
		err := flow.Nil
		if d.bad {
			err = flow.Sym("syntax error in "+d.data.Aux, errorT)
		}
		out = append(out, flow.Ret{St: st, Val: res(err)})
	}
	return out, true
}

func (s *sampling) valueType(kind string, t types.Type) *flow.Term {
	n := t.(*types.Named)
	k, ok := n.Obj().Pkg().Scope().Lookup(kind).(*types.Const)
	if !ok {
		s.c.Missing("jsonparser." + kind)
	}
	return flow.Const(k.Val(), t)
}

// begin makes a sampler.
func (s *sampling) begin() (*flow.State, *flow.Term) {
	st := s.in.NewState()
	rs := s.in.CallFn(st, s.c.Fn(smp, "New"), s.depth)
	if len(rs) != 1 || rs[0].Panic {
		flow.Undecided("a new sampler is made in several ways")
	}
	return rs[0].St, rs[0].Val
}

// offer gives a document to the sampler.
func (s *sampling) offer(st *flow.State, obj *flow.Term, d *jdoc) []flow.Ret {
	d.each(func(x *jdoc) {
		s.docs[x.data] = x
		for _, k := range x.keys {
			if !has(s.keys, k) {
				s.keys = append(s.keys, k)
			}
		}
	})
	// equal keys are the subject of shapes of their own
	for i, k := range s.keys {
		for _, l := range s.keys[:i] {
			for _, x := range []*flow.Term{k, flow.App("strconv.Quote", stringT, k)} {
				for _, y := range []*flow.Term{l, flow.App("strconv.Quote", stringT, l)} {
					st.Assume(flow.Eq(x, y), false)
				}
			}
		}
	}
	first, last := '{', '}'
	if d.kind == "Array" {
		first, last = '[', ']'
	}
	n := flow.Len(d.data)
	st.Assume(flow.Le(flow.Int(2), n), true)
	for _, x := range []struct {
		at *flow.Term
		ch rune
	}{{flow.Int(0), first}, {flow.Sub(n, flow.Int(1)), last}} {
		b := flow.ItemAt(d.data, x.at, types.Typ[types.Byte])
		st.Assume(flow.Eq(b, flow.Const(constant.MakeInt64(int64(x.ch)), types.Typ[types.Byte])), true)
	}
	return s.in.CallFn(st, s.c.Method(types.NewPointer(s.typ), "Sample"), obj, d.data)
}

// special are the characters that need quotes.
var special = []string{" ", ".", "\""}

// text is the recorded form of a path. A key with a dot, a blank or a quote is
// quoted, any other is taken as it is.
func (s *sampling) text(st *flow.State, segs []*flow.Term) (*flow.Term, string) {
	var out []*flow.Term
	for i, k := range segs {
		if i > 0 {
			out = append(out, flow.Str("."))
		}
		quote := flow.No
		for _, ch := range special {
			switch st.F.Decide(flow.App("strings.Contains", types.Typ[types.Bool], k, flow.Str(ch))) {
			case flow.Yes:
				quote = flow.Yes
			case flow.Maybe:
				if quote == flow.No {
					quote = flow.Maybe
				}
			}
			if quote == flow.Yes {
				break
			}
		}
		switch quote {
		case flow.Maybe:
			return nil, "a key is recorded without looking for the characters that need quotes"
		case flow.Yes:
			out = append(out, flow.App("strconv.Quote", stringT, k))
		default:
			out = append(out, k)
		}
	}
	return flow.Concat(out...), ""
}

// within tells whether a depth is within the limit.
func (s *sampling) within(st *flow.State, depth int) flow.Tri {
	if depth == 0 {
		return flow.Yes
	}
	if st.F.Decide(flow.Lt(s.depth, flow.Int(0))) == flow.Yes || st.F.Decide(flow.Le(flow.Int(int64(depth)), s.depth)) == flow.Yes {
		return flow.Yes
	}
	if st.F.Decide(flow.Le(flow.Int(0), s.depth)) == flow.Yes && st.F.Decide(flow.Lt(s.depth, flow.Int(int64(depth)))) == flow.Yes {
		return flow.No
	}
	return flow.Maybe
}

// wanted are the paths that a document has to record, and whether it fails.
func (s *sampling) wanted(st *flow.State, d *jdoc) (paths []*flow.Term, fails bool, why string) {
	d.visit(nil, func(segs []*flow.Term) {
		switch s.within(st, len(segs)) {
		case flow.Maybe:
			if why == "" && !fails {
				why = fmt.Sprintf("whether depth %d is within the limit is not decided", len(segs))
			}
		case flow.Yes:
			t, w := s.text(st, segs)
			if w != "" {
				if why == "" && !fails {
					why = w
				}
				return
			}
			if !has(paths, t) {
				paths = append(paths, t)
			}
		}
	}, func(depth int) {
		switch s.within(st, depth) {
		case flow.Maybe:
			if why == "" && !fails {
				why = fmt.Sprintf("whether depth %d is within the limit is not decided", depth)
			}
		case flow.Yes:
			if why == "" {
				fails = true
			}
		}
	})
	return
}

func has(ts []*flow.Term, t *flow.Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// seen is what a sampler reports: its keys and the number of documents.
type seen struct {
	st   *flow.State
	keys []*flow.Term
	docs *flow.Term
}

func (s *sampling) report(st *flow.State, obj *flow.Term) []seen {
	var out []seen
	pt := types.NewPointer(s.typ)
	for _, r := range s.in.CallFn(st, s.c.Method(pt, "Scanned"), obj) {
		if r.Panic {
			flow.Undecided("Scanned panics")
		}
		docs := r.Val
		for _, r := range s.in.CallFn(r.St, s.c.Method(pt, "Keys"), obj) {
			if r.Panic {
				flow.Undecided("Keys panics")
			}
			out = append(out, seen{r.St, s.list(r.St, r.Val), docs})
		}
	}
	return out
}

func (s *sampling) list(st *flow.State, l *flow.Term) []*flow.Term {
	var out []*flow.Term
	for _, x := range flow.Segs(s.in.ListOf(st, l)) {
		if x.Op != "seg:e" {
			flow.Undecided("the listed keys are not known: %s", short(l))
		}
		out = append(out, x.Args[0])
	}
	return out
}

// same compares two sets of keys, counting each key once.
func (s *sampling) same(st *flow.State, got, want []*flow.Term) string {
	known := func(ts []*flow.Term, t *flow.Term) bool {
		for _, x := range ts {
			if st.F.Decide(flow.Eq(x, t)) == flow.Yes {
				return true
			}
		}
		return false
	}
	for _, w := range want {
		if !known(got, w) {
			return "the path " + short(w) + " is missing"
		}
	}
	for i, g := range got {
		if !known(want, g) {
			return "the path " + short(g) + " is recorded and should not be"
		}
		if known(got[:i], g) {
			return "the path " + short(g) + " is listed twice"
		}
	}
	return ""
}

// shapes are the documents that are looked at.
var shapes = []string{
	"{}", "[]", "{a:s}", "{a:n}", "{a:b}", "{a:0}", "{a:s,b:s}", "{a:s,b:n,c:s}",
	"{a:{}}", "{a:[]}", "{a:{b:s}}", "{a:{b:s},c:s}", "{a:s,b:{c:s}}", "{a:{b:{c:s}}}", "{a:{b:{c:s},d:s},e:s}",
	"{a:[s]}", "{a:[s,n]}", "{a:[{b:s}]}", "{a:[{b:s},{c:s}]}", "{a:[{b:s},s],c:s}", "{a:{b:[s]}}", "{a:{b:[{c:s}]},d:s}",
	"[s]", "[s,n]", "[{a:s}]", "[{a:s},{b:s}]", "[s,{a:s}]", "[{a:s},s]", "[{a:[s]},{b:{c:s}}]",
	"[[s]]", "[[{a:s}]]", "{a:[[s]]}", "{a:[[s],s]}", "{a:[s,[{b:s}]],c:s}", "{a:[[{b:s}],{c:s}]}", "{a:[{b:[s]}]}", "{a:[{b:[[s]]},{c:s}]}",
	"{a:{b:{c:{d:s}}}}", "{a:{b:{c:{d:s},e:s}},f:s}",
}

// failing are documents that cannot be sampled, as far as their failure is
// within the limit.
var failing = []string{
	"{}!", "[]!", "{a:?}", "[?]", "{a:s}!", "{a:s,b:?}", "{a:?,b:s}", "[s,?]", "[?,s]", "[{a:s},?]", "[?,{a:s}]", "[{a:s}]!",
	"{a:{b:s}!}", "{a:{b:s}!,c:s}", "{a:s,b:{c:?}}", "{a:[?]}", "{a:[s]!}", "{a:[s,?,s],b:s}", "{a:[{b:s,c:?}]}", "{a:[{b:?},{c:s}],d:s}", "[{a:s}!,{b:s}]",
	"{a:{b:{c:s,d:?}}}", "{a:{b:{c:s}!}}", "{a:{b:[{c:?}]}}",
}

// each runs a rule on every way a history of documents can go.
func (s *sampling) each(rule string, history []string, f func(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string) {
	keys := map[byte]bool{}
	for _, h := range history {
		for i := range h {
			if h[i] == ':' {
				keys[h[i-1]] = true
			}
		}
	}
	if len(keys) <= 1 {
		s.run(rule, history, "", f)
		return
	}
	// one key at a time has any text, the others need no quotes
	for k := range keys {
		plain := ""
		for l := range keys {
			if l != k {
				plain += string(l)
			}
		}
		s.run(rule, history, plain, f)
	}
}

func (s *sampling) run(rule string, history []string, plain string, f func(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string) {
	c := s.c
	what := strings.Join(history, " ")
	c.guard(rule, func() {
		type at struct {
			st   *flow.State
			errs []*flow.Term
		}
		st, obj := s.begin()
		for _, l := range plain {
			for _, ch := range special {
				st.Assume(flow.App("strings.Contains", types.Typ[types.Bool], flow.Sym("key "+string(l), stringT), flow.Str(ch)), false)
			}
		}
		sts := []at{{st: st}}
		var docs []*jdoc
		sample := c.Method(types.NewPointer(s.typ), "Sample")
		for i, h := range history {
			d := docOf(h)
			// the same shape at another place of the history is another text
			d.each(func(x *jdoc) { x.data = flow.Sym(fmt.Sprintf("%s of offer %d", x.data.Aux, i), x.data.Typ) })
			docs = append(docs, d)
			var next []at
			for _, a := range sts {
				for _, r := range s.offer(a.st, obj, d) {
					if r.Panic {
						c.Bad(rule, what, c.P.Where(sample.Pos()), "sampling panics: %s", r.Why)
						continue
					}
					next = append(next, at{r.St, append(append([]*flow.Term(nil), a.errs...), r.Val)})
				}
			}
			sts = next
		}
		for _, a := range sts {
			why := f(a.st, obj, docs, a.errs)
			c.Need(why == "", rule, what, c.P.Where(sample.Pos()), "documents of the form %s: %s", what, why)
		}
	})
}

func (s *sampling) failed(st *flow.State, err *flow.Term) flow.Tri {
	return st.F.Decide(flow.Eq(err, flow.Nil)).Not()
}

// outcome checks what a sampler reports after a history: exactly the paths of
// the documents that succeeded.
func (s *sampling) outcome(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string {
	var want []*flow.Term
	n := int64(0)
	for i, d := range docs {
		paths, fails, why := s.wanted(st, d)
		if why != "" {
			return why
		}
		switch s.failed(st, errs[i]) {
		case flow.Maybe:
			return "whether sampling fails is not decided"
		case flow.Yes:
			if !fails {
				return "a document without errors is refused: " + short(errs[i])
			}
			continue
		}
		if fails {
			return "a document with an error is accepted"
		}
		n++
		for _, p := range paths {
			if !has(want, p) {
				want = append(want, p)
			}
		}
	}
	for _, r := range s.report(st, obj) {
		if r.docs != flow.Int(n) {
			return fmt.Sprintf("%s documents are reported as scanned instead of %d", short(r.docs), n)
		}
		if why := s.same(r.st, r.keys, want); why != "" {
			return why
		}
	}
	return ""
}

// numbers makes sure that nothing in the recursive part depends on numbers
// larger than the documents that are looked at.
func (s *sampling) numbers(rule string) {
	c := s.c
	rec := map[*ssa.Function]bool{}
	for fn := range s.in.Funcs {
		if inPkg(fn, smp) && reaches(fn, fn) {
			rec[fn] = true
			for _, a := range fn.AnonFuncs {
				rec[a] = true
			}
		}
	}
	old := s.in.Funcs
	s.in.Funcs = rec
	c.cutoff(rule, s.in, smp)
	s.in.Funcs = old
}

// reaches tells whether a function can call another one, itself or in the
// functions it makes.
func reaches(from, to *ssa.Function) bool {
	done := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if done[f] {
			return false
		}
		done[f] = true
		for _, a := range f.AnonFuncs {
			if walk(a) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && (g == to || inPkg(g, smp) && walk(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(from)
}

func s01(c *Ctx) {
	c.Rule("shapes: for documents of every shape within three levels, with any keys and any depth limit, the recorded paths are those of the scalars within the limit, written with quotes where a key needs them")
	c.Rule("numbers: the recursive part depends on no number beyond these shapes other than the depth limit")
	s := newSampling(c)
	for _, h := range shapes {
		s.each("shapes", []string{h}, s.outcome)
	}
	s.numbers("numbers")
	c.Used(s.in)
	c.Assume = append(c.Assume, "jsonparser.ObjectEach and jsonparser.ArrayEach visit every member once, in order, and stop at the first error")
	c.AtLeast("shapes", len(shapes))
}

func s02(c *Ctx) {
	c.Rule("failures: a document that fails adds no key and no document")
	c.Rule("histories: documents sampled before and after it are reported as if it had not been there")
	s := newSampling(c)
	for _, h := range failing {
		s.each("failures", []string{h}, s.outcome)
	}
	for _, h := range []string{"{a:s}!", "{a:s,b:?}", "[{a:s},?]", "{a:[{b:s,c:?}]}", "{a:{b:s}!,c:s}"} {
		s.each("histories", []string{"{a:s}", h}, s.outcome)
		s.each("histories", []string{h, "{a:s}"}, s.outcome)
		s.each("histories", []string{"[s]", h, "{d:s}"}, s.outcome)
	}
	s.refused("failures")
	s.numbers("numbers")
	c.Used(s.in)
	c.AtLeast("failures", len(failing))
	c.AtLeast("histories", 15)
}

// refused checks texts that are not even looked at.
func (s *sampling) refused(rule string) {
	c := s.c
	sample := c.Method(types.NewPointer(s.typ), "Sample")
	c.guard(rule, func() {
		st, obj := s.begin()
		d := &jdoc{kind: "Object", data: flow.Sym("any text", types.NewSlice(types.Typ[types.Byte]))}
		s.docs[d.data] = d
		hook := s.in.Hook
		defer func() { s.in.Hook = hook }()
		s.in.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
			switch {
			case strings.HasSuffix(call.Name, "jsonparser.ObjectEach"):
				return []flow.Ret{{St: st, Val: flow.Sym("syntax error of the text", errorT)}}, true
			case strings.HasSuffix(call.Name, "jsonparser.ArrayEach"):
				return []flow.Ret{{St: st, Val: flow.Tuple(flow.Sym("offset", types.Typ[types.Int]), flow.Sym("syntax error of the text", errorT))}}, true
			}
			return nil, false
		}
		for _, r := range s.in.CallFn(st, sample, obj, d.data) {
			why := ""
			switch {
			case r.Panic:
				why = "panics: " + r.Why
			case s.failed(r.St, r.Val) != flow.Yes:
				why = "a text that is no document is accepted"
			default:
				for _, x := range s.report(r.St, obj) {
					if x.docs != flow.Int(0) || len(x.keys) > 0 {
						why = "a text that is no document leaves something behind"
					}
				}
			}
			c.Need(why == "", rule, "any text", c.P.Where(sample.Pos()), "%s", why)
		}
	})
}

func s04(c *Ctx) {
	c.Rule("operations: no index, slice, nil pointer, map or conversion can fail on any path of the sampler, for any text and any document")
	c.Rule("panics: no path ends in a panic")
	s := newSampling(c)
	c.mustCalls("panics", s.in)
	s.refused("panics")
	for _, h := range append(append([]string(nil), shapes...), failing...) {
		s.each("panics", []string{h}, func(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string { return "" })
	}
	for _, h := range [][]string{{"{a:s}"}, {"{}"}, {"{a:s}!"}} {
		s.reset("panics", h)
	}
	c.discharged("operations", s.in)
	c.Assume = append(c.Assume, "jsonparser does not panic, as far as its documentation goes; the stack suffices for the nesting of the document")
	c.AtLeast("operations", 3)
	c.AtLeast("panics", len(shapes)+len(failing))
}

// poly is a polynomial with rational coefficients; its keys are products.
type poly map[string]*big.Rat

func s03(c *Ctx) {
	c.Rule("counts: after any history, a key is listed at a percentage exactly if the documents with the key are at least that share of the documents that succeeded")
	c.Rule("exact: the share and the percentage are compared without a rounding that could change the answer")
	c.Rule("reset: after a reset nothing is known of earlier documents")
	s := newSampling(c)
	for _, h := range [][]string{{"{a:s}"}, {"{a:[s,s]}"}, {"{a:[{b:s},{b:s}]}"}, {"{a:s}", "{a:s}"}, {"{a:s}", "{b:s}"}, {"{a:s,b:s}", "{b:s}"}, {"{a:s}", "{b:s}", "{b:s}"}, {"{a:[s,s,s]}", "{b:s}", "[]"}, {"{a:s}", "{a:s,b:?}"}, {"{a:s}!", "{a:s}"}, {"{}", "{a:s}"}} {
		s.each("counts", h, s.shares)
	}
	s.exact()
	for _, h := range [][]string{{"{a:s}"}, {"{a:s,b:{c:s}}"}, {"{a:s}", "{b:s}"}} {
		s.reset("reset", h)
	}
	c.Used(s.in)
	c.AtLeast("counts", 11)
	c.AtLeast("exact", 2)
	c.AtLeast("reset", 3)
}

func (p poly) add(q poly, k *big.Rat) poly {
	out := poly{}
	for m, v := range p {
		out[m] = v
	}
	for m, v := range q {
		x := new(big.Rat).Mul(v, k)
		if o := out[m]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(out, m)
		} else {
			out[m] = x
		}
	}
	return out
}

func (p poly) mul(q poly) poly {
	out := poly{}
	for m, v := range p {
		for n, w := range q {
			ms := append(strings.Fields(m), strings.Fields(n)...)
			sort.Strings(ms)
			out = out.add(poly{strings.Join(ms, " "): new(big.Rat).Mul(v, w)}, big.NewRat(1, 1))
		}
	}
	return out
}

func constPoly(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": big.NewRat(n, 1)}
}

// constant returns the value of a polynomial without variables.
func (p poly) constant() (*big.Rat, bool) {
	if len(p) == 0 {
		return new(big.Rat), true
	}
	v, ok := p[""]
	return v, ok && len(p) == 1
}

// ratioOf reads a number as a quotient of polynomials over the given names. It
// also returns how many divisions that round the number has.
func ratioOf(t *flow.Term, names map[*flow.Term]string) (num, den poly, rounds int, ok bool) {
	one := constPoly(1)
	if n, is := names[t]; is {
		return poly{n: big.NewRat(1, 1)}, one, 0, true
	}
	if n, is := t.IntVal(); is {
		return constPoly(n), one, 0, true
	}
	if t.Op == "const" {
		r, is := new(big.Rat).SetString(t.Val.ExactString())
		if !is {
			return nil, nil, 0, false
		}
		if r.Sign() == 0 {
			return poly{}, one, 0, true
		}
		return poly{"": r}, one, 0, true
	}
	if ts, ks, k, is := t.Linear(); is {
		num = constPoly(k)
		for i, x := range ts {
			n, d, r, is := ratioOf(x, names)
			if v, whole := d.constant(); !is || !whole || v.Cmp(big.NewRat(1, 1)) != 0 {
				return nil, nil, 0, false
			}
			rounds += r
			num = num.add(n, big.NewRat(ks[i], 1))
		}
		return num, one, rounds, true
	}
	if t.Op != "app" {
		return nil, nil, 0, false
	}
	if strings.HasPrefix(t.Aux, "conv:") {
		num, den, rounds, ok = ratioOf(t.Args[0], names)
		if t.Aux == "conv:float32" {
			rounds += 2
		}
		return
	}
	if len(t.Args) != 2 {
		return nil, nil, 0, false
	}
	an, ad, ar, aok := ratioOf(t.Args[0], names)
	bn, bd, br, bok := ratioOf(t.Args[1], names)
	if !aok || !bok {
		return nil, nil, 0, false
	}
	rounds = ar + br
	switch t.Aux {
	case "bin*":
		if rounds > 0 {
			rounds++
		}
		return an.mul(bn), ad.mul(bd), rounds, true
	case "bin+":
		return an.mul(bd).add(bn.mul(ad), big.NewRat(1, 1)), ad.mul(bd), rounds, true
	case "bin-":
		return an.mul(bd).add(bn.mul(ad), big.NewRat(-1, 1)), ad.mul(bd), rounds, true
	case "bin/":
		if b, is := t.Typ.Underlying().(*types.Basic); !is || b.Info()&types.IsFloat == 0 {
			return nil, nil, 0, false
		}
		return an.mul(bd), ad.mul(bn), rounds + 1, true
	}
	return nil, nil, 0, false
}

// shares checks which keys are listed at an unknown percentage.
func (s *sampling) shares(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string {
	if why := s.outcome(st, obj, docs, errs); why != "" {
		return why
	}
	var in [][]*flow.Term
	for i, d := range docs {
		if s.failed(st, errs[i]) == flow.No {
			paths, _, _ := s.wanted(st, d)
			in = append(in, paths)
		}
	}
	p := flow.Sym("percentage", types.Typ[types.Int])
	for _, r := range s.in.CallFn(st, s.c.Method(types.NewPointer(s.typ), "KeysAtThreshold"), obj, p) {
		if r.Panic {
			return "listing keys panics: " + r.Why
		}
		listed := s.list(r.St, r.Val)
		lo, hi := boundsOf(r.St, p)
		var all []*flow.Term
		for _, paths := range in {
			for _, k := range paths {
				n := int64(0)
				for _, ps := range in {
					for _, q := range ps {
						if r.St.F.Decide(flow.Eq(k, q)) == flow.Yes {
							n++
							break
						}
					}
				}
				// at most this percentage
				share := new(big.Int).Div(big.NewInt(100*n), big.NewInt(int64(len(in))))
				is := false
				for _, l := range listed {
					is = is || r.St.F.Decide(flow.Eq(k, l)) == flow.Yes
				}
				if is && (hi == nil || hi.Cmp(share) > 0) {
					return fmt.Sprintf("%s, in %d of %d documents, is listed at percentages up to %v", short(k), n, len(in), hi)
				}
				if !is && (lo == nil || lo.Cmp(share) <= 0) {
					return fmt.Sprintf("%s, in %d of %d documents, is not listed at percentages from %v", short(k), n, len(in), lo)
				}
				all = append(all, k)
			}
		}
		for _, l := range listed {
			if !has(all, l) {
				return short(l) + " is listed and is in no document"
			}
		}
	}
	return ""
}

// boundsOf are the limits known for an integer.
func boundsOf(st *flow.State, p *flow.Term) (lo, hi *big.Int) {
	names := map[*flow.Term]string{p: "p"}
	upper := func(x *big.Rat, strict bool) {
		n := new(big.Int).Div(x.Num(), x.Denom())
		if strict && x.IsInt() {
			n.Sub(n, big.NewInt(1))
		}
		if hi == nil || n.Cmp(hi) < 0 {
			hi = n
		}
	}
	lower := func(x *big.Rat, strict bool) {
		n := new(big.Int).Div(x.Num(), x.Denom())
		if !x.IsInt() || strict {
			n.Add(n, big.NewInt(1))
		}
		if lo == nil || n.Cmp(lo) > 0 {
			lo = n
		}
	}
	for _, x := range st.F.Comparisons() {
		an, ad, _, aok := ratioOf(x.A, names)
		bn, bd, _, bok := ratioOf(x.B, names)
		if !aok || !bok {
			continue
		}
		d1, ok1 := ad.constant()
		d2, ok2 := bd.constant()
		if !ok1 || !ok2 || d1.Sign() <= 0 || d2.Sign() <= 0 {
			continue
		}
		f := an.mul(bd).add(bn.mul(ad), big.NewRat(-1, 1))
		k := f["p"]
		if k == nil {
			continue
		}
		c := f[""]
		if c == nil {
			c = new(big.Rat)
		}
		if n := len(f); n > 2 || n == 2 && f[""] == nil {
			continue
		}
		at := new(big.Rat).Neg(new(big.Rat).Quo(c, k))
		up, down := x.LT, x.GT
		if k.Sign() < 0 {
			up, down = down, up
		}
		// up: values below the limit are possible
		if up && !down {
			upper(at, !x.EQ)
		}
		if down && !up {
			lower(at, !x.EQ)
		}
	}
	return
}

// exact checks the comparison for unknown numbers of documents.
func (s *sampling) exact() {
	c := s.c
	fn := c.Method(types.NewPointer(s.typ), "KeysAtThreshold")
	c.guard("exact", func() {
		st, obj := s.begin()
		for _, r := range s.offer(st, obj, docOf("{a:s}")) {
			if r.Panic || s.failed(r.St, r.Val) != flow.No || s.within(r.St, 1) != flow.Yes {
				continue
			}
			// the numbers that have become 1 are the counts
			st := r.St
			count, total, p := flow.Sym("documents with the key", types.Typ[types.Int]), flow.Sym("documents", types.Typ[types.Int]), flow.Sym("percentage", types.Typ[types.Int])
			st.Assume(flow.Le(flow.Int(1), count), true)
			st.Assume(flow.Le(count, total), true)
			str := s.typ.Underlying().(*types.Struct)
			nc, nt := 0, 0
			for i := 0; i < str.NumFields(); i++ {
				f := str.Field(i)
				v := flow.FieldNamed(s.in.Load(st, obj), f.Name(), s.typ)
				if _, is := f.Type().Underlying().(*types.Map); is {
					if m := s.in.MapContent(st, v); m.Op == "mapupd" && m.Args[2] == flow.Int(1) {
						s.in.MapSet(st, v, m.Args[1], count)
						nc++
					}
				} else if v == flow.Int(1) {
					s.in.SetField(st, obj, i, total)
					nt++
				}
			}
			if nc != 1 || nt != 1 {
				flow.Undecided("the counts of the sampler are not plain numbers")
			}
			want := constPoly(100).mul(poly{"count": big.NewRat(1, 1)}).add(poly{"p total": big.NewRat(1, 1)}, big.NewRat(-1, 1))
			names := map[*flow.Term]string{count: "count", total: "total", p: "p"}
			for _, r := range s.in.CallFn(st, fn, obj, p) {
				if r.Panic {
					c.Bad("exact", "comparison", c.P.Where(fn.Pos()), "panics: %s", r.Why)
					continue
				}
				listed := len(s.list(r.St, r.Val)) > 0
				why := "the share of the documents is not compared with the percentage"
				for _, x := range r.St.F.Comparisons() {
					atLeast, below, w := shareFact(x, names, p, want)
					if listed && atLeast || !listed && below {
						why = ""
						break
					}
					if w != "" {
						why = w
					}
				}
				c.Need(why == "", "exact", "comparison", c.P.Where(fn.Pos()), "%s", why)
			}
		}
	})
}

// shareFact reads from a comparison whether the number want is not negative, or
// negative.
func shareFact(x flow.Comparison, names map[*flow.Term]string, p *flow.Term, want poly) (atLeast, below bool, why string) {
	an, ad, ar, aok := ratioOf(x.A, names)
	bn, bd, br, bok := ratioOf(x.B, names)
	var f poly
	switch {
	case aok && bok:
		f = an.mul(bd).add(bn.mul(ad), big.NewRat(-1, 1))
	case bok:
		// a whole quotient is at least p exactly if the dividend is at least p
		// times the divisor
		ts, ks, k, is := x.A.Linear()
		if !is || len(ts) != 2 || k != 0 {
			return
		}
		for i, q := range ts {
			if q.Op != "app" || q.Aux != "bin/" || ts[1-i] != p || ks[i]*ks[1-i] != -1 {
				continue
			}
			n, nd, nr, nok := ratioOf(q.Args[0], names)
			d, dd, dr, dok := ratioOf(q.Args[1], names)
			b, bok := bn.constant()
			if !nok || !dok || !bok || nr+dr > 0 || len(nd) != 1 || len(dd) != 1 {
				continue
			}
			// ks[i] * (q - p) against b
			lt, gt := x.LT, x.GT
			if ks[i] < 0 {
				lt, gt = gt, lt
				b = new(big.Rat).Neg(b)
			}
			if len(n.add(d.mul(poly{"p": big.NewRat(1, 1)}), big.NewRat(-1, 1)).add(want, big.NewRat(-1, 1))) != 0 {
				continue
			}
			return gt && !lt && b.Sign() >= 0, lt && !gt && b.Sign() < 0, "the comparison is not that the share is at least the percentage"
		}
		return
	default:
		return
	}
	for _, sign := range []int64{1, -1} {
		rest := f.add(want, big.NewRat(-sign, 1))
		k, is := rest.constant()
		if !is {
			continue
		}
		// sign * want + k against 0
		if ar > 1 || br > 1 {
			return false, false, "the comparison rounds more than once"
		}
		lt, gt := x.LT, x.GT
		at := new(big.Rat).Neg(k)
		if sign < 0 {
			lt, gt = gt, lt
			at = k
		}
		// want against at
		return gt && !lt && at.Sign() >= 0, lt && !gt && (at.Sign() < 0 || at.Sign() == 0 && !x.EQ), "the comparison is not that the share is at least the percentage"
	}
	return
}

// reset checks that a sampler knows nothing after a reset.
func (s *sampling) reset(rule string, history []string) {
	fn := s.c.Method(types.NewPointer(s.typ), "Reset")
	s.each(rule, history, func(st *flow.State, obj *flow.Term, docs []*jdoc, errs []*flow.Term) string {
		for _, r := range s.in.CallFn(st, fn, obj) {
			if r.Panic {
				return "panics: " + r.Why
			}
			d := docOf("{a:s}")
			for _, r := range s.report(r.St, obj) {
				if r.docs != flow.Int(0) || len(r.keys) > 0 {
					return "the sampler is not empty after a reset"
				}
				for _, r := range s.offer(r.st, obj, d) {
					if r.Panic {
						return "sampling after a reset panics: " + r.Why
					}
					if why := s.shares(r.St, obj, []*jdoc{d}, []*flow.Term{r.Val}); why != "" {
						return "after a reset: " + why
					}
				}
			}
		}
		return ""
	})
}
