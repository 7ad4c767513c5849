package checks

import (
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// A peg is a parsing expression grammar.
type peg struct {
	rules  []*prule
	byName map[string]*prule
}

type prule struct {
	name, display string
	expr          *pexpr
	where         string
}

// A pexpr is a parsing expression. Kinds: lit, class, any, seq, choice, star,
// plus, opt, and, not, ref, label, action, throw, recover, state, andcode, notcode.
type pexpr struct {
	kind           string
	kids           []*pexpr
	str            string   // literal, name or label
	labels         []string // of a recovery
	fold, inverted bool
	chars, ranges  []rune
	classes        []string
	run            *ssa.Function // of an action
	code           string        // of an action in the source
	where          string
}

// kinds of expressions by the name of their type in the generated parser
var pegKinds = map[string]string{
	"choiceExpr": "choice", "actionExpr": "action", "recoveryExpr": "recover", "seqExpr": "seq", "throwExpr": "throw",
	"labeledExpr": "label", "andExpr": "and", "notExpr": "not", "zeroOrOneExpr": "opt", "zeroOrMoreExpr": "star",
	"oneOrMoreExpr": "plus", "ruleRefExpr": "ref", "stateCodeExpr": "state", "andCodeExpr": "andcode", "notCodeExpr": "notcode",
	"litMatcher": "lit", "charClassMatcher": "class", "anyMatcher": "any",
}

type pegReader struct {
	c    *Ctx
	pkg  *packages.Package
	vars map[types.Object]goast.Expr
}

// generatedGrammar reads the grammar out of the generated parser.
func (c *Ctx) generatedGrammar() *peg {
	r := &pegReader{c: c, pkg: c.P.Package("internal/grammar"), vars: map[types.Object]goast.Expr{}}
	if r.pkg == nil {
		c.Missing("package internal/grammar")
	}
	var root *goast.CompositeLit
	for _, f := range r.pkg.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*goast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*goast.ValueSpec)
				for i, n := range vs.Names {
					if i >= len(vs.Values) {
						continue
					}
					r.vars[r.pkg.TypesInfo.Defs[n]] = vs.Values[i]
					if cl := r.lit(vs.Values[i]); cl != nil && r.typeName(cl) == "grammar" {
						if root != nil {
							c.Missing("a single grammar")
						}
						root = cl
					}
				}
			}
		}
	}
	if root == nil {
		c.Missing("the grammar of the generated parser")
	}
	g := &peg{byName: map[string]*prule{}}
	rules := r.lit(r.field(root, "rules"))
	if rules == nil {
		c.Missing("the rules of the generated parser")
	}
	for _, e := range rules.Elts {
		cl := r.lit(e)
		g.add(c, &prule{name: r.str(r.field(cl, "name")), display: r.str(r.field(cl, "displayName")), expr: r.expr(r.field(cl, "expr")), where: c.P.Where(e.Pos())})
	}
	return g
}

func (g *peg) add(c *Ctx, r *prule) {
	if g.byName[r.name] != nil {
		c.Bad("rules", r.name, r.where, "the rule is defined twice")
	}
	g.rules = append(g.rules, r)
	g.byName[r.name] = r
}

// lit is the composite literal an expression stands for.
func (r *pegReader) lit(e goast.Expr) *goast.CompositeLit {
	for n := 0; e != nil && n < 10; n++ {
		switch x := e.(type) {
		case *goast.CompositeLit:
			return x
		case *goast.ParenExpr:
			e = x.X
		case *goast.UnaryExpr:
			e = x.X
		case *goast.Ident:
			e = r.vars[r.pkg.TypesInfo.Uses[x]]
		default:
			return nil
		}
	}
	return nil
}

func (r *pegReader) typeName(e goast.Expr) string {
	t := r.pkg.TypesInfo.TypeOf(e)
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (r *pegReader) field(cl *goast.CompositeLit, name string) goast.Expr {
	if cl == nil {
		return nil
	}
	for _, e := range cl.Elts {
		if kv, ok := e.(*goast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*goast.Ident); ok && id.Name == name {
				return kv.Value
			}
		}
	}
	return nil
}

func (r *pegReader) val(e goast.Expr) constant.Value {
	if e == nil {
		return nil
	}
	return r.pkg.TypesInfo.Types[e].Value
}

func (r *pegReader) str(e goast.Expr) string {
	if e == nil {
		return ""
	}
	v := r.val(e)
	if v == nil {
		r.c.Missing("the value of a text in the generated grammar")
	}
	return constant.StringVal(v)
}

func (r *pegReader) flag(e goast.Expr) bool {
	if e == nil {
		return false
	}
	v := r.val(e)
	if v == nil {
		r.c.Missing("the value of a flag in the generated grammar")
	}
	return constant.BoolVal(v)
}

func (r *pegReader) runes(e goast.Expr) []rune {
	var out []rune
	if e == nil {
		return nil
	}
	cl := r.lit(e)
	if cl == nil {
		r.c.Missing("the characters of a class in the generated grammar")
	}
	for _, x := range cl.Elts {
		n, ok := constant.Int64Val(r.val(x))
		if !ok {
			r.c.Missing("the characters of a class in the generated grammar")
		}
		out = append(out, rune(n))
	}
	return out
}

func (r *pegReader) exprs(e goast.Expr) []*pexpr {
	cl := r.lit(e)
	if cl == nil {
		r.c.Missing("a list of expressions in the generated grammar")
	}
	var out []*pexpr
	for _, x := range cl.Elts {
		out = append(out, r.expr(x))
	}
	return out
}

func (r *pegReader) expr(e goast.Expr) *pexpr {
	cl := r.lit(e)
	if cl == nil {
		r.c.Missing("an expression of the generated grammar")
	}
	x := &pexpr{kind: pegKinds[r.typeName(cl)], where: r.c.P.Where(cl.Pos())}
	if x.kind == "" {
		r.c.Missing("a known kind of expression instead of " + r.typeName(cl))
	}
	switch x.kind {
	case "choice":
		x.kids = r.exprs(r.field(cl, "alternatives"))
	case "seq":
		x.kids = r.exprs(r.field(cl, "exprs"))
	case "and", "not", "opt", "star", "plus":
		x.kids = []*pexpr{r.expr(r.field(cl, "expr"))}
	case "label":
		x.str = r.str(r.field(cl, "label"))
		x.kids = []*pexpr{r.expr(r.field(cl, "expr"))}
	case "action":
		x.kids = []*pexpr{r.expr(r.field(cl, "expr"))}
		x.run = r.fn(r.field(cl, "run"))
	case "state", "andcode", "notcode":
		x.run = r.fn(r.field(cl, "run"))
	case "recover":
		x.kids = []*pexpr{r.expr(r.field(cl, "expr")), r.expr(r.field(cl, "recoverExpr"))}
		ls := r.lit(r.field(cl, "failureLabel"))
		if ls == nil {
			r.c.Missing("the labels of a recovery")
		}
		for _, l := range ls.Elts {
			x.labels = append(x.labels, r.str(l))
		}
	case "throw":
		x.str = r.str(r.field(cl, "label"))
	case "ref":
		x.str = r.str(r.field(cl, "name"))
	case "lit":
		x.str = r.str(r.field(cl, "val"))
		x.fold = r.flag(r.field(cl, "ignoreCase"))
	case "class":
		x.str = r.str(r.field(cl, "val"))
		x.fold = r.flag(r.field(cl, "ignoreCase"))
		x.inverted = r.flag(r.field(cl, "inverted"))
		x.chars = r.runes(r.field(cl, "chars"))
		x.ranges = r.runes(r.field(cl, "ranges"))
		if cs := r.lit(r.field(cl, "classes")); cs != nil {
			for _, k := range cs.Elts {
				x.classes = append(x.classes, types.ExprString(k))
			}
		}
	}
	return x
}

func (r *pegReader) fn(e goast.Expr) *ssa.Function {
	for {
		p, ok := e.(*goast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	var o types.Object
	switch x := e.(type) {
	case *goast.SelectorExpr:
		o = r.pkg.TypesInfo.Uses[x.Sel]
	case *goast.Ident:
		o = r.pkg.TypesInfo.Uses[x]
	}
	f, ok := o.(*types.Func)
	if !ok {
		r.c.Missing("the function of an action")
	}
	fn := r.c.P.SSA.FuncValue(f)
	if fn == nil {
		r.c.Missing("the function of an action")
	}
	return fn
}

// each calls f for every expression below x including x.
func (x *pexpr) each(f func(*pexpr)) {
	f(x)
	for _, k := range x.kids {
		k.each(f)
	}
}

// nullables computes which rules can succeed without consuming anything.
func (g *peg) nullables() func(*pexpr) bool {
	null := map[string]bool{}
	caught := g.recoveries()
	var is func(x *pexpr) bool
	is = func(x *pexpr) bool {
		switch x.kind {
		case "lit":
			return x.str == ""
		case "class", "any":
			return false
		case "seq":
			for _, k := range x.kids {
				if !is(k) {
					return false
				}
			}
			return true
		case "choice":
			for _, k := range x.kids {
				if is(k) {
					return true
				}
			}
			return false
		case "star", "opt", "and", "not", "state", "andcode", "notcode":
			return true
		case "plus", "label", "action":
			return is(x.kids[0])
		case "recover":
			return is(x.kids[0])
		case "throw":
			for _, k := range caught[x.str] {
				if is(k) {
					return true
				}
			}
			return false
		case "ref":
			return null[x.str]
		}
		return true
	}
	for {
		more := false
		for _, r := range g.rules {
			if !null[r.name] && is(r.expr) {
				null[r.name] = true
				more = true
			}
		}
		if !more {
			return is
		}
	}
}

// recoveries lists the expressions that catch each label.
func (g *peg) recoveries() map[string][]*pexpr {
	out := map[string][]*pexpr{}
	for _, r := range g.rules {
		r.expr.each(func(x *pexpr) {
			if x.kind == "recover" {
				for _, l := range x.labels {
					out[l] = append(out[l], x.kids[1])
				}
			}
		})
	}
	return out
}

// leftCalls lists the rules an expression can call before consuming anything.
func (g *peg) leftCalls(x *pexpr, null func(*pexpr) bool) []string {
	caught := g.recoveries()
	seen := map[string]bool{}
	var out []string
	var walk func(x *pexpr)
	walk = func(x *pexpr) {
		switch x.kind {
		case "ref":
			if !seen[x.str] {
				seen[x.str] = true
				out = append(out, x.str)
			}
		case "seq":
			for _, k := range x.kids {
				walk(k)
				if !null(k) {
					return
				}
			}
		case "recover":
			walk(x.kids[0])
		case "throw":
			for _, k := range caught[x.str] {
				walk(k)
			}
		default:
			for _, k := range x.kids {
				walk(k)
			}
		}
	}
	walk(x)
	return out
}

// reachable lists the rules reachable from the first one.
func (g *peg) reachable() []*prule {
	seen := map[string]bool{}
	var out []*prule
	var visit func(n string)
	visit = func(n string) {
		r := g.byName[n]
		if r == nil || seen[n] {
			return
		}
		seen[n] = true
		out = append(out, r)
		r.expr.each(func(x *pexpr) {
			if x.kind == "ref" {
				visit(x.str)
			}
		})
	}
	visit(g.rules[0].name)
	return out
}

// deref follows references, labels and actions without change of the text matched.
func (g *peg) deref(x *pexpr) *pexpr {
	for n := 0; n < 100; n++ {
		switch x.kind {
		case "ref":
			r := g.byName[x.str]
			if r == nil {
				return x
			}
			x = r.expr
		case "label", "action":
			x = x.kids[0]
		case "recover":
			x = x.kids[0]
		case "seq", "choice":
			if len(x.kids) != 1 {
				return x
			}
			x = x.kids[0]
		default:
			return x
		}
	}
	return x
}

// charset returns the set of characters of an expression that matches exactly
// one character, as pairs of bounds.
func (g *peg) charset(x *pexpr) ([]rune, bool) {
	x = g.deref(x)
	switch x.kind {
	case "any":
		return []rune{0, unicode.MaxRune}, true
	case "lit":
		rs := []rune(x.str)
		if len(rs) != 1 {
			return nil, false
		}
		if x.fold {
			return foldSet([]rune{rs[0], rs[0]}), true
		}
		return []rune{rs[0], rs[0]}, true
	case "class":
		if len(x.classes) > 0 || len(x.ranges)%2 != 0 {
			return nil, false
		}
		var s []rune
		for _, r := range x.chars {
			s = append(s, r, r)
		}
		s = append(s, x.ranges...)
		s = normSet(s)
		if x.fold {
			s = foldSet(s)
		}
		if x.inverted {
			s = negSet(s)
		}
		return s, true
	case "choice":
		var s []rune
		for _, k := range x.kids {
			t, ok := g.charset(k)
			if !ok {
				return nil, false
			}
			s = append(s, t...)
		}
		return normSet(s), true
	case "seq":
		// lookaheads of one character before one character
		var s []rune
		have := false
		out := []rune{}
		for i, k := range x.kids {
			d := g.deref(k)
			if (d.kind == "not" || d.kind == "and") && i < len(x.kids)-1 {
				t, ok := g.charset(d.kids[0])
				if !ok {
					// end of input needs no exclusion before a character
					if dd := g.deref(d.kids[0]); d.kind == "not" {
						if t, ok = g.charsetOrEOF(dd); !ok {
							return nil, false
						}
					} else {
						return nil, false
					}
				}
				if d.kind == "and" {
					t = negSet(t)
				}
				out = append(out, t...)
				continue
			}
			if i != len(x.kids)-1 {
				return nil, false
			}
			t, ok := g.charset(k)
			if !ok {
				return nil, false
			}
			s, have = t, true
		}
		if !have {
			return nil, false
		}
		return negSet(normSet(append(negSet(s), normSet(out)...))), true
	}
	return nil, false
}

// charsetOrEOF is charset for a choice that may also contain the end of input.
func (g *peg) charsetOrEOF(x *pexpr) ([]rune, bool) {
	if g.isEOF(x) {
		return nil, true
	}
	if x.kind == "choice" {
		var s []rune
		for _, k := range x.kids {
			d := g.deref(k)
			t, ok := g.charsetOrEOF(d)
			if !ok {
				return nil, false
			}
			s = append(s, t...)
		}
		return normSet(s), true
	}
	return g.charset(x)
}

// isEOF reports whether an expression succeeds exactly at the end of input.
func (g *peg) isEOF(x *pexpr) bool {
	x = g.deref(x)
	if x.kind != "not" {
		return false
	}
	s, ok := g.charset(x.kids[0])
	return ok && slices.Equal(s, []rune{0, unicode.MaxRune})
}

func normSet(s []rune) []rune {
	type iv struct{ lo, hi rune }
	var is []iv
	for i := 0; i+1 < len(s); i += 2 {
		if s[i] <= s[i+1] {
			is = append(is, iv{s[i], s[i+1]})
		}
	}
	slices.SortFunc(is, func(a, b iv) int { return int(a.lo) - int(b.lo) })
	var out []rune
	for _, i := range is {
		if n := len(out); n > 0 && i.lo <= out[n-1]+1 {
			out[n-1] = max(out[n-1], i.hi)
			continue
		}
		out = append(out, i.lo, i.hi)
	}
	return out
}

func negSet(s []rune) []rune {
	var out []rune
	next := rune(0)
	for i := 0; i+1 < len(s); i += 2 {
		if next < s[i] {
			out = append(out, next, s[i]-1)
		}
		next = s[i+1] + 1
	}
	if next <= unicode.MaxRune {
		out = append(out, next, unicode.MaxRune)
	}
	return out
}

// foldSet is the set of characters whose lower case is in a set, which is how
// the generated parser ignores case.
func foldSet(s []rune) []rune {
	in := func(r rune) bool {
		for i := 0; i+1 < len(s); i += 2 {
			if s[i] <= r && r <= s[i+1] {
				return true
			}
		}
		return false
	}
	var out []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if in(unicode.ToLower(r)) {
			out = append(out, r, r)
		}
	}
	return normSet(out)
}

func setRE(s []rune) string {
	if len(s) == 0 {
		return `[^\x{0}-\x{10FFFF}]`
	}
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i+1 < len(s); i += 2 {
		fmt.Fprintf(&sb, `\x{%X}-\x{%X}`, s[i], s[i+1])
	}
	sb.WriteByte(']')
	return sb.String()
}

// regex translates a token without recursion into a regular expression that
// has the same matches. The second result says why it is not possible.
func (g *peg) regex(x *pexpr) (string, string) {
	return g.regexIn(x, nil)
}

// regexIn translates x when follow is what comes after it in the token.
func (g *peg) regexIn(x *pexpr, follow []*pexpr) (string, string) {
	if s, ok := g.charset(x); ok {
		return setRE(s), ""
	}
	switch x.kind {
	case "lit":
		var sb strings.Builder
		for _, r := range x.str {
			s := []rune{r, r}
			if x.fold {
				s = foldSet(s)
			}
			sb.WriteString(setRE(s))
		}
		return sb.String(), ""
	case "label", "action":
		return g.regexIn(x.kids[0], follow)
	case "recover":
		return g.regexIn(x.kids[0], follow)
	case "throw":
		// recording an error fails the parse
		return setRE(nil), ""
	case "ref":
		r := g.byName[x.str]
		if r == nil {
			return "", "undefined rule " + x.str
		}
		if g.recursive(x.str) {
			return "", "rule " + x.str + " is recursive"
		}
		return g.regexIn(r.expr, follow)
	case "seq":
		var sb strings.Builder
		for i, k := range x.kids {
			s, why := g.regexIn(k, append(slices.Clone(x.kids[i+1:]), follow...))
			if why != "" {
				return "", why
			}
			sb.WriteString("(?:" + s + ")")
		}
		return sb.String(), ""
	case "choice":
		var ss []string
		for _, k := range x.kids {
			s, why := g.regexIn(k, follow)
			if why != "" {
				return "", why
			}
			ss = append(ss, s)
		}
		// an alternative must not hide a longer later one
		for i := range ss {
			for j := i + 1; j < len(ss); j++ {
				hides, err := meets("(?:"+ss[i]+`)[\x{0}-\x{10FFFF}]+`, ss[j])
				if err != nil {
					return "", err.Error()
				}
				if hides {
					return "", "an alternative hides a longer one"
				}
			}
		}
		return "(?:" + strings.Join(ss, "|") + ")", ""
	case "star", "plus", "opt":
		s, why := g.regexIn(x.kids[0], nil)
		if why != "" {
			return "", why
		}
		// what follows must not begin like a repetition; more of the same
		// characters can be taken by either
		if set, ok := g.charset(x.kids[0]); ok {
			for len(follow) > 0 {
				f := g.deref(follow[0])
				if f.kind != "opt" && f.kind != "star" {
					break
				}
				if fs, ok := g.charset(f.kids[0]); !ok || !slices.Equal(fs, set) {
					break
				}
				follow = follow[1:]
			}
		}
		if len(follow) > 0 {
			f, why := g.regexIn(&pexpr{kind: "seq", kids: follow}, nil)
			if why != "" {
				return "", why
			}
			clash, err := clashes(s, f)
			if err != nil {
				return "", err.Error()
			}
			if clash {
				return "", "a repetition can take what follows it"
			}
		}
		return "(?:" + s + ")" + map[string]string{"star": "*", "plus": "+", "opt": "?"}[x.kind], ""
	}
	return "", "a " + x.kind + " is not regular"
}

// recursive reports whether a rule can refer to itself.
func (g *peg) recursive(name string) bool {
	seen := map[string]bool{}
	var visit func(n string) bool
	visit = func(n string) bool {
		r := g.byName[n]
		if r == nil || seen[n] {
			return false
		}
		seen[n] = true
		found := false
		r.expr.each(func(y *pexpr) {
			if y.kind == "ref" && (y.str == name || visit(y.str)) {
				found = true
			}
		})
		return found
	}
	return visit(name)
}

// meets decides whether some non-empty string is matched by both expressions.
func meets(a, b string) (bool, error) { return product(a, b, false) }

// clashes decides whether a non-empty match of one expression is the beginning
// of one of the other.
func clashes(a, b string) (bool, error) { return product(a, b, true) }

func product(a, b string, begins bool) (bool, error) {
	pa, err := compileRE(a)
	if err != nil {
		return false, err
	}
	pb, err := compileRE(b)
	if err != nil {
		return false, err
	}
	reps := representatives(pa, pb)
	type node struct {
		a, b map[uint32]bool
		prev rune
	}
	seen := map[string]bool{}
	work := []node{{startSet(pa), startSet(pb), -1}}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if len(n.a) == 0 || len(n.b) == 0 {
			continue
		}
		k := key(n.a) + "|" + key(n.b)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 100000 {
			return false, fmt.Errorf("too many states")
		}
		if n.prev != -1 {
			x, y := accepts(pa, n.a, n.prev), accepts(pb, n.b, n.prev)
			if x && y || begins && (x || y) {
				return true, nil
			}
		}
		for _, r := range reps {
			work = append(work, node{step(pa, n.a, n.prev, r), step(pb, n.b, n.prev, r), r})
		}
	}
	return false, nil
}

// labelsOf lists the labels an action sees.
func (x *pexpr) labelsOf() []string {
	var out []string
	var walk func(y *pexpr)
	walk = func(y *pexpr) {
		switch y.kind {
		case "label":
			out = append(out, y.str)
		case "seq":
			for _, k := range y.kids {
				walk(k)
			}
		}
	}
	walk(x.kids[0])
	return out
}

// An actionFn is the function with the code of an action.
type actionFn struct {
	fn     *ssa.Function
	labels []string // passed as arguments after the receiver
}

// action finds the code of an action and the labels it is given.
func (c *Ctx) action(x *pexpr) actionFn {
	var out actionFn
	for _, b := range x.run.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || !c.P.InRepo(call.Call.StaticCallee()) {
				continue
			}
			if out.fn != nil {
				c.Missing("a single call in the action at " + x.where)
			}
			out.fn = call.Call.StaticCallee()
			for _, a := range call.Call.Args[1:] {
				l, ok := a.(*ssa.Lookup)
				if !ok {
					c.Missing("the labels of the action at " + x.where)
				}
				k, ok := l.Index.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					c.Missing("the labels of the action at " + x.where)
				}
				out.labels = append(out.labels, constant.StringVal(k.Value))
			}
		}
	}
	if out.fn == nil {
		c.Missing("the code of the action at " + x.where)
	}
	return out
}

/* the grammar source */

type pegSource struct {
	src  string
	pos  int
	head string // the code at the beginning
	err  string
}

// sourceGrammar reads the grammar source next to the generated parser.
func (c *Ctx) sourceGrammar() (*peg, *pegSource) {
	pkg := c.P.Package("internal/grammar")
	if pkg == nil || len(pkg.GoFiles) == 0 {
		c.Missing("package internal/grammar")
	}
	fs, _ := filepath.Glob(filepath.Join(filepath.Dir(pkg.GoFiles[0]), "*.peg"))
	if len(fs) != 1 {
		c.Missing("a single grammar source")
	}
	b, err := os.ReadFile(fs[0])
	if err != nil {
		c.Missing(err.Error())
	}
	p := &pegSource{src: string(b)}
	rel, _ := filepath.Rel(c.P.Dir, fs[0])
	g := &peg{byName: map[string]*prule{}}
	p.space()
	if p.peek() == '{' {
		p.head = p.block()
	}
	for p.space(); p.pos < len(p.src) && p.err == ""; p.space() {
		at := p.where(rel)
		r := &prule{name: p.ident(), where: at}
		p.space()
		if q := p.peek(); q == '"' || q == '\'' || q == '`' {
			r.display, _ = p.quoted()
			p.space()
		}
		switch {
		case p.take("<-"), p.take("←"), p.take("⟵"), p.take("="):
		default:
			p.fail("arrow expected")
		}
		r.expr = p.recovery()
		r.expr.each(func(x *pexpr) {
			if x.where == "" {
				x.where = at
			}
		})
		p.space()
		p.take(";")
		if p.err == "" {
			g.add(c, r)
		}
	}
	if p.err != "" {
		c.Missing(fmt.Sprintf("a readable grammar source: %s (%s)", p.where(rel), p.err))
	}
	return g, p
}

func (p *pegSource) where(f string) string {
	return fmt.Sprintf("%s:%d", f, 1+strings.Count(p.src[:min(p.pos, len(p.src))], "\n"))
}

func (p *pegSource) fail(msg string) {
	if p.err == "" {
		p.err = msg
	}
	p.pos = len(p.src)
}

func (p *pegSource) peek() byte {
	if p.pos < len(p.src) {
		return p.src[p.pos]
	}
	return 0
}

func (p *pegSource) take(s string) bool {
	if strings.HasPrefix(p.src[p.pos:], s) {
		p.pos += len(s)
		return true
	}
	return false
}

// space skips white space and comments, but not the operator of a recovery.
func (p *pegSource) space() {
	for p.pos < len(p.src) {
		switch {
		case strings.ContainsRune(" \t\r\n", rune(p.src[p.pos])):
			p.pos++
		case strings.HasPrefix(p.src[p.pos:], "/*"):
			i := strings.Index(p.src[p.pos+2:], "*/")
			if i < 0 {
				p.pos = len(p.src)
				return
			}
			p.pos += i + 4
		case strings.HasPrefix(p.src[p.pos:], "//") && !strings.HasPrefix(p.src[p.pos:], "//{"):
			i := strings.IndexByte(p.src[p.pos:], '\n')
			if i < 0 {
				p.pos = len(p.src)
				return
			}
			p.pos += i
		default:
			return
		}
	}
}

func (p *pegSource) ident() string {
	s := p.pos
	for p.pos < len(p.src) && (p.src[p.pos] == '_' || p.src[p.pos] >= 0x80 || unicode.IsLetter(rune(p.src[p.pos])) || p.pos > s && unicode.IsDigit(rune(p.src[p.pos]))) {
		p.pos++
	}
	if s == p.pos {
		p.fail("name expected")
		return ""
	}
	return p.src[s:p.pos]
}

// block reads a code block in braces.
func (p *pegSource) block() string {
	start := p.pos
	depth := 0
	for p.pos < len(p.src) {
		switch ch := p.src[p.pos]; {
		case ch == '{':
			depth++
			p.pos++
		case ch == '}':
			depth--
			p.pos++
			if depth == 0 {
				return p.src[start+1 : p.pos-1]
			}
		case ch == '"' || ch == '\'' || ch == '`':
			p.pos++
			for p.pos < len(p.src) && p.src[p.pos] != ch {
				if p.src[p.pos] == '\\' && ch != '`' {
					p.pos++
				}
				p.pos++
			}
			p.pos++
		case strings.HasPrefix(p.src[p.pos:], "//"):
			i := strings.IndexByte(p.src[p.pos:], '\n')
			if i < 0 {
				i = len(p.src) - p.pos
			}
			p.pos += i
		case strings.HasPrefix(p.src[p.pos:], "/*"):
			i := strings.Index(p.src[p.pos:], "*/")
			if i < 0 {
				p.fail("comment is not closed")
				return ""
			}
			p.pos += i + 2
		default:
			p.pos++
		}
	}
	p.fail("code is not closed")
	return ""
}

func (p *pegSource) quoted() (string, bool) {
	q := p.src[p.pos]
	s := p.pos
	p.pos++
	for p.pos < len(p.src) && p.src[p.pos] != q {
		if p.src[p.pos] == '\\' && q != '`' {
			p.pos++
		}
		p.pos++
	}
	p.pos++
	if p.pos > len(p.src) {
		p.fail("text is not closed")
		return "", false
	}
	t := p.src[s:p.pos]
	if q == '\'' {
		t = `"` + strings.ReplaceAll(strings.ReplaceAll(t[1:len(t)-1], `\'`, `'`), `"`, `\"`) + `"`
	}
	v, err := strconv.Unquote(t)
	if err != nil {
		p.fail(err.Error())
	}
	fold := p.take("i")
	return v, fold
}

func (p *pegSource) recovery() *pexpr {
	x := p.choice()
	p.space()
	for p.take("//{") {
		r := &pexpr{kind: "recover"}
		for {
			p.space()
			r.labels = append(r.labels, p.ident())
			p.space()
			if !p.take(",") {
				break
			}
		}
		if !p.take("}") {
			p.fail("} expected")
		}
		r.kids = []*pexpr{x, p.choice()}
		x = r
		p.space()
	}
	return x
}

func (p *pegSource) choice() *pexpr {
	xs := []*pexpr{p.actionExpr()}
	for p.space(); p.peek() == '/' && !strings.HasPrefix(p.src[p.pos:], "//{"); p.space() {
		p.pos++
		xs = append(xs, p.actionExpr())
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return &pexpr{kind: "choice", kids: xs}
}

func (p *pegSource) actionExpr() *pexpr {
	x := p.seq()
	p.space()
	if p.peek() == '{' {
		return &pexpr{kind: "action", kids: []*pexpr{x}, code: p.block()}
	}
	return x
}

func (p *pegSource) seq() *pexpr {
	var xs []*pexpr
	for p.space(); !p.endOfSeq(); p.space() {
		xs = append(xs, p.labeled())
	}
	switch len(xs) {
	case 0:
		p.fail("expression expected")
		return &pexpr{kind: "seq"}
	case 1:
		return xs[0]
	}
	return &pexpr{kind: "seq", kids: xs}
}

func (p *pegSource) endOfSeq() bool {
	switch p.peek() {
	case 0, '/', ')', '{', ';':
		return true
	}
	// the next rule
	save := *p
	defer func() { *p = save }()
	if ch := p.peek(); ch == '_' || ch >= 0x80 || unicode.IsLetter(rune(ch)) {
		p.ident()
		p.space()
		if q := p.peek(); q == '"' || q == '`' || q == '\'' {
			p.quoted()
			p.space()
		}
		return p.take("<-") || p.take("←") || p.take("⟵") || p.take("=")
	}
	return false
}

func (p *pegSource) labeled() *pexpr {
	save := p.pos
	if ch := p.peek(); ch == '_' || unicode.IsLetter(rune(ch)) {
		n := p.ident()
		p.space()
		if p.take(":") {
			p.space()
			return &pexpr{kind: "label", str: n, kids: []*pexpr{p.prefixed()}}
		}
		p.pos = save
	}
	return p.prefixed()
}

func (p *pegSource) prefixed() *pexpr {
	switch {
	case strings.HasPrefix(p.src[p.pos:], "#{"):
		p.pos++
		return &pexpr{kind: "state", code: p.block()}
	case strings.HasPrefix(p.src[p.pos:], "&{"):
		p.pos++
		return &pexpr{kind: "andcode", code: p.block()}
	case strings.HasPrefix(p.src[p.pos:], "!{"):
		p.pos++
		return &pexpr{kind: "notcode", code: p.block()}
	case p.take("&"):
		p.space()
		return &pexpr{kind: "and", kids: []*pexpr{p.suffixed()}}
	case p.take("!"):
		p.space()
		return &pexpr{kind: "not", kids: []*pexpr{p.suffixed()}}
	}
	return p.suffixed()
}

func (p *pegSource) suffixed() *pexpr {
	x := p.primary()
	p.space()
	switch {
	case p.take("?"):
		return &pexpr{kind: "opt", kids: []*pexpr{x}}
	case p.take("*"):
		return &pexpr{kind: "star", kids: []*pexpr{x}}
	case p.take("+"):
		return &pexpr{kind: "plus", kids: []*pexpr{x}}
	}
	return x
}

func (p *pegSource) primary() *pexpr {
	switch ch := p.peek(); {
	case ch == '"' || ch == '\'' || ch == '`':
		s, fold := p.quoted()
		if fold {
			s = strings.ToLower(s)
		}
		return &pexpr{kind: "lit", str: s, fold: fold}
	case ch == '[':
		return p.class()
	case ch == '.':
		p.pos++
		return &pexpr{kind: "any"}
	case ch == '(':
		p.pos++
		x := p.recovery()
		p.space()
		if !p.take(")") {
			p.fail(") expected")
		}
		return x
	case ch == '%':
		p.pos++
		if !p.take("{") {
			p.fail("{ expected")
		}
		x := &pexpr{kind: "throw", str: p.ident()}
		if !p.take("}") {
			p.fail("} expected")
		}
		return x
	}
	return &pexpr{kind: "ref", str: p.ident()}
}

func (p *pegSource) class() *pexpr {
	s := p.pos
	p.pos++
	x := &pexpr{kind: "class"}
	if p.take("^") {
		x.inverted = true
	}
	var cs []rune
	var dash []bool
	for p.pos < len(p.src) && p.peek() != ']' {
		if p.peek() == '\\' {
			if strings.HasPrefix(p.src[p.pos:], `\p`) {
				p.pos += 2
				n := ""
				if p.take("{") {
					i := strings.IndexByte(p.src[p.pos:], '}')
					if i < 0 {
						p.fail("class is not closed")
						return x
					}
					n = p.src[p.pos : p.pos+i]
					p.pos += i + 1
				} else {
					n = p.src[p.pos : p.pos+1]
					p.pos++
				}
				x.classes = append(x.classes, n)
				continue
			}
			rest := p.src[p.pos:]
			if len(rest) > 1 && (rest[1] == ']' || rest[1] == '-' || rest[1] == '^') {
				cs = append(cs, rune(rest[1]))
				dash = append(dash, false)
				p.pos += 2
				continue
			}
			r, _, tail, err := strconv.UnquoteChar(rest, 0)
			if err != nil {
				p.fail(err.Error())
				return x
			}
			p.pos += len(rest) - len(tail)
			cs = append(cs, r)
			dash = append(dash, false)
			continue
		}
		r := []rune(p.src[p.pos:])[0]
		p.pos += len(string(r))
		cs = append(cs, r)
		dash = append(dash, r == '-')
	}
	if !p.take("]") {
		p.fail("class is not closed")
		return x
	}
	x.fold = p.take("i")
	x.str = p.src[s:p.pos]
	lower := func(r rune) rune {
		if x.fold {
			return unicode.ToLower(r)
		}
		return r
	}
	for i := 0; i < len(cs); i++ {
		if i+2 < len(cs) && dash[i+1] {
			x.ranges = append(x.ranges, lower(cs[i]), lower(cs[i+2]))
			i += 2
			continue
		}
		x.chars = append(x.chars, lower(cs[i]))
	}
	return x
}

// tokens splits code into its tokens without comments.
func tokens(code string) []string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(code))
	s.Init(f, []byte(code), func(token.Position, string) {}, 0)
	var out []string
	for {
		_, t, l := s.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON {
			l = ";"
		} else if l == "" || t.IsOperator() {
			l = t.String()
		}
		// a line end before a closing brace is optional
		if (l == "}" || l == ")") && len(out) > 0 && (out[len(out)-1] == ";" || out[len(out)-1] == ",") {
			out = out[:len(out)-1]
		}
		out = append(out, l)
	}
}
