// Package checks decides the properties.
package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"aqlverify/flow"
	"aqlverify/prog"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Violation is a construct that breaks a property.
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Message   string `json:"message"`
}

// Ctx is the analysis of one property.
type Ctx struct {
	P     *prog.Program
	ID    string
	Viol  []Violation
	Count map[string]int
	Rules []string
	Fns   map[string]bool
	Notes []string
	// Assume lists what the check takes for granted.
	Assume []string
	// Info marks counts that are no obligations.
	Info map[string]bool
	Dir  string
	seen map[string]bool
	init *flow.Interp

	maxSteps  int // of each analysis, if not 0
	limits    map[*ssa.BinOp]*flow.Limit
	callees   map[*ssa.Function][]callee
	matchOnly map[*ssa.Function]bool
}

// NewCtx returns an empty analysis.
func NewCtx(p *prog.Program, id string) *Ctx {
	return &Ctx{P: p, ID: id, Count: map[string]int{}, Fns: map[string]bool{}, seen: map[string]bool{}, limits: map[*ssa.BinOp]*flow.Limit{}, Info: map[string]bool{"paths": true, "paths compared": true}}
}

// Rule names a rule that is applied.
func (c *Ctx) Rule(format string, args ...any) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, args...))
}

// Bad reports a violation.
func (c *Ctx) Bad(rule, construct, where, format string, args ...any) {
	m := strings.ToValidUTF8(fmt.Sprintf(format, args...), "")
	k := rule + "|" + construct + "|" + m
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Viol = append(c.Viol, Violation{rule, construct, where, m})
}

// Ok counts an obligation that was shown.
func (c *Ctx) Ok(rule string) { c.Count[rule]++ }

// Need reports a violation unless ok.
func (c *Ctx) Need(ok bool, rule, construct, where, format string, args ...any) bool {
	if ok {
		c.Ok(rule)
	} else {
		c.Bad(rule, construct, where, format, args...)
	}
	return ok
}

// AtLeast guards against rules that found nothing to check.
func (c *Ctx) AtLeast(rule string, n int) {
	if c.Count[rule] < n && len(c.Viol) == 0 {
		c.Bad("coverage", rule, "", "only %d instances of %q were found, expected at least %d", c.Count[rule], rule, n)
	}
}

// Missing aborts the analysis because something it starts from is not there.
func (c *Ctx) Missing(what string) { flow.Undecided("%s not found", what) }

// Fn returns a package function.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil {
		c.Missing(pkg + "." + name)
	}
	return f
}

// Type returns a named type.
func (c *Ctx) Type(pkg, name string) types.Type {
	t := c.P.Type(pkg, name)
	if t == nil {
		c.Missing(pkg + "." + name)
	}
	return t
}

// Method returns a method.
func (c *Ctx) Method(t types.Type, name string) *ssa.Function {
	f := c.P.Method(t, name)
	if f == nil {
		c.Missing(types.TypeString(t, nil) + "." + name)
	}
	return f
}

// Const returns the value of a constant as a term.
func (c *Ctx) Const(pkg, name string) *flow.Term {
	k := c.P.Const(pkg, name)
	if k == nil {
		c.Missing(pkg + "." + name)
	}
	return flow.Const(k.Val(), k.Type())
}

// StrConsts returns the names and values of the package constants of a type.
func (c *Ctx) StrConsts(pkg string, t types.Type) map[string]string {
	out := map[string]string{}
	x := c.P.Pkg(pkg)
	for _, n := range x.Pkg.Scope().Names() {
		if k, ok := x.Pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) && k.Val().Kind() == constant.String {
			out[n] = constant.StringVal(k.Val())
		}
	}
	return out
}

// Interp returns an interpreter for the module.
func (c *Ctx) Interp() *flow.Interp {
	in := flow.New(c.P.SSA, c.P.InRepo)
	in.Limits = c.limits
	if c.maxSteps > 0 {
		in.MaxSteps = c.maxSteps
	}
	impl := map[string][]types.Type{}
	in.Uni = &flow.Universe{
		Domain: func(x *flow.Term) []types.Type {
			if x.Typ == nil {
				return nil
			}
			n, ok := x.Typ.(*types.Named)
			if !ok || n.Obj().Pkg() == nil || !prog.InModule(n.Obj().Pkg().Path()) {
				return nil
			}
			i, ok := n.Underlying().(*types.Interface)
			if !ok {
				return nil
			}
			k := n.String()
			if _, ok := impl[k]; !ok {
				impl[k] = c.P.Implementers(i)
			}
			return impl[k]
		},
		NonNil: func(x *flow.Term) bool { return false },
	}
	if c.init == nil {
		c.init = flow.New(c.P.SSA, c.P.InRepo)
		c.init.Uni = in.Uni
		c.init.Hook = func(in *flow.Interp, st *flow.State, call *flow.Call) ([]flow.Ret, bool) {
			return templateCalls(st, call)
		}
		var ps []*ssa.Package
		for _, p := range c.P.Pkgs {
			ps = append(ps, c.P.SSA.Package(p.Types))
		}
		c.init.InitGlobals(ps, ssautil.AllFunctions(c.P.SSA))
	}
	in.Globals = c.init.Globals
	in.GHeap = c.init.GHeap
	return in
}

// Used records the functions an interpreter has analysed.
func (c *Ctx) Used(in *flow.Interp) {
	for fn := range in.Funcs {
		if c.P.InRepo(fn) {
			c.Fns[prog.FnName(fn)] = true
		}
	}
	c.Count["paths"] += in.Forks
	in.Forks = 0
}

// Limits reports comparisons with constants that are greater than all the
// numbers they were analysed with: what happens beyond is not known.
func (c *Ctx) Limits() {
	for x, l := range c.limits {
		if !c.P.InRepo(l.Fn) || !l.Beyond() || l.Bound < 1 || c.backstop(x) {
			continue
		}
		c.Bad("limits", prog.FnName(l.Fn), c.P.Where(x.Pos()), "%s tells numbers from %d on apart, but the analysis only reaches %d: what happens beyond is not known", x.Op, l.Bound, l.Max)
	}
}

// backstop tells whether a comparison of the number of literals of a test only
// guards a panic. Which numbers there are is decided by P01, and lists of any
// number of literals are followed by M08.
func (c *Ctx) backstop(x *ssa.BinOp) bool {
	literals := false
	for _, v := range []ssa.Value{x.X, x.Y} {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				s, ok := call.Call.Args[0].Type().Underlying().(*types.Slice)
				literals = literals || ok && types.Identical(s.Elem(), c.Type(ast, "Val"))
			}
		}
	}
	if !literals || x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		f, ok := r.(*ssa.If)
		if !ok {
			return false
		}
		panics := false
		for _, b := range f.Block().Succs {
			_, p := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			panics = panics || p
		}
		if !panics {
			return false
		}
	}
	return true
}

// Functions lists the analysed functions.
func (c *Ctx) Functions() []string {
	var out []string
	for f := range c.Fns {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func short(t *flow.Term) string {
	s := t.String()
	s = strings.ReplaceAll(s, prog.Module+"/", "")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// guard turns an aborted analysis into a violation.
func (c *Ctx) guard(rule string, f func()) { c.guardAs(rule, "analysis", f) }

func (c *Ctx) guardAs(rule, construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := flow.AsUndecided(r); ok {
				c.Bad(rule, construct, "", "not decided: %s", m)
				return
			}
			panic(r)
		}
	}()
	f()
}

// All are the checks.
var All = map[string]func(*Ctx){}
