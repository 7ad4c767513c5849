# Generic helpers, deferred calls, callbacks.
EDITS = []
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def text(file): return open("/repo/" + file).read()
def fn(file, head):
    s = text(file)
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]
def rewrite(file, head, new): return (file, fn(file, head), new.lstrip("\n"))
J = "jsonmatcher/"
ALLM = "M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12 P02 I01 I02 N01"
FL, RE, BO, NO, SM, JV, NU = J + "expr_float.go", J + "expr_regexp.go", J + "expr_equal_bool.go", J + "nodes.go", J + "str_matchers.go", J + "json_values.go", J + "expr_null.go"
SOME = """
// some tells whether a value that can be read is as wanted.
func some[T any](f *field, read func(jsonValue) (T, bool), want func(T) bool) bool {
	for _, v := range f.scalarValues() {
		if x, ok := read(v); ok && want(x) {
			return true
		}
	}
	return false
}
"""
FLOAT = """
func (e *exprFloat) matches(field *field) bool {
	return some(field, getNumberVal, e.holds)
}

func (e *exprFloat) holds(fv float64) bool {
	switch e.op {
	case ast.EQ:
		return fv == e.values[0]
	case ast.LT:
		return fv < e.values[0]
	case ast.LTE:
		return fv <= e.values[0]
	case ast.GT:
		return fv > e.values[0]
	case ast.GTE:
		return fv >= e.values[0]
	case ast.BET:
		return fv >= e.values[0] && fv <= e.values[1]
	}
	panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
}
"""
def some(body=SOME): return [
    (JV, None, body),
    rewrite(FL, "(e *exprFloat) matches", FLOAT),
    rewrite(RE, "(e *exprRegexp) matches", """
func (e *exprRegexp) matches(field *field) bool {
	return some(field, getStringVal, e.value.MatchString)
}
"""),
    rewrite(BO, "(e *exprEqBool) matches", """
func (e *exprEqBool) matches(field *field) bool {
	return some(field, getBoolVal, func(b bool) bool { return b == e.value })
}
"""), (BO, 'import (\n	"fmt"\n\n', "import (\n"),
    rewrite(SM, "(u *unicodeMatcher) matches", """
func (u *unicodeMatcher) matches(field *field) bool {
	return some(field, getStringVal, func(text string) bool {
		start, _ := u.pat.IndexString(text)
		return start >= 0
	})
}
""")]
ref("r-gen-some", ALLM, *some())
bug("b-gen-some", "M04", *some(SOME.replace("ok && want(x) {\n			return true\n", "ok {\n			return want(x)\n")))
ref("r-gen-any", ALLM,
    rewrite(NO, "(e exprNode) result", """
func (e exprNode) result(root []byte) (matched bool) {
	if e.nodeStats != nil {
		defer func() { e.nodeStats.mark(matched) }()
	}
	field := getField(e.path, root)
	return len(field.values) > 0 && anyOf(e.exprs, func(x fieldExpr) bool { return x.matches(field) })
}

func anyOf[T any](xs []T, ok func(T) bool) bool {
	for i := range xs {
		if ok(xs[i]) {
			return true
		}
	}
	return false
}
"""),
    rewrite(NU, "(m *exprNull) matches", """
func (m *exprNull) matches(field *field) bool {
	return !anyOf(field.values, func(v jsonValue) bool { return v.dataType != jsonparser.Null })
}
"""))
bug("b-gen-defer", "M10",
    rewrite(NO, "(e exprNode) result", """
func (e exprNode) result(root []byte) bool {
	matched := false
	if e.nodeStats != nil {
		defer e.nodeStats.mark(matched)
	}
	field := getField(e.path, root)
	if len(field.values) > 0 {
		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
	}
	return matched
}
"""))
# what all the nodes do
ref("r-gen-counted", ALLM,
    rewrite(NO, "(a *andNode) result", """
func (a *andNode) result(root []byte) bool {
	return a.nodeStats.counted(a.left.result(root) && a.right.result(root))
}
"""),
    rewrite(NO, "(o *orNode) result", """
func (o *orNode) result(root []byte) bool {
	return o.nodeStats.counted(o.left.result(root) || o.right.result(root))
}
"""),
    rewrite(NO, "(n *notNode) result", """
func (n *notNode) result(root []byte) bool {
	return n.nodeStats.counted(!n.sub.result(root))
}

// counted counts an outcome and returns it.
func (ns *nodeStats) counted(outcome bool) bool {
	if ns != nil {
		ns.mark(outcome)
	}
	return outcome
}
"""))
VA = "parser/validators.go"
PARSE = "P01 P03 P06 M08 I01 I02"
SET = """
type set[T comparable] map[T]struct{}

func (s set[T]) has(x T) bool {
	_, ok := s[x]
	return ok
}

// add tells whether x is new
func (s set[T]) add(x T) bool {
	if s.has(x) {
		return false
	}
	s[x] = struct{}{}
	return true
}
"""
DUPS = """
func checkRVals(e *ast.ExprNode) *ParseError {
	seen := set[string]{}
	for i, rv := range e.RVals {
		sv := rv.String()
		if !seen.add(sv) {
			return ErrorWith(rv, fmt.Sprintf("duplicate argument [%s] (value %d/%d)", sv, i+1, len(e.RVals)))
		}
		if e.Op == ast.EQ && seen.has("true") && seen.has("false") {
			return ErrorWith(rv, fmt.Sprintf("conflicting boolean value [%s] (value %d/%d)", sv, i+1, len(e.RVals)))
		}
	}
	return nil
}
"""
ref("r-gen-set", PARSE, rewrite(VA, "checkRVals(", DUPS), (VA, None, SET))
bug("b-gen-set", "P01", rewrite(VA, "checkRVals(", DUPS.replace("	seen := set[string]{}\n	for i, rv := range e.RVals {\n", "	var seen set[string]\n	for i, rv := range e.RVals {\n		if seen == nil || rv.Type() == ast.TypeRegex {\n			seen = set[string]{}\n		}\n")), (VA, None, SET))
ONE = """
func mustBeOneOf(values []ast.Val, types ...ast.ValType) (badIdx int) {
	return index(values, func(v ast.Val) bool {
		return index(types, func(t ast.ValType) bool { return t == v.Type() }) < 0
	})
}

func index[T any](xs []T, ok func(T) bool) int {
	for i, x := range xs {
		if ok(x) {
			return i
		}
	}
	return -1
}
"""
ref("r-gen-index", PARSE, rewrite(VA, "mustBeOneOf(", ONE))
bug("b-gen-index", "P01", rewrite(VA, "mustBeOneOf(", ONE.replace("	for i, x := range xs {\n		if ok(x) {\n			return i\n", "	for i := range xs {\n		if ok(xs[len(xs)-1-i]) {\n			return i\n")), (VA, "	if badIdx >= 0 {\n", "	if badIdx > 0 || badIdx == 0 && len(e.RVals) == 1 {\n"))
NUM = """
func checkBetween(e *ast.ExprNode) *ParseError {
	if e.Op != ast.BET {
		return nil
	}
	first, second := e.RVals[0], e.RVals[1]
	lt, lok := first.(*ast.TimeVal)
	rt, rok := second.(*ast.TimeVal)
	var increasing bool
	switch {
	case lok && !rok:
		return ErrorAt(second.Pos(), "second argument must also be a datetime value")
	case rok && !lok:
		return ErrorAt(second.Pos(), "second argument must also be a numeric value")
	case lok:
		increasing = lt.Value().Before(rt.Value())
	default:
		increasing = numeric(first) < numeric(second)
	}
	if !increasing {
		return ErrorAt(second.Pos(), "[><] operation requires the second argument be greater")
	}
	return nil
}

func numeric(v ast.Val) float64 {
	if iv, ok := v.(*ast.IntVal); ok {
		return float64(iv.Value())
	}
	return v.(*ast.FloatVal).Value()
}
"""
ref("r-gen-numeric", PARSE, rewrite(VA, "checkBetween(", NUM))
A = "parser/ast/ast.go"
MAP = """
func (e *ExprNode) String() string {
	values := each(e.RVals, Val.String)
	shown := strings.Join(values, ", ")
	switch {
	case len(values) > 1:
		shown = " [" + shown + "]"
	case len(values) == 1:
		shown = " " + shown
	}
	return fmt.Sprintf("(%s %s%s)", e.Op, FieldString(e.Field), shown)
}

func each[T, U any](xs []T, f func(T) U) []U {
	out := make([]U, len(xs))
	for i, x := range xs {
		out[i] = f(x)
	}
	return out
}
"""
ref("r-gen-each", "P08 M11 P06 I01 I02", rewrite(A, "(e *ExprNode) String()", MAP),
    rewrite(A, "FieldString(", """
func FieldString(pathparts []string) string {
	return strings.Join(each(pathparts, segment), ".")
}

func segment(p string) string {
	if strings.ContainsAny(p, ` ."`) {
		return strconv.Quote(p)
	}
	return p
}
"""))
bug("b-gen-each", "P08", rewrite(A, "(e *ExprNode) String()", MAP.replace("	case len(values) > 1:\n", "	case len(values) == 2:\n		shown = \" [\" + values[1] + \", \" + values[0] + \"]\"\n	case len(values) > 2:\n")))
T = "parser/fmtmsg/truncate.go"
ref("r-gen-min", "F01 F02 F03 I01 I02",
    rewrite(T, "min(", "func min[T ~int | ~int64](a, b T) T {\n	if a < b {\n		return a\n	}\n	return b\n}\n"),
    rewrite(T, "max(", "func max[T ~int | ~int64](a, b T) T {\n	if a > b {\n		return a\n	}\n	return b\n}\n"))
S = "sampler/sampler.go"
SMP = "S01 S02 S03 S04 I01 I02"
ref("r-gen-keys", SMP,
    rewrite(S, "(s *Sampler) Keys()", """
func (s *Sampler) Keys() []string {
	return keysOf(s.keys, func(uint) bool { return true })
}

func keysOf[K comparable, V any](m map[K]V, ok func(V) bool) []K {
	out := make([]K, 0, len(m))
	for k, v := range m {
		if ok(v) {
			out = append(out, k)
		}
	}
	return out
}
"""),
    rewrite(S, "(s *Sampler) KeysAtThreshold", """
func (s *Sampler) KeysAtThreshold(thresholdPercent int) []string {
	pct := float64(thresholdPercent) / 100
	return keysOf(s.keys, func(count uint) bool { return float64(count)/float64(s.totalDocs) >= pct })
}
"""))
V = "parser/visitors.go"
# a type that lists operands
ref("r-gen-operands", "P01 P03 P04 P05 P06 P09 W02 I01 I02",
    rewrite(V, "walkr(", """
func walkr(v Visitor, node ast.Node) error {
	switch err := v.Visit(node); err {
	case nil:
	case Skip:
		return nil
	default:
		return err
	}
	for _, o := range operands(node) {
		if err := walkr(v, o); err != nil {
			return err
		}
	}
	return nil
}

func operands(node ast.Node) []ast.Node {
	switch n := node.(type) {
	case *ast.AndNode:
		return []ast.Node{n.Left, n.Right}
	case *ast.OrNode:
		return []ast.Node{n.Left, n.Right}
	case *ast.NotNode:
		return []ast.Node{n.Expr}
	case *ast.SubdocNode:
		return []ast.Node{n.Expr}
	}
	return nil
}
"""))
# walking with continuations
ref("r-gen-inspect", "P01 P03 P04 P05 P06 P09 W02 I01 I02",
    rewrite(V, "walkr(", """
func walkr(v Visitor, node ast.Node) error {
	var step func(node ast.Node) (error, bool)
	step = func(node ast.Node) (error, bool) {
		if err := v.Visit(node); err != nil {
			return err, err == Skip
		}
		each := func(nodes ...ast.Node) (error, bool) {
			for _, n := range nodes {
				if err, more := step(n); !more {
					return err, false
				}
			}
			return nil, true
		}
		switch n := node.(type) {
		case *ast.AndNode:
			return each(n.Left, n.Right)
		case *ast.OrNode:
			return each(n.Left, n.Right)
		case *ast.NotNode:
			return each(n.Expr)
		case *ast.SubdocNode:
			return each(n.Expr)
		}
		return nil, true
	}
	err, more := step(node)
	if more {
		return nil
	}
	return err
}
"""))
