# Rewrites of whole functions.
import re
J = "jsonmatcher/"
EDITS = []
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
def fn(file, head):
    """The text of a function."""
    s = open("/repo/" + file).read()
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]
def rewrite(file, head, new): return (file, fn(file, head), new.lstrip("\n"))
def whole(file, new):
    return (file, open("/repo/" + file).read(), new.lstrip("\n"))
MATCH = "M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 M12 N01 P02 I01 I02"
PARSE = "P01 P03 P04 P05 P06 M08 I01 I02 P09 W02"

NODES = J + "nodes.go"
BUILD = J + "build_matcher.go"
VALUES = J + "json_values.go"
FLOAT = J + "expr_float.go"
TIME = J + "expr_datetime.go"

# one type for AND and OR
ref("r-big-binary", MATCH,
    rewrite(NODES, "(a *andNode) result", """
func (a *andNode) result(root []byte) bool {
	result := a.left.result(root)
	if result == a.goOn {
		result = a.right.result(root)
	}
	if a.nodeStats != nil {
		a.nodeStats.mark(result)
	}
	return result
}
"""),
    (NODES, "type andNode struct {\n", "// andNode is an AND, or an OR if goOn is false\ntype andNode struct {\n	goOn        bool\n"),
    (NODES, "type orNode struct {\n	left, right boolNode\n	nodeStats   *nodeStats\n}\n\n" + fn(NODES, "(o *orNode) result") + "\n" + fn(NODES, "(o *orNode) stats"), ""),
    (BUILD, "node := &andNode{\n", "node := &andNode{\n			goOn:  true,\n"),
    (BUILD, "node := &orNode{\n", "node := &andNode{\n"))
# a table of constructors
ref("r-big-table", MATCH,
    (BUILD, """		switch n.Op {
		// unary
		case ast.EXS:
			node.exprs = []fieldExpr{
				&exprExists{},
			}
		case ast.NUL:
			node.exprs = []fieldExpr{
				&exprNull{},
			}
		// binary:
		case ast.LT, ast.LTE, ast.GT, ast.GTE:
			node.exprs = []fieldExpr{
				exprNumeric(n.Op, n.RVals),
			}
		// ternary
		case ast.BET:
			node.exprs = []fieldExpr{
				exprBetween(n.RVals),
			}
		// n-ary
		case ast.EQ:
			node.exprs = exprEQ(n.RVals)
		case ast.SIM:
			node.exprs = exprEQ(n.RVals)
			// exprSim Deprecated
			// node.exprs = exprSim(n.RVals)
		default:
			// backstop
			panic(fmt.Sprintf("undefined operation: [%s]", n.Op))
		}
		return node
""", """		mk, ok := constructors[n.Op]
		if !ok {
			panic(fmt.Sprintf("undefined operation: [%s]", n.Op))
		}
		node.exprs = mk(n.Op, n.RVals)
		return node
"""),
    (BUILD, "func newBuilder(", """type constructor func(op ast.Op, values []ast.Val) []fieldExpr

var constructors = map[ast.Op]constructor{
	ast.EXS: func(ast.Op, []ast.Val) []fieldExpr { return []fieldExpr{&exprExists{}} },
	ast.NUL: func(ast.Op, []ast.Val) []fieldExpr { return []fieldExpr{&exprNull{}} },
	ast.LT:  one,
	ast.LTE: one,
	ast.GT:  one,
	ast.GTE: one,
	ast.BET: func(_ ast.Op, values []ast.Val) []fieldExpr { return []fieldExpr{exprBetween(values)} },
	ast.EQ:  func(_ ast.Op, values []ast.Val) []fieldExpr { return exprEQ(values) },
	ast.SIM: func(_ ast.Op, values []ast.Val) []fieldExpr { return exprEQ(values) },
}

func one(op ast.Op, values []ast.Val) []fieldExpr {
	return []fieldExpr{exprNumeric(op, values)}
}

func newBuilder("""))
# methods per kind of node
ref("r-big-methods", MATCH,
    rewrite(BUILD, "(b *builder) build(", """
func (b *builder) build(node ast.Node) boolNode {
	switch n := node.(type) {
	case *ast.AndNode:
		return b.and(n)
	case *ast.OrNode:
		return b.or(n)
	case *ast.NotNode:
		return &notNode{sub: b.build(n.Expr), nodeStats: b.statsFor("NOT")}
	case *ast.ExprNode:
		return b.test(n)
	default:
		return nil
	}
}

func (b *builder) statsFor(name string) *nodeStats {
	if !b.withStats {
		return nil
	}
	return &nodeStats{nodeName: name}
}

func (b *builder) and(n *ast.AndNode) boolNode {
	l := b.build(n.Left)
	r := b.build(n.Right)
	return &andNode{left: l, right: r, nodeStats: b.statsFor("AND")}
}

func (b *builder) or(n *ast.OrNode) boolNode {
	l := b.build(n.Left)
	r := b.build(n.Right)
	return &orNode{left: l, right: r, nodeStats: b.statsFor("OR")}
}

func (b *builder) test(n *ast.ExprNode) boolNode {
	var exprs []fieldExpr
	switch n.Op {
	case ast.EXS:
		exprs = append(exprs, &exprExists{})
	case ast.NUL:
		exprs = append(exprs, &exprNull{})
	case ast.BET:
		exprs = append(exprs, exprBetween(n.RVals))
	case ast.EQ, ast.SIM:
		exprs = exprEQ(n.RVals)
	case ast.LT, ast.LTE, ast.GT, ast.GTE:
		exprs = append(exprs, exprNumeric(n.Op, n.RVals))
	default:
		panic(fmt.Sprintf("undefined operation: [%s]", n.Op))
	}
	return &exprNode{path: n.Field, exprs: exprs, nodeStats: b.statsFor(n.FriendlyString())}
}
"""))
# no builder type
ref("r-big-nobuilder", MATCH,
    (BUILD, "func (b *builder) build(node ast.Node) boolNode {\n", "func (b *builder) build(node ast.Node) boolNode {\n	return build(node, b.withStats)\n}\n\nfunc build(node ast.Node, withStats bool) boolNode {\n"),
    (BUILD, "			left:  b.build(n.Left),\n			right: b.build(n.Right),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\"", "			left:  build(n.Left, withStats),\n			right: build(n.Right, withStats),\n		}\n		if withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"AND\""),
    (BUILD, "			left:  b.build(n.Left),\n			right: b.build(n.Right),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"OR\"", "			left:  build(n.Left, withStats),\n			right: build(n.Right, withStats),\n		}\n		if withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"OR\""),
    (BUILD, "			sub: b.build(n.Expr),\n		}\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"NOT\"", "			sub: build(n.Expr, withStats),\n		}\n		if withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: \"NOT\""),
    (BUILD, "			path: n.Field,\n		}\n		if b.withStats {", "			path: n.Field,\n		}\n		if withStats {"))
# the comparison is chosen when the test is built
ref("r-big-relation", MATCH,
    rewrite(FLOAT, "(e *exprFloat) matches", """
func (e *exprFloat) matches(field *field) bool {
	holds := e.relation()
	for _, v := range field.scalarValues() {
		if fv, ok := getNumberVal(v); ok && holds(fv) {
			return true
		}
	}
	return false
}

func (e *exprFloat) relation() func(float64) bool {
	l, r := e.values[0], e.values[1]
	switch e.op {
	case ast.EQ:
		return func(f float64) bool { return f == l }
	case ast.LT:
		return func(f float64) bool { return f < l }
	case ast.LTE:
		return func(f float64) bool { return f <= l }
	case ast.GT:
		return func(f float64) bool { return l < f }
	case ast.GTE:
		return func(f float64) bool { return l <= f }
	case ast.BET:
		return func(f float64) bool { return l <= f && f <= r }
	}
	panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
}
"""))
# a method that decides about one value
ref("r-big-holds", MATCH,
    rewrite(FLOAT, "(e *exprFloat) matches", """
func (e *exprFloat) matches(field *field) bool {
	values := field.scalarValues()
	for i := 0; i < len(values); i++ {
		if e.holdsFor(values[i]) {
			return true
		}
	}
	return false
}

func (e *exprFloat) holdsFor(v jsonValue) bool {
	fv, ok := getNumberVal(v)
	if !ok {
		return false
	}
	switch a := e.values[0]; e.op {
	case ast.EQ:
		return fv == a
	case ast.LT:
		return fv < a
	case ast.LTE:
		return fv <= a
	case ast.GT:
		return fv > a
	case ast.GTE:
		return fv >= a
	case ast.BET:
		return fv >= a && fv <= e.values[1]
	default:
		panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
	}
}
"""),
    rewrite(TIME, "(e *exprDatetime) matches", """
func (e *exprDatetime) matches(field *field) bool {
	for _, v := range field.scalarValues() {
		dv, ok := getDatetimeVal(v)
		if ok && e.holdsFor(dv) {
			return true
		}
	}
	return false
}

func (e *exprDatetime) holdsFor(dv time.Time) bool {
	first, second := e.values[0], e.values[1]
	before, after := dv.Before(first), dv.After(first)
	switch e.op {
	case ast.EQ:
		return !before && !after
	case ast.LT:
		return before
	case ast.LTE:
		return !after
	case ast.GT:
		return after
	case ast.GTE:
		return !before
	case ast.BET:
		return !(before || dv.After(second))
	default:
		panic(fmt.Sprintf("invalid op for datetime comparison: %s", e.op))
	}
}
"""))
# lookups through an accumulator
ref("r-big-acc", MATCH,
    rewrite(VALUES, "getValues(", """
func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) []jsonValue {
	var found []jsonValue
	collect(&found, path, data, dataType)
	return found
}

func collect(found *[]jsonValue, path valuepath, data []byte, dataType jsonparser.ValueType) {
	switch dataType {
	case jsonparser.Object:
		child, childType, _, _ := jsonparser.Get(data, path.current())
		switch {
		case child == nil:
		case path.bottom():
			*found = append(*found, jsonValue{data: child, dataType: childType})
		default:
			collect(found, path.next(), child, childType)
		}
	case jsonparser.Array:
		jsonparser.ArrayEach(data,
			func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
				if dataType == jsonparser.Object {
					collect(found, path, child, dataType)
				}
			})
	}
}
"""))
# descending objects in a loop
ref("r-big-descend", MATCH,
    rewrite(VALUES, "getValues(", """
func getValues(path valuepath, data []byte, dataType jsonparser.ValueType) (fieldValues []jsonValue) {
	for dataType == jsonparser.Object {
		child, childType, _, _ := jsonparser.Get(data, path.current())
		if child == nil {
			return nil
		}
		if path.bottom() {
			return []jsonValue{{data: child, dataType: childType}}
		}
		path, data, dataType = path.next(), child, childType
	}
	if dataType != jsonparser.Array {
		return nil
	}
	jsonparser.ArrayEach(data,
		func(child []byte, dataType jsonparser.ValueType, offset int, err error) {
			if dataType == jsonparser.Object {
				fieldValues = append(fieldValues, getValues(path, child, jsonparser.Object)...)
			}
		})
	return fieldValues
}
"""))
# scalars through a callback
ref("r-big-each", MATCH,
    rewrite(VALUES, "(f *field) scalarValues", """
func (f *field) scalarValues() []jsonValue {
	var out []jsonValue
	f.eachScalar(func(v jsonValue) {
		out = append(out, v)
	})
	return out
}

func (f *field) eachScalar(use func(jsonValue)) {
	for _, v := range f.values {
		switch v.dataType {
		case jsonparser.Array:
			jsonparser.ArrayEach(v.data,
				func(value []byte, dataType jsonparser.ValueType, offset int, err error) {
					if dataType != jsonparser.Object && dataType != jsonparser.Array {
						use(jsonValue{data: value, dataType: dataType})
					}
				})
		case jsonparser.Object:
		default:
			use(v)
		}
	}
}
"""))
# statistics by value
ref("r-big-embed", MATCH,
    (NODES, "type notNode struct {\n	sub       boolNode\n	nodeStats *nodeStats\n}", "type counted struct {\n	nodeStats *nodeStats\n}\n\nfunc (c counted) count(result bool) bool {\n	if c.nodeStats != nil {\n		c.nodeStats.mark(result)\n	}\n	return result\n}\n\ntype notNode struct {\n	sub boolNode\n	counted\n}"),
    rewrite(NODES, "(n *notNode) result", """
func (n *notNode) result(root []byte) bool {
	return n.count(!n.sub.result(root))
}
"""))
# parsing in steps
PARSER = "parser/parser.go"
ref("r-big-steps", PARSE,
    rewrite(PARSER, "ParseQueryReader(", """
func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
	opts := newOpts(options)
	root, perr := parseTree(r, opts.debug)
	if perr != nil {
		return nil, perr
	}
	for i := range opts.visitors {
		if perr := visitAll(opts.visitors[i], root); perr != nil {
			return nil, perr
		}
	}
	return root, nil
}

func newOpts(options []Option) *ParserOpts {
	opts := &ParserOpts{}
	opts.visitors = append(opts.visitors, VisitorFunc(opValidator))
	for _, o := range options {
		o(opts)
	}
	return opts
}

func parseTree(r io.Reader, debug bool) (ast.Node, *ParseError) {
	v, err := grammar.ParseReader("", r, grammar.Debug(debug), grammar.Memoize(true))
	if err != nil {
		return nil, grammar.GetParseError(err)
	}
	if v == nil {
		return nil, genericParseError("parser returned nil output")
	}
	root, ok := v.(ast.Node)
	if !ok {
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", v))
	}
	return root, nil
}

func visitAll(v Visitor, root ast.Node) *ParseError {
	switch err := walk(v, root).(type) {
	case nil:
	case *ParseError:
		return err
	default:
		return genericParseError("validation failure: " + err.Error())
	}
	mv, ok := v.(*MessageVisitor)
	if ok && mv.tape.firstErr != nil {
		return mv.tape.firstErr.assErr()
	}
	return nil
}
"""))
VIS = "parser/visitors.go"
# a loop for the last operand
ref("r-big-tail", PARSE,
    rewrite(VIS, "walkr(", """
func walkr(v Visitor, node ast.Node) error {
	for {
		err := v.Visit(node)
		if err == Skip {
			return nil
		}
		if err != nil {
			return err
		}
		var first, last ast.Node
		switch n := node.(type) {
		case *ast.AndNode:
			first, last = n.Left, n.Right
		case *ast.OrNode:
			first, last = n.Left, n.Right
		case *ast.NotNode:
			last = n.Expr
		case *ast.SubdocNode:
			last = n.Expr
		}
		if first != nil {
			if err := walkr(v, first); err != nil && err != Skip {
				return err
			}
		}
		if last == nil {
			return nil
		}
		node = last
	}
}
"""))
# an explicit stack
ref("r-big-stack", PARSE,
    rewrite(VIS, "walkr(", """
func walkr(v Visitor, node ast.Node) error {
	todo := []ast.Node{node}
	for len(todo) > 0 {
		next := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if err := v.Visit(next); err != nil {
			if err == Skip {
				continue
			}
			return err
		}
		switch n := next.(type) {
		case *ast.AndNode:
			todo = append(todo, n.Right, n.Left)
		case *ast.OrNode:
			todo = append(todo, n.Right, n.Left)
		case *ast.NotNode:
			todo = append(todo, n.Expr)
		case *ast.SubdocNode:
			todo = append(todo, n.Expr)
		}
	}
	return nil
}
"""))
VAL = "parser/validators.go"
ref("r-big-bounds", PARSE,
    rewrite(VAL, "checkArity(", """
func checkArity(e *ast.ExprNode) *ParseError {
	n := len(e.RVals)
	msg := ""
	switch e.Op {
	case ast.EXS, ast.NUL:
		if n != 0 {
			msg = "does not accept arguments"
		}
	case ast.LT, ast.LTE, ast.GT, ast.GTE:
		msg = exactly(n, 1)
	case ast.BET:
		msg = exactly(n, 2)
	case ast.EQ, ast.SIM:
		if n == 0 {
			msg = "requires at least 1 arguments"
		}
	default:
		panic(fmt.Sprintf("undefined operation in arity check: [%s]", e.Op))
	}
	if msg == "" {
		return nil
	}
	return ErrorWith(e, fmt.Sprintf("[%s] operation %s", e.Op, msg))
}

func exactly(n, want int) string {
	if n == want {
		return ""
	}
	return fmt.Sprintf("requires exactly %d arguments", want)
}
"""))
ref("r-big-between", PARSE,
    rewrite(VAL, "checkBetween(", """
func checkBetween(e *ast.ExprNode) *ParseError {
	if e.Op != ast.BET {
		return nil
	}
	first, second := e.RVals[0], e.RVals[1]
	ft, fok := first.(*ast.TimeVal)
	st, sok := second.(*ast.TimeVal)
	increasing := false
	switch {
	case fok && sok:
		increasing = st.Value().After(ft.Value())
	case fok:
		return ErrorAt(second.Pos(), "second argument must also be a datetime value")
	case sok:
		return ErrorAt(second.Pos(), "second argument must also be a numeric value")
	default:
		increasing = !(number(second) <= number(first))
	}
	if !increasing {
		return ErrorAt(second.Pos(), "[><] operation requires the second argument be greater")
	}
	return nil
}

func number(v ast.Val) float64 {
	switch n := v.(type) {
	case *ast.IntVal:
		return float64(n.Value())
	case *ast.FloatVal:
		return n.Value()
	}
	return 0
}
"""))
ref("r-big-oneof", PARSE,
    rewrite(VAL, "mustBeOneOf(", """
func mustBeOneOf(values []ast.Val, types ...ast.ValType) (badIdx int) {
	if len(types) == 0 {
		panic("invalid type check")
	}
	allowed := make(map[ast.ValType]bool, len(types))
	for _, t := range types {
		allowed[t] = true
	}
	for i, v := range values {
		if !allowed[v.Type()] {
			return i
		}
	}
	return -1
}
"""))
ref("r-big-dups", PARSE,
    rewrite(VAL, "checkRVals(", """
func checkRVals(e *ast.ExprNode) *ParseError {
	total := len(e.RVals)
	seen := make(map[string]bool, total)
	for i, rv := range e.RVals {
		sv := rv.String()
		if seen[sv] {
			return ErrorWith(rv, fmt.Sprintf("duplicate argument [%s] (value %d/%d)", sv, i+1, total))
		}
		if e.Op == ast.EQ && seen[opposite(sv)] {
			return ErrorWith(rv, fmt.Sprintf("conflicting boolean value [%s] (value %d/%d)", sv, i+1, total))
		}
		seen[sv] = true
	}
	return nil
}

// opposite is the other truth value, itself no printed value for anything else
func opposite(s string) string {
	switch s {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return ""
}
"""))
# the tape records one message
ref("r-big-tape", PARSE,
    rewrite(VIS, "(mt *MessageTape) addMsg", """
func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
	text := fmt.Sprintf(msg, v...)
	mt.messages = append(mt.messages, newMessage(msgType, where, text))
	if msgType != MsgError || mt.firstErr != nil {
		return
	}
	mt.firstErr = mt.messages[len(mt.messages)-1]
}
"""))
S = "sampler/sampler.go"
SMP = "S01 S02 S03 S04 I01 I02"
# the path as a text
ref("r-big-smp-text", SMP,
    rewrite(S, "(s *Sampler) sample(", """
func (s *Sampler) sample(current []byte, path string, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {
	if s.maxDepth >= 0 && depth > s.maxDepth {
		return nil
	}
	switch valType {
	case jsonparser.Object:
		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
			name := string(key)
			if bytes.ContainsAny(key, ` ."`) {
				name = strconv.Quote(name)
			}
			return s.sample(value, path+"."+name, depth+1, dataType, found)
		})
	case jsonparser.Array:
		var aerr error
		_, err := jsonparser.ArrayEach(current, func(value []byte, dataType jsonparser.ValueType, _ int, ierr error) {
			if ierr != nil || aerr != nil || dataType == jsonparser.Array {
				return
			}
			aerr = s.sample(value, path, depth, dataType, found)
		})
		if err != nil {
			return err
		}
		return aerr
	case jsonparser.Unknown:
		return fmt.Errorf("unkown JSON value type: %v", string(current))
	}
	if path != "" {
		found[path[1:]] = struct{}{}
	}
	return nil
}
"""), (S, "	path := &bytes.Buffer{} // todo: share\n", ""), (S, "s.sample(sample, path, depth, rootObj, found)", "s.sample(sample, \"\", depth, rootObj, found)"))
# two functions
ref("r-big-smp-two", SMP,
    rewrite(S, "(s *Sampler) sample(", """
func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {
	switch {
	case s.maxDepth >= 0 && depth > s.maxDepth:
	case valType == jsonparser.Object:
		return s.object(current, path, depth, found)
	case valType == jsonparser.Array:
		return s.array(current, path, depth, found)
	case valType == jsonparser.Unknown:
		return fmt.Errorf("unkown JSON value type: %v", string(current))
	case path.Len() > 0:
		found[path.String()[1:]] = struct{}{}
	}
	return nil
}

func (s *Sampler) object(current []byte, path *bytes.Buffer, depth int, found map[string]struct{}) error {
	pl := path.Len()
	return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
		path.WriteByte('.')
		path.WriteString(segment(key))
		err := s.sample(value, path, depth+1, dataType, found)
		path.Truncate(pl)
		return err
	})
}

func segment(key []byte) string {
	if bytes.ContainsAny(key, ` ."`) {
		return strconv.Quote(string(key))
	}
	return string(key)
}

func (s *Sampler) array(current []byte, path *bytes.Buffer, depth int, found map[string]struct{}) error {
	var aerr error
	_, err := jsonparser.ArrayEach(current, func(value []byte, dataType jsonparser.ValueType, _ int, ierr error) {
		if ierr == nil && aerr == nil && dataType != jsonparser.Array {
			aerr = s.sample(value, path, depth, dataType, found)
		}
	})
	if err == nil {
		return aerr
	}
	return err
}
"""))
ref("r-big-smp-remaining", SMP,
    (S, "	if s.maxDepth >= 0 && depth > s.maxDepth {\n		return nil\n	}\n", "	if s.tooDeep(depth) {\n		return nil\n	}\n"),
    (S, "func (s *Sampler) Keys()", "func (s *Sampler) tooDeep(depth int) bool {\n	limited := s.maxDepth >= 0\n	return limited && depth >= s.maxDepth+1\n}\n\nfunc (s *Sampler) Keys()"))
# matcher compiled with a helper
ref("r-big-newmatcher", MATCH + " P03 P09",
    rewrite(J + "jsonmatcher.go", "NewMatcher(", """
func NewMatcher(aqlQuery string /*options*/) (m *Matcher, err error) {
	m = &Matcher{query: aqlQuery}
	if err = m.compile(); err != nil {
		return nil, err
	}
	return m, nil
}

func (m *Matcher) compile() error {
	visitor := parser.NewMessageVisitor(messageVisitor)
	root, err := parser.ParseQuery(m.query, parser.Visitors(visitor))
	if err != nil {
		return err
	}
	m.messages = visitor.Messages()
	m.root = newBuilder(true).build(root)
	return nil
}
"""))
