J = "jsonmatcher/"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
ALL = "M01 M02 M03 M04 M05 M06 M07 M08 M09 M10 M11 P02"

# ---- bugs
bug("b-and-nil-stats", "M01", (J+"nodes.go", "	result := a.left.result(root) && a.right.result(root)\n", "	result := a.left.result(root) && (a.left == a.right || a.right.result(root))\n"))
bug("b-or-xor", "M01", (J+"nodes.go", "	result := o.left.result(root) || o.right.result(root)\n", "	result := o.left.result(root) != o.right.result(root)\n"))
bug("b-not-literal-true", "M01", (J+"nodes.go", "	result := !n.sub.result(root)\n", "	result := len(root) > 2 && !n.sub.result(root)\n"))
bug("b-build-right-left", "M01", (J+"build_matcher.go", """		node := &orNode{
			left:  b.build(n.Left),
			right: b.build(n.Right),""", """		node := &orNode{
			left:  b.build(n.Left),
			right: b.build(n.Left),"""))
bug("b-lte-lt-time", "M02", (J+"expr_datetime.go", "if !dv.After(e.values[0]) {\n				return true\n			}\n		case ast.GT:", "if dv.Before(e.values[0]) {\n				return true\n			}\n		case ast.GT:"))
bug("b-bet-open", "M02", (J+"expr_float.go", "fv >= e.values[0] && fv <= e.values[1]", "fv >= e.values[0] && fv < e.values[1]"))
bug("b-bet-int-trunc", "M02", (J+"expr_between.go", """			constantValues[1] = v.Value()
""", """			constantValues[1] = float64(int64(v.Value()))
"""))
bug("b-lt-return-early", "M02 M04", (J+"expr_float.go", """			if fv < e.values[0] {
				return true
			}""", """			return fv < e.values[0]"""))
bug("b-skip-break", "M04", (J+"expr_float.go", """		if !ok {
			continue
		}""", """		if !ok {
			break
		}"""))
bug("b-scalar-array-first", "M04", (J+"json_values.go", """			out = append(out, v)
		}
	}
	return out
}

func (f *field) listValues""", """			if len(out) < 64 {
				out = append(out, v)
			}
		}
	}
	return out
}

func (f *field) listValues"""))
bug("b-null-scalars", "M06", (J+"expr_null.go", "		if field.values[i].dataType != jsonparser.Null {", "		if field.values[i].dataType != jsonparser.Null && field.values[i].dataType != jsonparser.Array {"))
bug("b-null-first", "M06", (J+"expr_null.go", "	for i := range field.values {\n", "	for i := range field.values[:1] {\n"))
bug("b-exists-null", "M06", (J+"expr_exists.go", "return len(field.values) > 0", "return len(field.values) > 0 && len(field.values[0].data) > 0"))
bug("b-valid-trim", "M07", (J+"jsonmatcher.go", "	if !json.Valid(data) {", "	if len(data) < 2 || data[0] != '{' && !json.Valid(data) {"))
bug("b-eq-first-only", "M03", (J+"nodes.go", "			if m.matches(field) {\n				matched = true\n				break\n			}", "			matched = m.matches(field)\n			if matched || len(e.exprs) > 8 {\n				break\n			}"))
bug("b-eq-day-end", "M03", (J+"expr_eq.go", "24*time.Hour - time.Nanosecond", "24*time.Hour - time.Second"))
bug("b-eq-day-incl", "M03", (J+"expr_eq.go", "24*time.Hour - time.Nanosecond", "24 * time.Hour"))
bug("b-net-overlap", "M03", (J+"expr_net.go", "if e.value.Overlaps(netblock) {", "if e.value.Contains(netblock.Addr()) {"))
bug("b-net-bad-break", "M03", (J+"expr_net.go", """					// report incorrect field
					continue""", """					// report incorrect field
					return false"""))
bug("b-net-regex", "M03", (J+"expr_net.go", r"(?:/\d{1,2})?`", r"(?:/\d\d)?`"))
bug("b-bool-string", "M03", (J+"json_values.go", "	if v.dataType == jsonparser.Boolean {", "	if v.dataType == jsonparser.Boolean || v.dataType == jsonparser.String {"))
bug("b-mark-twice", "M10", (J+"node_stats.go", "	ns.timesChecked.Inc()\n", "	ns.timesChecked.Inc()\n	if matched && ns.nodeName == \"AND\" {\n		ns.timesChecked.Inc()\n	}\n"))
bug("b-mark-notmatch", "M10", (J+"nodes.go", "	if n.nodeStats != nil {\n		n.nodeStats.mark(result)", "	if n.nodeStats != nil && result {\n		n.nodeStats.mark(result)"))
bug("b-mark-store", "M10", (J+"node_stats.go", "		ns.timesMatched.Inc()\n", "		ns.timesMatched.Store(ns.timesMatched.Load() + 1)\n"))
bug("b-expr-mark-perexpr", "M10", (J+"nodes.go", """			if m.matches(field) {
				matched = true
				break
			}
		}
	}

	if e.nodeStats != nil {
		e.nodeStats.mark(matched)
	}
""", """			if m.matches(field) {
				matched = true
				break
			}
		}
		if e.nodeStats != nil {
			e.nodeStats.mark(matched)
		}
	}

"""))
bug("b-mark-order", "M11", (J+"node_stats.go", """	ns.timesChecked.Inc()
	if matched {
		ns.timesMatched.Inc()
	}
""", """	if matched {
		ns.timesMatched.Inc()
	}
	ns.timesChecked.Inc()
"""))
bug("b-stats-swapped", "M11", (J+"nodes.go", "return o.nodeStats.toStatsNode(o.left, o.right)", "return o.nodeStats.toStatsNode(o.right, o.left)"))

# ---- refactorings
ref("r-and-if", ALL, (J+"nodes.go", "	result := a.left.result(root) && a.right.result(root)\n", """	result := a.left.result(root)
	if result {
		result = a.right.result(root)
	}
"""))
ref("r-and-both", ALL, (J+"nodes.go", "	result := a.left.result(root) && a.right.result(root)\n", """	if !a.left.result(root) {
		a.nodeStats.mark(false)
		return false
	}
	result := a.right.result(root)
"""))
ref("r-or-loop", ALL, (J+"nodes.go", "	result := o.left.result(root) || o.right.result(root)\n", """	result := false
	for _, n := range []boolNode{o.left, o.right} {
		if n.result(root) {
			result = true
			break
		}
	}
"""))
ref("r-mark-helper", ALL, (J+"nodes.go", """	if a.nodeStats != nil {
		a.nodeStats.mark(result)
	}
	return result
}

func (a *andNode) stats""", """	return record(a.nodeStats, result)
}

func record(ns *nodeStats, result bool) bool {
	if ns != nil {
		ns.mark(result)
	}
	return result
}

func (a *andNode) stats"""))
ref("r-mark-defer", ALL, (J+"nodes.go", """	result := !n.sub.result(root)
	if n.nodeStats != nil {
		n.nodeStats.mark(result)
	}
	return result
""", """	var result bool
	defer func() {
		if n.nodeStats != nil {
			n.nodeStats.mark(result)
		}
	}()
	result = !n.sub.result(root)
	return result
"""))
ref("r-mark-switch", ALL, (J+"node_stats.go", """	ns.timesChecked.Inc()
	if matched {
		ns.timesMatched.Inc()
	}
""", """	ns.timesChecked.Add(1)
	switch {
	case matched:
		ns.timesMatched.Add(1)
	}
"""))
ref("r-stats-index", ALL, (J+"node_stats.go", """		sn.Children = make([]*MatchStats, 0, len(children))
		for _, c := range children {
			sn.Children = append(sn.Children, c.stats())
		}
""", """		sn.Children = make([]*MatchStats, len(children))
		for i, c := range children {
			sn.Children[i] = c.stats()
		}
"""))
ref("r-stats-nil", ALL, (J+"node_stats.go", """	if len(children) > 0 {
		sn.Children = make([]*MatchStats, 0, len(children))
		for _, c := range children {
			sn.Children = append(sn.Children, c.stats())
		}
	}
""", """	for i := 0; i < len(children); i++ {
		sn.Children = append(sn.Children, children[i].stats())
	}
"""))
ref("r-build-stats-helper", ALL, (J+"build_matcher.go", """		if b.withStats {
			node.nodeStats = &nodeStats{
				nodeName: "AND",
			}
		}
""", """		node.nodeStats = b.newStats("AND")
"""), (J+"build_matcher.go", "func (b *builder) build(", """func (b *builder) newStats(name string) *nodeStats {
	if !b.withStats {
		return nil
	}
	return &nodeStats{nodeName: name}
}

func (b *builder) build("""))
ref("r-build-reorder", ALL, (J+"build_matcher.go", """		node := &orNode{
			left:  b.build(n.Left),
			right: b.build(n.Right),
		}
""", """		right := b.build(n.Right)
		left := b.build(n.Left)
		node := &orNode{right: right, left: left}
"""))
ref("r-build-expr-helper", ALL, (J+"build_matcher.go", """		switch n.Op {
		// unary
""", """		node.exprs = fieldExprs(n)
		return node
	}
	// return matcher
	return nil
}

func fieldExprs(n *ast.ExprNode) []fieldExpr {
	node := struct{ exprs []fieldExpr }{}
		switch n.Op {
		// unary
"""), (J+"build_matcher.go", """		default:
			// backstop
			panic(fmt.Sprintf("undefined operation: [%s]", n.Op))
		}
		return node
	}
	// return matcher
	return nil
}""", """		default:
			// backstop
			panic(fmt.Sprintf("undefined operation: [%s]", n.Op))
		}
	return node.exprs
}"""))
ref("r-null-range", ALL, (J+"expr_null.go", """	for i := range field.values {
		if field.values[i].dataType != jsonparser.Null {
			return false
		}
	}
	return true
""", """	allNull := true
	for _, v := range field.values {
		allNull = allNull && v.dataType == jsonparser.Null
	}
	return allNull
"""))
ref("r-null-count", ALL, (J+"expr_null.go", """	for i := range field.values {
		if field.values[i].dataType != jsonparser.Null {
			return false
		}
	}
	return true
""", """	i := 0
	for i < len(field.values) && field.values[i].dataType == jsonparser.Null {
		i++
	}
	return i == len(field.values)
"""))
ref("r-float-helper", ALL, (J+"expr_float.go", """		switch e.op {
		case ast.EQ:
			if fv == e.values[0] {
				return true
			}
		case ast.LT:
			if fv < e.values[0] {
				return true
			}
		case ast.LTE:
			if fv <= e.values[0] {
				return true
			}
		case ast.GT:
			if fv > e.values[0] {
				return true
			}
		case ast.GTE:
			if fv >= e.values[0] {
				return true
			}
		case ast.BET:
			if fv >= e.values[0] && fv <= e.values[1] {
				return true
			}
		// backstop
		default:
			panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
		}
	}
	return false
}
""", """		if e.test(fv) {
			return true
		}
	}
	return false
}

func (e *exprFloat) test(fv float64) bool {
	switch e.op {
	case ast.EQ:
		return fv == e.values[0]
	case ast.LT:
		return e.values[0] > fv
	case ast.LTE:
		return e.values[0] >= fv
	case ast.GT:
		return fv > e.values[0]
	case ast.GTE:
		return fv >= e.values[0]
	case ast.BET:
		if fv < e.values[0] {
			return false
		}
		return fv <= e.values[1]
	}
	// backstop
	panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
}
"""))
ref("r-float-table", ALL, (J+"expr_float.go", """		switch e.op {
		case ast.EQ:
			if fv == e.values[0] {
				return true
			}
		case ast.LT:
			if fv < e.values[0] {
				return true
			}
		case ast.LTE:
			if fv <= e.values[0] {
				return true
			}
		case ast.GT:
			if fv > e.values[0] {
				return true
			}
		case ast.GTE:
			if fv >= e.values[0] {
				return true
			}
		case ast.BET:
			if fv >= e.values[0] && fv <= e.values[1] {
				return true
			}
		// backstop
		default:
			panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
		}
""", """		f, ok := floatTests[e.op]
		if !ok {
			panic(fmt.Sprintf("invalid op for numeric comparison: %s", e.op))
		}
		if f(fv, e.values) {
			return true
		}
"""), (J+"expr_float.go", None, """
var floatTests = map[ast.Op]func(v float64, c [2]float64) bool{
	ast.EQ:  func(v float64, c [2]float64) bool { return v == c[0] },
	ast.LT:  func(v float64, c [2]float64) bool { return v < c[0] },
	ast.LTE: func(v float64, c [2]float64) bool { return v <= c[0] },
	ast.GT:  func(v float64, c [2]float64) bool { return v > c[0] },
	ast.GTE: func(v float64, c [2]float64) bool { return v >= c[0] },
	ast.BET: func(v float64, c [2]float64) bool { return c[0] <= v && v <= c[1] },
}
"""))
ref("r-time-compare", ALL, (J+"expr_datetime.go", "if !dv.After(e.values[0]) {\n				return true\n			}\n		case ast.GT:", "if dv.Before(e.values[0]) || dv.Equal(e.values[0]) {\n				return true\n			}\n		case ast.GT:"))
ref("r-time-compare3", ALL, (J+"expr_datetime.go", "if !dv.After(e.values[0]) {\n				return true\n			}\n		case ast.GT:", "if dv.Compare(e.values[0]) <= 0 {\n				return true\n			}\n		case ast.GT:"))
ref("r-scalar-noswitch", ALL, (J+"json_values.go", """		switch v.dataType {
		case jsonparser.Object:
			continue
		case jsonparser.Array:
			jsonparser.ArrayEach(v.data,
				func(value []byte, dataType jsonparser.ValueType, offset int, err error) {
					switch dataType {
					case jsonparser.Object, jsonparser.Array:
					default:
						out = append(out, jsonValue{
							data:     value,
							dataType: dataType,
						})
					}
				})
		default:
			out = append(out, v)
		}
""", """		if v.dataType == jsonparser.Object {
			continue
		}
		if v.dataType != jsonparser.Array {
			out = append(out, v)
			continue
		}
		jsonparser.ArrayEach(v.data,
			func(value []byte, dataType jsonparser.ValueType, offset int, err error) {
				if !isScalar(dataType) {
					return
				}
				out = append(out, jsonValue{value, dataType})
			})
"""), (J+"json_values.go", None, """
func isScalar(t jsonparser.ValueType) bool {
	return t != jsonparser.Object && t != jsonparser.Array
}
"""))
ref("r-scalar-helper", ALL, (J+"json_values.go", """			jsonparser.ArrayEach(v.data,
				func(value []byte, dataType jsonparser.ValueType, offset int, err error) {
					switch dataType {
					case jsonparser.Object, jsonparser.Array:
					default:
						out = append(out, jsonValue{
							data:     value,
							dataType: dataType,
						})
					}
				})
		default:""", """			out = append(out, scalarElements(v.data)...)
		default:"""), (J+"json_values.go", None, """
func scalarElements(array []byte) []jsonValue {
	var out []jsonValue
	jsonparser.ArrayEach(array,
		func(value []byte, dataType jsonparser.ValueType, offset int, err error) {
			switch dataType {
			case jsonparser.Object, jsonparser.Array:
				return
			}
			out = append(out, jsonValue{data: value, dataType: dataType})
		})
	return out
}
"""))
ref("r-any-helper", ALL, (J+"expr_float.go", """	for _, v := range field.scalarValues() {
		fv, ok := getNumberVal(v)
		if !ok {
			continue
		}
		switch e.op {""", """	values := field.scalarValues()
	for i := 0; i < len(values); i++ {
		fv, ok := getNumberVal(values[i])
		if !ok {
			continue
		}
		switch e.op {"""))
ref("r-any-func", ALL, (J+"expr_regexp.go", """	for _, v := range field.scalarValues() {
		str, ok := getStringVal(v)
		if !ok {
			continue
		}
		if e.value.MatchString(str) {
			return true
		}
	}
	return false
""", """	return anyString(field, e.value.MatchString)
"""), (J+"expr_regexp.go", None, """
func anyString(field *field, f func(string) bool) bool {
	for _, v := range field.scalarValues() {
		if str, ok := getStringVal(v); ok && f(str) {
			return true
		}
	}
	return false
}
"""))
ref("r-any-flag", ALL, (J+"expr_regexp.go", """		if e.value.MatchString(str) {
			return true
		}
	}
	return false
""", """		found = found || e.value.MatchString(str)
	}
	return found
"""), (J+"expr_regexp.go", "	for _, v := range field.scalarValues() {", "	found := false\n	for _, v := range field.scalarValues() {"))
ref("r-slices-any", ALL, (J+"expr_equal_bool.go", """	for _, v := range field.scalarValues() {
		var (
			bv bool
			ok bool
		)
		switch e.op {
		case ast.EQ:
			bv, ok = getBoolVal(v)
		// case ast.SIM:
		// 	bv, ok = getTruthyVal(v)
		default:
			// backstop
			panic(fmt.Sprintf("invalid op for boolean comparison: %s", e.op))
		}
		if !ok {
			continue
		}
		if bv == e.value {
			return true
		}
	}
	return false
""", """	if e.op != ast.EQ {
		panic(fmt.Sprintf("invalid op for boolean comparison: %s", e.op))
	}
	return slices.ContainsFunc(field.scalarValues(), func(v jsonValue) bool {
		bv, ok := getBoolVal(v)
		return ok && bv == e.value
	})
"""), (J+"expr_equal_bool.go", "\"fmt\"\n", "\"fmt\"\n	\"slices\"\n"))
ref("r-expr-anymatch", ALL, (J+"nodes.go", """	matched := false
	field := getField(e.path, root)
	if len(field.values) > 0 {
		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
	}
""", """	field := getField(e.path, root)
	matched := len(field.values) > 0 && e.any(field)
"""), (J+"nodes.go", None, """
func (e exprNode) any(field *field) bool {
	for i := range e.exprs {
		if e.exprs[i].matches(field) {
			return true
		}
	}
	return false
}
"""))
ref("r-expr-early", ALL, (J+"nodes.go", """		for _, m := range e.exprs {
			if m.matches(field) {
				matched = true
				break
			}
		}
""", """		for i := 0; i < len(e.exprs) && !matched; i++ {
			matched = e.exprs[i].matches(field)
		}
"""))
ref("r-eq-helper", ALL, (J+"expr_eq.go", """	matchers := make([]fieldExpr, 0, len(RVals))
	for _, r := range RVals {
		switch rval := r.(type) {
		case *ast.StringVal:
			str := rval.Value()
			matchers = append(matchers, getStringMatcher(str))
""", """	matchers := make([]fieldExpr, 0, len(RVals))
	for _, r := range RVals {
		matchers = append(matchers, exprEQ1(r)...)
	}
	return matchers
}

func exprEQ1(r ast.Val) []fieldExpr {
	matchers := make([]fieldExpr, 0, 1)
		switch rval := r.(type) {
		case *ast.StringVal:
			str := rval.Value()
			matchers = append(matchers, getStringMatcher(str))
"""), (J+"expr_eq.go", """			panic(fmt.Sprintf("bad value type for numeric matcher: %T", RVals[0]))
		}
	}
	return matchers
""", """			panic(fmt.Sprintf("bad value type for numeric matcher: %T", r))
		}
	return matchers
"""))
ref("r-eq-fill", ALL, (J+"expr_eq.go", """	matchers := make([]fieldExpr, 0, len(RVals))
	for _, r := range RVals {
		switch rval := r.(type) {
		case *ast.StringVal:
			str := rval.Value()
			matchers = append(matchers, getStringMatcher(str))
""", """	matchers := make([]fieldExpr, len(RVals))
	for i := range RVals {
		matchers[i] = exprEQ1(RVals[i])
	}
	return matchers
}

func exprEQ1(r ast.Val) fieldExpr {
	var matchers []fieldExpr
		switch rval := r.(type) {
		case *ast.StringVal:
			str := rval.Value()
			matchers = append(matchers, getStringMatcher(str))
"""), (J+"expr_eq.go", """			panic(fmt.Sprintf("bad value type for numeric matcher: %T", RVals[0]))
		}
	}
	return matchers
""", """			panic(fmt.Sprintf("bad value type for numeric matcher: %T", r))
		}
	return matchers[0]
"""))
ref("r-eq-day", ALL, (J+"expr_eq.go", """				endOfDay := rval.Value().Add(24*time.Hour - time.Nanosecond)
""", """				endOfDay := rval.Value().AddDate(0, 0, 1).Add(-time.Nanosecond)
"""))
ref("r-net-find", ALL, (J+"expr_net.go", """		for _, ipIdx := range getNets.FindAllStringIndex(sv, -1) {
			netsv := sv[ipIdx[0]:ipIdx[1]]
""", """		for _, netsv := range getNets.FindAllString(sv, -1) {
"""))
ref("r-net-helper", ALL, (J+"expr_net.go", """			switch {
			case strings.Contains(netsv, `/`):
				// net block, check for overlap
				netblock, err := netip.ParsePrefix(netsv)
				if err != nil {
					// report incorrect field
					continue
				}
				if e.value.Overlaps(netblock) {
					return true
				}
			// would add port awareness here if needed
			// case strings.Contains(netsv, `:`):
			default:
				// plain netaddr, check if it's contained/equals
				netaddr, err := netip.ParseAddr(netsv)
				if err != nil {
					continue
				}
				if e.value.Contains(netaddr) {
					return true
				}
			}
""", """			if e.covers(netsv) {
				return true
			}
"""), (J+"expr_net.go", None, """
func (e *exprNet) covers(s string) bool {
	if strings.IndexByte(s, '/') >= 0 {
		block, err := netip.ParsePrefix(s)
		return err == nil && block.Overlaps(e.value)
	}
	addr, err := netip.ParseAddr(s)
	return err == nil && e.value.Contains(addr)
}
"""))
ref("r-match-else", ALL, (J+"jsonmatcher.go", """	if !json.Valid(data) {
		return false, errors.New("invalid JSON")
	}
	return m.root.result(data), nil
""", """	if err := validate(data); err != nil {
		return false, err
	}
	matched := m.root.result(data)
	return matched, nil
"""), (J+"jsonmatcher.go", None, """
var errInvalid = errors.New("invalid JSON")

func validate(data []byte) error {
	if json.Valid(data) {
		return nil
	}
	return errInvalid
}
"""))
ref("r-getstring-if", ALL, (J+"json_values.go", """	sv, ok := getStringVal(v)
	if !ok {
		return time.Time{}, false
	}
	t, err := dateparse.ParseAny(sv)
	if err != nil {
		return time.Time{}, false
	}
	return t, true
""", """	if sv, ok := getStringVal(v); ok {
		if t, err := dateparse.ParseAny(sv); err == nil {
			return t, true
		}
	}
	return time.Time{}, false
"""))
ref("r-between-helper", ALL, (J+"expr_between.go", """		switch v := RVals[0].(type) {
		case *ast.FloatVal:
			constantValues[0] = v.Value()
		case *ast.IntVal:
			constantValues[0] = float64(v.Value())
		}
		switch v := RVals[1].(type) {
		case *ast.FloatVal:
			constantValues[1] = v.Value()
		case *ast.IntVal:
			constantValues[1] = float64(v.Value())
		}
""", """		for i := range constantValues {
			constantValues[i] = numberOf(RVals[i])
		}
"""), (J+"expr_between.go", None, """
func numberOf(v ast.Val) float64 {
	if f, ok := v.(*ast.FloatVal); ok {
		return f.Value()
	}
	return float64(v.(*ast.IntVal).Value())
}
"""))
ref("r-expr-iface", ALL, (J+"expr_numeric.go", """	switch v := RVals[0].(type) {
	case *ast.FloatVal:
		return &exprFloat{
			values: [2]float64{v.Value()},
			op:     op,
		}
	case *ast.IntVal:
		return &exprFloat{
			values: [2]float64{float64(v.Value())},
			op:     op,
		}
	case *ast.TimeVal:
		return &exprDatetime{
			values: [2]time.Time{v.Value()},
			op:     op,
		}
	default:
		// backstop
		panic(fmt.Sprintf("bad value type for numeric matcher: %T", RVals[0]))
	}
""", """	if t, ok := RVals[0].(*ast.TimeVal); ok {
		e := new(exprDatetime)
		e.op = op
		e.values = [2]time.Time{0: t.Value()}
		return e
	}
	e := &exprFloat{op: op}
	switch v := RVals[0].(type) {
	case *ast.FloatVal:
		e.values[0] = v.Value()
	case *ast.IntVal:
		e.values[0] = float64(v.Value())
	default:
		// backstop
		panic(fmt.Sprintf("bad value type for numeric matcher: %T", v))
	}
	return e
"""))
