J = "jsonmatcher/"
P = "parser/"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

# panics
bug("b-panic-backslash", "M08", (J+"str_matchers.go", "if i < len(wcRunes)-1 {", "if i < len(wcRunes) {"))
bug("b-panic-subs", "M08", (J+"query_messages.go", "if len(reg.Sub) >= 2 {\n					if isDotStar(reg.Sub[0])", "if reg.Op == syntax.OpConcat || reg.Op == syntax.OpStar {\n					if isDotStar(reg.Sub[1])"))
bug("b-panic-between-order", "M08", (P+"validators.go", "			checkArity,\n			checkRVals,\n			checkBetween,\n", "			checkBetween,\n			checkArity,\n			checkRVals,\n"))
bug("b-panic-eqbool-op", "M08 P02", (J+"expr_eq.go", "			matchers = append(matchers, &exprEqBool{\n				value: bool(rval.Value()),\n				op:    ast.EQ,", "			matchers = append(matchers, &exprEqBool{\n				value: bool(rval.Value()),\n				op:    ast.SIM,"))
bug("b-panic-net-slice", "M08", (J+"expr_net.go", "netsv := sv[ipIdx[0]:ipIdx[1]]", "netsv := sv[ipIdx[0]:ipIdx[1]+1]"))
bug("b-panic-next", "M08", (J+"json_values.go", "		if path.bottom() {\n			return []", "		if path.bottom() && childType != jsonparser.Object {\n			return []"))
bug("b-panic-nil-field", "M08", (J+"json_values.go", "		return &field{}\n", "		return nil\n"))
bug("b-panic-quote", "M08", (J+"str_matchers.go", "	buf.WriteString(regexp.QuoteMeta(accum.String()))\n	if asciiOnly", "	if strings.ContainsAny(accum.String(), `.+$^[]{}|`) {\n		buf.WriteString(regexp.QuoteMeta(accum.String()))\n	} else {\n		buf.WriteString(accum.String())\n	}\n	if asciiOnly"))
bug("b-panic-stats-first", "M08", (J+"node_stats.go", "		sn.Children = make([]*MatchStats, 0, len(children))\n", "		sn.Children = make([]*MatchStats, 0, len(children))\n		if children[1] == nil {\n			return sn\n		}\n"))
bug("b-panic-between-assert", "M08", (P+"validators.go", "		if e.RVals[1].Type() != ast.TypeTime {\n			return ErrorAt(e.RVals[1].Pos(), \"second argument must also be a datetime value\")\n		}\n", ""))
bug("b-panic-recover", "M08", ("internal/grammar/parser_gen.go", "		recover:  true,", "		recover:  len(b) == 0,"))
bug("b-build-sim", "P02 M08", (J+"build_matcher.go", "		case ast.SIM:\n			node.exprs = exprEQ(n.RVals)\n", "		case ast.SIM:\n			node.exprs = []fieldExpr{exprNumeric(n.Op, n.RVals)}\n"))
bug("b-eq-limit", "P02", (J+"expr_eq.go", "		case *ast.NetVal:\n", "		case *ast.NetVal:\n			if !rval.Value().IsValid() || len(matchers) >= 16 {\n				continue\n			}\n"))
bug("b-eq-regex-nil", "P02", (J+"expr_eq.go", "		case *ast.StringVal:\n			str := rval.Value()\n", "		case *ast.StringVal:\n			str := rval.Value()\n			if str == \"\" {\n				continue\n			}\n"))
bug("b-between-time-second", "P02 M02", (J+"expr_between.go", "				RVals[1].(*ast.TimeVal).Value(),\n", "				RVals[0].(*ast.TimeVal).Value(),\n"))

# sharing
bug("b-share-cache", "M09", (J+"nodes.go", "	nodeStats *nodeStats\n}\n\nfunc (e exprNode)", "	nodeStats *nodeStats\n	last      *field\n}\n\nfunc (e *exprNode) fieldOf(root []byte) *field {\n	e.last = getField(e.path, root)\n	return e.last\n}\n\nfunc (e exprNode)"),
    (J+"nodes.go", "func (e exprNode) result(root []byte) bool {\n	matched := false\n	field := getField(e.path, root)", "func (e *exprNode) result(root []byte) bool {\n	matched := false\n	field := e.fieldOf(root)"))
bug("b-share-plain-counter", "M09", (J+"node_stats.go", "	timesMatched atomic.Int64 `json:\"times_matched\"`", "	timesMatched atomic.Int64 `json:\"times_matched\"`\n	lastMatched  bool"), (J+"node_stats.go", "	if matched {\n		ns", "	ns.lastMatched = matched\n	if matched {\n		ns"))
bug("b-share-scratch", "M09", (J+"expr_net.go", "type exprNet struct {\n	value netip.Prefix\n", "type exprNet struct {\n	value netip.Prefix\n	seen  []string\n"),
    (J+"expr_net.go", "			netsv := sv[ipIdx[0]:ipIdx[1]]\n", "			netsv := sv[ipIdx[0]:ipIdx[1]]\n			e.seen = append(e.seen[:0], netsv)\n"))
bug("b-share-doc-lower", "M09", (J+"json_values.go", "	switch v.dataType {\n	case jsonparser.String:\n		sv, err := jsonparser.ParseString(v.data)\n		if err", "	switch v.dataType {\n	case jsonparser.String:\n		for i, b := range v.data {\n			if b == '\\t' {\n				v.data[i] = ' '\n			}\n		}\n		sv, err := jsonparser.ParseString(v.data)\n		if err"))
bug("b-share-global", "M09", (J+"json_values.go", "// TODO: cache paths\nfunc getField(path []string, root []byte) *field {\n", "var lastRoot []byte\n\n// TODO: cache paths\nfunc getField(path []string, root []byte) *field {\n	lastRoot = root\n"))
bug("b-share-append-path", "M09", (J+"nodes.go", "	field := getField(e.path, root)\n", "	field := getField(append(e.path[:len(e.path)-1], e.path[len(e.path)-1]), root)\n"))
bug("b-share-reorder", "M09", (J+"nodes.go", "				matched = true\n				break", "				matched = true\n				e.exprs[0] = m\n				break"))
bug("b-share-stats-cache", "M09", (J+"node_stats.go", "	nodeName     string\n", "	nodeName     string\n	report       MatchStats\n"), (J+"node_stats.go", "	if len(children) > 0 {\n		sn", "	ns.report = *sn\n	if len(children) > 0 {\n		sn"))

REF = "M08 M09 P02"
ref("r-children-append", REF, (J+"node_stats.go", "	if len(children) > 0 {\n		sn.Children = make([]*MatchStats, 0, len(children))\n", "	if len(children) > 0 {\n"))
ref("r-scratch-local", REF, (J+"expr_net.go", "		// find all CIDRs/IPAddrs in string\n", "		found := make([]string, 0, 4)\n"), (J+"expr_net.go", "			netsv := sv[ipIdx[0]:ipIdx[1]]\n", "			found = append(found, sv[ipIdx[0]:ipIdx[1]])\n			netsv := found[len(found)-1]\n"))
ref("r-append-helper", REF, (J+"json_values.go", "			out = append(out, v)\n		}\n	}\n	return out\n}\n\nfunc (f *field) listValues", "			out = addValue(out, v)\n		}\n	}\n	return out\n}\n\nfunc addValue(out []jsonValue, v jsonValue) []jsonValue {\n	return append(out, v)\n}\n\nfunc (f *field) listValues"))
ref("r-eq-switch-reorder", REF, (J+"expr_eq.go", "		case *ast.NetVal:\n			matchers = append(matchers, &exprNet{\n				value: rval.Value(),\n			})\n", ""), (J+"expr_eq.go", "		case *ast.BoolVal:\n", "		case *ast.NetVal:\n			matchers = append(matchers, &exprNet{value: rval.Value()})\n		case *ast.BoolVal:\n"))
ref("r-msg-helper", REF, (J+"query_messages.go", "				reStr = strings.TrimPrefix(reStr, \"(?i)\")\n				if strings.HasPrefix(reStr, \".*\") || strings.HasSuffix(reStr, \".*\") {", "				if redundantDotStar(strings.TrimPrefix(reStr, \"(?i)\")) {"), (J+"query_messages.go", "func doesSomethingSpecial", "func redundantDotStar(s string) bool {\n	return strings.HasPrefix(s, \".*\") || strings.HasSuffix(s, \".*\")\n}\n\nfunc doesSomethingSpecial"))
ref("r-pattern-builder", REF, (J+"str_matchers.go", "	var buf bytes.Buffer\n", "	var buf strings.Builder\n"))
ref("r-pattern-while", REF, (J+"str_matchers.go", "	for i := 0; i < len(wcRunes); i++ {\n", "	n := len(wcRunes)\n	for i := 0; i < n; i++ {\n"))
ref("r-pattern-helper", REF, (J+"str_matchers.go", """			switch wcRunes[i] {
			case '?':
				buf.WriteString(`.`)
			case '*':
				buf.WriteString(`.*?`)
			}
""", """			buf.WriteString(wildcardPattern(wcRunes[i]))
"""), (J+"str_matchers.go", "type unicodeMatcher struct", "func wildcardPattern(r rune) string {\n	if r == '?' {\n		return `.`\n	}\n	return `.*?`\n}\n\ntype unicodeMatcher struct"))
ref("r-validator-direct", REF, (P+"validators.go", "		for _, check := range []exprCheck{\n			checkValues,\n			checkArity,\n			checkRVals,\n			checkBetween,\n		} {\n			if err := check(n); err != nil {\n				return err\n			}\n		}\n", "		if err := checkValues(n); err != nil {\n			return err\n		}\n		if err := checkArity(n); err != nil {\n			return err\n		}\n		if err := checkRVals(n); err != nil {\n			return err\n		}\n		if err := checkBetween(n); err != nil {\n			return err\n		}\n"))
