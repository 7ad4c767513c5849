P = "parser/"
V = P + "validators.go"
W = P + "visitors.go"
Q = P + "parser.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

bug("b-dup-adjacent", "P01", (V, "		seen[rv.String()] = struct{}{}\n", "		if i > 0 {\n			delete(seen, e.RVals[i-1].String())\n		}\n		seen[rv.String()] = struct{}{}\n"))
bug("b-dup-limit", "P01", (V, "		seen[rv.String()] = struct{}{}\n", "		if len(seen) < 64 {\n			seen[rv.String()] = struct{}{}\n		}\n"))
bug("b-dup-two", "P01", (V, "	if len(e.RVals) <= 1 {", "	if len(e.RVals) <= 2 && e.Op != ast.EQ {"))
bug("b-conflict-order", "P01", (V, "				_, conflictingBool = seen[\"true\"]\n", "				_, conflictingBool = seen[\"True\"]\n"))
bug("b-conflict-sim", "P01", (V, "if e.Op == ast.EQ && (sv", "if (e.Op == ast.EQ || e.Op == ast.SIM) && (sv"))
bug("b-sim-net", "P01", (V, "mustBeOneOf(e.RVals, ast.TypeString, ast.TypeRegex, ast.TypeBool)", "mustBeOneOf(e.RVals, ast.TypeString, ast.TypeRegex, ast.TypeBool, ast.TypeNet)"))
bug("b-num-no-time", "P01", (V, "	case ast.LT, ast.LTE, ast.GT, ast.GTE, ast.BET:\n		failMsg, badIdx", "	case ast.LTE:\n		failMsg, badIdx = \"needs numeric arguments\", mustBeOneOf(e.RVals, ast.TypeInt, ast.TypeFloat)\n	case ast.LT, ast.GT, ast.GTE, ast.BET:\n		failMsg, badIdx"))
bug("b-between-mixed", "P01 M08", (V, "	if e.RVals[1].Type() == ast.TypeTime {\n		return ErrorAt(e.RVals[1].Pos(), \"second argument must also be a numeric value\")\n	}\n", ""))
bug("b-between-swapped", "P01", (V, "if lt.Value().After(rt.Value()) || lt.Value().Equal(rt.Value()) {", "if lt.Value().After(rt.Value()) {"))
bug("b-between-round", "P01", (V, "		l = lnv.Value()\n", "		l = float64(int64(lnv.Value()))\n"))
bug("b-kind-first", "P01", (V, "		for t := range types {\n			if values[v].Type() == types[t] {\n				continue VLOOP\n			}\n		}\n		return v\n", "		for t := range types {\n			if values[v].Type() == types[t] {\n				continue VLOOP\n			}\n		}\n		if v > 0 && values[v].Type() == ast.TypeNet {\n			continue\n		}\n		return v\n"))
bug("b-arity-exs", "P01", (V, "		if numArgs > 0 {\n			msg = \"does not", "		if numArgs > 1 {\n			msg = \"does not"))
bug("b-skip-validate-not", "P01", (V, "	switch n := node.(type) {\n	case *ast.ExprNode:", "	switch n := node.(type) {\n	case *ast.NotNode:\n		return Skip\n	case *ast.ExprNode:"))

bug("b-visitors-prepend", "P03", (Q, "		p.visitors = append(p.visitors, visitors...)", "		p.visitors = append(visitors, p.visitors...)"))
bug("b-visitors-replace", "P03", (Q, "		p.visitors = append(p.visitors, visitors...)", "		p.visitors = append(p.visitors[:1], visitors...)"))
bug("b-tree-and-error", "P03", (Q, "				return nil, perr\n", "				return root, perr\n"))
bug("b-visit-last-error", "P03", (Q, "	for _, v := range opts.visitors {\n		err := walk(v, root)", "	for i := len(opts.visitors) - 1; i >= 0; i-- {\n		v := opts.visitors[i]\n		err := walk(v, root)"))
bug("b-nil-nil", "P03", (Q, "		return nil, genericParseError(\"parser returned nil output\")", "		return nil, nil"))
bug("b-generic-swallow", "P03 P05", (Q, "			return nil, genericParseError(\"validation failure: \" + err.Error())", "			if len(opts.visitors) > 2 {\n				continue\n			}\n			return nil, genericParseError(\"validation failure: \" + err.Error())"))
bug("b-matcher-and-error", "P03 P02", ("jsonmatcher/jsonmatcher.go", "	if err != nil {\n		return nil, err\n	}\n	builder", "	if err != nil {\n		return &Matcher{query: aqlQuery}, err\n	}\n	builder"))
bug("b-generic-pos", "P03", (Q, "		Position: ast.NoPosition(),", "		Position: ast.Pos{Line: 1, Col: 1},"))

bug("b-first-err-last", "P04", (W, "	if msgType == MsgError && mt.firstErr == nil {", "	if msgType == MsgError {"))
bug("b-warn-fails", "P04", (W, "	if msgType == MsgError && mt.firstErr == nil {", "	if msgType != MsgHint && mt.firstErr == nil {"))
bug("b-errat-warning", "P04", (W, "func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {\n	mt.addMsg(MsgError,", "func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {\n	mt.addMsg(MsgWarning,"))
bug("b-warnwith-nopos", "P04", (W, "	mt.addMsg(MsgWarning, node.Pos(), msg, v...)", "	mt.addMsg(MsgWarning, ast.NoPosition(), msg, v...)"))
bug("b-err-start", "P04", (P+"message.go", "	return &ParseError{\n		Position: p.Position,", "	return &ParseError{\n		Position: p.Position.Start(),"))
bug("b-msg-args", "P04", (W, "	mt.addMsg(MsgHint, where, msg, v...)", "	mt.addMsg(MsgHint, where, msg, v)"))
bug("b-msg-cap", "P04", (W, "	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))", "	if len(mt.messages) < 100 {\n		mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))\n	}"))
bug("b-tape-check-once", "P04", (Q, "			if mv.tape.firstErr != nil {", "			if mv.tape.firstErr != nil && len(mv.tape.messages) == 1 {"))

bug("b-walk-right-first", "P05", (W, "	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n		return walkr(v, n.Right)", "	case *ast.OrNode:\n		err = walkr(v, n.Right)\n		if err != nil && err != Skip {\n			return err\n		}\n		return walkr(v, n.Left)"))
bug("b-walk-skipall-nil", "P05", (W, "		if err == Skip {\n			return nil\n		}\n		return err\n	}\n	switch", "		if err == Skip || err == SkipAll {\n			return nil\n		}\n		return err\n	}\n	switch"))
bug("b-walk-not-skip", "P05", (W, "	case *ast.NotNode:\n		return walkr(v, n.Expr)", "	case *ast.NotNode:\n		if _, ok := n.Expr.(*ast.NotNode); ok {\n			return nil\n		}\n		return walkr(v, n.Expr)"))
bug("b-walk-subdoc", "P05", (W, "	case *ast.SubdocNode:\n		return walkr(v, n.Expr)\n", ""))
bug("b-walk-left-err", "P05", (W, "	case *ast.AndNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n", "	case *ast.AndNode:\n		err = walkr(v, n.Left)\n		if err != nil && err == SkipAll {\n			return err\n		}\n"))
bug("b-walk-twice", "P05", (W, "	err := walkr(v, node)\n	if err == Skip", "	if _, ok := node.(*ast.NotNode); ok {\n		if err := v.Visit(node); err != nil && err != Skip {\n			return err\n		}\n	}\n	err := walkr(v, node)\n	if err == Skip"))
bug("b-walk-skip-error", "P05", (W, "	if err == Skip || err == SkipAll {\n		return nil\n	}\n	return err\n}\n\n// this", "	if err == Skip {\n		return nil\n	}\n	return err\n}\n\n// this"))

REF = "P01 P03 P04 P05 P02 M08"
ref("r-dup-set", REF, (V, "	seen := map[string]struct{}{}", "	seen := map[string]bool{}"), (V, "		if _, found := seen[sv]; found {", "		if seen[sv] {"),
    (V, "			if sv == \"true\" {\n				_, conflictingBool = seen[\"false\"]\n			} else {\n				_, conflictingBool = seen[\"true\"]\n			}\n", "			if sv == \"true\" {\n				conflictingBool = seen[\"false\"]\n			} else {\n				conflictingBool = seen[\"true\"]\n			}\n"), (V, "		seen[rv.String()] = struct{}{}\n", "		seen[sv] = true\n"))
ref("r-dup-nested", REF, (V, "	seen := map[string]struct{}{}\n", ""), (V, "		if _, found := seen[sv]; found {", "		if hasValue(e.RVals[:i], sv) {"),
    (V, "			if sv == \"true\" {\n				_, conflictingBool = seen[\"false\"]\n			} else {\n				_, conflictingBool = seen[\"true\"]\n			}\n", "			if sv == \"true\" {\n				conflictingBool = hasValue(e.RVals[:i], \"false\")\n			} else {\n				conflictingBool = hasValue(e.RVals[:i], \"true\")\n			}\n"), (V, "		seen[rv.String()] = struct{}{}\n", ""), (V, "func checkBetween", "func hasValue(vs []ast.Val, sv string) bool {\n	for _, v := range vs {\n		if v.String() == sv {\n			return true\n		}\n	}\n	return false\n}\n\nfunc checkBetween"))
ref("r-bet-helper", REF, (V, """	var l, r float64
	switch lnv := e.RVals[0].(type) {
	case *ast.IntVal:
		l = float64(lnv.Value())
	case *ast.FloatVal:
		l = lnv.Value()
	}
	switch rnv := e.RVals[1].(type) {
	case *ast.IntVal:
		r = float64(rnv.Value())
	case *ast.FloatVal:
		r = rnv.Value()
	}
	if r <= l {""", """	if numberOf(e.RVals[0]) >= numberOf(e.RVals[1]) {"""), (V, "func mustBeOneOf", "func numberOf(v ast.Val) float64 {\n	switch n := v.(type) {\n	case *ast.IntVal:\n		return float64(n.Value())\n	case *ast.FloatVal:\n		return n.Value()\n	}\n	return 0\n}\n\nfunc mustBeOneOf"))
ref("r-bet-before", REF, (V, "if lt.Value().After(rt.Value()) || lt.Value().Equal(rt.Value()) {", "if !lt.Value().Before(rt.Value()) {"))
ref("r-arity-table", REF, (V, """	var msg string
	switch {
	case min == 0 && max == 0:
		if numArgs > 0 {
			msg = "does not accept arguments"
		}
	case min == max:
		if numArgs != min {
			msg = fmt.Sprintf("requires exactly %d arguments", min)
		}
	case min < max:
		if numArgs < min || numArgs > max {
			msg = fmt.Sprintf("requires between %d and %d arguments", min, max)
		}
	case max == inf:
		if min > 0 && numArgs < min {
			msg = fmt.Sprintf("requires at least %d arguments", min)
		}
	// backstop
	default:
		panic(fmt.Sprintf("invalid arity min/max: %d/%d", min, max))
	}
""", """	msg := arityMessage(numArgs, min, max)
"""), (V, "// check for duplicates", """func arityMessage(n, min, max int) string {
	if max < 0 {
		if n < min {
			return fmt.Sprintf("requires at least %d arguments", min)
		}
		return ""
	}
	if max == 0 && n > 0 {
		return "does not accept arguments"
	}
	if n != min {
		return fmt.Sprintf("requires exactly %d arguments", min)
	}
	return ""
}

// check for duplicates"""), (V, "	const (\n		inf = -1\n	)\n", "	const inf = -1\n"))
ref("r-one-of-contains", REF, (V, """VLOOP:
	for v := range values {
		for t := range types {
			if values[v].Type() == types[t] {
				continue VLOOP
			}
		}
		return v
	}
	return -1""", """	for i, v := range values {
		if !slices.Contains(types, v.Type()) {
			return i
		}
	}
	return -1"""), (V, "import (\n	\"fmt\"\n", "import (\n	\"fmt\"\n	\"slices\"\n"))
ref("r-validator-if", REF, (V, "	switch n := node.(type) {\n	case *ast.ExprNode:\n		for _, check := range []exprCheck{\n			checkValues,\n			checkArity,\n			checkRVals,\n			checkBetween,\n		} {\n			if err := check(n); err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n", "	n, ok := node.(*ast.ExprNode)\n	if !ok {\n		return nil\n	}\n	checks := []exprCheck{checkValues, checkArity, checkRVals, checkBetween}\n	for i := 0; i < len(checks); i++ {\n		if err := checks[i](n); err != nil {\n			return err\n		}\n	}\n	return nil\n"))
ref("r-run-visitor", REF, (Q, """		err := walk(v, root)
		if err != nil {
			if perr, ok := err.(*ParseError); ok {
				return nil, perr
			}
			return nil, genericParseError("validation failure: " + err.Error())
		}
		// Check to see if a MessageValidator had an error.
		// TODO: allow all to return.
		if mv, ok := v.(*MessageVisitor); ok {
			if mv.tape.firstErr != nil {
				return nil, mv.tape.firstErr.assErr()
			}
		}
	}
""", """		if perr := runVisitor(v, root); perr != nil {
			return nil, perr
		}
	}
"""), (Q, "func genericParseError", """func runVisitor(v Visitor, root ast.Node) *ParseError {
	if err := walk(v, root); err != nil {
		if perr, ok := err.(*ParseError); ok {
			return perr
		}
		return genericParseError("validation failure: " + err.Error())
	}
	if mv, ok := v.(*MessageVisitor); ok && mv.tape.firstErr != nil {
		return mv.tape.firstErr.assErr()
	}
	return nil
}

func genericParseError"""))
ref("r-parse-switch", REF, (Q, """	switch t := v.(type) {
	case nil:
		return nil, genericParseError("parser returned nil output")
	case ast.Node:
		root = t
	default:
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", t))
	}
""", """	if v == nil {
		return nil, genericParseError("parser returned nil output")
	}
	root, ok := v.(ast.Node)
	if !ok {
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", v))
	}
"""), (Q, "	var root ast.Node\n\n", ""))
ref("r-walk-children", REF, (W, """	switch n := node.(type) {
	case *ast.AndNode:
		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
	case *ast.OrNode:
		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
	case *ast.NotNode:
		return walkr(v, n.Expr)
	case *ast.SubdocNode:
		return walkr(v, n.Expr)
	}
	return nil
}
""", """	for _, c := range children(node) {
		if err := walkr(v, c); err != nil {
			return err
		}
	}
	return nil
}

func children(node ast.Node) []ast.Node {
	switch n := node.(type) {
	case *ast.AndNode:
		return []ast.Node{n.Left, n.Right}
	case *ast.OrNode:
		return []ast.Node{n.Left, n.Right}
	case *ast.NotNode:
		return []ast.Node{n.Expr}
	case *ast.SubdocNode:
		return []ast.Node{n.Expr}
	}
	return nil
}
"""))
ref("r-walk-pair", REF, (W, """		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
	case *ast.OrNode:
		err = walkr(v, n.Left)
		if err != nil && err != Skip {
			return err
		}
		return walkr(v, n.Right)
""", """		return walkPair(v, n.Left, n.Right)
	case *ast.OrNode:
		return walkPair(v, n.Left, n.Right)
"""), (W, "// VisitorFun is", "func walkPair(v Visitor, left, right ast.Node) error {\n	if err := walkr(v, left); err != nil {\n		return err\n	}\n	return walkr(v, right)\n}\n\n// VisitorFun is"))
ref("r-walk-struct", REF, (W, "	err := walkr(v, node)\n	if err == Skip || err == SkipAll {\n		return nil\n	}\n	return err\n}\n", "	w := &walker{v: v}\n	err := w.walk(node)\n	if err == Skip || err == SkipAll {\n		return nil\n	}\n	return err\n}\n\ntype walker struct {\n	v Visitor\n}\n"),
    (W, "func walkr(v Visitor, node ast.Node) error {\n	err := v.Visit(node)", "func (w *walker) walk(node ast.Node) error {\n	err := w.v.Visit(node)"),
    (W, "	case *ast.AndNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n		return walkr(v, n.Right)\n	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n		return walkr(v, n.Right)\n	case *ast.NotNode:\n		return walkr(v, n.Expr)\n	case *ast.SubdocNode:\n		return walkr(v, n.Expr)\n", "	case *ast.AndNode:\n		err = w.walk(n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n		return w.walk(n.Right)\n	case *ast.OrNode:\n		err = w.walk(n.Left)\n		if err != nil && err != Skip {\n			return err\n		}\n		return w.walk(n.Right)\n	case *ast.NotNode:\n		return w.walk(n.Expr)\n	case *ast.SubdocNode:\n		return w.walk(n.Expr)\n"))
ref("r-tape-once", REF, (W, "	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))", "	mt.messages = append(mt.messages, pmsg)"))
ref("r-tape-scan", REF, (W, "	if msgType == MsgError && mt.firstErr == nil {\n		mt.firstErr = pmsg\n	}\n	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))\n}", "	mt.messages = append(mt.messages, pmsg)\n}\n\nfunc (mt *MessageTape) first() *ParserMessage {\n	for _, m := range mt.messages {\n		if m.Type == MsgError {\n			return m\n		}\n	}\n	return nil\n}"),
    (W, "	firstErr *ParserMessage\n", ""), (Q, "			if mv.tape.firstErr != nil {\n				return nil, mv.tape.firstErr.assErr()\n			}", "			if m := mv.tape.first(); m != nil {\n				return nil, m.assErr()\n			}"))
ref("r-option-loop", REF, (Q, "		p.visitors = append(p.visitors, visitors...)", "		for _, v := range visitors {\n			p.visitors = append(p.visitors, v)\n		}"))
ref("r-matcher-order", REF, ("jsonmatcher/jsonmatcher.go", "	builder := newBuilder(true)\n\n	return &Matcher{\n		root:     builder.build(root),\n		query:    aqlQuery,\n		messages: visitor.Messages(),\n	}, nil", "	m := &Matcher{query: aqlQuery}\n	m.messages = visitor.Messages()\n	m.root = newBuilder(true).build(root)\n	return m, nil"))
