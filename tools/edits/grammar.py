G = "internal/grammar/"
N = G + "parser_gen.go"
A = G + "aql.peg"
T = "parser/ast/ast.go"
Q = "parser/parser.go"
V = "parser/validators.go"
EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

ALL = "G01 G02 G03 G04 G05 G06 P06 P07 P08"

# actions, changed in the grammar and in the generated parser
bug("b-or-operands", "G03", (N, "	return &ast.OrNode{\n		Left:  lhs.(ast.Node),\n		Right: rhs.(ast.Node),", "	return &ast.OrNode{\n		Left:  rhs.(ast.Node),\n		Right: lhs.(ast.Node),"))
bug("b-or-operands2", "G03", (N, "	return &ast.OrNode{\n		Left:  lhs.(ast.Node),\n		Right: rhs.(ast.Node),", "	return &ast.OrNode{\n		Left:  rhs.(ast.Node),\n		Right: lhs.(ast.Node),"),
    (A, "    return &ast.OrNode {\n        Left: lhs.(ast.Node),\n        Right: rhs.(ast.Node),", "    return &ast.OrNode {\n        Left: rhs.(ast.Node),\n        Right: lhs.(ast.Node),"))
bug("b-not-twice", "G03", (N, "	return &ast.NotNode{\n		Expr: cmp.(ast.Node),\n	}, nil", "	if n, ok := cmp.(*ast.NotNode); ok {\n		return n.Expr, nil\n	}\n	return &ast.NotNode{\n		Expr: cmp.(ast.Node),\n	}, nil"))
bug("b-not-demorgan", "G03", (N, "	return &ast.NotNode{\n		Expr: cmp.(ast.Node),\n	}, nil", "	if n, ok := cmp.(*ast.OrNode); ok {\n		return &ast.AndNode{Left: &ast.NotNode{Expr: n.Left}, Right: n.Right}, nil\n	}\n	return &ast.NotNode{\n		Expr: cmp.(ast.Node),\n	}, nil"))
bug("b-and-flip", "G03", (N, "	return &ast.AndNode{\n		Left:  lhs.(ast.Node),\n		Right: rhs.(ast.Node),", "	if _, ok := rhs.(*ast.OrNode); ok {\n		lhs, rhs = rhs, lhs\n	}\n	return &ast.AndNode{\n		Left:  lhs.(ast.Node),\n		Right: rhs.(ast.Node),"))
bug("b-lte-lt", "G04", (N, "	case \"<=\":\n		opOut = ast.LTE", "	case \"<=\":\n		opOut = ast.LT"))
bug("b-values-reversed", "G04", (N, "		out = append(out, r[3].(ast.Val))", "		out = append([]ast.Val{r[3].(ast.Val)}, out...)"))
bug("b-values-cap", "G04", (N, "	for _, v := range restSl {\n		r := toAny(v)", "	for _, v := range restSl {\n		if len(out) == 512 {\n			break\n		}\n		r := toAny(v)"))
bug("b-star-first", "G04", (N, "	for {\n		i := findStarIdx(ss)\n		if i < 0 {\n			break\n		}\n		ss = append(ss[:i], ss[i+1:]...)\n	}\n	return ss", "	if i := findStarIdx(ss); i >= 0 {\n		ss = append(ss[:i], ss[i+1:]...)\n	}\n	return ss"))
bug("b-op-default", "G04", (N, "	if operation == nil {\n		opOut = ast.EQ", "	if operation == nil {\n		opOut = ast.SIM"))
bug("b-piece-lower", "G04", (N, "	return string(c.text), nil", "	return strings.ToLower(string(c.text)), nil"))
bug("b-quoted-piece-string", "G04", (N, "	return (qv.(*ast.StringVal).Value()), nil", "	return (qv.(*ast.StringVal).String()), nil"))
bug("b-single-paren", "G04", (N, "	if len(restSl) == 0 {\n		return nil, fmt.Errorf(\"unnecessary parenthesis for only one value\")\n	}\n	for", "	if len(restSl) == 0 {\n		return nil, fmt.Errorf(\"unnecessary parenthesis for only one value\")\n	}\n	out = out[:1]\n	for _, v := range restSl[1:] {\n		out = append(out, toAny(v)[3].(ast.Val))\n	}\n	restSl = restSl[:1]\n	for"))

# the grammar itself
bug("b-peg-only-space", "G05", (A, "logicalOR <- \"OR\"", "logicalOR <- \"OR\" / \"or\""))
bug("b-peg-octet", "G05 G04", (A, "Octet <- [0-9][0-9]?[0-9]?", "Octet <- [0-9][0-9]?"))
bug("b-peg-code", "G05", (A, "    case \"<=\":\n        opOut = ast.LTE", "    case \"<=\":\n        opOut = ast.LT"))

# the machinery of the generated parser
bug("b-seq-restore", "G06", (N, "			p.restoreState(state)\n			p.restore(pt)\n			return nil, false", "			p.restoreState(state)\n			if len(vals) < 6 {\n				p.restore(pt)\n			}\n			return nil, false"))
bug("b-not-restore", "G06", (N, "	p.popV()\n	p.restoreState(state)\n	p.restore(pt)\n\n	return nil, !ok", "	p.popV()\n	p.restoreState(state)\n	if !ok {\n		p.restore(pt)\n	}\n\n	return nil, !ok"))
bug("b-memo-off", "G02", (Q, ", grammar.Memoize(true))", ")"))
bug("b-memo-failures", "G02", (N, "	if p.memoize {\n		p.setMemoized(pt, expr, resultTuple{val, ok, p.pt})\n	}\n	return val, ok", "	if p.memoize && ok {\n		p.setMemoized(pt, expr, resultTuple{val, ok, p.pt})\n	}\n	return val, ok"),
    (N, "	if p.memoize {\n		p.setMemoized(start, rule, resultTuple{val, ok, p.pt})\n	}", "	if p.memoize && ok {\n		p.setMemoized(start, rule, resultTuple{val, ok, p.pt})\n	}"))
bug("b-memo-end", "G06 G02", (N, "		p.setMemoized(start, rule, resultTuple{val, ok, p.pt})", "		p.setMemoized(p.pt, rule, resultTuple{val, ok, p.pt})"))
bug("b-memo-pos", "G06", (N, "		p.setMemoized(pt, expr, resultTuple{val, ok, p.pt})", "		p.setMemoized(pt, expr, resultTuple{val, ok, pt})"))
bug("b-choice-last", "G06", (N, "			p.incChoiceAltCnt(ch, altI)\n			return val, ok", "			p.incChoiceAltCnt(ch, altI)\n			return val, val != nil"))
bug("b-star-drop", "G06", (N, "		if !ok {\n			return vals, true\n		}\n		vals = append(vals, val)", "		if !ok {\n			return vals, true\n		}\n		if len(vals) < 100 {\n			vals = append(vals, val)\n		}"))
bug("b-fail-first", "G06 P06", (N, "		if pos.offset > p.maxFailPos.offset {\n			p.maxFailPos = pos", "		if pos.offset > p.maxFailPos.offset && len(p.maxFailExpected) < 10 {\n			p.maxFailPos = pos"))
bug("b-memo-max", "G02", (N, "	if p.memo == nil {\n		p.memo = make(map[int]map[interface{}]resultTuple)\n	}", "	if p.memo == nil {\n		p.memo = make(map[int]map[interface{}]resultTuple)\n	}\n	if len(p.memo) > 2048 {\n		return\n	}"))
bug("b-lit-case", "G06", (N, "		if lit.ignoreCase {\n			cur = unicode.ToLower(cur)\n		}\n		if cur != want", "		if lit.ignoreCase || len(lit.val) > 4 {\n			cur = unicode.ToLower(cur)\n		}\n		if cur != want"))
bug("b-class-end", "G06", (N, "cur >= chr.ranges[i] && cur <= chr.ranges[i+1]", "cur >= chr.ranges[i] && cur < chr.ranges[i+1]"))

# positions
bug("b-pos-bytes", "P06", (N, "		Len:    utf8.RuneCount(c.text),", "		Len:    len(c.text),"))
bug("b-pos-swap", "P06", (N, "		Line:   c.pos.line,\n		Col:    c.pos.col,\n		Offset: c.pos.offset,\n		Len:    utf8", "		Line:   c.pos.line,\n		Col:    c.pos.col - c.pos.line + 1,\n		Offset: c.pos.offset,\n		Len:    utf8"))
bug("b-read-line", "P06 G06", (N, "		p.pt.line++\n		p.pt.col = 0", "		p.pt.line++\n		p.pt.col = 1"))
bug("b-read-col", "P06 G06", (N, "	p.pt.col++\n	if rn", "	p.pt.col += n\n	if rn"))
bug("b-act-pos", "P06 G06", (N, "			p.addErrAt(err, start.position, []string{})\n		}\n		p.restoreState(state)\n\n		val", "			p.addErr(err)\n		}\n		p.restoreState(state)\n\n		val"))
bug("b-restore-part", "P06 G06", (N, "	p.pt = pt\n}", "	p.pt.offset, p.pt.rn, p.pt.w = pt.offset, pt.rn, pt.w\n}"))
bug("b-tok-len", "P06", (N, "				toklen = te.length", "				toklen = len(te.Error())"))
bug("b-parse-last", "P06", (N, "		if pe, ok := ev[0].(*parserError); ok {", "		if pe, ok := ev[len(ev)-1].(*parserError); ok {"))
bug("b-parse-fallback", "P06", (N, "		Position: ast.Pos{Offset: -1},", "		Position: ast.Pos{Line: 1, Col: 1},"))
bug("b-dup-pos", "P06", (V, "			return ErrorWith(e.RVals[i], fmt.Sprintf(\"duplicate", "			return ErrorWith(e.RVals[0], fmt.Sprintf(\"duplicate"))
bug("b-kind-pos", "P06", (V, "		return ErrorWith(e.RVals[badIdx], fmt", "		if badIdx > 1 {\n			badIdx--\n		}\n		return ErrorWith(e.RVals[badIdx], fmt"))
bug("b-between-pos", "P06", (V, "			return ErrorAt(e.RVals[1].Pos(), \"[><] operation", "			return ErrorAt(e.RVals[0].Pos(), \"[><] operation"))
bug("b-val-pos", "P06", (T, "		sv:  strconv.FormatFloat(fv, 'f', -1, 64),\n		pos: pos,", "		sv:  strconv.FormatFloat(fv, 'f', -1, 64),\n		pos: pos.Start(),"))
bug("b-str-tok", "P06", (N, "		return nil, tokErrf(pos, \"invalid string: %s\", err)", "		return nil, fmt.Errorf(\"invalid string: %s\", err)"))

# literals
bug("b-int-auto", "P07", (T, "strconv.ParseInt(sv, 10, 64)", "strconv.ParseInt(sv, 0, 64)"))
bug("b-int-clamp", "P07", (T, "	iv, err := strconv.ParseInt(sv, 10, 64)\n	if err != nil {", "	iv, err := strconv.ParseInt(sv, 10, 64)\n	if err != nil && !errors.Is(err, strconv.ErrRange) {"))
bug("b-float-32", "P07", (T, "	fv, err := strconv.ParseFloat(sv, 64)", "	bits := 64\n	if len(sv) > 20 {\n		bits = 32 // so many digits are not significant\n	}\n	fv, err := strconv.ParseFloat(sv, bits)"))
bug("b-float-range", "P07", (T, "	if err != nil || math.IsNaN(fv) {", "	if (err != nil && !math.IsInf(fv, 0)) || math.IsNaN(fv) {"))
bug("b-regex-trim", "P07", (T, "strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`)", "strings.Trim(sv, `/`)"))
bug("b-net-24", "P07", (T, "		sv += \"/32\"", "		if strings.HasSuffix(sv, \".0\") {\n			sv += \"/24\"\n		} else {\n			sv += \"/32\"\n		}"))
bug("b-net-err", "P07", (T, "	nv, err := netip.ParsePrefix(sv)\n	if err != nil {", "	nv, err := netip.ParsePrefix(sv)\n	if err != nil && !nv.IsValid() && strings.Contains(sv, \"/\") && len(sv) < 15 {"))
bug("b-time-local", "P07", (T, "		tv, err = time.Parse(`2006-01-02`, sv)", "		tv, err = time.ParseInLocation(`2006-01-02`, sv, time.Local)"))
bug("b-time-dayonly", "P07", (T, "		tv, err = time.Parse(time.RFC3339, sv)", "		tv, err = time.Parse(time.RFC3339, sv)\n		dayOnly = tv.Hour() == 0"))
bug("b-time-trunc", "P07", (T, "		tv:      tv,", "		tv:      tv.Truncate(time.Second),"))
bug("b-str-trim", "P07", (N, "	return ast.NewStringVal([]byte(s), pos)", "	return ast.NewStringVal([]byte(strings.TrimSpace(s)), pos)"))
bug("b-str-raw", "P07", (N, "	s, err := strconv.Unquote(string(c.text))\n	if err != nil {\n		return nil, tokErrf(pos, \"invalid string: %s\", err)", "	s, err := strconv.Unquote(string(c.text))\n	if err != nil {\n		s = strings.Trim(string(c.text), `\"`)"))
bug("b-type-swap", "P07", (T, "func (t *TimeVal) Type() ValType {\n	return TypeTime", "func (t *TimeVal) Type() ValType {\n	if t.dayOnly {\n		return TypeString\n	}\n	return TypeTime"))

# printing
bug("b-print-or", "P08", (T, "\"(|| %s %s)\", o.Left.String(), o.Right.String()", "\"(|| %s %s)\", o.Right.String(), o.Left.String()"))
bug("b-print-not", "P08", (T, "	return fmt.Sprintf(\"(! %s)\", n.Expr.String())", "	if m, ok := n.Expr.(*NotNode); ok {\n		return m.Expr.String()\n	}\n	return fmt.Sprintf(\"(! %s)\", n.Expr.String())"))
bug("b-print-vals", "P08", (T, "			sb.WriteString(rv.String())\n			if i < len(e.RVals)-1 {\n				sb.WriteString(`, `)", "			if i == 2 {\n				sb.WriteString(`...`)\n				break\n			}\n			sb.WriteString(rv.String())\n			if i < len(e.RVals)-1 {\n				sb.WriteString(`, `)"))
bug("b-print-op", "P08", (T, "	if e.Op != `==` {", "	if e.Op != `==` && e.Op != SIM {"))
bug("b-print-quote", "P08", (T, "strings.ContainsAny(p, ` .\"`)", "strings.ContainsAny(p, ` \"`)"))
bug("b-print-float", "P08", (T, "strconv.FormatFloat(fv, 'f', -1, 64)", "strconv.FormatFloat(fv, 'f', 6, 64)"))
bug("b-print-bool", "P08", (T, "	if bv {\n		sv2 = \"true\"", "	if bv && sv == \"TRUE\" {\n		sv2 = \"true\""))
bug("b-print-str", "P08", (T, "		qsv: strconv.Quote(sv),", "		qsv: `\"` + sv + `\"`,"))

# refactorings
ref("r-getpos-inline", ALL, (N, "	pos := getpos(c)\n	val, err := ast.NewFloatVal(c.text, getpos(c))", "	pos := getpos(c)\n	val, err := ast.NewFloatVal(c.text, pos)"))
ref("r-getpos-both", ALL, (N, "	pos := getpos(c)\n	val, err := ast.NewFloatVal(c.text, getpos(c))", "	pos := getpos(c)\n	val, err := ast.NewFloatVal(c.text, pos)"),
    (A, "    pos := getpos(c)\n    val, err := ast.NewFloatVal(c.text, getpos(c)) ", "    pos := getpos(c)\n    val, err := ast.NewFloatVal(c.text, pos)"))
ref("r-removestars", ALL, (N, "	for {\n		i := findStarIdx(ss)\n		if i < 0 {\n			break\n		}\n		ss = append(ss[:i], ss[i+1:]...)\n	}\n	return ss", "	out := ss[:0]\n	for _, s := range ss {\n		if s != \"*\" {\n			out = append(out, s)\n		}\n	}\n	return out"),
    (N, "func findStarIdx(ss []string) int {\n	for i, s := range ss {\n		if s == \"*\" {\n			return i\n		}\n	}\n	return -1\n}\n", ""))
ref("r-ops-map", ALL, (N, "	var opOut ast.Op\n	switch string(c.text) {\n	case \"exists\":\n		opOut = ast.EXS\n	case \"null\":\n		opOut = ast.NUL\n	}\n	return opOut, nil", "	if string(c.text) == \"exists\" {\n		return ast.EXS, nil\n	}\n	return ast.NUL, nil"))
ref("r-helper-val", ALL, (N, "	out := []ast.Val{first.(ast.Val)}\n	restSl := toAny(rest)\n	if len(restSl) == 0 {\n		return nil, fmt.Errorf(\"unnecessary parenthesis for only one value\")\n	}\n	for _, v := range restSl {\n		r := toAny(v)\n		out = append(out, r[3].(ast.Val))\n	}\n	return out, nil", "	restSl := toAny(rest)\n	if len(restSl) == 0 {\n		return nil, fmt.Errorf(\"unnecessary parenthesis for only one value\")\n	}\n	return collectVals(first, restSl), nil"),
    (N, "// pigeon helper method, sometimes you gotta do what you gotta do\n", "func collectVals(first any, rest []any) []ast.Val {\n	out := make([]ast.Val, 0, len(rest)+1)\n	out = append(out, first.(ast.Val))\n	for i := 0; i < len(rest); i++ {\n		out = append(out, toAny(rest[i])[3].(ast.Val))\n	}\n	return out\n}\n\n// pigeon helper method, sometimes you gotta do what you gotta do\n"))
ref("r-time-layout", ALL, (T, "	if len(sv) == 10 {\n		tv, err = time.Parse(`2006-01-02`, sv)\n		dayOnly = true\n	} else {\n		tv, err = time.Parse(time.RFC3339, sv)\n	}", "	layout := time.RFC3339\n	if len(sv) == len(time.DateOnly) {\n		layout, dayOnly = time.DateOnly, true\n	}\n	tv, err = time.Parse(layout, sv)"))
ref("r-net-index", ALL, (T, "	if !strings.Contains(sv, `/`) {", "	if strings.IndexByte(sv, '/') < 0 {"))
ref("r-regex-slice", ALL, (T, "	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))", "	inner := strings.TrimPrefix(sv, `/`)\n	inner = strings.TrimSuffix(inner, `/`)\n	rv, err := regexp.Compile(inner)"))
ref("r-bool-direct", ALL, (T, "	sv2 := \"false\"\n	if bv {\n		sv2 = \"true\"\n	}\n", "	sv2 := strconv.FormatBool(bv)\n"))
ref("r-bool-lower", ALL, (T, "	sv2 := \"false\"\n	if bv {\n		sv2 = \"true\"\n	}\n	return &BoolVal{\n		bv:  bv,\n		sv:  sv2,", "	return &BoolVal{\n		bv:  bv,\n		sv:  strings.ToLower(sv),"))
ref("r-print-join", ALL, (T, "		sb.WriteString(`(`)\n		for i, rv := range e.RVals {\n			sb.WriteString(rv.String())\n			if i < len(e.RVals)-1 {\n				sb.WriteString(`,`)\n			}\n		}\n		sb.WriteString(`)`)", "		parts := make([]string, 0, len(e.RVals))\n		for _, rv := range e.RVals {\n			parts = append(parts, rv.String())\n		}\n		sb.WriteString(`(` + strings.Join(parts, `,`) + `)`)"))
ref("r-print-sprintf", ALL, (T, "	return fmt.Sprintf(\"(&& %s %s)\", a.Left.String(), a.Right.String())", "	return \"(&& \" + a.Left.String() + \" \" + a.Right.String() + \")\""))
ref("r-field-sep", ALL, (T, "	for i, p := range pathparts {\n		if strings.ContainsAny(p, ` .\"`) {\n			sb.WriteString(strconv.Quote(p))\n		} else {\n			sb.WriteString(p)\n		}\n		if i < len(pathparts)-1 {\n			sb.WriteString(`.`)\n		}\n	}", "	for i, p := range pathparts {\n		if i > 0 {\n			sb.WriteByte('.')\n		}\n		if strings.ContainsAny(p, ` .\"`) {\n			p = strconv.Quote(p)\n		}\n		sb.WriteString(p)\n	}"))
ref("r-rt-seq", ALL, (N, "	for _, expr := range seq.exprs {\n		val, ok := p.parseExpr(expr)\n		if !ok {", "	for i := range seq.exprs {\n		val, ok := p.parseExpr(seq.exprs[i])\n		if !ok {"))
ref("r-rt-action", ALL, (N, "	val, ok := p.parseExpr(act.expr)\n	if ok {\n		p.cur.pos = start.position", "	val, ok := p.parseExpr(act.expr)\n	if !ok {\n		return val, false\n	}\n	{\n		p.cur.pos = start.position"))
ref("r-rt-star", ALL, (N, "		if !ok {\n			return vals, true\n		}\n		vals = append(vals, val)\n	}\n}", "		if !ok {\n			break\n		}\n		vals = append(vals, val)\n	}\n	return vals, true\n}"))
ref("r-rt-memo", ALL, (N, "	m := p.memo[p.pt.offset]\n	if len(m) == 0 {\n		return resultTuple{}, false\n	}\n	res, ok := m[node]\n	return res, ok", "	res, ok := p.memo[p.pt.offset][node]\n	return res, ok"))
ref("r-rt-lookahead", ALL, (N, "	pt := p.pt\n	state := p.cloneState()\n	p.pushV()\n	_, ok := p.parseExpr(and.expr)\n	p.popV()\n	p.restoreState(state)\n	p.restore(pt)\n\n	return nil, ok", "	return nil, p.peek(and.expr)"),
    (N, "func (p *parser) parseAnyMatcher(", "func (p *parser) peek(expr interface{}) bool {\n	pt := p.pt\n	state := p.cloneState()\n	p.pushV()\n	_, ok := p.parseExpr(expr)\n	p.popV()\n	p.restoreState(state)\n	p.restore(pt)\n	return ok\n}\n\nfunc (p *parser) parseAnyMatcher("))
ref("r-parse-err", ALL, (N, "	switch ev := err.(type) {\n	case errList:\n		if pe", "	if ev, isList := err.(errList); isList && len(ev) > 0 {\n		if pe"))
ref("r-errwith", ALL, (V, "			return ErrorAt(e.RVals[1].Pos(), \"second argument must also be a datetime value\")", "			return ErrorWith(e.RVals[1], \"second argument must also be a datetime value\")"))
