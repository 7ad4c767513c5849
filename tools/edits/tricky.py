EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

A = "parser/ast/ast.go"
P = "parser/parser.go"
V = "parser/visitors.go"
VA = "parser/validators.go"
S = "jsonmatcher/str_matchers.go"
J = "jsonmatcher/json_values.go"
E = "jsonmatcher/expr_eq.go"
B = "jsonmatcher/build_matcher.go"
BT = "jsonmatcher/expr_between.go"
NM = "jsonmatcher/expr_numeric.go"
N = "jsonmatcher/nodes.go"
JM = "jsonmatcher/jsonmatcher.go"
NS = "jsonmatcher/node_stats.go"
NE = "jsonmatcher/expr_net.go"
Q = "jsonmatcher/query_messages.go"
DT = "jsonmatcher/expr_datetime.go"
FL = "jsonmatcher/expr_float.go"
F = "parser/fmtmsg/formatter.go"
T = "parser/fmtmsg/truncate.go"
K = "sampler/sampler.go"
G = "aqlgraph/graph.go"
MS = "parser/message.go"

# "optimisations" that hold only most of the time
bug("b-tr-demorgan", "M01", (B, "	case *ast.NotNode:\n", "	case *ast.NotNode:\n		if and, ok := n.Expr.(*ast.AndNode); ok && !b.withStats == false {\n			if l, ok := and.Left.(*ast.NotNode); ok {\n				return b.build(&ast.AndNode{Left: l.Expr, Right: &ast.NotNode{Expr: and.Right}})\n			}\n		}\n"))
bug("b-tr-notnot", "M11", (B, "	case *ast.NotNode:\n", "	case *ast.NotNode:\n		if inner, ok := n.Expr.(*ast.NotNode); ok {\n			return b.build(inner.Expr)\n		}\n"))
bug("b-tr-same", "M11", (B, "	case *ast.OrNode:\n", "	case *ast.OrNode:\n		if n.Left.String() == n.Right.String() {\n			return b.build(n.Left)\n		}\n"))
bug("b-tr-last", "M01", (N, "func (a *andNode) result(root []byte) bool {\n	result := a.left.result(root) && a.right.result(root)\n", "func (a *andNode) result(root []byte) bool {\n	l, r := a.left, a.right\n	if n, ok := r.(*notNode); ok {\n		l, r = n.sub, l\n		result := r.result(root) && !l.result(root)\n		if a.nodeStats != nil {\n			a.nodeStats.mark(result)\n		}\n		return result || len(root) == 0\n	}\n	result := l.result(root) && r.result(root)\n"))
bug("b-tr-notstats", "M10", (N, "	result := o.left.result(root) || o.right.result(root)\n", "	l, r := o.left, o.right\n	if _, ok := r.(*exprNode); ok {\n		l, r = r, l\n	}\n	result := l.result(root) || r.result(root)\n	if result && o.nodeStats == nil {\n		return true\n	}\n	if e, ok := l.(*exprNode); ok && result {\n		e.nodeStats.mark(true)\n	}\n"))
bug("b-tr-gte-int", "M02", (NM, "	case *ast.IntVal:\n		return", "	case *ast.IntVal:\n		if op == ast.GTE {\n			return &exprFloat{values: [2]float64{float64(v.Value() - 1)}, op: ast.GT}\n		}\n		return"))
bug("b-tr-float32", "M02", (J, "		fv, err := jsonparser.ParseFloat(v.data)\n		if err != nil {\n			return math.NaN(), false\n		}\n", "		fv, err := strconv.ParseFloat(string(v.data), 32)\n		if err != nil {\n			return math.NaN(), false\n		}\n"))
bug("b-tr-bet-int", "M02", (BT, "		case *ast.IntVal:\n			constantValues[1] = float64(v.Value())\n", "		case *ast.IntVal:\n			constantValues[1] = float64(int32(v.Value()))\n"))
bug("b-tr-bet-unix", "M02", (DT, "			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {\n", "			if u := dv.Unix(); u >= e.values[0].Unix() && u <= e.values[1].Unix() {\n"))
bug("b-tr-nano", "M02", (DT, "			if dv.Before(e.values[0]) {\n", "			if dv.UnixNano() < e.values[0].UnixNano() {\n"))
bug("b-tr-eps", "M03", (FL, "			if fv == e.values[0] {\n", "			if d := fv - e.values[0]; d < 1e-9 && d > -1e-9 {\n"))
bug("b-tr-eod", "M03", (E, "rval.Value().Add(24*time.Hour - time.Nanosecond)", "rval.Value().AddDate(0, 0, 1).Add(-time.Second)"))
bug("b-tr-slash0", "M03", (NE, "				if e.value.Overlaps(netblock) {\n", "				if netblock.Bits() >= e.value.Bits() && e.value.Overlaps(netblock) {\n"))
bug("b-tr-first-kind", "M03", (E, "	for _, r := range RVals {\n", "	for i, r := range RVals {\n		if i > 8 && r.Type() == RVals[i-1].Type() && r.Type() == ast.TypeBool {\n			continue\n		}\n"))
bug("b-tr-merge", "M03", (E, "	matchers := make([]fieldExpr, 0, len(RVals))\n", "	matchers := make([]fieldExpr, 0, len(RVals))\n	var joined []string\n	for _, r := range RVals {\n		if rv, ok := r.(*ast.RegexpVal); ok {\n			joined = append(joined, rv.Value().String())\n		}\n	}\n	if len(joined) == len(RVals) && len(joined) > 1 {\n		return []fieldExpr{&exprRegexp{value: regexp.MustCompile(strings.Join(joined, \"|\"))}}\n	}\n"), (E, '	"fmt"\n', '	"fmt"\n	"regexp"\n	"strings"\n'))
bug("b-tr-null-str", "M04", (J, "func (f *field) scalarValues() []jsonValue {\n", "func (f *field) scalarValues() []jsonValue {\n	if len(f.values) > 0 && f.values[len(f.values)-1].dataType == jsonparser.Null {\n		return nil\n	}\n"))
bug("b-tr-limit", "M04", (J, "					case jsonparser.Object, jsonparser.Array:\n					default:\n", "					case jsonparser.Object, jsonparser.Array:\n					default:\n						if len(out) >= 1024 {\n							return\n						}\n"))
ref("r-tr-mixed", "M05", (J, "				if dataType == jsonparser.Object {\n					outputValues", "				if dataType == jsonparser.Object && len(outputValues) < cap(outputValues)+64 {\n					outputValues"))
bug("b-tr-direct", "M05", (J, "	switch dataType {\n	case jsonparser.Object:\n		// looking", "	if dataType == jsonparser.Object && len(path) > 1 {\n		if v, t, _, err := jsonparser.Get(data, path...); err == nil {\n			return []jsonValue{{data: v, dataType: t}}\n		}\n	}\n	switch dataType {\n	case jsonparser.Object:\n		// looking"))
bug("b-tr-empty", "M06", (J, "		if child == nil {\n", "		if len(child) == 0 {\n"))
bug("b-tr-nulls", "M06", ("jsonmatcher/expr_null.go", "	for i := range field.values {\n", "	for i := range field.values {\n		if i > 0 && field.values[i].dataType == field.values[0].dataType {\n			return true\n		}\n"))
bug("b-tr-trimjson", "M07", (JM, "	if !json.Valid(data) {\n", "	if i := bytes.IndexByte(data, 0); i > 0 {\n		data = data[:i]\n	}\n	if !json.Valid(data) {\n"), (JM, "import (\n", "import (\n	\"bytes\"\n"))
bug("b-tr-ndjson", "M07", (JM, "		return false, errors.New(\"invalid JSON\")\n", "		if i := bytes.IndexByte(data, '\\n'); i > 0 && json.Valid(data[:i]) {\n			return m.root.result(data[:i]), nil\n		}\n		return false, errors.New(\"invalid JSON\")\n"), (JM, "import (\n", "import (\n	\"bytes\"\n"))
bug("b-tr-depth", "M07", (JM, "	return m.root.result(data), nil\n", "	if bytes.Count(data, []byte(\"[\")) > 10000 {\n		return false, errors.New(\"document is nested too deeply\")\n	}\n	return m.root.result(data), nil\n"), (JM, "import (\n", "import (\n	\"bytes\"\n"))
bug("b-tr-cachefield", "M09", (N, "	field := getField(e.path, root)\n", "	field := e.cache.get(e.path, root)\n"), (N, "type exprNode struct {\n", "type fieldCache struct {\n	mu    sync.Mutex\n	root  *byte\n	field *field\n}\n\nfunc (c *fieldCache) get(path []string, root []byte) *field {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	if len(root) > 0 && c.root == &root[0] {\n		return c.field\n	}\n	c.field = getField(path, root)\n	if len(root) > 0 {\n		c.root = &root[0]\n	}\n	return c.field\n}\n\ntype exprNode struct {\n	cache     *fieldCache\n"), (N, "package jsonmatcher\n", "package jsonmatcher\n\nimport \"sync\"\n"), (B, "			path: n.Field,\n", "			path:  n.Field,\n			cache: &fieldCache{},\n"))
bug("b-tr-statsname", "M11", (B, "				nodeName: n.FriendlyString(),\n", "				nodeName: n.FriendlyString(),\n			}\n			if len(b.names) > 0 && b.names[node.nodeStats.nodeName] != nil {\n				node.nodeStats = b.names[node.nodeStats.nodeName]\n			} else if b.names != nil {\n				b.names[node.nodeStats.nodeName] = node.nodeStats\n"), (B, "	withStats bool\n	// track", "	withStats bool\n	names     map[string]*nodeStats\n	// track"), (B, "		withStats: withStats,\n", "		withStats: withStats,\n		names:     map[string]*nodeStats{},\n"))
bug("b-tr-kids", "M11", (NS, "			sn.Children = append(sn.Children, c.stats())\n", "			if cs := c.stats(); cs.TimesChecked > 0 || len(cs.Children) == 0 {\n				sn.Children = append(sn.Children, cs)\n			}\n"))
bug("b-tr-clamp", "M11", (NS, "	matched := ns.timesMatched.Load()\n	sn := &MatchStats{\n		NodeName:     ns.nodeName,\n		TimesChecked: ns.timesChecked.Load(),\n", "	checked := ns.timesChecked.Load()\n	matched := ns.timesMatched.Load()\n	sn := &MatchStats{\n		NodeName:     ns.nodeName,\n		TimesChecked: checked,\n"))
bug("b-tr-dot", "M12", (S, "buf.WriteString(`.*?`)", "buf.WriteString(`[^,]*?`)"))
bug("b-tr-q1", "M12", (S, "buf.WriteString(`.`)", "buf.WriteString(`\\S`)"))
bug("b-tr-lower", "M12", (S, "	buf.WriteString(`(?i)`)\n", "	if strings.ToLower(wcString) != strings.ToUpper(wcString) {\n		buf.WriteString(`(?i)`)\n	}\n	if len(wcRunes) > 64 {\n		wcRunes = wcRunes[:64]\n	}\n"))
bug("b-tr-space", "M12", (S, "		pat: search.New(language.Und, search.Loose).CompileString(str),\n", "		pat: search.New(language.Und, search.Loose).CompileString(strings.TrimSpace(str)),\n"))
# parser
bug("b-tr-arity", "P01", (VA, "	case ast.EQ, ast.SIM:\n		min, max = 1, inf\n", "	case ast.EQ, ast.SIM:\n		min, max = 1, 255\n"))
bug("b-tr-dup-kind", "P01", (VA, "		seen[rv.String()] = struct{}{}\n", "		if rv.Type() != ast.TypeRegex || e.Op != ast.SIM {\n			seen[rv.String()] = struct{}{}\n		}\n"))
bug("b-tr-dup-net", "P01", (VA, "		sv := rv.String()\n", "		sv := rv.String()\n		if nv, ok := rv.(*ast.NetVal); ok {\n			sv = nv.Value().Masked().String()\n		}\n"))
bug("b-tr-bool-sim", "P01", (VA, "		if e.Op == ast.EQ && (sv", "		if e.Op == ast.EQ && len(e.RVals) == 2 && (sv"))
bug("b-tr-bet-eq", "P01", (VA, "	if r <= l {\n", "	if r <= l && !(l == 0 && r == 0) {\n"))
bug("b-tr-skip-sub", "P05", (V, "	case *ast.NotNode:\n		return walkr(v, n.Expr)\n", "	case *ast.NotNode:\n		if inner, ok := n.Expr.(*ast.NotNode); ok {\n			return walkr(v, inner.Expr)\n		}\n		return walkr(v, n.Expr)\n"))
bug("b-tr-skipall-left", "P05", (V, "	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip {\n", "	case *ast.OrNode:\n		err = walkr(v, n.Left)\n		if err != nil && err != Skip && err != SkipAll {\n"))
bug("b-tr-validate-once", "P03", (P, "	for _, v := range opts.visitors {\n		err := walk(v, root)\n", "	if _, ok := root.(*ast.ExprNode); ok && len(opts.visitors) > 2 {\n		opts.visitors = opts.visitors[:2]\n	}\n	for _, v := range opts.visitors {\n		err := walk(v, root)\n"))
bug("b-tr-wrapped", "P03", (P, "			if perr, ok := err.(*ParseError); ok {\n				return nil, perr\n			}\n", "			if perr, ok := err.(*ParseError); ok {\n				return root, perr\n			}\n"))
bug("b-tr-optorder", "P03", (P, "		p.visitors = append(p.visitors, visitors...)\n", "		p.visitors = append(visitors[:len(visitors):len(visitors)], p.visitors...)\n"))
bug("b-tr-mv-value", "P04", (P, "			if mv.tape.firstErr != nil {\n", "			if n := len(mv.tape.messages); n > 0 && mv.tape.messages[n-1].Type == MsgError && mv.tape.firstErr != nil {\n"))
bug("b-tr-format", "P04", (V, "	mt.addMsg(MsgError, node.Pos(), msg, v...)\n", "	mt.addMsg(MsgError, node.Pos(), fmt.Sprintf(msg, v...))\n"))
bug("b-tr-hintfmt", "P04", (V, "	mt.addMsg(MsgHint, ast.NoPosition(), msg, v...)\n", "	mt.addMsg(MsgHint, ast.NoPosition(), msg, v)\n"))
bug("b-tr-int-ws", "P07", (A, "	iv, err := strconv.ParseInt(sv, 10, 64)\n", "	iv, err := strconv.ParseInt(sv, 0, 64)\n"))
bug("b-tr-re-posix", "P07", (A, "strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`)", "strings.Trim(sv, `/`)"))
bug("b-tr-time-utc", "P07", (A, "		tv, err = time.Parse(time.RFC3339, sv)\n", "		tv, err = time.Parse(time.RFC3339, sv)\n		tv = tv.Truncate(time.Millisecond)\n"))
bug("b-tr-time-len", "P07", (A, "	if len(sv) == 10 {\n", "	if len(sv) == 10 || strings.HasSuffix(sv, \"T00:00:00Z\") {\n		sv = sv[:10]\n"))
bug("b-tr-net-mask", "P07", (A, "	nv, err := netip.ParsePrefix(sv)\n", "	nv, err := netip.ParsePrefix(sv)\n	if nv.Bits() == 0 {\n		nv = netip.PrefixFrom(nv.Addr(), 32)\n	}\n"))
bug("b-tr-print-bool", "P08", (A, "	sb.WriteString(fmt.Sprintf(\"(%s %s\", e.Op, FieldString(e.Field)))\n", "	op := e.Op\n	if op == LTE && len(e.RVals) == 1 && e.RVals[0].Type() == TypeTime {\n		op = LT\n	}\n	sb.WriteString(fmt.Sprintf(\"(%s %s\", op, FieldString(e.Field)))\n"))
bug("b-tr-field-quote", "P08", (A, "		if i < len(pathparts)-1 {\n			sb.WriteString(`.`)\n		}\n	}\n	return sb.String()\n}", "		if i < len(pathparts)-1 && p != \"\" {\n			sb.WriteString(`.`)\n		}\n	}\n	return sb.String()\n}"))
bug("b-tr-adv-once", "P09", (Q, "		for _, v := range n.RVals {\n			switch rv", "		warned := false\n		for _, v := range n.RVals {\n			if _, ok := v.(*ast.StringVal); ok && n.Op == ast.SIM {\n				if warned {\n					continue\n				}\n				warned = true\n			}\n			switch rv"))
bug("b-tr-adv-pos", "P09", (Q, "					tape.WarningAt(rv.Pos(), `exact", "					tape.WarningWith(n, `exact"))
bug("b-tr-msg-type", "P10", (MS, "	return fmt.Sprintf(\"%s [%d:%d(%d)]: %s\", typeStr(p.Type), p.Position.Line, p.Position.Col, p.Position.Offset, p.Msg)\n", "	return fmt.Sprintf(\"%s [%d:%d(%d)]: \"+p.Msg, typeStr(p.Type), p.Position.Line, p.Position.Col, p.Position.Offset)\n"))
# sampler
bug("b-tr-smp-arr", "S01", (K, "			aerr = s.sample(value, path, depth, dataType, found)\n", "			if dataType != jsonparser.Object && len(found) > 0 {\n				if _, ok := found[path.String()]; ok {\n					return\n				}\n			}\n			if dataType == jsonparser.Null {\n				return\n			}\n			aerr = s.sample(value, path, depth, dataType, found)\n"))
bug("b-tr-smp-dot", "S01", (K, "		found[path.String()[1:]] = struct{}{}\n", "		found[string(bytes.TrimLeft(path.Bytes(), \".\"))] = struct{}{}\n"))
bug("b-tr-smp-quote", "S01", (K, "			if bytes.ContainsAny(key, ` .\"`) {\n", "			if bytes.Contains(key, []byte(` `)) || bytes.Contains(key, []byte(`.`)) {\n"))
bug("b-tr-smp-first", "S03", (K, "		s.keys[key]++\n	}\n	s.totalDocs++\n", "		s.keys[key]++\n	}\n	if len(found) > 0 {\n		s.totalDocs++\n	}\n"))
bug("b-tr-smp-round", "S03", (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n", "		if float32(count)/float32(s.totalDocs) >= float32(pct) {\n"))
bug("b-tr-smp-reset", "S03", (K, "	for k := range s.keys {\n		delete(s.keys, k)\n	}\n", "	for k := range s.keys {\n		s.keys[k] = 0\n	}\n"))
# messages
bug("b-tr-fmt-hl", "F02", (F, "	return max(m.pos.Offset, min(m.pos.Offset+m.pos.Len, m.ro))\n", "	return max(m.pos.Offset, min(m.pos.Offset+len(string(m.query[m.pos.Offset:min(m.pos.Offset+m.pos.Len, len(m.query))])), m.ro))\n"))
bug("b-tr-fmt-warn", "F03", (F, "	case *parser.ParserMessage:\n		switch v.Type {\n", "	case *parser.ParserMessage:\n		if !pData.HasHL && v.Type == parser.MsgHint {\n			break\n		}\n		switch v.Type {\n"))
bug("b-tr-fmt-html", "F03", (F, "		HasHL:   m.Pos() != ast.NoPosition(),\n", "		HasHL:   m.Pos().Len > 0,\n"))
bug("b-tr-exprcache", "P02", (B, "	withStats bool\n	// track", "	withStats bool\n	exprs     map[string][]fieldExpr\n	// track"), (B, "		withStats: withStats,\n", "		withStats: withStats,\n		exprs:     map[string][]fieldExpr{},\n"), (B, "		// would assign expected types here\n", "		key := string(n.Op) + ast.FieldString(n.Field)\n		if x, ok := b.exprs[key]; ok && len(n.RVals) > 0 {\n			node.exprs = x\n			return node\n		}\n		defer func() { b.exprs[key] = node.exprs }()\n		// would assign expected types here\n"))
bug("b-tr-lastpath", "P02", (B, "	withStats bool\n	// track", "	withStats bool\n	last      []string\n	// track"), (B, "		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: n.FriendlyString(),\n", "		if len(b.last) == len(n.Field) && b.last[len(b.last)-1] == n.Field[len(n.Field)-1] {\n			node.path = b.last\n		}\n		b.last = node.path\n		if b.withStats {\n			node.nodeStats = &nodeStats{\n				nodeName: n.FriendlyString(),\n"))
bug("b-tr-negate", "M01 P02", (B, "	withStats bool\n	// track", "	withStats bool\n	negated   bool\n	// track"), (B, "		node := &notNode{\n			sub: b.build(n.Expr),\n		}\n", "		if b.negated {\n			return b.build(n.Expr)\n		}\n		b.negated = true\n		node := &notNode{\n			sub: b.build(n.Expr),\n		}\n		b.negated = false\n"))
