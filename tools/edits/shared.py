EDITS = []
def bug(name, props, *edits): EDITS.append((name, "bug", props.split(), list(edits)))
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))

A = "parser/ast/ast.go"
P = "parser/parser.go"
V = "parser/visitors.go"
VA = "parser/validators.go"
S = "jsonmatcher/str_matchers.go"
J = "jsonmatcher/json_values.go"
E = "jsonmatcher/expr_eq.go"
B = "jsonmatcher/build_matcher.go"
F = "parser/fmtmsg/formatter.go"
T = "parser/fmtmsg/truncate.go"
K = "sampler/sampler.go"
G = "aqlgraph/graph.go"
W = "wasm/aqlparse/main.go"

# state shared between calls
bug("b-sh-visitors", "I01", (P, "	opts := &ParserOpts{\n		visitors: []Visitor{\n			VisitorFunc(opValidator),\n		},\n	}\n", "	opts := &ParserOpts{\n		visitors: baseVisitors,\n	}\n"),
    (P, "func ParseQueryReader(", "var baseVisitors = append(make([]Visitor, 0, 4), VisitorFunc(opValidator))\n\nfunc ParseQueryReader("))
bug("b-sh-regexp-cache", "I01", (S, "	return regexp.MustCompile(buf.String())\n}", "	key := buf.String()\n	if re, ok := compiled[key]; ok {\n		return re\n	}\n	re := regexp.MustCompile(key)\n	compiled[key] = re\n	return re\n}\n\nvar compiled = map[string]*regexp.Regexp{}"))
bug("b-sh-seen", "I01", (VA, "	seen := map[string]struct{}{}\n", "	for k := range seen {\n		delete(seen, k)\n	}\n"), (VA, "func checkBetween(", "var seen = map[string]struct{}{}\n\nfunc checkBetween("))
bug("b-sh-accum", "I01", (S, "	var accum bytes.Buffer\n", "	accum.Reset()\n"), (S, "type unicodeMatcher struct {", "var accum bytes.Buffer\n\ntype unicodeMatcher struct {"))
bug("b-sh-builder", "I01", (A, "	var sb strings.Builder\n	for i, p := range", "	sb := &fieldText\n	sb.Reset()\n	for i, p := range"), (A, "func FieldString(", "var fieldText strings.Builder\n\nfunc FieldString("))
bug("b-sh-matcher", "I01", (S, "		pat: search.New(language.Und, search.Loose).CompileString(str),\n", "		pat: loose().CompileString(str),\n"),
    (S, "func (u *unicodeMatcher) matches(", "var looseMatcher *search.Matcher\n\nfunc loose() *search.Matcher {\n	if looseMatcher == nil {\n		looseMatcher = search.New(language.Und, search.Loose)\n	}\n	return looseMatcher\n}\n\nfunc (u *unicodeMatcher) matches("))
bug("b-sh-nopos", "I01", (P, "	return &ParseError{\n		Position: ast.NoPosition(),\n		Msg:      message,\n	}\n", "	generic.Msg = message\n	return generic\n"), (P, "type ParserOpts struct", "var generic = &ParseError{Position: ast.NoPosition()}\n\ntype ParserOpts struct"))
bug("b-sh-namer", "I01", (G, "	name := strconv.Itoa(n.id)\n	n.id++\n", "	name := strconv.Itoa(lastID)\n	lastID++\n"), (G, "type namer struct {", "var lastID int\n\ntype namer struct {"))
bug("b-sh-path", "I01", (K, "	path := &bytes.Buffer{} // todo: share\n", "	path := pathBuf\n	path.Reset()\n"), (K, "func (s *Sampler) Sample(", "var pathBuf = &bytes.Buffer{}\n\nfunc (s *Sampler) Sample("))
bug("b-sh-funcs", "I01", (F, "	funcMap := template.FuncMap{\n		\"pad\":     pad,\n		\"repeat\":  strings.Repeat,\n		\"toupper\": strings.ToUpper,\n	}\n", "	if html {\n		funcMap[\"repeat\"] = strings.Repeat\n	}\n"), (F, "// NewFormatter creates", "var funcMap = template.FuncMap{\n	\"pad\":     pad,\n	\"repeat\":  strings.Repeat,\n	\"toupper\": strings.ToUpper,\n}\n\n// NewFormatter creates"))
bug("b-sh-ptr", "I01", (V, "	return &MessageVisitor{\n		f:    f,\n		tape: &MessageTape{},\n	}\n", "	return &MessageVisitor{\n		f:    f,\n		tape: &lastTape,\n	}\n"), (V, "// MessageTape is a message appended", "var lastTape MessageTape\n\n// MessageTape is a message appended"))
bug("b-sh-tmpl", "I01", ("aqlgraph/graph.go", "labelTmpl.Execute(&lb, hn)", "labelTmpl.Option(\"missingkey=zero\").Execute(&lb, hn)"))
bug("b-sh-struct", "I01", (S, "func isASCII(s string) bool {\n", "var lastASCII struct {\n	s  string\n	ok bool\n}\n\nfunc isASCII(s string) bool {\n	if lastASCII.s == s && s != \"\" {\n		return lastASCII.ok\n	}\n	ok := onlyASCII(s)\n	lastASCII.s, lastASCII.ok = s, ok\n	return ok\n}\n\nfunc onlyASCII(s string) bool {\n"))
bug("b-sh-method", "I01", (S, "	wcRunes := []rune(wcString)\n", "	wcRunes := scratch.runes(wcString)\n"), (S, "type unicodeMatcher struct {", "type runeBuf struct {\n	buf []rune\n}\n\nfunc (r *runeBuf) runes(s string) []rune {\n	r.buf = r.buf[:0]\n	for _, c := range s {\n		r.buf = append(r.buf, c)\n	}\n	return r.buf\n}\n\nvar scratch = &runeBuf{}\n\ntype unicodeMatcher struct {"))
bug("b-sh-alias", "I01", (VA, "		for _, check := range []exprCheck{\n			checkValues,\n			checkArity,\n			checkRVals,\n			checkBetween,\n		} {\n", "		todo := allChecks\n		if n.Op != ast.BET {\n			todo[3] = func(*ast.ExprNode) *ParseError { return nil }\n		} else {\n			todo[3] = checkBetween\n		}\n		for _, check := range todo {\n"), (VA, "func checkValues(", "var allChecks = []exprCheck{checkValues, checkArity, checkRVals, checkBetween}\n\nfunc checkValues("))
bug("b-sh-now", "I01", (J, "	t, err := dateparse.ParseAny(sv)\n", "	t, err := dateparse.ParseAny(sv)\n	if err == nil && t.Year() == 0 {\n		t = t.AddDate(time.Now().Year(), 0, 0)\n	}\n"))
bug("b-sh-local", "I01", (J, "dateparse.ParseAny(sv)", "dateparse.ParseLocal(sv)"))
bug("b-sh-in-local", "I01", (J, "dateparse.ParseAny(sv)", "dateparse.ParseIn(sv, time.Local)"))
bug("b-sh-env", "I01", (P, '	"io"\n', '	"io"\n	"os"\n'), (P, "grammar.Debug(opts.debug)", "grammar.Debug(opts.debug || os.Getenv(\"AQL_DEBUG\") != \"\")"))
bug("b-sh-debug", "I01", (P, "	v, err := grammar.ParseReader(", "	debugging = debugging || opts.debug\n	opts.debug = debugging\n	v, err := grammar.ParseReader("), (P, "type ParserOpts struct", "var debugging bool\n\ntype ParserOpts struct"))

# what is only read
bug("b-ro-string-cache", "I02", (A, "	RVals    []Val\n	Position Pos\n}", "	RVals    []Val\n	Position Pos\n	text     string\n}"), (A, "func (e *ExprNode) String() string {\n", "func (e *ExprNode) String() string {\n	if e.text == \"\" {\n		e.text = e.format()\n	}\n	return e.text\n}\n\nfunc (e *ExprNode) format() string {\n"))
bug("b-ro-quote", "I02", (A, "		qsv: strconv.Quote(sv),\n", ""), (A, "	return s.qsv\n", "	if s.qsv == \"\" {\n		s.qsv = strconv.Quote(s.sv)\n	}\n	return s.qsv\n"))
bug("b-ro-field", "I02", (A, "	var sb strings.Builder\n	for i, p := range pathparts {\n		if strings.ContainsAny(p, ` .\"`) {\n			sb.WriteString(strconv.Quote(p))\n		} else {\n			sb.WriteString(p)\n		}\n		if i < len(pathparts)-1 {\n			sb.WriteString(`.`)\n		}\n	}\n	return sb.String()\n", "	for i, p := range pathparts {\n		if strings.ContainsAny(p, ` .\"`) {\n			pathparts[i] = strconv.Quote(p)\n		}\n	}\n	return strings.Join(pathparts, \".\")\n"))
bug("b-ro-sort", "I02", (E, "	matchers := make(", "	sort.SliceStable(RVals, func(i, j int) bool { return RVals[i].Type() < RVals[j].Type() })\n	matchers := make("), (E, '	"fmt"\n', '	"fmt"\n	"sort"\n'))
bug("b-ro-swap", "I02", (B, "	case *ast.OrNode:\n", "	case *ast.OrNode:\n		if _, ok := n.Left.(*ast.ExprNode); !ok {\n			n.Left, n.Right = n.Right, n.Left\n		}\n"))
bug("b-ro-longest", "I02", (E, "			matchers = append(matchers, &exprRegexp{\n				value: rval.Value(),\n			})\n", "			re := rval.Value()\n			re.Longest()\n			matchers = append(matchers, &exprRegexp{\n				value: re,\n			})\n"))
bug("b-ro-trunc", "I02", (T, "	lo, ro := findCenterSubstring(", "	for i, r := range pd.query {\n		if r == '\\n' || r == '\\t' {\n			pd.query[i] = ' '\n		}\n	}\n	lo, ro := findCenterSubstring("))
bug("b-ro-append", "I02", (F, "	sb.WriteString(string(m.query[m.lo:m.ro]))\n	if m.ro < (len(m.query)) {\n		sb.WriteString(\"...\")\n	}\n	return sb.String()\n}\n\nfunc (m *printData) QueryPre()", "	shown := m.query[m.lo:m.ro]\n	if m.ro < (len(m.query)) {\n		shown = append(shown, '.', '.', '.')\n	}\n	sb.WriteString(string(shown))\n	return sb.String()\n}\n\nfunc (m *printData) QueryPre()"))
bug("b-ro-width", "I02", (F, "	if p.formatter.maxwidth > 0 {\n", "	if p.formatter.maxwidth > len(p.query) {\n		p.formatter.maxwidth = len(p.query)\n	}\n	if p.formatter.maxwidth > 0 {\n"))
bug("b-ro-keys", "I02", (K, "		if float64(count)/float64(s.totalDocs) >= pct {\n			out = append(out, key)\n		}\n", "		if float64(count)/float64(s.totalDocs) >= pct {\n			out = append(out, key)\n		} else if count == 0 {\n			delete(s.keys, key)\n		}\n"))
bug("b-ro-sample", "I02", (K, "	// prep initial sampling state\n", "	for i, b := range sample {\n		if b == '\\t' || b == '\\n' {\n			sample[i] = ' '\n		}\n	}\n	// prep initial sampling state\n"))
bug("b-ro-validate", "I02", (VA, "	lt, rt := e.RVals[0].(*ast.TimeVal), e.RVals[1].(*ast.TimeVal)\n		if lt.Value().After(rt.Value()) ||", "	lt, rt := e.RVals[0].(*ast.TimeVal), e.RVals[1].(*ast.TimeVal)\n		if lt.Value().After(rt.Value()) {\n			e.RVals[0], e.RVals[1] = rt, lt\n			lt, rt = rt, lt\n		}\n		if"))
bug("b-ro-dedupe", "I02", ("aqlgraph/graph.go", "		for _, rv := range a.RVals {\n", "		a.RVals = append(a.RVals[:0], a.RVals...)\n		for _, rv := range a.RVals {\n"))
bug("b-ro-doc", "I02", (J, "	data, dataType, _, err := jsonparser.Get(root)\n", "	if len(root) > 2 && root[0] == 0xEF {\n		root[0], root[1], root[2] = ' ', ' ', ' '\n	}\n	data, dataType, _, err := jsonparser.Get(root)\n"))

X = "I01 I02"
ref("r-sh-visitors", X + " P01 P05 P03", (P, "	opts := &ParserOpts{\n		visitors: []Visitor{\n			VisitorFunc(opValidator),\n		},\n	}\n", "	opts := &ParserOpts{\n		visitors: baseVisitors,\n	}\n"),
    (P, "func ParseQueryReader(", "var baseVisitors = []Visitor{VisitorFunc(opValidator)}\n\nfunc ParseQueryReader("))
ref("r-sh-visitors-copy", X + " P01 P05 P03", (P, "	opts := &ParserOpts{\n		visitors: []Visitor{\n			VisitorFunc(opValidator),\n		},\n	}\n", "	opts := &ParserOpts{\n		visitors: append([]Visitor{}, baseVisitors...),\n	}\n"),
    (P, "func ParseQueryReader(", "var baseVisitors = []Visitor{VisitorFunc(opValidator)}\n\nfunc ParseQueryReader("))
ref("r-sh-checks", X + " P01 P03", (VA, "		for _, check := range []exprCheck{\n			checkValues,\n			checkArity,\n			checkRVals,\n			checkBetween,\n		} {\n", "		for _, check := range allChecks {\n"), (VA, "func checkValues(", "var allChecks = []exprCheck{checkValues, checkArity, checkRVals, checkBetween}\n\nfunc checkValues("))
ref("r-sh-funcs", X + " F01 F03", (F, "	funcMap := template.FuncMap{\n		\"pad\":     pad,\n		\"repeat\":  strings.Repeat,\n		\"toupper\": strings.ToUpper,\n	}\n", ""), (F, "// NewFormatter creates", "var funcMap = template.FuncMap{\n	\"pad\":     pad,\n	\"repeat\":  strings.Repeat,\n	\"toupper\": strings.ToUpper,\n}\n\n// NewFormatter creates"))
ref("r-sh-names", X + " P10", ("parser/message.go", "	switch t {\n	case MsgHint:\n		return \"HINT\"\n	case MsgWarning:\n		return \"WARNING\"\n	case MsgError:\n		return \"ERROR\"\n	default:\n		return \"<INVALID TYPE>\"\n	}\n", "	if n, ok := typeNames[t]; ok {\n		return n\n	}\n	return \"<INVALID TYPE>\"\n"), ("parser/message.go", "func typeStr(", "var typeNames = map[MessageType]string{MsgHint: \"HINT\", MsgWarning: \"WARNING\", MsgError: \"ERROR\"}\n\nfunc typeStr("))
ref("r-sh-locked", X, (S, "	return regexp.MustCompile(buf.String())\n}", "	countMu.Lock()\n	count++\n	countMu.Unlock()\n	return regexp.MustCompile(buf.String())\n}\n\nvar (\n	countMu sync.Mutex\n	count   int\n)"), (S, '	"strings"\n', '	"strings"\n	"sync"\n'))
ref("r-ro-copy", X + " P08", (A, "	for i, p := range pathparts {\n		if strings.ContainsAny(p, ` .\"`) {\n			sb.WriteString(strconv.Quote(p))\n		} else {\n			sb.WriteString(p)\n		}\n		if i < len(pathparts)-1 {\n			sb.WriteString(`.`)\n		}\n	}\n	return sb.String()\n", "	quoted := append([]string(nil), pathparts...)\n	for i, p := range quoted {\n		if strings.ContainsAny(p, ` .\"`) {\n			quoted[i] = strconv.Quote(p)\n		}\n	}\n	sb.WriteString(strings.Join(quoted, \".\"))\n	return sb.String()\n"))
ref("r-ro-local", X + " P01", (VA, "	seen := map[string]struct{}{}\n	for i, rv := range e.RVals {", "	vals := e.RVals\n	seen := make(map[string]struct{}, len(vals))\n	for i, rv := range vals {"))
