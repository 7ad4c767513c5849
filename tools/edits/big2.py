# Rewrites of whole functions: printing, statistics, strings, graphs, pages, tools.
EDITS = []
def ref(name, props, *edits): EDITS.append((name, "ref", props.split(), list(edits)))
def fn(file, head):
    """The text of a function."""
    s = open("/repo/" + file).read()
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]
def rewrite(file, head, new): return (file, fn(file, head), new.lstrip("\n"))
AST = "parser/ast/ast.go"
FM = "parser/fmtmsg/formatter.go"
TR = "parser/fmtmsg/truncate.go"
FS = "jsonmatcher/field_stats.go"
SM = "jsonmatcher/str_matchers.go"
QM = "jsonmatcher/query_messages.go"
NET = "jsonmatcher/expr_net.go"
GR = "aqlgraph/graph.go"
WM = "wasm/aqlparse/main.go"
PP = "parser/parser.go"
CT = "cmd/aqltest/main.go"
MATCH = "M01 M02 M03 M04 M08 M09 M10 M11 M12 M13 P02 P09 I01 I02"
FMT = "F01 F02 F03 P10 I01 I02 C01"
TREE = "P01 P06 P07 P08 P09 M11 V01 V02 G04 I01 I02"

# texts are concatenated
ref("r-b2-fm-concat", FMT,
    rewrite(FM, "(m *printData) Query()", """
func (m *printData) Query() string {
	return m.before() + string(m.query[m.lo:m.ro]) + m.after()
}

func (m *printData) before() string {
	if m.lo > 0 {
		return "..."
	}
	return ""
}

func (m *printData) after() string {
	if m.ro < len(m.query) {
		return "..."
	}
	return ""
}
"""),
    rewrite(FM, "(m *printData) QueryPre()", """
func (m *printData) QueryPre() string {
	if m.HasHL {
		return m.before() + string(m.query[m.lo:m.pos.Offset])
	}
	return m.Query()
}
"""),
    rewrite(FM, "(m *printData) QueryPost()", """
func (m *printData) QueryPost() string {
	if m.HasHL {
		return string(m.query[m.hlEnd():m.ro]) + m.after()
	}
	return ""
}
"""))
# the kind of a message is determined by a function
ref("r-b2-fm-kind", FMT,
    rewrite(FM, "(p *Printer) getPrintData", """
func (p *Printer) getPrintData(m Message) *printData {
	at := m.Pos()
	pData := &printData{
		msgType: kindOf(m),
		query:   p.query,
		pos:     p.runePos(at),
		ro:      len(p.query),
		HasHL:   !at.IsZero(),
		Message: m.Message(),
	}
	truncate(pData, p.formatter.maxwidth)
	return pData
}

func kindOf(m Message) msgType {
	if _, ok := m.(*parser.ParseError); ok {
		return msgError
	}
	pm, ok := m.(*parser.ParserMessage)
	if !ok {
		return msgUnknown
	}
	return map[parser.MessageType]msgType{
		parser.MsgError:   msgError,
		parser.MsgWarning: msgWarning,
		parser.MsgHint:    msgInfo,
	}[pm.Type]
}
"""))
ref("r-b2-fm-sprint", FMT,
    rewrite(FM, "(p *Printer) Sprint", """
func (p *Printer) Sprint(message Message) string {
	sb := new(strings.Builder)
	p.Fprint(sb, message)
	return sb.String()
}
"""), (FM, '	"bytes"\n', ""))
ref("r-b2-fm-formatter", FMT,
    rewrite(FM, "NewFormatter(", """
func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
	t, err := compile(tmpl, html)
	if err != nil {
		return nil, fmt.Errorf("template err: %v", err)
	}
	f := &Formatter{tmpl: t}
	if maxWidth > 0 {
		f.maxwidth = maxWidth
	}
	return f, nil
}

func compile(tmpl string, html bool) (tmplExecutor, error) {
	funcs := map[string]any{
		"pad":     pad,
		"repeat":  strings.Repeat,
		"toupper": strings.ToUpper,
	}
	if !html {
		return ttemplate.New("message").Funcs(funcs).Parse(tmpl)
	}
	return template.New("message").Funcs(funcs).Parse(tmpl)
}
"""))
ref("r-b2-fm-runes", FMT,
    rewrite(FM, "(p *Printer) runePos", """
func (p *Printer) runePos(pos ast.Pos) ast.Pos {
	switch {
	case pos == ast.NoPosition():
	case pos.Offset <= 0:
		pos.Offset = 0
	case pos.Offset >= len(p.raw):
		pos.Offset = len(p.query)
	default:
		pos.Offset = utf8.RuneCountInString(p.raw[:pos.Offset])
	}
	return pos
}
"""))
# literals as texts that are joined
ref("r-b2-ast-join", TREE,
    rewrite(AST, "(e *ExprNode) String()", """
func (e *ExprNode) String() string {
	parts := []string{string(e.Op), FieldString(e.Field)}
	values := e.valueStrings()
	if len(values) == 1 {
		parts = append(parts, values[0])
	} else if len(values) > 1 {
		parts = append(parts, "["+strings.Join(values, ", ")+"]")
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (e *ExprNode) valueStrings() []string {
	out := make([]string, 0, len(e.RVals))
	for _, rv := range e.RVals {
		out = append(out, rv.String())
	}
	return out
}
"""),
    rewrite(AST, "(e *ExprNode) FriendlyString()", """
func (e *ExprNode) FriendlyString() string {
	out := FieldString(e.Field) + ":"
	if e.Op != EQ {
		out += string(e.Op)
	}
	out += " "
	values := e.valueStrings()
	if len(values) > 1 {
		return out + "(" + strings.Join(values, ",") + ")"
	}
	return out + strings.Join(values, "")
}
"""),
    rewrite(AST, "FieldString(", """
func FieldString(pathparts []string) string {
	shown := make([]string, len(pathparts))
	for i, p := range pathparts {
		shown[i] = p
		if strings.ContainsAny(p, ` ."`) {
			shown[i] = strconv.Quote(p)
		}
	}
	return strings.Join(shown, ".")
}
"""))
# separators are written before all but the first
ref("r-b2-ast-sep", TREE,
    rewrite(AST, "(e *ExprNode) String()", """
func (e *ExprNode) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s %s", e.Op, FieldString(e.Field))
	if len(e.RVals) > 0 {
		sb.WriteByte(' ')
		e.writeValues(&sb, "[", ", ", "]")
	}
	sb.WriteByte(')')
	return sb.String()
}

func (e *ExprNode) writeValues(sb *strings.Builder, open, sep, end string) {
	if len(e.RVals) == 1 {
		open, end = "", ""
	}
	sb.WriteString(open)
	for i, rv := range e.RVals {
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(rv.String())
	}
	sb.WriteString(end)
}
"""),
    rewrite(AST, "(e *ExprNode) FriendlyString()", """
func (e *ExprNode) FriendlyString() string {
	var sb strings.Builder
	sb.WriteString(FieldString(e.Field))
	sb.WriteByte(':')
	if e.Op != EQ {
		sb.WriteString(string(e.Op))
	}
	sb.WriteByte(' ')
	if len(e.RVals) > 0 {
		e.writeValues(&sb, "(", ",", ")")
	}
	return sb.String()
}
"""))
# a common part of all literals
def token(kind, var, field, typ):
    r = "%s *%s" % (var, kind)
    return [rewrite(AST, "(%s) String()" % r, ""), rewrite(AST, "(%s) Pos()" % r, "")]
ref("r-b2-ast-token", TREE + " M12",
    (AST, "type IntVal struct {\n	iv  int64\n	sv  string\n	pos Pos\n}\n", "// token is what all literals have in common\ntype token struct {\n	sv  string\n	pos Pos\n}\n\nfunc (t *token) String() string {\n	return t.sv\n}\n\nfunc (t *token) Pos() Pos {\n	return t.pos\n}\n\ntype IntVal struct {\n	token\n	iv int64\n}\n"),
    (AST, "		iv:  iv,\n		sv:  sv,\n		pos: pos,\n", "		token: token{sv, pos},\n		iv:    iv,\n"),
    (AST, "type FloatVal struct {\n	fv  float64\n	sv  string\n	pos Pos\n}\n", "type FloatVal struct {\n	token\n	fv float64\n}\n"),
    (AST, "		fv:  fv,\n		sv:  strconv.FormatFloat(fv, 'f', -1, 64),\n		pos: pos,\n", "		token: token{strconv.FormatFloat(fv, 'f', -1, 64), pos},\n		fv:    fv,\n"),
    (AST, "type StringVal struct {\n	sv  string\n	qsv string\n	pos Pos\n}\n", "type StringVal struct {\n	token\n	value string\n}\n"),
    (AST, "		sv:  sv,\n		qsv: strconv.Quote(sv),\n		pos: pos,\n", "		token: token{strconv.Quote(sv), pos},\n		value: sv,\n"),
    (AST, "func (s *StringVal) Value() string {\n	return s.sv\n", "func (s *StringVal) Value() string {\n	return s.value\n"),
    *[e for k, v in (("IntVal", "i"), ("FloatVal", "f"), ("StringVal", "s")) for e in token(k, v, "", "")])
ref("r-b2-ast-bool", TREE,
    rewrite(AST, "NewBoolVal(", """
func NewBoolVal(b []byte, pos Pos) (*BoolVal, error) {
	text := string(b)
	if bv, err := strconv.ParseBool(strings.ToLower(text)); err == nil {
		return &BoolVal{bv: bv, sv: strconv.FormatBool(bv), pos: pos}, nil
	}
	return nil, fmt.Errorf("invalid boolean value [%s]", text)
}
"""))
ref("r-b2-ast-time", TREE,
    rewrite(AST, "NewTimeVal(", """
func NewTimeVal(b []byte, pos Pos) (*TimeVal, error) {
	val := &TimeVal{sv: string(b), dayOnly: len(b) == len(`2006-01-02`), pos: pos}
	layout := time.RFC3339
	if val.dayOnly {
		layout = `2006-01-02`
	}
	var err error
	if val.tv, err = time.Parse(layout, val.sv); err != nil {
		message := err.Error()
		var tpe *time.ParseError
		if errors.As(err, &tpe) {
			message = strings.TrimPrefix(tpe.Message, ": ")
		}
		return nil, fmt.Errorf("invalid datetime value [%s]: %s", val.sv, message)
	}
	return val, nil
}
"""))
# marking a value by parts
ref("r-b2-fs-parts", "M13 I01 I02 M09",
    rewrite(FS, "(n *FieldStats) mark(", """
func (n *FieldStats) mark(foundValues []jsonValue, matchIdx int, inArray bool) {
	n.TimesSampled.Inc()
	for _, v := range foundValues {
		which := kindIndex(v.dataType)
		if inArray {
			which++
		}
		e := &n.TypesEnountered[which]
		e.TimesSeen.Inc()
		// every 1000 times this field type marked, extract an example field
		if which >= boolean || n.TimesSampled.Load()%fieldMarkWindow != 0 {
			continue
		}
		e.Examples.addExample(example(v))
	}
}

func kindIndex(t jsonparser.ValueType) int {
	switch t {
	case jsonparser.Number:
		return number
	case jsonparser.Boolean:
		return boolean
	case jsonparser.Array:
		return array
	case jsonparser.Object:
		return object
	case jsonparser.Null:
		return null
	}
	return str
}

func example(v jsonValue) string {
	switch v.dataType {
	case jsonparser.Object:
		return "<object with keys: " + strings.Join(keys(v.data), ",") + ">"
	case jsonparser.String:
		sv, err := jsonparser.ParseString(v.data)
		switch {
		case err != nil:
			return "invalid string"
		case sv == "":
			return "empty string"
		}
		return sv
	}
	return string(v.data)
}

func keys(object []byte) []string {
	var out []string
	jsonparser.ObjectEach(object, func(key []byte, _ []byte, _ jsonparser.ValueType, _ int) error {
		name, err := jsonparser.ParseString(key)
		if err != nil {
			name = "<invalid key>"
		}
		out = append(out, `"`+name+`"`)
		if len(out) == fieldMapMaxKeys {
			return stopIter
		}
		return nil
	})
	return out
}
"""))
ref("r-b2-fs-ring", "M13 I01 I02",
    rewrite(FS, "(el *ExampleList) addExample", """
func (el *ExampleList) addExample(example string) {
	el.mux.Lock()
	defer el.mux.Unlock()
	el.examples[el.eIdx] = example
	el.eIdx = (el.eIdx + 1) % len(el.examples)
}
"""),
    rewrite(FS, "(el *ExampleList) Get", """
func (el *ExampleList) Get() []string {
	el.mux.Lock()
	defer el.mux.Unlock()
	n := 0
	for n < len(el.examples) && el.examples[n] != "" {
		n++
	}
	return append(make([]string, 0, n), el.examples[:n]...)
}
"""))
ref("r-b2-fs-marshal", "M13 I01 I02",
    rewrite(FS, "(n *FieldStats) MarshalJson", """
func (n *FieldStats) MarshalJson() ([]byte, error) {
	encountered := map[string]any{}
	for i, name := range encounteredName {
		if e := &n.TypesEnountered[i]; e.TimesSeen.Load() > 0 {
			encountered[name] = map[string]any{
				"times_seen":    e.TimesSeen.Load(),
				"times_matched": e.TimesMatched.Load(),
				"examples":      e.Examples.Get(),
			}
		}
	}
	out := map[string]any{
		"expecting":  n.Expecting,
		"times_seen": n.TimesSampled.Load(),
	}
	if len(encountered) != 0 {
		out["encountered"] = encountered
	}
	return json.Marshal(out)
}
"""))
# each character is quoted by itself
ref("r-b2-str-direct", MATCH,
    rewrite(SM, "stringSearchRegexp(", """
func stringSearchRegexp(wcString string) *regexp.Regexp {
	edges := isASCII(wcString)
	var pattern strings.Builder
	pattern.WriteString(`(?i)`)
	if edges && boundaryBefore.MatchString(wcString) {
		pattern.WriteString(`\\b`)
	}
	runes := []rune(wcString)
	for i := 0; i < len(runes); i++ {
		r := runes[i]
		if r == '\\\\' && i+1 < len(runes) && isWildcard(runes[i+1]) {
			i++
			r = runes[i]
		} else if r == '?' {
			pattern.WriteString(`.`)
			continue
		} else if r == '*' {
			pattern.WriteString(`.*?`)
			continue
		}
		pattern.WriteString(regexp.QuoteMeta(string(r)))
	}
	if edges && boundaryAfter.MatchString(wcString) {
		pattern.WriteString(`\\b`)
	}
	return regexp.MustCompile(pattern.String())
}

func isWildcard(r rune) bool { return r == '?' || r == '*' }
"""), (SM, '	"bytes"\n', ""))
# the backslash is remembered
ref("r-b2-str-state", MATCH,
    rewrite(SM, "stringSearchRegexp(", """
func stringSearchRegexp(wcString string) *regexp.Regexp {
	var buf, literal bytes.Buffer
	buf.WriteString(`(?i)`)
	if isASCII(wcString) && boundaryBefore.MatchString(wcString) {
		buf.WriteString(`\\b`)
	}
	flush := func() {
		buf.WriteString(regexp.QuoteMeta(literal.String()))
		literal.Reset()
	}
	escaped := false
	for _, r := range []rune(wcString) {
		wildcard := r == '?' || r == '*'
		if escaped && !wildcard {
			literal.WriteRune('\\\\')
		}
		switch {
		case r == '\\\\':
		case wildcard && !escaped:
			flush()
			buf.WriteString(`.`)
			if r == '*' {
				buf.WriteString(`*?`)
			}
		default:
			literal.WriteRune(r)
		}
		escaped = r == '\\\\'
	}
	if escaped {
		literal.WriteRune('\\\\')
	}
	flush()
	if isASCII(wcString) && boundaryAfter.MatchString(wcString) {
		buf.WriteString(`\\b`)
	}
	return regexp.MustCompile(buf.String())
}
"""))
# a function per network
ref("r-b2-net-covers", MATCH,
    rewrite(NET, "(e *exprNet) matches", """
func (e *exprNet) matches(field *field) bool {
	for _, v := range field.scalarValues() {
		if sv, ok := getStringVal(v); ok {
			for _, found := range getNets.FindAllString(sv, -1) {
				if e.meets(found) {
					return true
				}
			}
		}
	}
	return false
}

// meets tells whether an address or network has addresses in common with the value
func (e *exprNet) meets(text string) bool {
	if !strings.Contains(text, `/`) {
		addr, err := netip.ParseAddr(text)
		return err == nil && e.value.Contains(addr)
	}
	block, err := netip.ParsePrefix(text)
	return err == nil && e.value.Overlaps(block)
}
"""))
# advice by kind of literal
s = fn(QM, "messageVisitor(")
a, b = s.index("				if n.Op == ast.SIM {\n					tape.WarningAt(rv.Pos(), \"Similarity comparison is no longer"), s.index("			case *ast.TimeVal:")
body = s[a:b]
import re
inner = re.sub(r"(?m)^\t\t\t", "", body).replace("v.String()", "rv.String()")
ref("r-b2-adv-kinds", MATCH,
    (QM, s, """func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
	n, ok := node.(*ast.ExprNode)
	if !ok {
		return nil
	}
	for _, v := range n.RVals {
		var err error
		switch rv := v.(type) {
		case *ast.StringVal:
			adviseString(n, rv, tape)
		case *ast.RegexpVal:
			err = adviseRegexp(n, rv, tape)
		case *ast.TimeVal:
			adviseTime(n, rv, tape)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func adviseString(n *ast.ExprNode, rv *ast.StringVal, tape *parser.MessageTape) {
	if n.Op != ast.SIM {
		return
	}
	tape.WarningAt(rv.Pos(), `Similarity comparison is deprecated for string values. Please use the normal comparison operator - field:"<string>"`)
}

func adviseTime(n *ast.ExprNode, rv *ast.TimeVal, tape *parser.MessageTape) {
	if n.Op != ast.EQ || rv.DayOnly() {
		return
	}
	tape.WarningAt(rv.Pos(), `exact matches on full datetime values match the time EXACTLY, consider using [:] and a short date (YYYY-MM-DD) to match the day or a numeric comparison`)
}

func adviseRegexp(n *ast.ExprNode, rv *ast.RegexpVal, tape *parser.MessageTape) error {
""" + inner + """	return nil
}
"""))
# operands as a list
ref("r-b2-gr-list", "V01 V02 I01 I02",
    (GR, "	var (\n		left  ast.Node\n		right ast.Node\n	)\n", "	var operands []ast.Node\n"),
    (GR, "		left = a.Expr\n", "		operands = append(operands, a.Expr)\n"),
    (GR, "		n.SetFillColor(colorAnd)\n		left = a.Left\n		right = a.Right\n", "		n.SetFillColor(colorAnd)\n		operands = []ast.Node{a.Left, a.Right}\n"),
    (GR, "		n.SetFillColor(colorOr)\n		left = a.Left\n		right = a.Right\n", "		n.SetFillColor(colorOr)\n		operands = []ast.Node{a.Left, a.Right}\n"),
    (GR, """	if left != nil {
		lNode := visitNodes(graph, left)
		ledge := graph.NewEdge(n, lNode)
		ledge.SetPenWidth(3)
	}
	if right != nil {
		lNode := visitNodes(graph, right)
		graph.NewEdge(n, lNode)
	}
""", """	for i, o := range operands {
		edge := graph.NewEdge(n, visitNodes(graph, o))
		if i == 0 {
			edge.SetPenWidth(3)
		}
	}
"""))
# connectives by a helper, values by a function
s = fn(GR, "visitNodes(")
a, b = s.index("			valColor := \"\"\n"), s.index("			hn.Values = append")
ref("r-b2-gr-style", "V01 V02 I01 I02",
    (GR, s, s[:a] + "			valType, valColor := valueStyle(rv)\n" + s[b:] + """
func valueStyle(v ast.Val) (name, color string) {
	switch v.(type) {
	case *ast.FloatVal:
		return "float", colorFloat
	case *ast.IntVal:
		return "integer", colorInt
	case *ast.StringVal:
		return "string", colorString
	case *ast.NetVal:
		return "network", colorNet
	case *ast.BoolVal:
		return "boolean", colorBool
	case *ast.RegexpVal:
		return "regexp", colorRegex
	case *ast.TimeVal:
		return "datetime", colorTime
	}
	return "", ""
}
"""))
# code units are counted
ref("r-b2-wasm-units", "W02 I01 I02",
    rewrite(WM, "located(", """
func located(message map[string]any, pos ast.Pos, input string) map[string]any {
	if pos.Offset < 0 {
		return message
	}
	before, rest := []rune(input[:pos.Offset]), []rune(input[pos.Offset:])
	n := pos.Len
	if n > len(rest) {
		n = len(rest)
	}
	start := units(before)
	message["start"], message["end"] = start, start+units(rest[:n])
	return message
}

func units(text []rune) int {
	return len(utf16.Encode(text))
}
"""))
ref("r-b2-wasm-answer", "W02 I01 I02",
    rewrite(WM, "pWrap(", """
func pWrap(this js.Value, args []js.Value) any {
	return answer(args[0].String())
}

func answer(input string) map[string]any {
	tree, found, err := parseAQL(input)
	messages := make([]any, 0, len(found)+1)
	if err != nil {
		messages = append(messages, errConvert(err, input))
	}
	for i := range found {
		messages = append(messages, msgConvert(found[i], input))
	}
	return map[string]any{
		"ast":      tree,
		"messages": messages,
	}
}
"""))
# parsing in two parts
s = fn(PP, "ParseQueryReader(")
ref("r-b2-parse-parts", "P01 P03 P04 P05 P06 P09 G01 W02 I01 I02 M08",
    (PP, s, """func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
	opts := &ParserOpts{visitors: []Visitor{VisitorFunc(opValidator)}}
	for _, apply := range options {
		apply(opts)
	}
	root, err := parseTree(r, opts.debug)
	if err != nil {
		return nil, err
	}
	for _, v := range opts.visitors {
		if perr := visit(v, root); perr != nil {
			return nil, perr
		}
	}
	return root, nil
}

func parseTree(r io.Reader, debug bool) (ast.Node, error) {
	// without memoization, parsing is exponential in the nesting of the query
	v, err := grammar.ParseReader("", r, grammar.Debug(debug), grammar.Memoize(true))
	if err != nil {
		return nil, grammar.GetParseError(err)
	}
	if v == nil {
		return nil, genericParseError("parser returned nil output")
	}
	root, ok := v.(ast.Node)
	if !ok {
		return nil, genericParseError(fmt.Sprintf("parser returned unknown type: %T", v))
	}
	return root, nil
}

// visit lets a visitor see a tree and returns its error, if any
func visit(v Visitor, root ast.Node) *ParseError {
	if err := walk(v, root); err != nil {
		if perr, ok := err.(*ParseError); ok {
			return perr
		}
		return genericParseError("validation failure: " + err.Error())
	}
	if mv, ok := v.(*MessageVisitor); ok && mv.tape.firstErr != nil {
		return mv.tape.firstErr.assErr()
	}
	return nil
}
"""))
# the tool's work is done by a function with an error
ref("r-b2-cmd-run", "C01",
    rewrite(CT, "main(", """
func main() {
	log.SetFlags(0)
	if len(os.Args) != 3 {
		log.Fatal("Usage: aql 'EXPR' <json file>")
	}
	if err := run(os.Args[1], os.Args[2]); err != nil {
		log.Fatal(err)
	}
}

func run(query, file string) error {
	if strings.HasSuffix(query, ".aql") {
		qb, err := os.ReadFile(query)
		if err != nil {
			return err
		}
		query = string(qb)
	}
	printer := fmtmsg.NewTerminalFormatter(-1).WithQuery(query)
	m, err := jsonmatcher.NewMatcher(query)
	var parseErr *parser.ParseError
	if errors.As(err, &parseErr) {
		return errors.New(printer.Sprint(parseErr))
	}
	if err != nil {
		return err
	}
	input, err := os.ReadFile(file)
	if err != nil {
		return fmt.Errorf("could not open file: %v", err)
	}
	for _, msg := range m.Messages() {
		log.Println(printer.Sprint(msg))
	}
	result, err := m.Match(input)
	if err != nil {
		return err
	}
	fmt.Println(result)
	return printStats(m.Stats())
}

func printStats(stats *jsonmatcher.MatchStats) error {
	if stats == nil {
		return nil
	}
	text, err := json.MarshalIndent(stats, "", "  ")
	if err != nil {
		return fmt.Errorf("error marshalling stats: %s", err)
	}
	fmt.Println(string(text))
	return nil
}
"""))
